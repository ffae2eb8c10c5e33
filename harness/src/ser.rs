// CycleMap through serde: a recording Serializer (sees the announced length) and serde_json.
use crate::common::*;
use cycle_map::CycleMap;
use serde::ser::{Impossible, Serialize, SerializeSeq, Serializer};
use serde::Deserialize;
type M = CycleMap<LK, RK, Hb>;

#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
/// fails at element `fail`, if any
struct Rec {
    fail: Option<usize>,
}
struct Seq {
    hint: Option<usize>,
    el: Vec<serde_json::Value>,
    fail: Option<usize>,
}
impl SerializeSeq for Seq {
    type Ok = (Option<usize>, Vec<serde_json::Value>);
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        if self.fail == Some(self.el.len()) {
            return Err(E("full".into()));
        }
        self.el.push(serde_json::to_value(v).map_err(|e| E(e.to_string()))?);
        Ok(())
    }
    fn end(self) -> Result<Self::Ok, E> {
        Ok((self.hint, self.el))
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, E> { Err(E("not a sequence".into())) })* };
}
type Imp = Impossible<(Option<usize>, Vec<serde_json::Value>), E>;
impl Serializer for Rec {
    type Ok = (Option<usize>, Vec<serde_json::Value>);
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
    serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
    serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
    serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Self::Ok, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Self::Ok, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_seq(self, hint: Option<usize>) -> Result<Seq, E> {
        Ok(Seq { hint, el: vec![], fail: self.fail })
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> {
        Err(E("not a sequence".into()))
    }
}

fn content(m: &M) -> Vec<P> {
    sorted(m.iter().map(|(l, r)| (l.it(), r.it())).collect())
}

pub fn check(m: &M, md: &[P], cfg: &Cfg, o: &Op, out: &mut Out) {
    let pr: &[&'static str] = &["X04"];
    let want = sorted(md.to_vec());
    match m.serialize(Rec { fail: None }) {
        Err(e) => out.fail(pr, format!("serialize fails: {e}")),
        Ok((hint, el)) => {
            if hint != Some(md.len()) {
                out.fail(pr, format!("serializes as a sequence of announced length {hint:?}, the map has {}", md.len()));
            }
            let got: Result<Vec<P>, _> = el.into_iter().map(serde_json::from_value::<P>).collect();
            match got {
                Ok(g) if sorted(g.clone()) == want => (),
                g => out.fail(pr, format!("serializes {g:?}, the map holds {want:?}")),
            }
        }
    }
    if !md.is_empty() && m.serialize(Rec { fail: Some(o.b as usize % md.len()) }).is_ok() {
        out.fail(pr, "an element that fails to serialize is ignored".into());
    }
    DEFMODE.with(|d| d.set(cfg.hash2));
    let js = match serde_json::to_string(m) {
        Ok(j) => j,
        Err(e) => return out.fail(pr, format!("to_string: {e}")),
    };
    match serde_json::from_str::<M>(&js) {
        Err(e) => out.fail(pr, format!("deserialize({js}) fails: {e}")),
        Ok(x) => {
            if content(&x) != want || x.len() != md.len() || x != *m || *m != x {
                out.fail(pr, format!("deserialize({js}) holds {:?}", content(&x)));
            }
            for p in md {
                if x.get_right(&LQ(p.0 .0)).map(|r| r.it()) != Some(p.1) || x.get_left(&RQ(p.1 .0)).map(|l| l.it()) != Some(p.0) {
                    out.fail(pr, format!("the deserialized map does not find {p:?}"));
                }
            }
        }
    }
    // any sequence of pairs: as inserting them in order
    let mut g = Rng(o.s as u64 ^ 77);
    let items: Vec<P> = (0..o.a % 9).map(|j| ((g.below(cfg.nl as u64) as u32, j), (g.below(cfg.nr as u64) as u32, j))).collect();
    let mut w: Vec<P> = vec![];
    for p in &items {
        w.retain(|q| q.0 .0 != p.0 .0 && q.1 .0 != p.1 .0);
        w.push(*p);
    }
    let de = serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(items.iter().map(|p| Pair(*p)));
    match M::deserialize(de) {
        Ok(x) if content(&x) == sorted(w.clone()) && x.hasher().mode == cfg.hash2 => (),
        Ok(x) => out.fail(pr, format!("deserializing {items:?} gives {:?}", content(&x))),
        Err(e) => out.fail(pr, format!("deserializing {items:?} fails: {e}")),
    }
    // no size hint
    let de = serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(items.iter().filter(|_| true).map(|p| Pair(*p)));
    match M::deserialize(de) {
        Ok(x) if content(&x) == sorted(w) => (),
        Ok(x) => out.fail(pr, format!("deserializing {items:?} gives {:?}", content(&x))),
        Err(e) => out.fail(pr, format!("deserializing {items:?} fails: {e}")),
    }
    // a bad element fails the whole, wherever it stands
    let k = o.b as usize % (items.len() + 1);
    for bad in ["5", "[[1,2]]", "[[1,2],[3,4],[5,6]]", "null", "[[1,2],\"x\"]"] {
        let mut el: Vec<String> = items.iter().map(|p| serde_json::to_string(p).unwrap()).collect();
        el.insert(k, bad.to_string());
        let js = format!("[{}]", el.join(","));
        if let Ok(x) = serde_json::from_str::<M>(&js) {
            out.fail(pr, format!("deserializing {js} succeeds with {:?}", content(&x)));
        }
    }
    for js in ["5", "{}", "null", "[[[1,2],[3,4]]"] {
        if serde_json::from_str::<M>(js).is_ok() {
            out.fail(pr, format!("deserializing {js} succeeds"));
        }
    }
}
struct Pair(P);
impl<'de> serde::de::IntoDeserializer<'de, serde::de::value::Error> for Pair {
    type Deserializer = serde::de::value::SeqDeserializer<std::vec::IntoIter<KeyD>, serde::de::value::Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        serde::de::value::SeqDeserializer::new(vec![KeyD(self.0 .0), KeyD(self.0 .1)].into_iter())
    }
}
struct KeyD(It);
impl<'de> serde::de::IntoDeserializer<'de, serde::de::value::Error> for KeyD {
    type Deserializer = serde::de::value::SeqDeserializer<std::vec::IntoIter<u32>, serde::de::value::Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        serde::de::value::SeqDeserializer::new(vec![self.0 .0, self.0 .1].into_iter())
    }
}
