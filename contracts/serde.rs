// ---- serde, as far as serde.rs uses it (ASSUMED) --------------------------------------------------
// A document read as a sequence is a finite sequence of elements, each of which parses as T (Some) or not (None).
pub trait SeqAccess<'de>: Sized {
    type Error;
    spec fn rest<T>(&self) -> Seq<Option<T>>; // elements still to come
    fn size_hint(&self) -> Option<usize>;
    fn next_element<T>(&mut self) -> (r: Result<Option<T>, Self::Error>)
      ensures match r {
          Ok(None) => old(self).rest::<T>().len() == 0,
          Ok(Some(x)) => old(self).rest::<T>().len() > 0 && old(self).rest::<T>()[0] == Some(x) && final(self).rest::<T>() == old(self).rest::<T>().subrange(1, old(self).rest::<T>().len() as int),
          Err(_) => old(self).rest::<T>().len() > 0 && old(self).rest::<T>()[0] is None,
      };
}
pub trait Visitor<'de>: Sized {
    type Value;
    type Item;
    spec fn visit_pre(&self, items: Seq<Option<Self::Item>>) -> bool;
    spec fn visit_post(&self, items: Seq<Option<Self::Item>>, r: Option<Self::Value>) -> bool;
    fn visit_seq<M>(self, access: M) -> (r: Result<Self::Value, M::Error>) where M: SeqAccess<'de>
      requires self.visit_pre(access.rest::<Self::Item>()),
      ensures self.visit_post(access.rest::<Self::Item>(), match r { Ok(x) => Some(x), Err(_) => None });
}
pub trait Deserializer<'de>: Sized {
    type Error;
    // the document's elements, None when it is no sequence
    spec fn doc<T>(&self) -> Option<Seq<Option<T>>>;
    fn deserialize_seq<V>(self, v: V) -> (r: Result<V::Value, Self::Error>) where V: Visitor<'de>
      requires self.doc::<V::Item>() is Some ==> v.visit_pre(self.doc::<V::Item>().unwrap()),
      ensures match r {
          Ok(x) => self.doc::<V::Item>() is Some && v.visit_post(self.doc::<V::Item>().unwrap(), Some(x)),
          Err(_) => self.doc::<V::Item>() is None || v.visit_post(self.doc::<V::Item>().unwrap(), None),
      };
}
pub trait Deserialize<'de>: Sized {
    spec fn de_pre<D: Deserializer<'de>>(d: &D) -> bool;
    spec fn de_post<D: Deserializer<'de>>(d: &D, r: Option<Self>) -> bool;
    fn deserialize<D>(deserializer: D) -> (r: Result<Self, D::Error>) where D: Deserializer<'de>
      requires Self::de_pre(&deserializer),
      ensures Self::de_post(&deserializer, match r { Ok(x) => Some(x), Err(_) => None });
}
// the elements written so far, when all are of type T
pub uninterp spec fn wlog<Q, T>(s: Q) -> Seq<T>;
pub axiom fn blank_log<Q: SerializeSeq, T>() ensures forall|s: Q| s.blank() ==> #[trigger] wlog::<Q, T>(s) == Seq::<T>::empty();
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn declared(&self) -> Option<usize>;
    spec fn blank(&self) -> bool; // nothing written yet
    // o is the output of the finished sequence
    spec fn ended(self, o: Self::Ok) -> bool;
    fn serialize_element<T>(&mut self, x: &T) -> (r: Result<(), Self::Error>)
      ensures final(self).declared() == old(self).declared(), r is Ok ==> wlog::<Self, T>(*final(self)) == wlog::<Self, T>(*old(self)).push(*x);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
      ensures r is Ok ==> self.ended(r->Ok_0);
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
      ensures r is Ok ==> (r->Ok_0).declared() == len && (r->Ok_0).blank();
}
pub trait Serialize {
    spec fn ser_pre(&self) -> bool;
    spec fn ser_post<S: Serializer>(&self, o: S::Ok) -> bool;
    fn serialize<S>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) where S: Serializer
      requires self.ser_pre(),
      ensures r is Ok ==> self.ser_post::<S>(r->Ok_0);
}
// no element occurs twice
#[verifier::opaque]
pub open spec fn norep<X>(v: Seq<X>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
pub proof fn norep_push<X>()
    ensures forall|v: Seq<X>, x: X| norep(v) && !called(v, 0, x) ==> #[trigger] norep(v.push(x)), norep(Seq::<X>::empty()),
{
    reveal(norep);
    assert forall|v: Seq<X>, x: X| norep(v) && !called(v, 0, x) implies #[trigger] norep(v.push(x)) by {
        let u = v.push(x);
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] by {
            if j == v.len() && u[i] == x { reveal(called); assert(v[i] == x); }
        }
    }
}
// items: exactly the pairs of m, each once
pub open spec fn lists<'a, L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, items: Seq<(&'a L, &'a R)>) -> bool {
    &&& forall|a: L, b: R| #![trigger m.has(a, b)] #![trigger called(items, 0, (&a, &b))] m.has(a, b) <==> called(items, 0, (&a, &b))
    &&& norep(items) && items.len() == tlen(m.left_set@)
}
pub open spec fn somes<X>(v: Seq<X>) -> Seq<Option<X>> { Seq::new(v.len(), |i: int| Some(v[i])) }
pub open spec fn unsome<X>(v: Seq<Option<X>>) -> Seq<X> { Seq::new(v.len(), |i: int| v[i].unwrap()) }
// the map that reading the items gives: every item inserted in order, or a failure if one does not parse
pub open spec fn read_as<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(items: Seq<Option<(L, R)>>, r: Option<CycleMap<L, R, S>>) -> bool {
    match r {
        Some(m) => m.wf() && (forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Some) && forall|a: L, b: R| #[trigger] m.has(a, b) <==> from_has(unsome(items), items.len(), a, b),
        None => exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is None,
    }
}
// a pair's members are in no other pair of the map
pub proof fn has_uniq<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, a: L, b: R, c: L, d: R)
    requires m.wf(), m.has(a, b), m.has(c, d), a.cls() == c.cls() || b.cls() == d.cls(),
    ensures a == c, b == d,
{ }
// writing a map and reading the output back gives a map with the same pairs
pub proof fn round_trip<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, out: Seq<(&L, &R)>, back: CycleMap<L, R, S>, a: L, b: R)
    requires m.wf(), lists(m, out), read_as(somes(Seq::new(out.len(), |i: int| (*out[i].0, *out[i].1))), Some(back)),
    ensures back.has(a, b) <==> m.has(a, b),
{
    let v = Seq::new(out.len(), |i: int| (*out[i].0, *out[i].1));
    assert(unsome(somes(v)) =~= v);
    reveal(norep); reveal(called);
    assert forall|i: int| 0 <= i < v.len() implies m.has((#[trigger] v[i]).0, v[i].1) by { assert(out[i] == (&v[i].0, &v[i].1)); assert(called(out, 0, (&v[i].0, &v[i].1))); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i] != #[trigger] v[j] by { assert(out[i] != out[j]); }
    from_listing(m, v, v.len(), a, b);
    if m.has(a, b) { assert(called(out, 0, (&a, &b))); let i = choose|i: int| 0 <= i < out.len() && #[trigger] out[i] == (&a, &b); assert(v[i] == (a, b)); }
    assert(back.has(a, b) <==> from_has(unsome(somes(v)), somes(v).len(), a, b));
}
pub proof fn from_listing<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, v: Seq<(L, R)>, n: nat, a: L, b: R)
    requires m.wf(), n <= v.len(),
      forall|i: int| 0 <= i < v.len() ==> m.has((#[trigger] v[i]).0, v[i].1),
      forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j],
    ensures from_has(v, n, a, b) <==> exists|i: int| 0 <= i < n && #[trigger] v[i] == (a, b),
    decreases n,
{
    if n > 0 {
        from_listing(m, v, (n - 1) as nat, a, b);
        let x = v[n - 1];
        if exists|i: int| 0 <= i < n && #[trigger] v[i] == (a, b) {
            let i = choose|i: int| 0 <= i < n && #[trigger] v[i] == (a, b);
            if i < n - 1 { 
                assert(m.has(v[i].0, v[i].1) && m.has(x.0, x.1));
                if a.cls() == x.0.cls() || b.cls() == x.1.cls() { has_uniq(m, a, b, x.0, x.1); }
            }
        }
    }
}
