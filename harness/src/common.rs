// Key types, hashers, cases and failure records shared by the drivers.
use cycle_map::OptionalPair;
use std::borrow::Borrow;
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};

/// (class, tag): Eq and Hash see only the class; the tag tells stored items apart.
pub type It = (u32, u32);
pub type P = (It, It);
pub type OP = (Option<It>, Option<It>);

macro_rules! key {
    ($k:ident, $q:ident) => {
        #[derive(Clone, Debug)]
        pub struct $k {
            pub c: $q,
            pub t: u32,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $q(pub u32);
        impl $k {
            pub fn new(i: It) -> Self {
                $k { c: $q(i.0), t: i.1 }
            }
            pub fn it(&self) -> It {
                (self.c.0, self.t)
            }
        }
        impl PartialEq for $k {
            fn eq(&self, o: &$k) -> bool {
                self.c == o.c
            }
        }
        impl Eq for $k {}
        impl PartialEq<$k> for $q {
            fn eq(&self, o: &$k) -> bool {
                self.0 == o.c.0
            }
        }
        impl Hash for $k {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.c.hash(h)
            }
        }
        impl Hash for $q {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u32(self.0)
            }
        }
        impl Borrow<$q> for $k {
            fn borrow(&self) -> &$q {
                &self.c
            }
        }
        impl serde::Serialize for $k {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                (self.c.0, self.t).serialize(s)
            }
        }
        impl<'de> serde::Deserialize<'de> for $k {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let (c, t) = <(u32, u32)>::deserialize(d)?;
                Ok($k { c: $q(c), t })
            }
        }
    };
}
key!(LK, LQ);
key!(RK, RQ);

thread_local! { pub static DEFMODE: Cell<u8> = const { Cell::new(4) }; }

/// A family of lawful hashers, most of which collide.
#[derive(Clone, Debug)]
pub struct Hb {
    pub mode: u8,
}
pub const MODES: u8 = 9;
impl Default for Hb {
    fn default() -> Self {
        Hb { mode: DEFMODE.with(|d| d.get()) }
    }
}
pub struct Hs {
    mode: u8,
    v: u64,
}
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs { mode: self.mode, v: 0 }
    }
}
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        let v = self.v;
        match self.mode {
            0 => 0,
            1 => u64::MAX,
            2 => v % 2,
            3 => v,
            4 => v.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29) ^ v,
            5 => v << 57,
            6 => (v / 2).wrapping_mul(0x9e37_79b9_7f4a_7c15),
            7 => v % 3 + (1 << 63),
            _ => (v % 5).wrapping_mul(0xd6e8_feb8_6659_fd93),
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.v = self.v.wrapping_mul(257).wrapping_add(*x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.v = self.v.wrapping_mul(1 << 20).wrapping_add(x as u64);
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub k: usize,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub s: u32,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub nl: u32,
    pub nr: u32,
    pub hash: u8,
    pub hash2: u8,
    pub cap: usize,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub sys: &'static str,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub props: Vec<&'static str>,
    pub msg: String,
}
pub struct OpDef {
    pub name: &'static str,
    pub w: u32,
    pub props: &'static [&'static str],
}
#[derive(Default)]
pub struct Out {
    pub fails: Vec<Fail>,
}
impl Out {
    pub fn fail(&mut self, props: &[&'static str], msg: String) {
        self.fails.push(Fail { props: props.to_vec(), msg });
    }
}
pub fn plus(a: &[&'static str], b: &[&'static str]) -> Vec<&'static str> {
    let mut v = a.to_vec();
    for x in b {
        if !v.contains(x) {
            v.push(x);
        }
    }
    v
}

pub trait Sys {
    fn name() -> &'static str;
    fn ops() -> &'static [OpDef];
    fn new(cfg: &Cfg) -> Self;
    fn step(&mut self, i: usize, op: &Op, out: &mut Out);
    /// the abstract state, for messages
    fn show(&self) -> String;
}

/// Runs a short history on a clone; when the original passes the same history, a failure is the clone's (X05).
/// The original is used up only when the clone failed, that is, when the case ends here.
pub fn clone_probe<T: Sys>(i: usize, clone: &mut T, orig: &mut T, s: u32, out: &mut Out) {
    let mut g = Rng(s as u64 ^ 0x5151_0000);
    let defs = T::ops();
    let ops: Vec<Op> = (0..6 + g.below(8))
        .map(|j| {
            let k = loop {
                let k = if j % 2 == 0 { g.below(3) as usize } else { g.below(defs.len() as u64) as usize };
                if defs[k].name != "clone_to_side" {
                    break k;
                }
            };
            Op { k, a: g.below(1 << 20) as u32, b: g.below(1 << 20) as u32, c: g.below(1 << 20) as u32, s: g.below(1 << 16) as u32 }
        })
        .collect();
    let run = |t: &mut T| -> Option<(String, Vec<Fail>)> {
        for o in &ops {
            let mut l = Out::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.step(i + 1000 * (1 + o.s as usize % 1000), o, &mut l)));
            let d = &defs[o.k];
            if r.is_err() {
                l.fail(&plus(d.props, &["X06"]), format!("{} panicked", d.name));
            }
            if !l.fails.is_empty() {
                return Some((d.name.to_string(), l.fails));
            }
        }
        None
    };
    if let Some((name, fails)) = run(clone) {
        match run(orig) {
            Some((_, f)) => out.fails.extend(f),
            None => out.fail(&["X05"], format!("{name} on a clone goes wrong, on the original it does not: {}", fails[0].msg)),
        }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}
/// the closures given to retain/drain_filter: a fixed function of the classes
pub fn pick(s: u32, l: Option<u32>, r: Option<u32>) -> bool {
    match s % 6 {
        0 => true,
        1 => false,
        2 => l.is_some() && r.is_some(),
        _ => {
            let mut h = Rng(((s as u64) << 32) ^ ((l.map_or(0, |x| x + 1) as u64) << 10) ^ (r.map_or(0, |x| x + 1) as u64));
            h.next() & 1 == 0
        }
    }
}

pub fn op<L: Eq, R: Eq>(p: OptionalPair<L, R>, fl: impl Fn(L) -> It, fr: impl Fn(R) -> It) -> OP {
    match p {
        OptionalPair::Neither => (None, None),
        OptionalPair::SomeLeft(l) => (Some(fl(l)), None),
        OptionalPair::SomeRight(r) => (None, Some(fr(r))),
        OptionalPair::SomeBoth(l, r) => (Some(fl(l)), Some(fr(r))),
    }
}
pub fn lit(l: LK) -> It {
    l.it()
}
pub fn rit(r: RK) -> It {
    r.it()
}
pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
/// Walks an iterator, checking len/size_hint and clones at every point.
pub fn walk<I, T>(mut it: I, fused: bool, len: impl Fn(&I) -> usize) -> Result<Vec<T>, String>
where
    I: Iterator<Item = T> + Clone,
    T: PartialEq,
{
    let all: Vec<T> = it.clone().collect();
    let n = all.len();
    let mut k = 0;
    loop {
        if len(&it) != n - k {
            return Err(format!("len() is {} with {} items to come", len(&it), n - k));
        }
        if it.size_hint() != (n - k, Some(n - k)) {
            return Err(format!("size_hint() is {:?} with {} items to come", it.size_hint(), n - k));
        }
        if n < 12 || k % 7 == 3 {
            let rest: Vec<T> = it.clone().collect();
            if rest.len() != n - k || rest.iter().zip(&all[k..]).any(|(a, b)| a != b) {
                return Err(format!("a clone after {k} items does not continue with the remaining items"));
            }
            if it.clone().count() != n - k {
                return Err("count() differs".into());
            }
            if k + 1 < n {
                let mut c = it.clone();
                if c.nth(1).as_ref() != Some(&all[k + 1]) || c.count() != n - k - 2 {
                    return Err("nth(1) differs".into());
                }
            }
            let f: usize = it.clone().fold(0, |x, _| x + 1);
            if f != n - k || it.clone().last().as_ref() != all[k..].last() {
                return Err("fold/last differ".into());
            }
        }
        match it.next() {
            None => {
                if k != n {
                    return Err(format!("ended after {k} items, a clone yielded {n}"));
                }
                if fused && it.next().is_some() {
                    return Err("yields after None".into());
                }
                return Ok(all);
            }
            Some(x) => {
                if k >= n || x != all[k] {
                    return Err(format!("item {k} differs from a clone's"));
                }
                k += 1;
            }
        }
    }
}
