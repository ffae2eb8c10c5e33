// ---------------------------------------------------------------------------------------------
// Trusted shim: specifications of what the crate calls but does not define (hashbrown's RawTable,
// RawIter, RawDrain, Bucket, HashSet; std's Hash/Hasher/BuildHasher/Borrow/Default; user
// predicates; serde). Everything marked external_body here is ASSUMED, and is what the bounded
// conformance test (harness `conform`) exercises against the real libraries.
// ---------------------------------------------------------------------------------------------
pub mod tabm { use vstd::prelude::*;

// A table is a finite map slot -> (stored hash, element). Slots are abstract identities.
pub ghost struct Tab<T> { pub m: Map<int, (u64, T)> }
#[verifier::opaque]
pub open spec fn thas<T>(t: Tab<T>, s: int) -> bool { t.m.contains_key(s) }
#[verifier::opaque]
pub open spec fn th<T>(t: Tab<T>, s: int) -> u64 { t.m[s].0 }
#[verifier::opaque]
pub open spec fn tv<T>(t: Tab<T>, s: int) -> T { t.m[s].1 }
#[verifier::opaque]
pub open spec fn tput<T>(t: Tab<T>, s: int, h: u64, v: T) -> Tab<T> { Tab { m: t.m.insert(s, (h, v)) } }
#[verifier::opaque]
pub open spec fn tdel<T>(t: Tab<T>, s: int) -> Tab<T> { Tab { m: t.m.remove(s) } }
#[verifier::opaque]
pub open spec fn tempty<T>() -> Tab<T> { Tab { m: Map::empty() } }
#[verifier::opaque]
pub open spec fn tlen<T>(t: Tab<T>) -> nat { t.m.dom().len() }
pub open spec fn tsub<T>(l: Tab<T>, m: Tab<T>) -> bool {
    forall|s: int| #[trigger] thas(l, s) ==> thas(m, s) && th(l, s) == th(m, s) && tv(l, s) == tv(m, s)
}

pub broadcast proof fn tput1<T>(t: Tab<T>, s: int, h: u64, v: T, x: int)
  ensures #[trigger] thas(tput(t, s, h, v), x) == (x == s || thas(t, x)),
{ reveal(thas); reveal(tput); }
pub broadcast proof fn tput2<T>(t: Tab<T>, s: int, h: u64, v: T, x: int)
  ensures #![trigger tput(t, s, h, v), thas(t, x)]  thas(tput(t, s, h, v), x) == (x == s || thas(t, x)),
{ reveal(thas); reveal(tput); }
pub broadcast proof fn tput3<T>(t: Tab<T>, s: int, h: u64, v: T, x: int)
  ensures #[trigger] th(tput(t, s, h, v), x) == (if x == s { h } else { th(t, x) }),
{ reveal(th); reveal(tput); }
pub broadcast proof fn tput4<T>(t: Tab<T>, s: int, h: u64, v: T, x: int)
  ensures #[trigger] tv(tput(t, s, h, v), x) == (if x == s { v } else { tv(t, x) }),
{ reveal(tv); reveal(tput); }
pub broadcast proof fn tput5<T>(t: Tab<T>, s: int, h: u64, v: T)
  ensures thas(#[trigger] tput(t, s, h, v), s),
    tlen(tput(t, s, h, v)) == tlen(t) + (if thas(t, s) { 0nat } else { 1 }),
{ reveal(thas); reveal(tput); reveal(tlen);
  assert(t.m.insert(s, (h, v)).dom() =~= t.m.dom().insert(s)); }
pub broadcast proof fn tdel1<T>(t: Tab<T>, s: int, x: int)
  ensures #[trigger] thas(tdel(t, s), x) == (x != s && thas(t, x)),
{ reveal(thas); reveal(tdel); }
pub broadcast proof fn tdel2<T>(t: Tab<T>, s: int, x: int)
  ensures #![trigger tdel(t, s), thas(t, x)]  thas(tdel(t, s), x) == (x != s && thas(t, x)),
{ reveal(thas); reveal(tdel); }
pub broadcast proof fn tdel3<T>(t: Tab<T>, s: int, x: int)
  ensures x != s ==> #[trigger] th(tdel(t, s), x) == th(t, x),
{ reveal(th); reveal(tdel); }
pub broadcast proof fn tdel4<T>(t: Tab<T>, s: int, x: int)
  ensures x != s ==> #[trigger] tv(tdel(t, s), x) == tv(t, x),
{ reveal(tv); reveal(tdel); }
pub broadcast proof fn tdel5<T>(t: Tab<T>, s: int)
  ensures tlen(t) == tlen(#[trigger] tdel(t, s)) + (if thas(t, s) { 1nat } else { 0 }),
{ reveal(thas); reveal(tdel); reveal(tlen);
  assert(t.m.remove(s).dom() =~= t.m.dom().remove(s)); }
pub broadcast proof fn tempty1<T>(x: int)
  ensures !(#[trigger] thas(tempty::<T>(), x)),
{ reveal(thas); reveal(tempty); }
pub broadcast proof fn tempty2<T>()
  ensures #![trigger tempty::<T>()] tlen(tempty::<T>()) == 0,
{ reveal(tempty); reveal(tlen); }
pub broadcast proof fn tlen0<T>(t: Tab<T>, x: int)
  ensures #![trigger tlen(t), thas(t, x)] thas(t, x) ==> tlen(t) > 0,
{ reveal(thas); reveal(tlen);
  if t.m.contains_key(x) { assert(t.m.dom().contains(x)); vstd::set::lemma_set_contains_len(t.m.dom(), x); } }
pub proof fn tlen_zero<T>(t: Tab<T>)
  requires tlen(t) == 0
  ensures forall|x: int| !#[trigger] thas(t, x)
{ reveal(thas); reveal(tlen); assert(t.m.dom() =~= Set::empty()); }
// an injection between tables: sizes, and when the sizes agree it is onto
pub proof fn tinj<A, B>(l: Tab<A>, r: Tab<B>, f: spec_fn(int) -> int)
  requires forall|s: int| #[trigger] thas(l, s) ==> thas(r, f(s)),
    forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> f(s) != f(t),
  ensures tlen(l) <= tlen(r), tlen(l) == tlen(r) ==> forall|t: int| #[trigger] thas(r, t) ==> exists|s: int| #[trigger] thas(l, s) && f(s) == t,
{
  reveal(thas); reveal(tlen);
  let d = l.m.dom();
  let e = d.map(f);
  assert forall|a: int, b: int| d.contains(a) && d.contains(b) && #[trigger] f(a) == #[trigger] f(b) implies a == b by { assert(thas(l, a) && thas(l, b)); }
  vstd::set_lib::lemma_map_size(d, e, f);
  assert(e.subset_of(r.m.dom())) by { assert forall|x: int| e.contains(x) implies r.m.dom().contains(x) by {
    let s = choose|s: int| d.contains(s) && f(s) == x; assert(thas(l, s)); } }
  vstd::set_lib::lemma_len_subset(e, r.m.dom());
  if tlen(l) == tlen(r) {
    vstd::set_lib::lemma_subset_equality(e, r.m.dom());
    assert forall|t: int| #[trigger] thas(r, t) implies exists|s: int| #[trigger] thas(l, s) && f(s) == t by {
      assert(e.contains(t)); let s = choose|s: int| d.contains(s) && f(s) == t; assert(thas(l, s)); }
  }
}
pub broadcast group tab { tput1, tput2, tput3, tput4, tput5, tdel1, tdel2, tdel3, tdel4, tdel5, tempty1, tempty2, tlen0 }
}
pub use tabm::*;
broadcast use tabm::tab;

// ---- std::hash -------------------------------------------------------------------------------
// `cls` names the equivalence class of a value under its Eq: two values feed a hasher the same
// input exactly when they are in the same class. Two classes may well hash to the same number.
pub trait Hasher: Sized {
    spec fn fin(&self) -> u64;
    fn finish(&self) -> (r: u64) ensures r == self.fin();
}
pub uninterp spec fn step<H>(h: H, c: int) -> H;
pub trait Hash {
    spec fn cls(&self) -> int;
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures *final(state) == step(*old(state), self.cls());
}
impl<'a, T: Hash + ?Sized> Hash for &'a T {
    open spec fn cls(&self) -> int { (**self).cls() }
    fn hash<H: Hasher>(&self, state: &mut H) { (**self).hash(state) }
}
pub trait BuildHasher {
    type Hasher: Hasher;
    spec fn fresh(&self) -> Self::Hasher;
    fn build_hasher(&self) -> (h: Self::Hasher) ensures h == self.fresh();
    fn hash_one<T: Hash>(&self, x: T) -> (r: u64) ensures r == step(self.fresh(), x.cls()).fin();
}
pub open spec fn hv<S: BuildHasher>(s: &S, c: int) -> u64 { step(s.fresh(), c).fin() }

// Hash and Eq agree (what std asks of every key type), across a borrowed form Q and K
pub open spec fn lawful<Q: Hash + PartialEq<K>, K: Hash>() -> bool {
    Q::obeys_eq_spec() && (forall|a: &Q, b: &K| #[trigger] a.eq_spec(b) == (a.cls() == b.cls()))
}
// Clone keeps the class (std's implicit law for keys)
pub open spec fn lawful_clone<T: Hash + Clone>() -> bool {
    forall|a: T, b: T| #[trigger] cloned::<T>(a, b) ==> a.cls() == b.cls()
}

// a cloned hasher hashes like the original
pub open spec fn lawful_clone_hb<S: BuildHasher + Clone>() -> bool {
    forall|a: S, b: S, c: int| #![trigger hv(&a, c), hv(&b, c)] cloned::<S>(a, b) ==> hv(&a, c) == hv(&b, c)
}

pub trait Borrow<Q> {
    spec fn bor(&self) -> Q;
    fn borrow(&self) -> (r: &Q) ensures *r == self.bor();
}
impl<T> Borrow<T> for T {
    open spec fn bor(&self) -> T { *self }
    fn borrow(&self) -> (r: &T) { self }
}
pub open spec fn lawful_borrow<K: Hash + Borrow<Q>, Q: Hash>() -> bool {
    forall|k: K| (#[trigger] k.bor()).cls() == k.cls()
}

pub trait Default: Sized { fn default() -> Self; }

#[verifier::external_body]
pub struct DefaultHashBuilder { x: u64 }
#[verifier::external_body]
pub struct DefaultHasher { x: u64 }
impl Hasher for DefaultHasher {
    uninterp spec fn fin(&self) -> u64;
    #[verifier::external_body]
    fn finish(&self) -> (r: u64) { unimplemented!() }
}
impl BuildHasher for DefaultHashBuilder {
    type Hasher = DefaultHasher;
    uninterp spec fn fresh(&self) -> DefaultHasher;
    #[verifier::external_body]
    fn build_hasher(&self) -> (h: DefaultHasher) { unimplemented!() }
    #[verifier::external_body]
    fn hash_one<T: Hash>(&self, x: T) -> (r: u64) { unimplemented!() }
}
impl Default for DefaultHashBuilder {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}

// ---- hashbrown::raw --------------------------------------------------------------------------
#[verifier::external_body]
pub struct TryReserveError { x: u64 }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawTable<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawIter<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Bucket<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawDrain<'a, T> { x: &'a T }

impl<T> Bucket<T> {
    pub uninterp spec fn slot(&self) -> int;
    pub uninterp spec fn val(&self) -> T;
    pub uninterp spec fn ep(&self) -> int;
    #[verifier::external_body]
    pub unsafe fn as_ref<'a>(&self) -> (r: &'a T) ensures *r == self.val() { unimplemented!() }
}
impl<T> RawIter<T> {
    pub uninterp spec fn view(&self) -> Tab<T>;  // elements still to come
    pub uninterp spec fn ep(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Bucket<T>>)
      ensures final(self).ep() == old(self).ep(),
      match r {
          None => final(self)@ == old(self)@ && tlen(old(self)@) == 0 && forall|s: int| !#[trigger] thas(old(self)@, s),
          Some(b) => thas(old(self)@, b.slot()) && tv(old(self)@, b.slot()) == b.val() && final(self)@ == tdel(old(self)@, b.slot()) && b.ep() == old(self).ep(),
      }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
      ensures r.0 == tlen(self@), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == tlen(self@), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.ep() == self.ep() { unimplemented!() }
}
impl<'a, T> RawDrain<'a, T> {
    pub uninterp spec fn view(&self) -> Tab<T>;  // elements still to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
      ensures
      match r {
          None => final(self)@ == old(self)@ && tlen(old(self)@) == 0 && forall|s: int| !#[trigger] thas(old(self)@, s),
          Some(e) => exists|s: int| #[trigger] thas(old(self)@, s) && tv(old(self)@, s) == e && final(self)@ == tdel(old(self)@, s),
      }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
      ensures r.0 == tlen(self@), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == tlen(self@), r <= isize::MAX { unimplemented!() }
}

// a table never holds more than isize::MAX elements
pub broadcast axiom fn rawiter_bound<T>(it: RawIter<T>) ensures #[trigger] tlen(it@) <= isize::MAX;
pub broadcast axiom fn rawtable_bound<T>(it: RawTable<T>) ensures #[trigger] tlen(it@) <= isize::MAX;

// the hasher argument of insert/reserve/shrink_to must reproduce the stored hashes
pub open spec fn hasher_ok<T, F: Fn(&T) -> u64>(t: Tab<T>, hasher: F) -> bool {
    &&& forall|e: &T| hasher.requires((e,))
    &&& forall|s: int, h: u64| thas(t, s) && #[trigger] hasher.ensures((&tv(t, s),), h) ==> h == th(t, s)
}
impl<T> RawTable<T> {
    pub uninterp spec fn view(&self) -> Tab<T>;
    pub uninterp spec fn cap(&self) -> nat;
    pub uninterp spec fn ep(&self) -> int;  // changes when buckets may move
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == tempty::<T>(), r.cap() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(capacity: usize) -> (r: Self) ensures r@ == tempty::<T>(), r.cap() >= capacity { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == tlen(self@), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (tlen(self@) == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap(), r >= tlen(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == tempty::<T>(), final(self).cap() >= old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve<F: Fn(&T) -> u64>(&mut self, additional: usize, hasher: F)
        requires hasher_ok(old(self)@, hasher),
        ensures final(self)@ == old(self)@, final(self).cap() >= tlen(old(self)@) + additional, final(self).cap() >= old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve<F: Fn(&T) -> u64>(&mut self, additional: usize, hasher: F) -> (r: Result<(), TryReserveError>)
        requires hasher_ok(old(self)@, hasher),
        ensures final(self)@ == old(self)@, final(self).cap() >= old(self).cap(),
          r is Ok ==> final(self).cap() >= tlen(old(self)@) + additional,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to<F: Fn(&T) -> u64>(&mut self, min_size: usize, hasher: F)
        requires hasher_ok(old(self)@, hasher),
        ensures final(self)@ == old(self)@, final(self).cap() >= tlen(old(self)@),
          min_size <= old(self).cap() ==> final(self).cap() >= min_size,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<F: Fn(&T) -> bool>(&self, hash: u64, eq: F) -> (r: Option<&T>)
        requires forall|t: &T| eq.requires((t,)),
        ensures match r {
            Some(e) => exists|s: int| #[trigger] thas(self@, s) && tv(self@, s) == *e && eq.ensures((e,), true),
            None => forall|s: int| #[trigger] thas(self@, s) && th(self@, s) == hash ==> eq.ensures((&tv(self@, s),), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<F: Fn(&T) -> bool>(&mut self, hash: u64, eq: F) -> (r: Option<&mut T>)
        requires forall|t: &T| eq.requires((t,)),
        ensures final(self).cap() == old(self).cap(), final(self).ep() == old(self).ep(),
          match r {
            Some(e) => exists|s: int| #[trigger] thas(old(self)@, s) && tv(old(self)@, s) == *e && eq.ensures((e,), true)
               && final(self)@ == tput(old(self)@, s, th(old(self)@, s), *final(e)),
            None => *final(self) == *old(self) && forall|s: int| #[trigger] thas(old(self)@, s) && th(old(self)@, s) == hash ==> eq.ensures((&tv(old(self)@, s),), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&self, hash: u64, eq: F) -> (r: Option<Bucket<T>>)
        requires forall|t: &T| eq.requires((t,)),
        ensures match r {
            Some(e) => thas(self@, e.slot()) && tv(self@, e.slot()) == e.val() && eq.ensures((&e.val(),), true) && e.ep() == self.ep(),
            None => forall|s: int| #[trigger] thas(self@, s) && th(self@, s) == hash ==> eq.ensures((&tv(self@, s),), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry<F: Fn(&T) -> bool>(&mut self, hash: u64, eq: F) -> (r: Option<T>)
        requires forall|t: &T| eq.requires((t,)),
        ensures final(self).cap() <= old(self).cap(), final(self).ep() == old(self).ep(),
          match r {
            Some(e) => exists|s: int| #[trigger] thas(old(self)@, s) && tv(old(self)@, s) == e && eq.ensures((&e,), true)
               && final(self)@ == tdel(old(self)@, s),
            None => *final(self) == *old(self) && forall|s: int| #[trigger] thas(old(self)@, s) && th(old(self)@, s) == hash ==> eq.ensures((&tv(old(self)@, s),), false),
        }
    { unimplemented!() }
    // unsafe in hashbrown: the bucket must be a live bucket of this table
    #[verifier::external_body]
    pub unsafe fn remove(&mut self, b: Bucket<T>) -> (r: T)
      requires thas(old(self)@, b.slot()), tv(old(self)@, b.slot()) == b.val(), b.ep() == old(self).ep(),
      ensures r == b.val(), final(self)@ == tdel(old(self)@, b.slot()), final(self).cap() <= old(self).cap(), final(self).ep() == old(self).ep(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<F: Fn(&T) -> u64>(&mut self, hash: u64, value: T, hasher: F)
        requires hasher_ok(old(self)@, hasher),
          forall|h: u64| #[trigger] hasher.ensures((&value,), h) ==> h == hash,
        ensures exists|s: int| !(#[trigger] thas(old(self)@, s)) && final(self)@ == tput(old(self)@, s, hash, value),
          final(self).cap() >= old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn iter(&self) -> (r: RawIter<T>) ensures r@ == self@, r.ep() == self.ep() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: RawDrain<'_, T>) ensures r@ == old(self)@, final(self)@ == tempty::<T>() { unimplemented!() }
}
// Clone clones every element in place
impl<T: Clone> RawTable<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures forall|s: int| #![trigger thas(r@, s)] #![trigger thas(self@, s)] thas(r@, s) <==> thas(self@, s),
          forall|s: int| #[trigger] thas(r@, s) ==> th(r@, s) == th(self@, s) && cloned::<T>(tv(self@, s), tv(r@, s)),
          tlen(r@) == tlen(self@),
    { unimplemented!() }
}

// ---- std::mem, user code, iteration ------------------------------------------------------------
pub use core::ops::AddAssign;
pub fn drop<T>(x: T) {}
pub use core::mem::swap;
#[verifier::external_body]
pub fn replace<T>(d: &mut T, x: T) -> (r: T) ensures r == *old(d), *final(d) == x { unimplemented!() }
// mem::take leaves the type's default
pub trait Dflt: Sized { spec fn dflt(&self) -> bool; }
impl<T> Dflt for HashSet<T> { open spec fn dflt(&self) -> bool { self@ == Set::<T>::empty() } }
impl<T> Dflt for Vec<T> { open spec fn dflt(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> Dflt for Option<T> { open spec fn dflt(&self) -> bool { self is None } }
#[verifier::external_body]
pub fn take<T: Dflt>(d: &mut T) -> (r: T) ensures r == *old(d), final(d).dflt() { unimplemented!() }
pub fn identity<T>(x: T) -> (r: T) ensures r == x { x }

// user predicates: any FnMut is allowed; the trace records the calls made
pub trait Pred2<L, R> {
    spec fn trace(&self) -> Seq<(L, R, bool)>;
    fn call(&mut self, l: &L, r: &R) -> (b: bool)
      ensures final(self).trace() == old(self).trace().push((*l, *r, b));
}
pub trait Pred1<R> {
    spec fn trace(&self) -> Seq<(R, bool)>;
    fn call(&mut self, r: &R) -> (b: bool)
      ensures final(self).trace() == old(self).trace().push((*r, b));
}

pub trait IntoIt { type It; spec fn into_ok(self, r: Self::It) -> bool; fn into_it(self) -> (r: Self::It) ensures self.into_ok(r); }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SeqIt<T> { x: Vec<T> }
impl<T> SeqIt<T> {
    pub uninterp spec fn view(&self) -> Seq<T>; // elements still to come
    #[verifier::external_body]
    pub fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() } // whatever the caller's iterator says
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
      ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) }
    { unimplemented!() }
}
impl<T> IntoIt for Vec<T> {
    type It = SeqIt<T>;
    open spec fn into_ok(self, r: SeqIt<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIt<T>) { unimplemented!() }
}
impl<T> SeqIt<T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: RevIt<T>) ensures r@ == self@ { unimplemented!() }
}
// the same from the back
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RevIt<T> { x: Vec<T> }
impl<T> RevIt<T> {
    pub uninterp spec fn view(&self) -> Seq<T>; // elements still to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
      ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.subrange(0, old(self)@.len() - 1) }
    { unimplemented!() }
}
impl<T> IntoIt for RevIt<T> {
    type It = RevIt<T>;
    open spec fn into_ok(self, r: RevIt<T>) -> bool { r == self }
    fn into_it(self) -> (r: RevIt<T>) { self }
}
// by reference
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefIt<'a, T> { x: &'a Vec<T> }
impl<'a, T> RefIt<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>; // elements still to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
      ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) }
    { unimplemented!() }
}
impl<'a, T> RefIt<'a, T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: RefRevIt<'a, T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefRevIt<'a, T> { x: &'a Vec<T> }
impl<'a, T> RefRevIt<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>; // elements still to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
      ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.subrange(0, old(self)@.len() - 1) }
    { unimplemented!() }
}
impl<'a, T> IntoIt for RefRevIt<'a, T> {
    type It = RefRevIt<'a, T>;
    open spec fn into_ok(self, r: RefRevIt<'a, T>) -> bool { r == self }
    fn into_it(self) -> (r: RefRevIt<'a, T>) { self }
}
impl<'a, T> IntoIt for &'a Vec<T> {
    type It = RefIt<'a, T>;
    open spec fn into_ok(self, r: RefIt<'a, T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: RefIt<'a, T>) { unimplemented!() }
}
impl<T> IntoIt for SeqIt<T> {
    type It = SeqIt<T>;
    open spec fn into_ok(self, r: SeqIt<T>) -> bool { r == self }
    fn into_it(self) -> (r: SeqIt<T>) { self }
}
impl<T> IntoIt for RawIter<T> {
    type It = RawIter<T>;
    open spec fn into_ok(self, r: RawIter<T>) -> bool { r == self }
    fn into_it(self) -> (r: RawIter<T>) { self }
}
// any finite source of items handed to extend / from_iter
pub trait IntoItems<X>: Sized {
    spec fn items(self) -> Seq<X>;
    fn into_items(self) -> (r: SeqIt<X>) ensures r@ == self.items();
}
impl<X> IntoItems<X> for SeqIt<X> {
    open spec fn items(self) -> Seq<X> { self@ }
    fn into_items(self) -> (r: SeqIt<X>) { self }
}
// ---- hashbrown::HashSet --------------------------------------------------------------------------
// values that are equal exactly when they are identical, and whose clones are identical
pub uninterp spec fn plain<X>() -> bool;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { x: Vec<T> }
pub mod hash_set { use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Iter<'a, T> { x: &'a T }
    impl<'a, T> Iter<'a, T> {
        pub uninterp spec fn view(&self) -> Set<T>; // elements still to come
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a T>)
          ensures match r { None => final(self)@ == old(self)@ && old(self)@.len() == 0 && forall|x: T| !old(self)@.contains(x),
            Some(x) => old(self)@.contains(*x) && final(self)@ == old(self)@.remove(*x) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self@.len(), r.1 == Some(r.0) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    }
    impl<'a, T> Clone for Iter<'a, T> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    }
}
// owning iteration (into_iter, drain)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SetIt<T> { x: Vec<T> }
impl<T> SetIt<T> {
    pub uninterp spec fn view(&self) -> Set<T>; // elements still to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
      ensures match r { None => final(self)@ == old(self)@ && forall|x: T| !old(self)@.contains(x),
        Some(x) => old(self)@.contains(x) && final(self)@ == old(self)@.remove(x) }
    { unimplemented!() }
}
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX, (r == 0) == (forall|x: T| !self@.contains(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|x: T| !self@.contains(x)), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures plain::<T>() ==> r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool) ensures plain::<T>() ==> r == old(self)@.contains(*x) && final(self)@ == old(self)@.remove(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: hash_set::Iter<'_, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: SetIt<T>) ensures r@ == old(self)@, final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures plain::<T>() ==> r@ == self@ { unimplemented!() }
}
impl<T: Hash + Eq> HashSet<T> {
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
      ensures plain::<T>() ==> r == !old(self)@.contains(x) && final(self)@ == old(self)@.insert(x), Collect::pushed(old(self), x, final(self))
    { unimplemented!() }
}
impl<T> IntoIt for HashSet<T> {
    type It = SetIt<T>;
    open spec fn into_ok(self, r: SetIt<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: SetIt<T>) { unimplemented!() }
}
impl<'a, T> IntoIt for &'a HashSet<T> {
    type It = hash_set::Iter<'a, T>;
    open spec fn into_ok(self, r: hash_set::Iter<'a, T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: hash_set::Iter<'a, T>) { unimplemented!() }
}
impl<T> IntoIt for SetIt<T> {
    type It = SetIt<T>;
    open spec fn into_ok(self, r: SetIt<T>) -> bool { r == self }
    fn into_it(self) -> (r: SetIt<T>) { self }
}
impl<'a, T> IntoIt for hash_set::Iter<'a, T> {
    type It = hash_set::Iter<'a, T>;
    open spec fn into_ok(self, r: hash_set::Iter<'a, T>) -> bool { r == self }
    fn into_it(self) -> (r: hash_set::Iter<'a, T>) { self }
}
// what Iterator::collect builds
pub trait Collect<X>: Sized {
    spec fn is_empty(&self) -> bool;
    spec fn pushed(&self, x: X, r: &Self) -> bool;
    spec fn got(&self, x: X) -> bool; // x was collected
    fn empty() -> (r: Self) ensures r.is_empty();
    fn push_one(&mut self, x: X) ensures old(self).pushed(x, final(self));
}
impl<X> Collect<X> for Vec<X> {
    open spec fn is_empty(&self) -> bool { self@.len() == 0 }
    open spec fn pushed(&self, x: X, r: &Self) -> bool { r@ == self@.push(x) }
    open spec fn got(&self, x: X) -> bool { called(self@, 0, x) }
    fn empty() -> (r: Self) { Vec::new() }
    fn push_one(&mut self, x: X) { self.push(x) }
}
// an element joins unless an equal one is there
impl<X: Hash + Eq> Collect<X> for HashSet<X> {
    open spec fn is_empty(&self) -> bool { self@ == Set::<X>::empty() && forall|y: X| !#[trigger] self.got(y) }
    open spec fn pushed(&self, x: X, r: &Self) -> bool {
        plain::<X>() || (lawful::<X, X>() && (forall|y: X| #[trigger] self.got(y) ==> y.cls() != x.cls())) ==> r@ == self@.insert(x) && forall|y: X| #![trigger self.got(y)] #![trigger r.got(y)] r.got(y) <==> y == x || self.got(y)
    }
    open spec fn got(&self, x: X) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn empty() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn push_one(&mut self, x: X) { unimplemented!() }
}
// user predicates on OptionalPair
pub use super::optionals::OptionalPair;
pub trait PredO<L: Eq, R: Eq> {
    spec fn trace(&self) -> Seq<(OptionalPair<L, R>, bool)>;
    fn call<'a>(&mut self, p: OptionalPair<&'a L, &'a R>) -> (b: bool)
      ensures final(self).trace() == old(self).trace().push((oderef(p), b));
}
pub trait PredOR<L: Eq, R: Eq> {
    spec fn trace(&self) -> Seq<(OptionalPair<L, R>, bool)>;
    fn call<'a>(&mut self, p: &OptionalPair<&'a L, &'a R>) -> (b: bool)
      ensures final(self).trace() == old(self).trace().push((oderef(*p), b));
}
pub open spec fn oderef<'a, L: Eq, R: Eq>(p: OptionalPair<&'a L, &'a R>) -> OptionalPair<L, R> {
    match p {
        OptionalPair::Neither => OptionalPair::Neither,
        OptionalPair::SomeLeft(l) => OptionalPair::SomeLeft(*l),
        OptionalPair::SomeRight(r) => OptionalPair::SomeRight(*r),
        OptionalPair::SomeBoth(l, r) => OptionalPair::SomeBoth(*l, *r),
    }
}
#[verifier::external_body]
pub fn shim_unreached<A>() -> A requires false { unimplemented!() }
#[verifier::external_body]
pub fn shim_debug_unreached() requires false { unimplemented!() }

// Extend / FromIterator with the relation each impl promises
pub trait Extend<X>: Sized {
    spec fn ext_pre(&self, items: Seq<X>) -> bool;
    spec fn ext_post(&self, items: Seq<X>, fin: &Self) -> bool;
    fn extend<T: IntoItems<X>>(&mut self, iter: T)
        requires old(self).ext_pre(iter.items()),
        ensures old(self).ext_post(iter.items(), final(self));
}
pub trait FromIterator<X>: Sized {
    spec fn from_pre(items: Seq<X>) -> bool;
    spec fn from_post(items: Seq<X>, r: &Self) -> bool;
    fn from_iter<T: IntoItems<X>>(iter: T) -> (r: Self)
        requires Self::from_pre(iter.items()),
        ensures Self::from_post(iter.items(), &r);
}

// ---- ghost bookkeeping over call traces and worklists -------------------------------------------
pub mod seqm { use vstd::prelude::*;
#[verifier::opaque]
pub open spec fn called<X>(tr: Seq<X>, n: int, x: X) -> bool { exists|i: int| n <= i < tr.len() && #[trigger] tr[i] == x }
// no two calls from n on have the same arguments
#[verifier::opaque]
pub open spec fn once2<L, R>(tr: Seq<(L, R, bool)>, n: int) -> bool {
    forall|i: int, j: int| n <= i < j < tr.len() ==> !(#[trigger] tr[i].0 == #[trigger] tr[j].0 && tr[i].1 == tr[j].1)
}
#[verifier::opaque]
pub open spec fn once1<L>(tr: Seq<(L, bool)>, n: int) -> bool {
    forall|i: int, j: int| n <= i < j < tr.len() ==> #[trigger] tr[i].0 != #[trigger] tr[j].0
}
// tr is `from` followed by more calls
#[verifier::opaque]
pub open spec fn grown<X>(from: Seq<X>, tr: Seq<X>) -> bool { from.len() <= tr.len() && tr.subrange(0, from.len() as int) =~= from }

pub broadcast proof fn called_push<X>(tr: Seq<X>, n: int, y: X, x: X)
    requires 0 <= n <= tr.len(),
    ensures #[trigger] called(tr.push(y), n, x) == (x == y || called(tr, n, x)),
{
    reveal(called);
    if called(tr, n, x) { let i = choose|i: int| n <= i < tr.len() && #[trigger] tr[i] == x; assert(tr.push(y)[i] == x); }
    if called(tr.push(y), n, x) { let i = choose|i: int| n <= i < tr.push(y).len() && #[trigger] tr.push(y)[i] == x; if i < tr.len() { assert(tr[i] == x); } }
    if x == y { assert(tr.push(y)[tr.len() as int] == x); }
}
pub broadcast proof fn called_pop<X>(tr: Seq<X>, x: X)
    requires tr.len() > 0,
    ensures #![trigger called(tr, 0, x), tr.subrange(1, tr.len() as int)] called(tr, 0, x) == (x == tr[0] || called(tr.subrange(1, tr.len() as int), 0, x)),
{ called_pop2(tr, x); }
pub broadcast proof fn called_pop2<X>(tr: Seq<X>, x: X)
    requires tr.len() > 0,
    ensures #![trigger called(tr.subrange(1, tr.len() as int), 0, x)] called(tr, 0, x) == (x == tr[0] || called(tr.subrange(1, tr.len() as int), 0, x)),
{
    reveal(called);
    let u = tr.subrange(1, tr.len() as int);
    if called(tr, 0, x) { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; if i > 0 { assert(u[i - 1] == x); } }
    if called(u, 0, x) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == x; assert(tr[i + 1] == x); }
    assert(tr[0] == tr[0]);
}
pub broadcast proof fn called_last<X>(tr: Seq<X>, x: X)
    requires tr.len() > 0,
    ensures #![trigger called(tr, 0, x), tr.subrange(0, tr.len() - 1)] #![trigger called(tr.subrange(0, tr.len() - 1), 0, x)] called(tr, 0, x) == (x == tr[tr.len() - 1] || called(tr.subrange(0, tr.len() - 1), 0, x)),
{
    reveal(called);
    let u = tr.subrange(0, tr.len() - 1);
    if called(tr, 0, x) { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; if i < tr.len() - 1 { assert(u[i] == x); } }
    if called(u, 0, x) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == x; assert(tr[i] == x); }
    assert(tr[tr.len() - 1] == tr[tr.len() - 1]);
}
pub broadcast proof fn called_end<X>(tr: Seq<X>)
    requires tr.len() > 0,
    ensures #![trigger tr.subrange(0, tr.len() - 1)] called(tr, 0, tr[tr.len() - 1]),
{ reveal(called); assert(tr[tr.len() - 1] == tr[tr.len() - 1]); }
pub broadcast proof fn called_none<X>(tr: Seq<X>, n: int, x: X)
    ensures #![trigger called(tr, n, x)] n >= tr.len() ==> !called(tr, n, x),
{ reveal(called); }
pub broadcast proof fn once2_push<L, R>(tr: Seq<(L, R, bool)>, n: int, a: L, b: R, r: bool)
    requires 0 <= n <= tr.len(), once2(tr, n), !called(tr, n, (a, b, true)), !called(tr, n, (a, b, false)),
    ensures #[trigger] once2(tr.push((a, b, r)), n),
{
    reveal(called); reveal(once2);
    let u = tr.push((a, b, r));
    assert forall|i: int, j: int| n <= i < j < u.len() implies !(#[trigger] u[i].0 == #[trigger] u[j].0 && u[i].1 == u[j].1) by {
        if j == tr.len() && u[i].0 == a && u[i].1 == b { assert(tr[i] == (a, b, true) || tr[i] == (a, b, false)); }
    }
}
pub broadcast proof fn once1_push<L>(tr: Seq<(L, bool)>, n: int, a: L, r: bool)
    requires 0 <= n <= tr.len(), once1(tr, n), !called(tr, n, (a, true)), !called(tr, n, (a, false)),
    ensures #[trigger] once1(tr.push((a, r)), n),
{
    reveal(called); reveal(once1);
    let u = tr.push((a, r));
    assert forall|i: int, j: int| n <= i < j < u.len() implies #[trigger] u[i].0 != #[trigger] u[j].0 by {
        if j == tr.len() && u[i].0 == a { assert(tr[i] == (a, true) || tr[i] == (a, false)); }
    }
}
pub broadcast proof fn once_start<L, R>(tr: Seq<(L, R, bool)>)
    ensures #[trigger] once2(tr, tr.len() as int),
{ reveal(once2); }
pub broadcast proof fn once1_start<L>(tr: Seq<(L, bool)>)
    ensures #[trigger] once1(tr, tr.len() as int),
{ reveal(once1); }
pub broadcast proof fn grown_start<X>(f: Seq<X>)
    ensures #[trigger] grown(f, f),
{ reveal(grown); }
pub broadcast proof fn grown_push<X>(f: Seq<X>, tr: Seq<X>, x: X)
    requires grown(f, tr),
    ensures #[trigger] grown(f, tr.push(x)),
{ reveal(grown); }
pub broadcast proof fn grown_len<X>(f: Seq<X>, tr: Seq<X>)
    ensures #[trigger] grown(f, tr) ==> f.len() <= tr.len(),
{ reveal(grown); }
pub broadcast proof fn called_first<X>(tr: Seq<X>)
    requires tr.len() > 0,
    ensures #![trigger tr.subrange(1, tr.len() as int)] called(tr, 0, tr[0]),
{ reveal(called); assert(tr[0] == tr[0]); }
// calls made so far, and calls made since
pub broadcast proof fn called_split<X>(f: Seq<X>, tr: Seq<X>, n: int, x: X)
    requires 0 <= n <= f.len(), grown(f, tr),
    ensures #![trigger grown(f, tr), called(tr, n, x)] called(tr, n, x) == (called(f, n, x) || called(tr, f.len() as int, x)),
{
    reveal(called); reveal(grown);
    if called(tr, n, x) { let i = choose|i: int| n <= i < tr.len() && #[trigger] tr[i] == x; if i < f.len() { assert(f[i] == tr.subrange(0, f.len() as int)[i]); assert(f[i] == x); } }
    if called(f, n, x) { let i = choose|i: int| n <= i < f.len() && #[trigger] f[i] == x; assert(f[i] == tr.subrange(0, f.len() as int)[i]); assert(tr[i] == x); }
}
pub broadcast proof fn grown_trans<X>(f: Seq<X>, g: Seq<X>, h: Seq<X>)
    requires #[trigger] grown(f, g), #[trigger] grown(g, h),
    ensures grown(f, h),
{ reveal(grown); assert(h.subrange(0, f.len() as int) =~= g.subrange(0, f.len() as int)) by {
    assert forall|i: int| 0 <= i < f.len() implies h[i] == g[i] by { assert(h.subrange(0, g.len() as int)[i] == g[i]); } } }
pub broadcast proof fn once2_excl<L, R>(tr: Seq<(L, R, bool)>, n: int, a: L, b: R)
    requires 0 <= n,
    ensures #![trigger once2(tr, n), called(tr, n, (a, b, true))] #![trigger once2(tr, n), called(tr, n, (a, b, false))] once2(tr, n) ==> !(called(tr, n, (a, b, true)) && called(tr, n, (a, b, false))),
{
    reveal(called); reveal(once2);
    if called(tr, n, (a, b, true)) && called(tr, n, (a, b, false)) {
        let i = choose|i: int| n <= i < tr.len() && #[trigger] tr[i] == (a, b, true);
        let j = choose|j: int| n <= j < tr.len() && #[trigger] tr[j] == (a, b, false);
        if once2(tr, n) { if i < j { assert(tr[i].0 == tr[j].0); } else { assert(tr[j].0 == tr[i].0); } }
    }
}
pub broadcast proof fn once1_excl<L>(tr: Seq<(L, bool)>, n: int, a: L)
    requires 0 <= n,
    ensures #![trigger once1(tr, n), called(tr, n, (a, true))] #![trigger once1(tr, n), called(tr, n, (a, false))] once1(tr, n) ==> !(called(tr, n, (a, true)) && called(tr, n, (a, false))),
{
    reveal(called); reveal(once1);
    if called(tr, n, (a, true)) && called(tr, n, (a, false)) {
        let i = choose|i: int| n <= i < tr.len() && #[trigger] tr[i] == (a, true);
        let j = choose|j: int| n <= j < tr.len() && #[trigger] tr[j] == (a, false);
        if once1(tr, n) { if i < j { assert(tr[i].0 == tr[j].0); } else { assert(tr[j].0 == tr[i].0); } }
    }
}
pub broadcast group seqs { called_first, called_split, grown_trans, once2_excl, once1_excl, called_push, called_pop, called_pop2, called_last, called_end, called_none, once2_push, once1_push, once_start, once1_start, grown_start, grown_push, grown_len }
}
pub use seqm::*;

// std's Option and bool methods that vstd has no specification of
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None });
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(a) => Some(a), None => p });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (match o { Some(a) => p, None => None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(a) => a, None => None });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(a) => Some(*a), None => None });
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });
