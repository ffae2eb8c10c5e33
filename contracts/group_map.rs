// BROADCAST rawiter_bound
// BROADCAST rawtable_bound
// BROADCAST gx::gxs
// #[derive(PartialEq, Eq, Clone, Copy, Hash)] of ID written out
impl Clone for ID { fn clone(&self) -> (r: ID) ensures r == *self { ID(self.0) } }
impl Copy for ID { }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ID {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for ID { fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 } }
impl Eq for ID { }
impl Hash for ID {
    open spec fn cls(&self) -> int { self.0 as int }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl Hash for (u64, ID) {
    uninterp spec fn cls(&self) -> int;
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<u64> for ID {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, other: u64) -> bool { self.0 + other <= u64::MAX }
    open spec fn add_assign_spec(&self, other: u64) -> &ID { &ID((self.0 + other) as u64) }
}
pub use gx::*;
pub mod gx { use vstd::prelude::*; use super::super::shim::*; use super::ID; use super::LeftItem; use super::RightItem;
// a (u64, ID) equals another exactly when it is identical, and its clone is identical
pub broadcast axiom fn plain_pair(p: (u64, ID)) ensures #![trigger p.1] plain::<(u64, ID)>();
pub broadcast axiom fn plain_set(s: HashSet<(u64, ID)>) ensures #![trigger s@] plain::<(u64, ID)>();
// number of right items with an empty group
pub open spec fn gnone(s: Set<(u64, ID)>) -> bool { forall|p: (u64, ID)| !#[trigger] s.contains(p) }
#[verifier::opaque]
pub open spec fn gecount<T>(t: Tab<RightItem<T>>) -> nat { t.m.dom().filter(|s: int| gnone(t.m[s].1.pairs@)).len() }
pub broadcast proof fn gecount1<T>(t: Tab<RightItem<T>>, s: int)
    ensures #![trigger gecount(tdel(t, s))] gecount(t) == gecount(tdel(t, s)) + (if thas(t, s) && gnone(tv(t, s).pairs@) { 1nat } else { 0 }),
{
    reveal(gecount); reveal(thas); reveal(tv); reveal(tdel);
    let a = t.m.dom().filter(|s: int| gnone(t.m[s].1.pairs@));
    let d = tdel(t, s);
    let b = d.m.dom().filter(|s: int| gnone(d.m[s].1.pairs@));
    assert(b =~= a.remove(s));
}
pub broadcast proof fn gecount2<T>(t: Tab<RightItem<T>>)
    ensures #![trigger gecount(t)] gecount(t) <= tlen(t), forall|s: int| gecount(t) == 0 && #[trigger] thas(t, s) ==> !gnone(tv(t, s).pairs@),
{
    reveal(gecount); reveal(tlen); reveal(thas); reveal(tv);
    let a = t.m.dom().filter(|s: int| gnone(t.m[s].1.pairs@));
    vstd::set_lib::lemma_len_subset(a, t.m.dom());
    assert forall|s: int| gecount(t) == 0 && #[trigger] thas(t, s) implies !gnone(tv(t, s).pairs@) by {
        if a.contains(s) { vstd::set::lemma_set_contains_len(a, s); }
    }
}
pub broadcast proof fn gecount3<T>(t: Tab<RightItem<T>>)
    ensures #![trigger gecount(t)] (forall|s: int| #[trigger] thas(t, s) ==> !gnone(tv(t, s).pairs@)) ==> gecount(t) == 0,
{
    reveal(gecount); reveal(thas); reveal(tv);
    let a = t.m.dom().filter(|s: int| gnone(t.m[s].1.pairs@));
    if forall|s: int| #[trigger] thas(t, s) ==> !gnone(tv(t, s).pairs@) {
        assert forall|s: int| !a.contains(s) by { if a.contains(s) { assert(thas(t, s)); } }
        assert(a =~= Set::empty());
    }
}
// slots of the left items that an iterator over ri, with `pend` left of the current group, has still to show
#[verifier::opaque]
pub open spec fn gslots<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, pend: Set<(u64, ID)>) -> Set<int> {
    l.m.dom().filter(|s: int| gtodo(l, r, ri, pend, s))
}
pub open spec fn gtodo<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, pend: Set<(u64, ID)>, s: int) -> bool {
    pend.contains((th(l, s), tv(l, s).id)) || exists|t: int| #[trigger] thas(ri, t) && tv(r, t).id == tv(l, s).r_id
}
pub broadcast proof fn gslots1<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, pend: Set<(u64, ID)>, s: int)
    ensures #![trigger gslots(l, r, ri, pend).contains(s)] gslots(l, r, ri, pend).contains(s) <==> thas(l, s) && gtodo(l, r, ri, pend, s),
{ reveal(gslots); reveal(thas); }
pub broadcast proof fn gslots2<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, pend: Set<(u64, ID)>)
    ensures #![trigger gslots(l, r, ri, pend)] gslots(l, r, ri, pend).len() <= tlen(l),
      forall|s: int| gslots(l, r, ri, pend).len() == 0 && #[trigger] thas(l, s) ==> !gslots(l, r, ri, pend).contains(s),
      (forall|s: int| !gslots(l, r, ri, pend).contains(s)) ==> gslots(l, r, ri, pend).len() == 0,
{
    reveal(gslots); reveal(tlen); reveal(thas);
    let a = gslots(l, r, ri, pend);
    vstd::set_lib::lemma_len_subset(a, l.m.dom());
    assert forall|s: int| a.len() == 0 && #[trigger] thas(l, s) implies !a.contains(s) by {
        if a.contains(s) { vstd::set::lemma_set_contains_len(a, s); }
    }
    if forall|s: int| !a.contains(s) { assert(a =~= Set::empty()); }
}
// dropping one slot drops the count by one
pub broadcast proof fn gslots3<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, p: Set<(u64, ID)>, ri2: Tab<RightItem<R>>, p2: Set<(u64, ID)>)
    ensures #![trigger gslots(l, r, ri, p), gslots(l, r, ri2, p2)]
      (forall|x: int| thas(l, x) ==> (gtodo(l, r, ri, p, x) <==> gtodo(l, r, ri2, p2, x))) ==> gslots(l, r, ri, p) == gslots(l, r, ri2, p2),
      (exists|s: int| #[trigger] thas(l, s) && gless(l, r, ri, p, ri2, p2, s)) ==> gslots(l, r, ri, p).len() == gslots(l, r, ri2, p2).len() + 1,
{
    reveal(gslots); reveal(thas);
    let (a, b) = (gslots(l, r, ri, p), gslots(l, r, ri2, p2));
    if forall|x: int| thas(l, x) ==> (gtodo(l, r, ri, p, x) <==> gtodo(l, r, ri2, p2, x)) {
        assert forall|x: int| a.contains(x) <==> b.contains(x) by { if l.m.dom().contains(x) { assert(thas(l, x)); assert(gtodo(l, r, ri, p, x) <==> gtodo(l, r, ri2, p2, x)); } }
        assert(a =~= b);
    }
    if exists|s: int| #[trigger] thas(l, s) && gless(l, r, ri, p, ri2, p2, s) {
        let s = choose|s: int| #[trigger] thas(l, s) && gless(l, r, ri, p, ri2, p2, s);
        assert(l.m.dom().contains(s));
        assert forall|x: int| b.contains(x) <==> a.contains(x) && x != s by { if l.m.dom().contains(x) { assert(thas(l, x)); if x != s { assert(gtodo(l, r, ri, p, x) <==> gtodo(l, r, ri2, p2, x)); } } }
        assert(b =~= a.remove(s));
        assert(a.finite());
    }
}
pub open spec fn gless<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, ri: Tab<RightItem<R>>, p: Set<(u64, ID)>, ri2: Tab<RightItem<R>>, p2: Set<(u64, ID)>, s: int) -> bool {
    gtodo(l, r, ri, p, s) && !gtodo(l, r, ri2, p2, s) && forall|x: int| thas(l, x) && x != s ==> (gtodo(l, r, ri, p, x) <==> gtodo(l, r, ri2, p2, x))
}
pub broadcast group gxs { gslots3, plain_set, gecount1, gecount2, gecount3, gslots1, gslots2 }
}
// ---- abstract view of a GroupMap --------------------------------------------------------------
// every entry sits under its own hash; ids and classes are unique in a table; ids are below the counter
pub open spec fn glok<T: Hash, S: BuildHasher>(l: Tab<LeftItem<T>>, hb: &S, counter: ID) -> bool {
    &&& forall|s: int| #[trigger] thas(l, s) ==> th(l, s) == hv(hb, tv(l, s).value.cls()) && tv(l, s).id.0 < counter.0
    &&& forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id && tv(l, s).value.cls() != tv(l, t).value.cls()
}
pub open spec fn grok<T: Hash, S: BuildHasher>(r: Tab<RightItem<T>>, hb: &S, counter: ID) -> bool {
    &&& forall|s: int| #[trigger] thas(r, s) ==> th(r, s) == hv(hb, tv(r, s).value.cls()) && tv(r, s).id.0 < counter.0
    &&& forall|s: int, t: int| #[trigger] thas(r, s) && #[trigger] thas(r, t) && s != t ==> tv(r, s).id != tv(r, t).id && tv(r, s).value.cls() != tv(r, t).value.cls()
}
// every left item names a right item that lists it
pub open spec fn glinkl<A, B>(l: Tab<LeftItem<A>>, r: Tab<RightItem<B>>) -> bool {
    forall|s: int| #[trigger] thas(l, s) ==> exists|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).r_id && tv(l, s).hash == th(r, t) && tv(r, t).pairs@.contains((th(l, s), tv(l, s).id))
}
// every listed left item (with an id below n) is there and names the right item that lists it
pub open spec fn glinkr<A, B>(l: Tab<LeftItem<A>>, r: Tab<RightItem<B>>, n: ID) -> bool {
    forall|t: int, p: (u64, ID)| #![trigger thas(r, t), tv(r, t).pairs@.contains(p)] thas(r, t) && tv(r, t).pairs@.contains(p) && p.1.0 < n.0 ==> exists|s: int| #[trigger] thas(l, s) && tv(l, s).id == p.1 && th(l, s) == p.0 && tv(l, s).r_id == tv(r, t).id
}
pub open spec fn gclosed<B>(r: Tab<RightItem<B>>, n: ID) -> bool {
    forall|t: int, p: (u64, ID)| #![trigger thas(r, t), tv(r, t).pairs@.contains(p)] thas(r, t) && tv(r, t).pairs@.contains(p) ==> p.1.0 < n.0
}
pub open spec fn glin<T: Hash>(l: Tab<LeftItem<T>>, c: int) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c }
pub open spec fn grin<T: Hash>(r: Tab<RightItem<T>>, c: int) -> bool { exists|s: int| #[trigger] thas(r, s) && tv(r, s).value.cls() == c }
pub open spec fn glst<T>(l: Tab<LeftItem<T>>, a: T) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value == a }
pub open spec fn grst<T>(r: Tab<RightItem<T>>, b: T) -> bool { exists|s: int| #[trigger] thas(r, s) && tv(r, s).value == b }
// a is in the group of b (by value, by class, mixed)
pub open spec fn gmem<L, R>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, a: L, b: R) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value == b && tv(l, s).r_id == tv(r, t).id
}
pub open spec fn gmemc<L: Hash, R: Hash>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, c: int, d: int) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id
}
pub open spec fn gmeml<L, R: Hash>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, a: L, d: int) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id
}
// b is stored with an empty group
pub open spec fn gemp<T>(r: Tab<RightItem<T>>, b: T) -> bool { exists|t: int| #[trigger] thas(r, t) && tv(r, t).value == b && forall|p: (u64, ID)| !#[trigger] tv(r, t).pairs@.contains(p) }
pub open spec fn gempc<T: Hash>(r: Tab<RightItem<T>>, d: int) -> bool { exists|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d && forall|p: (u64, ID)| !#[trigger] tv(r, t).pairs@.contains(p) }
// same right items; their groups may differ
pub open spec fn rlike<T>(r: Tab<RightItem<T>>, q: Tab<RightItem<T>>) -> bool {
    forall|t: int| #![trigger thas(r, t)] #![trigger thas(q, t)] (thas(r, t) <==> thas(q, t)) && (thas(r, t) ==> th(r, t) == th(q, t) && tv(r, t).value == tv(q, t).value && tv(r, t).id == tv(q, t).id)
}
// q is r with p taken out of its group
pub open spec fn rdel<T>(r: Tab<RightItem<T>>, q: Tab<RightItem<T>>, p: (u64, ID)) -> bool {
    rlike(r, q) && forall|t: int, x: (u64, ID)| #![trigger thas(r, t), tv(r, t).pairs@.contains(x)] #![trigger thas(r, t), tv(q, t).pairs@.contains(x)] thas(r, t) ==> (tv(q, t).pairs@.contains(x) <==> tv(r, t).pairs@.contains(x) && x != p)
}
// q is r without the item of id v
pub open spec fn rrem<T>(r: Tab<RightItem<T>>, q: Tab<RightItem<T>>, v: ID) -> bool {
    tsub(q, r) && forall|t: int| #![trigger thas(r, t)] #![trigger thas(q, t)] thas(q, t) <==> thas(r, t) && tv(r, t).id != v
}
// m is l without the members of group v, except those still in todo
pub open spec fn lrem<T>(l: Tab<LeftItem<T>>, m: Tab<LeftItem<T>>, v: ID, todo: Set<(u64, ID)>) -> bool {
    tsub(m, l) && forall|s: int| #![trigger thas(l, s)] #![trigger thas(m, s)] thas(m, s) <==> thas(l, s) && !(tv(l, s).r_id == v && !todo.contains((th(l, s), tv(l, s).id)))
}
// a was in l and is not in m
pub open spec fn gone<T>(l: Tab<LeftItem<T>>, m: Tab<LeftItem<T>>, a: T) -> bool { exists|s: int| #[trigger] thas(l, s) && !thas(m, s) && tv(l, s).value == a }
impl<L, R, S> GroupMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    pub open spec fn wfo(&self) -> bool {
        &&& lawful::<L, L>() && lawful::<R, R>()
        &&& glok(self.left_set@, &self.hash_builder, self.left_counter)
        &&& grok(self.right_set@, &self.hash_builder, self.right_counter)
        &&& glinkl(self.left_set@, self.right_set@)
        &&& glinkr(self.left_set@, self.right_set@, self.left_counter)
    }
    pub open spec fn wf(&self) -> bool { self.wfo() && gclosed(self.right_set@, self.left_counter) }
    pub open spec fn inl(&self, c: int) -> bool { glin(self.left_set@, c) }
    pub open spec fn inr(&self, c: int) -> bool { grin(self.right_set@, c) }
    pub open spec fn stl(&self, a: L) -> bool { glst(self.left_set@, a) }
    pub open spec fn str(&self, b: R) -> bool { grst(self.right_set@, b) }
    pub open spec fn mem(&self, a: L, b: R) -> bool { gmem(self.left_set@, self.right_set@, a, b) }
    pub open spec fn memc(&self, c: int, d: int) -> bool { gmemc(self.left_set@, self.right_set@, c, d) }
    pub open spec fn meml(&self, a: L, d: int) -> bool { gmeml(self.left_set@, self.right_set@, a, d) }
    pub open spec fn emp(&self, b: R) -> bool { gemp(self.right_set@, b) }
    pub open spec fn grp(&self, d: int) -> bool { exists|c: int| #[trigger] self.memc(c, d) }
}
impl<'a, L, R, S> IntoIt for Iter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R, S> IntoIt for PairedIter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R, S> IntoIt for UnpairedIter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R, S> IntoIt for PairIter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
// the right item named by the left item in slot s has class d
pub open spec fn gsl<L, R: Hash>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, s: int, d: int) -> bool {
    exists|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d && tv(r, t).id == tv(l, s).r_id
}
// (m, q) is (l, r) without the right item of class d and its members
pub open spec fn grem<L, R: Hash>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, m: Tab<LeftItem<L>>, q: Tab<RightItem<R>>, d: int) -> bool {
    &&& tsub(m, l) && forall|s: int| #![trigger thas(l, s)] #![trigger thas(m, s)] thas(m, s) <==> thas(l, s) && !gsl(l, r, s, d)
    &&& tsub(q, r) && forall|t: int| #![trigger thas(r, t)] #![trigger thas(q, t)] thas(q, t) <==> thas(r, t) && tv(r, t).value.cls() != d
}
// the group listed by the right item of class d
pub open spec fn gpairs<R: Hash>(r: Tab<RightItem<R>>, d: int) -> Set<(u64, ID)> {
    tv(r, choose|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d).pairs@
}
// while swap_right moves the group of class o to the item `new`: the right items
pub open spec fn swr<R: Hash>(r: Tab<RightItem<R>>, q: Tab<RightItem<R>>, o: int, new: R, new_hash: u64, new_id: ID, keep: bool) -> bool {
    &&& forall|t: int| #![trigger thas(r, t)] thas(r, t) && tv(r, t).value.cls() != new.cls() && (keep || tv(r, t).value.cls() != o) ==> thas(q, t) && th(q, t) == th(r, t) && tv(q, t).value == tv(r, t).value && tv(q, t).id == tv(r, t).id && (forall|p: (u64, ID)| #[trigger] tv(q, t).pairs@.contains(p) <==> tv(r, t).value.cls() != o && tv(r, t).pairs@.contains(p))
    &&& exists|u: int| #[trigger] thas(q, u) && th(q, u) == new_hash && tv(q, u).value == new && tv(q, u).id == new_id && tv(q, u).pairs@ =~= gpairs(r, o)
          && (forall|t: int| #[trigger] thas(q, t) && t != u ==> thas(r, t) && tv(r, t).value.cls() != new.cls() && (keep || tv(r, t).value.cls() != o))
}
// ... and the left items
pub open spec fn swl<L, R: Hash>(l: Tab<LeftItem<L>>, r: Tab<RightItem<R>>, m: Tab<LeftItem<L>>, o: int, n: int, new_hash: u64, new_id: ID, todo: Set<(u64, ID)>) -> bool {
    &&& forall|s: int| #![trigger thas(l, s)] #![trigger thas(m, s)] thas(m, s) <==> thas(l, s) && !(n != o && gsl(l, r, s, n))
    &&& forall|s: int| #[trigger] thas(m, s) ==> th(m, s) == th(l, s) && tv(m, s).value == tv(l, s).value && tv(m, s).id == tv(l, s).id
          && (if gsl(l, r, s, o) && !todo.contains((th(l, s), tv(l, s).id)) { tv(m, s).hash == new_hash && tv(m, s).r_id == new_id } else { tv(m, s).hash == tv(l, s).hash && tv(m, s).r_id == tv(l, s).r_id })
}
impl<L, R, S> GroupMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    // what insert_right(right) does to the map
    pub open spec fn insr_rel(&self, right: R, fin: &Self) -> bool {
        &&& forall|a: L, b: R| #![trigger fin.mem(a, b)] #![trigger self.mem(a, b)] fin.mem(a, b) <==> self.mem(a, b) && b.cls() != right.cls()
        &&& forall|a: L| #![trigger fin.stl(a)] #![trigger self.stl(a)] fin.stl(a) <==> self.stl(a) && !self.meml(a, right.cls())
        &&& forall|b: R| #![trigger fin.str(b)] #![trigger self.str(b)] fin.str(b) <==> b == right || (self.str(b) && b.cls() != right.cls())
    }
    pub open spec fn clr(&self, d: int, v: HashSet<L>, y: R) -> bool {
        self.str(y) && y.cls() == d && forall|a: L| #[trigger] v.got(a) <==> self.mem(a, y)
    }
    // same left items, right items and memberships, as far as lookups can tell
    pub open spec fn alike(&self, o: &Self) -> bool {
        &&& forall|c: int, d: int| #![trigger self.memc(c, d)] #![trigger o.memc(c, d)] self.memc(c, d) <==> o.memc(c, d)
        &&& forall|d: int| #![trigger self.inr(d)] #![trigger o.inr(d)] self.inr(d) <==> o.inr(d)
    }
}
// being paired is having a member; groups and members agree
pub proof fn group_means<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>)
    requires m.wf(),
    ensures forall|c: int| #[trigger] m.inl(c) <==> exists|d: int| #[trigger] m.memc(c, d),
        forall|c: int, d: int| #[trigger] m.memc(c, d) ==> m.inl(c) && m.inr(d),
        forall|c: int, d: int, e: int| #[trigger] m.memc(c, d) && #[trigger] m.memc(c, e) ==> d == e,
        forall|d: int| #[trigger] m.grp(d) <==> m.inr(d) && !gempc(m.right_set@, d),
        forall|a: L| #[trigger] m.stl(a) <==> exists|b: R| #[trigger] m.mem(a, b),
        forall|a: L, b: R| #[trigger] m.mem(a, b) <==> m.stl(a) && m.str(b) && m.memc(a.cls(), b.cls()),
        forall|b: R| #[trigger] m.emp(b) <==> m.str(b) && !m.grp(b.cls()),
{
    let (l, r) = (m.left_set@, m.right_set@);
    assert forall|c: int| #[trigger] m.inl(c) implies exists|d: int| #[trigger] m.memc(c, d) by {
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c;
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).r_id;
        assert(m.memc(c, tv(r, t).value.cls()));
    }
    assert forall|a: L| #[trigger] m.stl(a) implies exists|b: R| #[trigger] m.mem(a, b) by {
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).r_id;
        assert(m.mem(a, tv(r, t).value));
    }
    assert forall|d: int| #[trigger] m.grp(d) implies m.inr(d) && !gempc(r, d) by {
        let c = choose|c: int| #[trigger] m.memc(c, d);
        let (s, t) = choose|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id;
        assert(tv(r, t).pairs@.contains((th(l, s), tv(l, s).id)));
    }
    assert forall|d: int| m.inr(d) && !gempc(r, d) implies #[trigger] m.grp(d) by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d;
        assert(!forall|p: (u64, ID)| !#[trigger] tv(r, t).pairs@.contains(p));
        let p = choose|p: (u64, ID)| #[trigger] tv(r, t).pairs@.contains(p);
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).id == p.1 && tv(l, s).r_id == tv(r, t).id;
        assert(m.memc(tv(l, s).value.cls(), d));
    }
    assert forall|b: R| m.str(b) && !m.grp(b.cls()) implies #[trigger] m.emp(b) by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).value == b;
        assert(m.inr(b.cls()));
    }
    assert forall|b: R| #[trigger] m.emp(b) implies m.str(b) && !m.grp(b.cls()) by {
        assert(gempc(r, b.cls()));
    }
}

pub open spec fn odr<'a, L>(o: Option<&'a L>) -> Option<L> { match o { Some(x) => Some(*x), None => None } }
impl<L, R, S> GroupMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    // what iter shows: each left item with its right item, and each right item with an empty group
    pub open spec fn item(&self, o: Option<L>, b: R) -> bool { match o { Some(a) => self.mem(a, b), None => self.emp(b) } }
}
impl<'a, L, R, S> Iter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn pend(&self) -> Set<(u64, ID)> { match self.left_iter { Some(i) => i@, None => Set::<(u64, ID)>::empty() } }
    pub open spec fn wf(&self) -> bool {
        &&& self.map_ref.wf() && tsub(self.right_iter@, self.map_ref.right_set@)
        &&& self.left_iter is Some ==> exists|t: int| #[trigger] thas(self.map_ref.right_set@, t) && !thas(self.right_iter@, t) && forall|p: (u64, ID)| #[trigger] self.left_iter.unwrap()@.contains(p) ==> tv(self.map_ref.right_set@, t).pairs@.contains(p)
    }
    pub open spec fn rem(&self, o: Option<L>, b: R) -> bool {
        match o {
            Some(a) => exists|s: int, t: int| #[trigger] thas(self.map_ref.left_set@, s) && #[trigger] thas(self.map_ref.right_set@, t) && tv(self.map_ref.left_set@, s).value == a && tv(self.map_ref.right_set@, t).value == b && tv(self.map_ref.left_set@, s).r_id == tv(self.map_ref.right_set@, t).id && (thas(self.right_iter@, t) || self.pend().contains((th(self.map_ref.left_set@, s), tv(self.map_ref.left_set@, s).id))),
            None => gemp(self.right_iter@, b),
        }
    }
    pub open spec fn slots(&self) -> Set<int> { gslots(self.map_ref.left_set@, self.map_ref.right_set@, self.right_iter@, self.pend()) }
    // items still to come
    pub open spec fn left(&self) -> nat { self.slots().len() + gecount(self.right_iter@) }
}
impl<'a, L, R, S> PairedIter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.left_iter@, self.map_ref.left_set@) }
    pub open spec fn rem(&self, a: L, b: R) -> bool { gmem(self.left_iter@, self.map_ref.right_set@, a, b) }
}
impl<'a, L, R, S> UnpairedIter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.right_iter@, self.map_ref.right_set@) }
    pub open spec fn rem(&self, b: R) -> bool { gemp(self.right_iter@, b) }
}
pub open spec fn gids<T>(l: Tab<LeftItem<T>>) -> bool {
    forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id && tv(l, s).value != tv(l, t).value
}
impl<'a, L: Eq, R, S> PairIter<'a, L, R, S> {
    pub open spec fn wf(&self) -> bool {
        &&& gids(self.map_ref.left_set@)
        &&& forall|p: (u64, ID)| #[trigger] self.iter@.contains(p) ==> exists|s: int| #[trigger] thas(self.map_ref.left_set@, s) && tv(self.map_ref.left_set@, s).id == p.1 && th(self.map_ref.left_set@, s) == p.0
    }
    pub open spec fn rem(&self, a: L) -> bool { glists(self.map_ref.left_set@, self.iter@, a) }
}
// no group, no member: what `is_empty` may use
pub proof fn no_orphans<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>)
    requires m.wf(),
    ensures tlen(m.right_set@) == 0 ==> tlen(m.left_set@) == 0,
{
    if tlen(m.right_set@) == 0 {
        tlen_zero(m.right_set@);
        assert forall|s: int| #[trigger] thas(m.left_set@, s) implies false by {
            assert(exists|t: int| #[trigger] thas(m.right_set@, t));
        }
        tinj(m.left_set@, m.right_set@, |s: int| s);
    }
}
// a group lists exactly the members
pub open spec fn gnamed<L>(l: Tab<LeftItem<L>>, p: (u64, ID), a: L) -> bool { exists|s: int| #[trigger] thas(l, s) && th(l, s) == p.0 && tv(l, s).id == p.1 && tv(l, s).value == a }
pub open spec fn glists<L>(l: Tab<LeftItem<L>>, g: Set<(u64, ID)>, a: L) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value == a && g.contains((th(l, s), tv(l, s).id)) }
pub proof fn group_lists<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>)
    requires m.wf(),
    ensures gids(m.left_set@),
      forall|t: int, p: (u64, ID)| #![trigger thas(m.right_set@, t), tv(m.right_set@, t).pairs@.contains(p)] thas(m.right_set@, t) && tv(m.right_set@, t).pairs@.contains(p) ==> exists|s: int| #[trigger] thas(m.left_set@, s) && tv(m.left_set@, s).id == p.1 && th(m.left_set@, s) == p.0,
      forall|t: int, a: L| #![trigger thas(m.right_set@, t), m.stl(a)] thas(m.right_set@, t) ==> (glists(m.left_set@, tv(m.right_set@, t).pairs@, a) <==> m.meml(a, tv(m.right_set@, t).value.cls())),
      forall|t: int, a: L| #![trigger thas(m.right_set@, t), glists(m.left_set@, tv(m.right_set@, t).pairs@, a)] thas(m.right_set@, t) ==> (glists(m.left_set@, tv(m.right_set@, t).pairs@, a) <==> m.meml(a, tv(m.right_set@, t).value.cls())),
      forall|a: L, d: int| #[trigger] m.meml(a, d) ==> exists|t: int| #[trigger] thas(m.right_set@, t) && tv(m.right_set@, t).value.cls() == d && glists(m.left_set@, tv(m.right_set@, t).pairs@, a),
{
    let (l, r) = (m.left_set@, m.right_set@);
    assert forall|t: int, a: L| thas(r, t) && glists(l, tv(r, t).pairs@, a) implies #[trigger] m.meml(a, tv(r, t).value.cls()) by {
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a && tv(r, t).pairs@.contains((th(l, s), tv(l, s).id));
        assert(thas(l, s) && thas(r, t));
    }
    assert forall|t: int, a: L| thas(r, t) && #[trigger] m.meml(a, tv(r, t).value.cls()) implies glists(l, tv(r, t).pairs@, a) by {
        let (s, u) = choose|s: int, u: int| #[trigger] thas(l, s) && #[trigger] thas(r, u) && tv(l, s).value == a && tv(r, u).value.cls() == tv(r, t).value.cls() && tv(l, s).r_id == tv(r, u).id;
        assert(u == t);
        let w = choose|w: int| #[trigger] thas(r, w) && tv(r, w).id == tv(l, s).r_id && tv(r, w).pairs@.contains((th(l, s), tv(l, s).id));
        assert(w == t);
    }
    assert forall|a: L, d: int| #[trigger] m.meml(a, d) implies exists|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d && glists(l, tv(r, t).pairs@, a) by {
        let (s, u) = choose|s: int, u: int| #[trigger] thas(l, s) && #[trigger] thas(r, u) && tv(l, s).value == a && tv(r, u).value.cls() == d && tv(l, s).r_id == tv(r, u).id;
        assert(thas(r, u) && m.meml(a, tv(r, u).value.cls()));
        assert(glists(l, tv(r, u).pairs@, a));
    }
}
// hash and id under which a value is stored
pub open spec fn lkey<T>(l: Tab<LeftItem<T>>, a: T) -> (u64, ID) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (th(l, s), tv(l, s).id)
}
pub open spec fn rkey<T>(l: Tab<RightItem<T>>, a: T) -> (u64, ID) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (th(l, s), tv(l, s).id)
}
pub proof fn cloned_items<T: Clone>()
    ensures forall|a: LeftItem<T>, b: LeftItem<T>| #[trigger] cloned::<LeftItem<T>>(a, b) ==> cloned::<T>(a.value, b.value) && a.hash == b.hash && a.id == b.id && a.r_id == b.r_id,
      forall|a: RightItem<T>, b: RightItem<T>| #[trigger] cloned::<RightItem<T>>(a, b) ==> cloned::<T>(a.value, b.value) && a.id == b.id && a.pairs@ == b.pairs@,
{ }
// a left (right) side included in another of the same size is the same
pub proof fn sub_left<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>, o: &GroupMap<L, R, S>)
    requires m.wf(), o.wf(), forall|c: int| #[trigger] m.inl(c) ==> o.inl(c),
    ensures tlen(m.left_set@) <= tlen(o.left_set@), tlen(m.left_set@) == tlen(o.left_set@) ==> forall|c: int| #[trigger] o.inl(c) ==> m.inl(c),
{
    let (l, k) = (m.left_set@, o.left_set@);
    let f = |s: int| choose|t: int| #[trigger] thas(k, t) && tv(k, t).value.cls() == tv(l, s).value.cls();
    assert forall|s: int| #[trigger] thas(l, s) implies thas(k, f(s)) && tv(k, f(s)).value.cls() == tv(l, s).value.cls() by { assert(m.inl(tv(l, s).value.cls())); }
    tinj(l, k, f);
    if tlen(l) == tlen(k) {
        assert forall|c: int| #[trigger] o.inl(c) implies m.inl(c) by {
            let t = choose|t: int| #[trigger] thas(k, t) && tv(k, t).value.cls() == c;
            let s = choose|s: int| #[trigger] thas(l, s) && f(s) == t;
            assert(tv(l, s).value.cls() == c);
        }
    }
}
pub proof fn sub_right<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>, o: &GroupMap<L, R, S>)
    requires m.wf(), o.wf(), forall|c: int| #[trigger] m.inr(c) ==> o.inr(c),
    ensures tlen(m.right_set@) <= tlen(o.right_set@), tlen(m.right_set@) == tlen(o.right_set@) ==> forall|c: int| #[trigger] o.inr(c) ==> m.inr(c),
{
    let (l, k) = (m.right_set@, o.right_set@);
    let f = |s: int| choose|t: int| #[trigger] thas(k, t) && tv(k, t).value.cls() == tv(l, s).value.cls();
    assert forall|s: int| #[trigger] thas(l, s) implies thas(k, f(s)) && tv(k, f(s)).value.cls() == tv(l, s).value.cls() by { assert(m.inr(tv(l, s).value.cls())); }
    tinj(l, k, f);
    if tlen(l) == tlen(k) {
        assert forall|c: int| #[trigger] o.inr(c) implies m.inr(c) by {
            let t = choose|t: int| #[trigger] thas(k, t) && tv(k, t).value.cls() == c;
            let s = choose|s: int| #[trigger] thas(l, s) && f(s) == t;
            assert(tv(l, s).value.cls() == c);
        }
    }
}
// every item of m is in o
pub open spec fn within<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>, o: &GroupMap<L, R, S>) -> bool {
    &&& forall|a: L, b: R| #[trigger] m.mem(a, b) ==> o.memc(a.cls(), b.cls())
    &&& forall|b: R| #[trigger] m.emp(b) ==> o.inr(b.cls()) && !o.grp(b.cls())
}
pub proof fn eq_means<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &GroupMap<L, R, S>, o: &GroupMap<L, R, S>)
    requires m.wf(), o.wf(),
    ensures tlen(m.left_set@) == tlen(o.left_set@) && tlen(m.right_set@) == tlen(o.right_set@) && within(m, o) ==> m.alike(o),
      m.alike(o) ==> tlen(m.left_set@) == tlen(o.left_set@) && tlen(m.right_set@) == tlen(o.right_set@) && within(m, o),
{
    group_means(m); group_means(o);
    let (l, r) = (m.left_set@, m.right_set@);
    if m.alike(o) {
        assert forall|c: int| m.inl(c) <==> #[trigger] o.inl(c) by {
            if m.inl(c) { let d = choose|d: int| #[trigger] m.memc(c, d); assert(o.memc(c, d)); }
            if o.inl(c) { let d = choose|d: int| #[trigger] o.memc(c, d); assert(m.memc(c, d)); }
        }
        assert forall|c: int| #[trigger] m.inl(c) implies o.inl(c) by { assert(o.inl(c) || !o.inl(c)); }
        sub_left(m, o); sub_left(o, m); sub_right(m, o); sub_right(o, m);
        assert forall|b: R| #[trigger] m.emp(b) implies o.inr(b.cls()) && !o.grp(b.cls()) by {
            let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).value == b;
            assert(m.inr(b.cls()));
            if o.grp(b.cls()) { let c = choose|c: int| #[trigger] o.memc(c, b.cls()); assert(m.memc(c, b.cls())); assert(m.grp(b.cls())); }
        }
    }
    if tlen(m.left_set@) == tlen(o.left_set@) && tlen(m.right_set@) == tlen(o.right_set@) && within(m, o) {
        assert forall|c: int, d: int| #[trigger] m.memc(c, d) implies o.memc(c, d) by {
            let (s, t) = choose|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id;
            assert(m.mem(tv(l, s).value, tv(r, t).value));
        }
        assert forall|c: int| #[trigger] m.inl(c) implies o.inl(c) by { let d = choose|d: int| #[trigger] m.memc(c, d); assert(o.memc(c, d)); }
        sub_left(m, o);
        assert forall|d: int| #[trigger] m.inr(d) implies o.inr(d) by {
            let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d;
            let b = tv(r, t).value;
            assert(m.str(b));
            if m.grp(d) { let c = choose|c: int| #[trigger] m.memc(c, d); assert(o.memc(c, d)); } else { assert(m.emp(b)); }
        }
        sub_right(m, o);
        assert forall|c: int, d: int| #[trigger] o.memc(c, d) implies m.memc(c, d) by {
            assert(o.inl(c));
            let e = choose|e: int| #[trigger] m.memc(c, e);
            assert(o.memc(c, e));
        }
        assert forall|d: int| #![trigger m.inr(d)] #![trigger o.inr(d)] m.inr(d) <==> o.inr(d) by { if o.inr(d) { assert(m.inr(d)); } }
    }
}
// ---- what a sequence of insertions leaves (X07): members, left items and right items
pub type GI<L, R> = Seq<(Option<L>, R)>;
#[verifier::reject_recursive_types(L)] #[verifier::reject_recursive_types(R)]
pub ghost struct GS<L, R> { pub m: spec_fn(L, R) -> bool, pub l: spec_fn(L) -> bool, pub r: spec_fn(R) -> bool }
impl<L: Hash, R: Hash> GS<L, R> {
    pub open spec fn inl(self, c: int) -> bool { exists|a: L| #[trigger] (self.l)(a) && a.cls() == c }
    pub open spec fn inr(self, c: int) -> bool { exists|b: R| #[trigger] (self.r)(b) && b.cls() == c }
    pub open spec fn meml(self, a: L, d: int) -> bool { exists|b: R| #[trigger] (self.m)(a, b) && b.cls() == d }
    pub open spec fn memc(self, c: int, d: int) -> bool { exists|a: L, b: R| #[trigger] (self.m)(a, b) && a.cls() == c && b.cls() == d }
    // insert(l, r), or insert_right(r) without a left item
    pub open spec fn step(self, o: Option<L>, r: R) -> GS<L, R> {
        match o {
            Some(l) => GS {
                m: |a: L, b: R| (a.cls() == l.cls() && b.cls() == r.cls() && ((self.l)(a) || (a == l && !self.inl(l.cls()))) && ((self.r)(b) || (b == r && !self.inr(r.cls())))) || ((self.m)(a, b) && a.cls() != l.cls()),
                l: |a: L| (self.l)(a) || (a == l && !self.inl(l.cls())),
                r: |b: R| (self.r)(b) || (b == r && !self.inr(r.cls())),
            },
            None => GS {
                m: |a: L, b: R| (self.m)(a, b) && b.cls() != r.cls(),
                l: |a: L| (self.l)(a) && !self.meml(a, r.cls()),
                r: |b: R| b == r || ((self.r)(b) && b.cls() != r.cls()),
            },
        }
    }
}
pub open spec fn gs_none<L, R>() -> GS<L, R> { GS { m: |a: L, b: R| false, l: |a: L| false, r: |b: R| false } }
pub open spec fn gs_of<L: Hash + Eq, R: Hash + Eq, S: BuildHasher>(m: &GroupMap<L, R, S>) -> GS<L, R> { GS { m: |a: L, b: R| m.mem(a, b), l: |a: L| m.stl(a), r: |b: R| m.str(b) } }
pub open spec fn steps<L: Hash, R: Hash>(base: GS<L, R>, it: GI<L, R>, n: nat) -> GS<L, R> decreases n {
    if n == 0 { base } else { steps(base, it, (n - 1) as nat).step(it[n - 1].0, it[n - 1].1) }
}
// m holds exactly what g says
pub open spec fn elike<L: Hash + Eq, R: Hash + Eq, S: BuildHasher>(g: GS<L, R>, m: &GroupMap<L, R, S>) -> bool {
    &&& forall|a: L, b: R| #![trigger m.mem(a, b)] m.mem(a, b) <==> (g.m)(a, b)
    &&& forall|a: L| #![trigger m.stl(a)] m.stl(a) <==> (g.l)(a)
    &&& forall|b: R| #![trigger m.str(b)] m.str(b) <==> (g.r)(b)
}
// no item repeats a membership there is (known finding group-insert-existing-pair)
pub open spec fn efresh<L: Hash, R: Hash>(base: GS<L, R>, it: GI<L, R>) -> bool {
    forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0 is Some ==> !steps(base, it, i as nat).memc(it[i].0.unwrap().cls(), it[i].1.cls())
}
pub proof fn elike_means<L: Hash + Eq, R: Hash + Eq, S: BuildHasher>(g: GS<L, R>, m: &GroupMap<L, R, S>)
    requires elike(g, m),
    ensures forall|c: int| #[trigger] m.inl(c) <==> g.inl(c), forall|c: int| #[trigger] m.inr(c) <==> g.inr(c),
      forall|a: L, d: int| #[trigger] m.meml(a, d) <==> g.meml(a, d), forall|c: int, d: int| #[trigger] m.memc(c, d) <==> g.memc(c, d),
{
    let (l, r) = (m.left_set@, m.right_set@);
    assert forall|c: int| #[trigger] m.inl(c) <==> g.inl(c) by {
        if m.inl(c) { let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c; assert(m.stl(tv(l, s).value)); }
        if g.inl(c) { let a = choose|a: L| #[trigger] (g.l)(a) && a.cls() == c; assert(m.stl(a)); }
    }
    assert forall|c: int| #[trigger] m.inr(c) <==> g.inr(c) by {
        if m.inr(c) { let s = choose|s: int| #[trigger] thas(r, s) && tv(r, s).value.cls() == c; assert(m.str(tv(r, s).value)); }
        if g.inr(c) { let a = choose|a: R| #[trigger] (g.r)(a) && a.cls() == c; assert(m.str(a)); }
    }
    assert forall|a: L, d: int| #[trigger] m.meml(a, d) <==> g.meml(a, d) by {
        if m.meml(a, d) { let (s, t) = choose|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id; assert(m.mem(a, tv(r, t).value)); }
        if g.meml(a, d) { let b = choose|b: R| #[trigger] (g.m)(a, b) && b.cls() == d; assert(m.mem(a, b)); }
    }
    assert forall|c: int, d: int| #[trigger] m.memc(c, d) <==> g.memc(c, d) by {
        if m.memc(c, d) { let (s, t) = choose|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).r_id == tv(r, t).id; assert(m.mem(tv(l, s).value, tv(r, t).value)); }
        if g.memc(c, d) { let (a, b) = choose|a: L, b: R| #[trigger] (g.m)(a, b) && a.cls() == c && b.cls() == d; assert(m.mem(a, b)); }
    }
}
pub open spec fn gsome<L, R>(items: Seq<(L, R)>) -> GI<L, R> { Seq::new(items.len(), |i: int| (Some(items[i].0), items[i].1)) }
// an empty map is no base
pub proof fn ebases<L: Hash + Eq, R: Hash + Eq, S: BuildHasher>()
    ensures forall|m: &GroupMap<L, R, S>| m.left_set@ == tempty::<LeftItem<L>>() && m.right_set@ == tempty::<RightItem<R>>() ==> #[trigger] gs_of(m) == gs_none::<L, R>(),
{
    assert forall|m: &GroupMap<L, R, S>| m.left_set@ == tempty::<LeftItem<L>>() && m.right_set@ == tempty::<RightItem<R>>() implies #[trigger] gs_of(m) == gs_none::<L, R>() by {
        let (g, z) = (gs_of(m), gs_none::<L, R>());
        assert forall|a: L, b: R| !(#[trigger] m.mem(a, b)) by { }
        assert forall|a: L| !(#[trigger] m.stl(a)) by { }
        assert forall|b: R| !(#[trigger] m.str(b)) by { }
        assert(g.m =~= z.m && g.l =~= z.l && g.r =~= z.r);
    }
}
