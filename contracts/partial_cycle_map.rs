// BROADCAST cnt::counts
// BROADCAST rawiter_bound
// BROADCAST rawtable_bound
// ---- abstract view of a PartialCycleMap -----------------------------------------------------
// every entry sits under its own hash; ids and classes are unique in a table; ids are below the counter
pub open spec fn tok<T: Hash, S: BuildHasher>(l: Tab<MappingPair<T>>, hb: &S, counter: u64) -> bool {
    &&& forall|s: int| #[trigger] thas(l, s) ==> th(l, s) == hv(hb, tv(l, s).value.cls()) && tv(l, s).id < counter
    &&& forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id && tv(l, s).value.cls() != tv(l, t).value.cls()
}
// every paired entry of l has its partner in r
pub open spec fn tlink<A, B>(l: Tab<MappingPair<A>>, r: Tab<MappingPair<B>>) -> bool {
    forall|s: int| #[trigger] thas(l, s) && tv(l, s).hash is Some ==> exists|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == Some(th(r, t)) && tv(r, t).hash == Some(th(l, s))
}
// an id that occurs on both sides is the id of a pair
pub open spec fn tids<A, B>(l: Tab<MappingPair<A>>, r: Tab<MappingPair<B>>) -> bool {
    forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).id == tv(r, t).id ==> tv(l, s).hash is Some && tv(r, t).hash is Some
}
pub open spec fn tin<T: Hash>(l: Tab<MappingPair<T>>, c: int) -> bool {
    exists|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c
}
// a and b are stored and are each other's partner
pub open spec fn phas<L, R>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, a: L, b: R) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value == b && tv(l, s).id == tv(r, t).id
}
pub open spec fn phasc<L: Hash, R: Hash>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, c: int, d: int) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).id == tv(r, t).id
}
// a is stored; stored and unpaired; an item of class c is stored and paired / unpaired
pub open spec fn tst<T>(l: Tab<MappingPair<T>>, a: T) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value == a }
pub open spec fn tfree<T>(l: Tab<MappingPair<T>>, a: T) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value == a && tv(l, s).hash is None }
pub open spec fn tfreec<T: Hash>(l: Tab<MappingPair<T>>, c: int) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c && tv(l, s).hash is None }
pub open spec fn tpairc<T: Hash>(l: Tab<MappingPair<T>>, c: int) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c && tv(l, s).hash is Some }
// a's partner has class d / b's partner has class c
pub open spec fn phasl<L, R: Hash>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, a: L, d: int) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value.cls() == d && tv(l, s).id == tv(r, t).id
}
pub open spec fn phasr<L: Hash, R>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, c: int, b: R) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value == b && tv(l, s).id == tv(r, t).id
}
// the entry of class c with its partner, as the removals return it
pub open spec fn evl<L: Hash + Eq, R: Hash + Eq>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, c: int, res: OptionalPair<L, R>) -> bool {
    match res {
        OptionalPair::Neither => !tin(l, c),
        OptionalPair::SomeLeft(x) => tfree(l, x) && x.cls() == c,
        OptionalPair::SomeBoth(x, y) => phas(l, r, x, y) && x.cls() == c,
        OptionalPair::SomeRight(y) => false,
    }
}
pub open spec fn evr<L: Hash + Eq, R: Hash + Eq>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, c: int, res: OptionalPair<L, R>) -> bool {
    match res {
        OptionalPair::Neither => !tin(r, c),
        OptionalPair::SomeRight(y) => tfree(r, y) && y.cls() == c,
        OptionalPair::SomeBoth(x, y) => phas(l, r, x, y) && y.cls() == c,
        OptionalPair::SomeLeft(x) => false,
    }
}
// (s, t) are the slots of a pair, and removing it gives (l2, r2)
pub open spec fn pdel<L, R>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, s: int, t: int, l2: Tab<MappingPair<L>>, r2: Tab<MappingPair<R>>) -> bool {
    thas(l, s) && thas(r, t) && tv(l, s).id == tv(r, t).id && l2 == tdel(l, s) && r2 == tdel(r, t)
}
pub proof fn cloned_mp<T: Clone>()
    ensures forall|a: MappingPair<T>, b: MappingPair<T>| #[trigger] cloned::<MappingPair<T>>(a, b) ==> cloned::<T>(a.value, b.value) && a.hash == b.hash && a.id == b.id,
{ }

impl<L, R, S> PartialCycleMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    pub open spec fn wf(&self) -> bool {
        &&& lawful::<L, L>() && lawful::<R, R>()
        &&& tok(self.left_set@, &self.hash_builder, self.counter)
        &&& tok(self.right_set@, &self.hash_builder, self.counter)
        &&& tlink(self.left_set@, self.right_set@)
        &&& tlink(self.right_set@, self.left_set@)
        &&& tids(self.left_set@, self.right_set@)
    }
    pub open spec fn inl(&self, c: int) -> bool { tin(self.left_set@, c) }
    pub open spec fn inr(&self, c: int) -> bool { tin(self.right_set@, c) }
    pub open spec fn stl(&self, a: L) -> bool { tst(self.left_set@, a) }
    pub open spec fn str(&self, b: R) -> bool { tst(self.right_set@, b) }
    pub open spec fn frl(&self, a: L) -> bool { tfree(self.left_set@, a) }
    pub open spec fn frr(&self, b: R) -> bool { tfree(self.right_set@, b) }
    pub open spec fn has(&self, a: L, b: R) -> bool { phas(self.left_set@, self.right_set@, a, b) }
    pub open spec fn hasc(&self, c: int, d: int) -> bool { phasc(self.left_set@, self.right_set@, c, d) }
    pub open spec fn hasl(&self, a: L, d: int) -> bool { phasl(self.left_set@, self.right_set@, a, d) }
    pub open spec fn hasr(&self, c: int, b: R) -> bool { phasr(self.left_set@, self.right_set@, c, b) }
    pub open spec fn evl(&self, c: int, res: OptionalPair<L, R>) -> bool { evl(self.left_set@, self.right_set@, c, res) }
    pub open spec fn evr(&self, c: int, res: OptionalPair<L, R>) -> bool { evr(self.left_set@, self.right_set@, c, res) }
    // what two maps with the same contents agree on
    pub open spec fn same(&self, o: &Self) -> bool { self.left_set@ == o.left_set@ && self.right_set@ == o.right_set@ && self.hash_builder == o.hash_builder && self.counter == o.counter }
}
// being paired is having a partner, and the two sides agree on it
pub proof fn paired_means<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &PartialCycleMap<L, R, S>)
    requires m.wf(),
    ensures forall|c: int| #[trigger] tpairc(m.left_set@, c) <==> exists|d: int| #[trigger] m.hasc(c, d),
        forall|d: int| #[trigger] tpairc(m.right_set@, d) <==> exists|c: int| #[trigger] m.hasc(c, d),
        forall|c: int| #[trigger] m.inl(c) <==> tpairc(m.left_set@, c) || tfreec(m.left_set@, c),
        forall|c: int| !(#[trigger] tpairc(m.left_set@, c) && tfreec(m.left_set@, c)),
        forall|c: int| !(#[trigger] tpairc(m.right_set@, c) && tfreec(m.right_set@, c)),
{
    let (l, r) = (m.left_set@, m.right_set@);
    assert forall|c: int| #[trigger] tpairc(l, c) implies exists|d: int| #[trigger] m.hasc(c, d) by {
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c && tv(l, s).hash is Some;
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id;
        assert(m.hasc(c, tv(r, t).value.cls()));
    }
    assert forall|d: int| #[trigger] tpairc(r, d) implies exists|c: int| #[trigger] m.hasc(c, d) by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).value.cls() == d && tv(r, t).hash is Some;
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).id == tv(r, t).id;
        assert(m.hasc(tv(l, s).value.cls(), d));
    }
}
pub mod cnt { use vstd::prelude::*; use super::super::shim::*; use super::MappingPair;
// number of paired / unpaired entries
#[verifier::opaque]
pub open spec fn tcount<T>(t: Tab<MappingPair<T>>, paired: bool) -> nat { t.m.dom().filter(|s: int| (t.m[s].1.hash is Some) == paired).len() }
pub broadcast proof fn tcount1<T>(t: Tab<MappingPair<T>>, s: int, paired: bool)
    ensures #![trigger tcount(tdel(t, s), paired)] tcount(t, paired) == tcount(tdel(t, s), paired) + (if thas(t, s) && (tv(t, s).hash is Some) == paired { 1nat } else { 0 }),
{
    reveal(tcount); reveal(thas); reveal(tv); reveal(tdel);
    let a = t.m.dom().filter(|s: int| (t.m[s].1.hash is Some) == paired);
    let d = tdel(t, s);
    let b = d.m.dom().filter(|s: int| (d.m[s].1.hash is Some) == paired);
    assert(b =~= a.remove(s));
}
pub broadcast proof fn tcount2<T>(t: Tab<MappingPair<T>>, paired: bool)
    ensures #![trigger tcount(t, paired)] tcount(t, paired) <= tlen(t), forall|s: int| tcount(t, paired) == 0 && #[trigger] thas(t, s) ==> (tv(t, s).hash is Some) != paired,
{
    reveal(tcount); reveal(tlen); reveal(thas); reveal(tv);
    let a = t.m.dom().filter(|s: int| (t.m[s].1.hash is Some) == paired);
    vstd::set_lib::lemma_len_subset(a, t.m.dom());
    assert forall|s: int| tcount(t, paired) == 0 && #[trigger] thas(t, s) implies (tv(t, s).hash is Some) != paired by {
        if a.contains(s) { vstd::set::lemma_set_contains_len(a, s); }
    }
}
pub broadcast proof fn tcount3<T>(t: Tab<MappingPair<T>>, paired: bool)
    ensures #![trigger tcount(t, paired)] (forall|s: int| #[trigger] thas(t, s) ==> (tv(t, s).hash is Some) != paired) ==> tcount(t, paired) == 0,
{
    reveal(tcount); reveal(tlen); reveal(thas); reveal(tv);
    let a = t.m.dom().filter(|s: int| (t.m[s].1.hash is Some) == paired);
    if forall|s: int| #[trigger] thas(t, s) ==> (tv(t, s).hash is Some) != paired {
        assert forall|s: int| !a.contains(s) by { if a.contains(s) { assert(thas(t, s)); } }
        assert(a =~= Set::empty());
    }
}
pub broadcast group counts { tcount1, tcount2, tcount3 }
}
pub use cnt::*;

// an item of the map: a pair, or an unpaired left or right item
pub open spec fn titem<L: Eq, R: Eq>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, p: OptionalPair<L, R>) -> bool {
    match p {
        OptionalPair::Neither => false,
        OptionalPair::SomeLeft(a) => tfree(l, a),
        OptionalPair::SomeRight(b) => tfree(r, b),
        OptionalPair::SomeBoth(a, b) => phas(l, r, a, b),
    }
}
// the items after inserting items[0..n] one by one, for an item that was there before iff `base`
pub open spec fn ext_item<L: Hash + Eq, R: Hash + Eq>(base: bool, items: Seq<OptionalPair<L, R>>, n: nat, p: OptionalPair<L, R>) -> bool decreases n {
    if n == 0 { base } else {
        let q = items[n - 1];
        (p == q && !(p is Neither)) || (ext_item(base, items, (n - 1) as nat, p) && !(ol(q) is Some && ol(p) is Some && ol(p).unwrap().cls() == ol(q).unwrap().cls()) && !(or(q) is Some && or(p) is Some && or(p).unwrap().cls() == or(q).unwrap().cls()))
    }
}
pub open spec fn boths<L: Eq, R: Eq>(items: Seq<(L, R)>) -> Seq<OptionalPair<L, R>> { Seq::new(items.len(), |i: int| OptionalPair::SomeBoth(items[i].0, items[i].1)) }
// what retain remembers of the entry holding a
pub open spec fn trip<L>(l: Tab<MappingPair<L>>, a: L) -> (Option<u64>, Option<u64>, u64) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (Some(th(l, s)), tv(l, s).hash, tv(l, s).id)
}
pub open spec fn trip3<L>(l: Tab<MappingPair<L>>, a: L) -> (u64, u64, u64) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (th(l, s), tv(l, s).hash.unwrap(), tv(l, s).id)
}
pub open spec fn tripr<L>(l: Tab<MappingPair<L>>, a: L) -> (Option<u64>, Option<u64>, u64) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (None, Some(th(l, s)), tv(l, s).id)
}
pub open spec fn tids1<T>(l: Tab<MappingPair<T>>) -> bool {
    forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id && tv(l, s).value != tv(l, t).value
}
// equal contents have equal numbers of items
pub proof fn same_len<A: Hash>(l: Tab<MappingPair<A>>, l2: Tab<MappingPair<A>>)
    requires forall|c: int| #[trigger] tin(l, c) ==> tin(l2, c),
      forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).value.cls() != tv(l, t).value.cls(),
    ensures tlen(l) <= tlen(l2),
{
    let f = |s: int| choose|u: int| #[trigger] thas(l2, u) && tv(l2, u).value.cls() == tv(l, s).value.cls();
    assert forall|s: int| #[trigger] thas(l, s) implies thas(l2, f(s)) && tv(l2, f(s)).value.cls() == tv(l, s).value.cls() by { assert(tin(l, tv(l, s).value.cls())); }
    tinj(l, l2, f);
}
impl<L, R, S> PartialCycleMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    pub open spec fn item(&self, p: OptionalPair<L, R>) -> bool {
        match p {
            OptionalPair::Neither => false,
            OptionalPair::SomeLeft(a) => self.frl(a),
            OptionalPair::SomeRight(b) => self.frr(b),
            OptionalPair::SomeBoth(a, b) => self.has(a, b),
        }
    }
    // same pairs and same unpaired items, as far as lookups can tell
    pub open spec fn alike(&self, o: &Self) -> bool {
        &&& forall|c: int, d: int| #![trigger self.hasc(c, d)] #![trigger o.hasc(c, d)] self.hasc(c, d) <==> o.hasc(c, d)
        &&& forall|c: int| #![trigger tfreec(self.left_set@, c)] #![trigger tfreec(o.left_set@, c)] tfreec(self.left_set@, c) <==> tfreec(o.left_set@, c)
        &&& forall|c: int| #![trigger tfreec(self.right_set@, c)] #![trigger tfreec(o.right_set@, c)] tfreec(self.right_set@, c) <==> tfreec(o.right_set@, c)
    }
}
pub proof fn by_class<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &PartialCycleMap<L, R, S>)
    ensures forall|a: L, b: R| #[trigger] m.has(a, b) ==> m.hasc(a.cls(), b.cls()),
        forall|c: int, d: int| #[trigger] m.hasc(c, d) ==> exists|a: L, b: R| #[trigger] m.has(a, b) && a.cls() == c && b.cls() == d,
        forall|a: L| #[trigger] m.frl(a) ==> tfreec(m.left_set@, a.cls()),
{
    assert forall|c: int, d: int| #[trigger] m.hasc(c, d) implies exists|a: L, b: R| #[trigger] m.has(a, b) && a.cls() == c && b.cls() == d by {
        let (s, t) = choose|s: int, t: int| #[trigger] thas(m.left_set@, s) && #[trigger] thas(m.right_set@, t) && tv(m.left_set@, s).value.cls() == c && tv(m.right_set@, t).value.cls() == d && tv(m.left_set@, s).id == tv(m.right_set@, t).id;
        assert(m.has(tv(m.left_set@, s).value, tv(m.right_set@, t).value));
    }
}
pub proof fn alike_len<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &PartialCycleMap<L, R, S>, o: &PartialCycleMap<L, R, S>)
    requires m.wf(), o.wf(), m.alike(o),
    ensures tlen(m.left_set@) == tlen(o.left_set@), tlen(m.right_set@) == tlen(o.right_set@),
{
    paired_means(m);
    paired_means(o);
    assert forall|c: int| #[trigger] tin(m.left_set@, c) implies tin(o.left_set@, c) by {
        assert(m.inl(c));
        if tpairc(m.left_set@, c) { let d = choose|d: int| m.hasc(c, d); assert(o.hasc(c, d)); }
        else { assert(tfreec(o.left_set@, c)); }
    }
    assert forall|c: int| #[trigger] tin(o.left_set@, c) implies tin(m.left_set@, c) by {
        assert(o.inl(c));
        if tpairc(o.left_set@, c) { let d = choose|d: int| o.hasc(c, d); assert(m.hasc(c, d)); }
        else { assert(tfreec(m.left_set@, c)); }
    }
    same_len(m.left_set@, o.left_set@);
    same_len(o.left_set@, m.left_set@);
    assert forall|c: int| #[trigger] tin(m.right_set@, c) implies tin(o.right_set@, c) by {
        assert(m.inr(c));
        if tpairc(m.right_set@, c) { let d = choose|d: int| m.hasc(d, c); assert(o.hasc(d, c)); }
        else { assert(tfreec(o.right_set@, c)); }
    }
    assert forall|c: int| #[trigger] tin(o.right_set@, c) implies tin(m.right_set@, c) by {
        assert(o.inr(c));
        if tpairc(o.right_set@, c) { let d = choose|d: int| o.hasc(d, c); assert(m.hasc(d, c)); }
        else { assert(tfreec(m.right_set@, c)); }
    }
    same_len(m.right_set@, o.right_set@);
    same_len(o.right_set@, m.right_set@);
}
impl<'a, L, R, S> Iter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.left_iter@, self.map_ref.left_set@) }
    pub open spec fn rem(&self, p: OptionalPair<L, R>) -> bool { !(p is SomeRight) && titem(self.left_iter@, self.map_ref.right_set@, p) }
}
impl<'a, L, R, S> PairedIter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.left_iter@, self.map_ref.left_set@) }
    pub open spec fn rem(&self, a: L, b: R) -> bool { phas(self.left_iter@, self.map_ref.right_set@, a, b) }
}
impl<'a, L, R, S> UnpairedIter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.left_iter@, self.map_ref.left_set@) && tsub(self.right_iter@, self.map_ref.right_set@) }
    pub open spec fn rem(&self, p: OptionalPair<L, R>) -> bool { !(p is SomeBoth) && titem(self.left_iter@, self.right_iter@, p) }
    pub open spec fn left(&self) -> nat { tcount(self.left_iter@, false) + tcount(self.right_iter@, false) }
}
impl<'a, L: Hash + Eq, R: Hash + Eq> DrainIter<'a, L, R> {
    pub open spec fn wf(&self) -> bool {
        &&& tlink(self.left_iter@, self.right_ref@) && tlink(self.right_ref@, self.left_iter@) && tids(self.left_iter@, self.right_ref@)
        &&& tids1(self.left_iter@) && tids1(self.right_ref@)
        &&& !self.reset_right_iter ==> self.right_iter@ == self.right_ref@ && self.right_iter.ep() == self.right_ref.ep() && forall|s: int| !#[trigger] thas(self.left_iter@, s)
    }
    pub open spec fn item(&self, p: OptionalPair<L, R>) -> bool { titem(self.left_iter@, self.right_ref@, p) }
    // items still to come
    pub open spec fn left(&self) -> nat { tlen(self.left_iter@) + tcount(self.right_ref@, false) }
}
impl<'a, L: Eq, R: Eq> DrainFilterInner<'a, L, R> {
    pub open spec fn wf(&self) -> bool {
        &&& tlink(self.left_ref@, self.right_ref@) && tlink(self.right_ref@, self.left_ref@) && tids(self.left_ref@, self.right_ref@)
        &&& tids1(self.left_ref@) && tids1(self.right_ref@)
        &&& tsub(self.left_iter@, self.left_ref@) && self.left_iter.ep() == self.left_ref.ep()
        &&& !self.reset_right_iter ==> tsub(self.right_iter@, self.right_ref@) && self.right_iter.ep() == self.right_ref.ep() && forall|s: int| !#[trigger] thas(self.left_iter@, s)
    }
    pub open spec fn item(&self, p: OptionalPair<L, R>) -> bool { titem(self.left_ref@, self.right_ref@, p) }
    // right items still to come
    pub open spec fn rights(&self) -> Tab<MappingPair<R>> { if self.reset_right_iter { self.right_ref@ } else { self.right_iter@ } }
    pub open spec fn rem(&self, p: OptionalPair<L, R>) -> bool {
        match p {
            OptionalPair::Neither => false,
            OptionalPair::SomeLeft(a) => tfree(self.left_iter@, a),
            OptionalPair::SomeRight(b) => tfree(self.rights(), b),
            OptionalPair::SomeBoth(a, b) => phas(self.left_iter@, self.right_ref@, a, b),
        }
    }
}
impl<'a, L, R, S> IntoIt for Iter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R, S> IntoIt for PairedIter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R, S> IntoIt for UnpairedIter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
