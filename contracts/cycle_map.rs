// ---- abstract view of a CycleMap ------------------------------------------------------------
// every entry sits under its own hash; ids and classes are unique in a table; ids are below the counter
pub open spec fn tok<T: Hash, S: BuildHasher>(l: Tab<MappingPair<T>>, hb: &S, counter: u64) -> bool {
    &&& forall|s: int| #[trigger] thas(l, s) ==> th(l, s) == hv(hb, tv(l, s).value.cls()) && tv(l, s).id < counter
    &&& forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id && tv(l, s).value.cls() != tv(l, t).value.cls()
}
// every entry of l has its partner in r
pub open spec fn tlink<A, B>(l: Tab<MappingPair<A>>, r: Tab<MappingPair<B>>) -> bool {
    forall|s: int| #[trigger] thas(l, s) ==> exists|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == th(r, t) && tv(r, t).hash == th(l, s)
}
pub open spec fn tin<T: Hash>(l: Tab<MappingPair<T>>, c: int) -> bool {
    exists|s: int| #[trigger] thas(l, s) && tv(l, s).value.cls() == c
}
// a and b are stored and are each other's partner
pub open spec fn phas<L, R>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, a: L, b: R) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value == a && tv(r, t).value == b && tv(l, s).id == tv(r, t).id
}
// same, by equivalence class: what lookups can see
pub open spec fn phasc<L: Hash, R: Hash>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, c: int, d: int) -> bool {
    exists|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).id == tv(r, t).id
}
// a is stored
pub open spec fn tst<T>(l: Tab<MappingPair<T>>, a: T) -> bool { exists|s: int| #[trigger] thas(l, s) && tv(l, s).value == a }
pub proof fn cloned_mp<T: Clone>()
    ensures forall|a: MappingPair<T>, b: MappingPair<T>| #[trigger] cloned::<MappingPair<T>>(a, b) ==> cloned::<T>(a.value, b.value) && a.hash == b.hash && a.id == b.id,
{ }
// (s, t) are the slots of a pair, and removing it gives (l2, r2)
pub open spec fn pdel<L, R>(l: Tab<MappingPair<L>>, r: Tab<MappingPair<R>>, s: int, t: int, l2: Tab<MappingPair<L>>, r2: Tab<MappingPair<R>>) -> bool {
    thas(l, s) && thas(r, t) && tv(l, s).id == tv(r, t).id && l2 == tdel(l, s) && r2 == tdel(r, t)
}
pub open spec fn trip<L>(l: Tab<MappingPair<L>>, a: L) -> (u64, u64, u64) {
    let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).value == a;
    (th(l, s), tv(l, s).hash, tv(l, s).id)
}

impl<L, R, S> CycleMap<L, R, S> where L: Eq + Hash, R: Eq + Hash, S: BuildHasher {
    pub open spec fn wf(&self) -> bool {
        &&& lawful::<L, L>() && lawful::<R, R>()
        &&& tok(self.left_set@, &self.hash_builder, self.counter)
        &&& tok(self.right_set@, &self.hash_builder, self.counter)
        &&& tlink(self.left_set@, self.right_set@)
        &&& tlink(self.right_set@, self.left_set@)
    }
    pub open spec fn inl(&self, c: int) -> bool { tin(self.left_set@, c) }
    pub open spec fn inr(&self, c: int) -> bool { tin(self.right_set@, c) }
    pub open spec fn stl(&self, a: L) -> bool { tst(self.left_set@, a) }
    pub open spec fn str(&self, b: R) -> bool { tst(self.right_set@, b) }
    pub open spec fn has(&self, a: L, b: R) -> bool { phas(self.left_set@, self.right_set@, a, b) }
    pub open spec fn hasc(&self, c: int, d: int) -> bool { phasc(self.left_set@, self.right_set@, c, d) }
    // the pairs after inserting items[0..n] one by one
    pub open spec fn ext_has(&self, items: Seq<(L, R)>, n: nat, a: L, b: R) -> bool decreases n {
        if n == 0 { self.has(a, b) } else {
            (a, b) == items[n - 1] || (self.ext_has(items, (n - 1) as nat, a, b) && a.cls() != items[n - 1].0.cls() && b.cls() != items[n - 1].1.cls())
        }
    }
}
// the two sides of a map have the same number of entries
pub proof fn tlink_len<A, B>(l: Tab<MappingPair<A>>, r: Tab<MappingPair<B>>)
    requires tlink(l, r), tlink(r, l),
      forall|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(l, t) && s != t ==> tv(l, s).id != tv(l, t).id,
      forall|s: int, t: int| #[trigger] thas(r, s) && #[trigger] thas(r, t) && s != t ==> tv(r, s).id != tv(r, t).id,
    ensures tlen(l) == tlen(r),
{
    let f = |s: int| choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id;
    let g = |s: int| choose|t: int| #[trigger] thas(l, t) && tv(l, t).id == tv(r, s).id;
    tinj(l, r, f);
    tinj(r, l, g);
}
// an empty map is well formed
pub proof fn wf_empty<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>)
    requires m.left_set@ == tempty::<MappingPair<L>>(), m.right_set@ == tempty::<MappingPair<R>>(), lawful::<L, L>(), lawful::<R, R>(),
    ensures m.wf(), forall|a: L, b: R| !m.has(a, b),
{ }
// sub-matching of equal size is the same matching
pub proof fn same_pairs<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, o: &CycleMap<L, R, S>)
    requires m.wf(), o.wf(), tlen(m.left_set@) == tlen(o.left_set@),
      forall|a: L, b: R| #[trigger] m.has(a, b) ==> o.hasc(a.cls(), b.cls()),
    ensures forall|c: int, d: int| #![trigger o.hasc(c, d)] #![trigger m.hasc(c, d)] o.hasc(c, d) <==> m.hasc(c, d),
{
    let (l, r, l2, r2) = (m.left_set@, m.right_set@, o.left_set@, o.right_set@);
    assert forall|c: int, d: int| #[trigger] m.hasc(c, d) implies o.hasc(c, d) by {
        let (s, t) = choose|s: int, t: int| #[trigger] thas(l, s) && #[trigger] thas(r, t) && tv(l, s).value.cls() == c && tv(r, t).value.cls() == d && tv(l, s).id == tv(r, t).id;
        assert(m.has(tv(l, s).value, tv(r, t).value));
    }
    let f = |s: int| choose|u: int| #[trigger] thas(l2, u) && tv(l2, u).value.cls() == tv(l, s).value.cls();
    assert forall|s: int| #[trigger] thas(l, s) implies thas(l2, f(s)) && tv(l2, f(s)).value.cls() == tv(l, s).value.cls() by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == th(r, t) && tv(r, t).hash == th(l, s);
        assert(m.has(tv(l, s).value, tv(r, t).value));
        assert(o.hasc(tv(l, s).value.cls(), tv(r, t).value.cls()));
    }
    tinj(l, l2, f);
    assert forall|c: int, d: int| #[trigger] o.hasc(c, d) implies m.hasc(c, d) by {
        let (s2, t2) = choose|s: int, t: int| #[trigger] thas(l2, s) && #[trigger] thas(r2, t) && tv(l2, s).value.cls() == c && tv(r2, t).value.cls() == d && tv(l2, s).id == tv(r2, t).id;
        let s = choose|s: int| #[trigger] thas(l, s) && f(s) == s2;
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == th(r, t) && tv(r, t).hash == th(l, s);
        assert(m.has(tv(l, s).value, tv(r, t).value));
        assert(o.hasc(tv(l, s).value.cls(), tv(r, t).value.cls()));
        assert(m.hasc(tv(l, s).value.cls(), tv(r, t).value.cls()));
    }
}
impl<'a, L, R, S> Iter<'a, L, R, S> where L: Hash + Eq, R: Hash + Eq, S: BuildHasher {
    pub open spec fn wf(&self) -> bool { self.map_ref.wf() && tsub(self.left_iter@, self.map_ref.left_set@) }
    pub open spec fn rem(&self, a: L, b: R) -> bool { phas(self.left_iter@, self.map_ref.right_set@, a, b) }
}
impl<'a, L, R, S> IntoIt for Iter<'a, L, R, S> {
    type It = Self;
    open spec fn into_ok(self, r: Self) -> bool { r == self }
    fn into_it(self) -> (r: Self) { self }
}
impl<'a, L, R> DrainFilterInner<'a, L, R> {
    pub open spec fn wf(&self) -> bool {
        &&& tlink(self.left_ref@, self.right_ref@) && tlink(self.right_ref@, self.left_ref@)
        &&& tsub(self.left_iter@, self.left_ref@)
        &&& self.left_iter.ep() == self.left_ref.ep()
        &&& forall|s: int, t: int| #[trigger] thas(self.left_ref@, s) && #[trigger] thas(self.left_ref@, t) && s != t ==> tv(self.left_ref@, s).id != tv(self.left_ref@, t).id && tv(self.left_ref@, s).value != tv(self.left_ref@, t).value
        &&& forall|s: int, t: int| #[trigger] thas(self.right_ref@, s) && #[trigger] thas(self.right_ref@, t) && s != t ==> tv(self.right_ref@, s).id != tv(self.right_ref@, t).id && tv(self.right_ref@, s).value != tv(self.right_ref@, t).value
    }
    pub open spec fn has(&self, a: L, b: R) -> bool { phas(self.left_ref@, self.right_ref@, a, b) }
    pub open spec fn rem(&self, a: L, b: R) -> bool { phas(self.left_iter@, self.right_ref@, a, b) }
}
// equal matchings have the same size
pub proof fn same_len<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, o: &CycleMap<L, R, S>)
    requires m.wf(), o.wf(), forall|c: int, d: int| #[trigger] m.hasc(c, d) ==> o.hasc(c, d),
    ensures tlen(m.left_set@) <= tlen(o.left_set@),
{
    let (l, r, l2, r2) = (m.left_set@, m.right_set@, o.left_set@, o.right_set@);
    let f = |s: int| choose|u: int| #[trigger] thas(l2, u) && tv(l2, u).value.cls() == tv(l, s).value.cls();
    assert forall|s: int| #[trigger] thas(l, s) implies thas(l2, f(s)) && tv(l2, f(s)).value.cls() == tv(l, s).value.cls() by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == th(r, t) && tv(r, t).hash == th(l, s);
        assert(m.hasc(tv(l, s).value.cls(), tv(r, t).value.cls()));
        assert(o.hasc(tv(l, s).value.cls(), tv(r, t).value.cls()));
    }
    tinj(l, l2, f);
}

// both sides have the same number of items
pub proof fn both_len<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>)
    requires m.wf(),
    ensures tlen(m.left_set@) == tlen(m.right_set@),
{
    let (l, r) = (m.left_set@, m.right_set@);
    let f = |s: int| choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id;
    assert forall|s: int| #[trigger] thas(l, s) implies thas(r, f(s)) && tv(r, f(s)).id == tv(l, s).id by {
        let t = choose|t: int| #[trigger] thas(r, t) && tv(r, t).id == tv(l, s).id && tv(l, s).hash == th(r, t) && tv(r, t).hash == th(l, s);
        assert(thas(r, t) && tv(r, t).id == tv(l, s).id);
    }
    let g = |t: int| choose|s: int| #[trigger] thas(l, s) && tv(l, s).id == tv(r, t).id;
    assert forall|t: int| #[trigger] thas(r, t) implies thas(l, g(t)) && tv(l, g(t)).id == tv(r, t).id by {
        let s = choose|s: int| #[trigger] thas(l, s) && tv(l, s).id == tv(r, t).id && tv(r, t).hash == th(l, s) && tv(l, s).hash == th(r, t);
        assert(thas(l, s) && tv(l, s).id == tv(r, t).id);
    }
    tinj(l, r, f);
    tinj(r, l, g);
}

// the pairs after inserting items[0..n] one by one into an empty map
pub open spec fn from_has<L: Hash, R: Hash>(items: Seq<(L, R)>, n: nat, a: L, b: R) -> bool decreases n {
    if n == 0 { false } else {
        (a, b) == items[n - 1] || (from_has(items, (n - 1) as nat, a, b) && a.cls() != items[n - 1].0.cls() && b.cls() != items[n - 1].1.cls())
    }
}
pub proof fn ext_from<L: Eq + Hash, R: Eq + Hash, S: BuildHasher>(m: &CycleMap<L, R, S>, items: Seq<(L, R)>, n: nat)
    requires forall|x: L, y: R| !m.has(x, y),
    ensures forall|a: L, b: R| #[trigger] m.ext_has(items, n, a, b) == from_has(items, n, a, b),
    decreases n,
{
    if n > 0 { ext_from(m, items, (n - 1) as nat); }
    assert forall|a: L, b: R| #[trigger] m.ext_has(items, n, a, b) == from_has(items, n, a, b) by { if n > 0 { assert(m.ext_has(items, (n - 1) as nat, a, b) == from_has(items, (n - 1) as nat, a, b)); } }
}
