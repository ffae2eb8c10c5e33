@@ fn ::equivalent_key_left(k)
props G01 X06 G02 G03 G04
ret res
ensures
  [G01] forall|x: &LeftItem<T>| res.requires((x,)),
  Q::obeys_eq_spec() && Q::obeys_eq_spec() ==> forall|x: &LeftItem<T>, b: bool| res.ensures((x,), b) ==> b == x.value.bor().eq_spec(k),
closure 0
  -> (b: bool) ensures Q::obeys_eq_spec() ==> b == x.value.bor().eq_spec(k)

@@ fn ::equivalent_key_right(k)
props G01 X06 G02 G03 G04
ret res
ensures
  [G01] forall|x: &RightItem<T>| res.requires((x,)),
  Q::obeys_eq_spec() && Q::obeys_eq_spec() ==> forall|x: &RightItem<T>, b: bool| res.ensures((x,), b) ==> b == x.value.bor().eq_spec(k),
closure 0
  -> (b: bool) ensures Q::obeys_eq_spec() ==> b == x.value.bor().eq_spec(k)

@@ fn ::left_with_left_id(id)
props G01 X06 G02 G03 G04 G05
ret res
ensures
  [G01] forall|x: &LeftItem<T>| res.requires((x,)),
  forall|x: &LeftItem<T>, b: bool| res.ensures((x,), b) ==> b == (x.id == id),
closure 0
  -> (b: bool) ensures b == (x.id == id)

@@ fn ::right_with_right_id(id)
props G01 X06 G02 G03 G04 G05
ret res
ensures
  [G01] forall|x: &RightItem<T>| res.requires((x,)),
  forall|x: &RightItem<T>, b: bool| res.ensures((x,), b) ==> b == (x.id == id),
closure 0
  -> (b: bool) ensures b == (x.id == id)

@@ fn ::right_with_left_pair(pair)
props G01 X06 G02 G03
ret res
ensures
  [G01] forall|x: &RightItem<T>| res.requires((x,)),
  forall|x: &RightItem<T>, b: bool| res.ensures((x,), b) ==> b == x.pairs@.contains(*pair),
closure 0
  -> (b: bool) ensures b == x.pairs@.contains(*pair)

@@ fn LeftItem::extract(self)
props G02 G03 G04 G05
ret res
ensures
  [G03] res == self.value,

@@ impl LeftItem:Hash
    open spec fn cls(&self) -> int { self.value.cls() }

@@ fn LeftItem:Hash::hash(self, state)
props G01

@@ fn RightItem::extract(self)
props G02 G03 G04 G05
ret res
ensures
  [G03] res == self.value,

@@ impl RightItem:Hash
    open spec fn cls(&self) -> int { self.value.cls() }

@@ fn RightItem:Hash::hash(self, state)
props G01

@@ fn LeftItem:Clone::clone(self)
props X05
ret res
ensures
  [X05] cloned::<T>(self.value, res.value), res.hash == self.hash, res.id == self.id, res.r_id == self.r_id,

@@ fn RightItem:Clone::clone(self)
props X05
ret res
ensures
  [X05] cloned::<T>(self.value, res.value), res.id == self.id, res.pairs@ == self.pairs@,

@@ fn ID:AddAssign<u64>::add_assign(self, other)
props G01 X06

@@ fn GroupMap::new()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<LeftItem<L>>(), res.right_set@ == tempty::<RightItem<R>>(),res.left_counter.0 <= 64, res.right_counter.0 <= 64,

@@ fn GroupMap::with_capacity(capacity)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<LeftItem<L>>(), res.right_set@ == tempty::<RightItem<R>>(),
  res.left_counter.0 <= 64, res.right_counter.0 <= 64, res.left_set.cap() >= capacity, res.right_set.cap() >= capacity,

@@ fn GroupMap::with_hasher(hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<LeftItem<L>>(), res.right_set@ == tempty::<RightItem<R>>(),
  res.hash_builder == hash_builder, res.left_counter.0 <= 64, res.right_counter.0 <= 64,

@@ fn GroupMap::with_capacity_and_hasher(capacity, hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<LeftItem<L>>(), res.right_set@ == tempty::<RightItem<R>>(),
  res.left_set.cap() >= capacity, res.right_set.cap() >= capacity, res.hash_builder == hash_builder, res.left_counter.0 <= 64, res.right_counter.0 <= 64,

@@ fn GroupMap:Default::default()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<LeftItem<L>>(), res.right_set@ == tempty::<RightItem<R>>(),res.left_counter.0 <= 64, res.right_counter.0 <= 64,

@@ fn GroupMap::hasher(self)
props X05
ret res
ensures
  [X05] *res == self.hash_builder,

@@ fn GroupMap::capacity_left(self)
props X05
ret res
ensures
  [X05] res == self.left_set.cap(), res >= tlen(self.left_set@),

@@ fn GroupMap::len_left(self)
props G01
ret res
ensures
  [G01] res == tlen(self.left_set@), res <= isize::MAX,

@@ fn GroupMap::capacity_right(self)
props X05
ret res
ensures
  [X05] res == self.right_set.cap(), res >= tlen(self.right_set@),

@@ fn GroupMap::len_right(self)
props G01
ret res
ensures
  [G01] res == tlen(self.right_set@), res <= isize::MAX,

@@ fn GroupMap::is_empty(self)
props G01
ret res
requires
  tlen(self.right_set@) == 0 ==> tlen(self.left_set@) == 0,
ensures
  [G01] res == (tlen(self.left_set@) == 0 && tlen(self.right_set@) == 0),
  res ==> (forall|s: int| !#[trigger] thas(self.left_set@, s)) && (forall|s: int| !#[trigger] thas(self.right_set@, s)),
proof
  if tlen(self.left_set@) == 0 { tlen_zero(self.left_set@); }
  if tlen(self.right_set@) == 0 { tlen_zero(self.right_set@); }

@@ fn GroupMap::clear(self)
props G05 G01
ensures
  [G05] final(self).left_set@ == tempty::<LeftItem<L>>(), final(self).right_set@ == tempty::<RightItem<R>>(),
  [G01 G05] final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,

@@ fn GroupMap::contains_left(self, left)
props G01
ret res
requires
  self.wf(),
ensures
  [G01] res == self.inl(left.cls()),

@@ fn GroupMap::contains_right(self, right)
props G01
ret res
requires
  self.wf(),
ensures
  [G01] res == self.inr(right.cls()),

@@ fn GroupMap::are_paired(self, left, right)
props G01 G02 G03 X01
ret res
requires
  self.wf(),
ensures
  [G01] res == self.memc(left.cls(), right.cls()),

@@ fn GroupMap::is_right_paired(self, right)
props G01
ret res
requires
  self.wf(),
ensures
  [G01] res == self.grp(right.cls()),
  res == (self.inr(right.cls()) && !gempc(self.right_set@, right.cls())),
proof
  group_means(self);

@@ fn GroupMap::get_left_inner_with_hash(self, item, hash)
props G01 X06 G05
ret res
requires
  self.wf(), lawful::<Q, Q>(), lawful_borrow::<L, Q>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [G01] match res { None => !self.inl(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn GroupMap::get_right_inner_with_hash(self, item, hash)
props G01 X06 G05
ret res
requires
  self.wf(), lawful::<Q, Q>(), lawful_borrow::<R, Q>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [G01] match res { None => !self.inr(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.right_set@, s) && tv(self.right_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn GroupMap::get_right(self, item)
props G01 X06 X01
ret res
requires
  self.wf(), lawful::<Q, Q>(), lawful_borrow::<L, Q>(),
ensures
  [G01] match res { None => !self.inl(item.cls()), Some(r) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.right_set@, t).value == *r && tv(self.left_set@, s).r_id == tv(self.right_set@, t).id && tv(self.left_set@, s).value.cls() == item.cls() },

@@ fn GroupMap::remove_left(self, item)
props G01 G03 G02 X06
ret res
requires
  old(self).wfo(),
ensures
  [G01] final(self).wfo(), old(self).wf() ==> final(self).wf(),final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G03] match res { Some(x) => old(self).stl(x) && x.cls() == item.cls(), None => *final(self) == *old(self) && !old(self).inl(item.cls()) },
  res is Some ==> exists|s: int| #[trigger] thas(old(self).left_set@, s) && tv(old(self).left_set@, s).value.cls() == item.cls() && final(self).left_set@ == tdel(old(self).left_set@, s) && rdel(old(self).right_set@, final(self).right_set@, (th(old(self).left_set@, s), tv(old(self).left_set@, s).id)),
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> old(self).mem(a, b) && a.cls() != item.cls(),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) && a.cls() != item.cls(),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != item.cls(),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c),

@@ fn GroupMap::remove_right(self, item)
props G01 G03 G02 G04 X06
ret res
requires
  old(self).wf(),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G03] match res { Some((v, y)) => old(self).clr(item.cls(), v, y), None => *final(self) == *old(self) && !old(self).inr(item.cls()) },
  grem(old(self).left_set@, old(self).right_set@, final(self).left_set@, final(self).right_set@, item.cls()),
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> old(self).mem(a, b) && b.cls() != item.cls(),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) && !old(self).meml(a, item.cls()),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b) && b.cls() != item.cls(),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != item.cls(),
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "collect right_item . pairs . iter ()"
  invariant
    self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == old(self).right_counter,
    rrem(old(self).right_set@, self.right_set@, right_item.id),
    lrem(old(self).left_set@, self.left_set@, right_item.id, it__0@),
    forall|p: (u64, ID)| #[trigger] it__0@.contains(p) ==> right_item.pairs@.contains(p),
    forall|a: L| #[trigger] Collect::got(&acc__0, a) <==> gone(old(self).left_set@, self.left_set@, a),
  ensures
    forall|p: (u64, ID)| !it__0@.contains(p),

@@ fn GroupMap::insert(self, left, right)
props G01 G02 X06
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX, !old(self).memc(left.cls(), right.cls()),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G02] forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> (a.cls() == left.cls() && b.cls() == right.cls() && final(self).stl(a) && final(self).str(b)) || (old(self).mem(a, b) && a.cls() != left.cls()),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) || (a == left && !old(self).inl(left.cls())),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b) || (b == right && !old(self).inr(right.cls())),

@@ fn GroupMap::insert_remove(self, left, right)
props G01 G02 X06
ret res
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G02] match res.0 { Some(x) => old(self).stl(x) && x.cls() == left.cls(), None => !old(self).inl(left.cls()) },
  match res.1 { Some((v, y)) => old(self).str(y) && y.cls() == right.cls() && (forall|a: L| #[trigger] v.got(a) <==> old(self).mem(a, y) && a.cls() != left.cls()), None => !old(self).inr(right.cls()) },
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> (a == left && b == right) || (old(self).mem(a, b) && a.cls() != left.cls() && b.cls() != right.cls()),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> a == left || (old(self).stl(a) && a.cls() != left.cls() && !old(self).meml(a, right.cls())),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> b == right || (old(self).str(b) && b.cls() != right.cls()),

@@ fn GroupMap::insert_left(self, left, right)
props G01 G02 X06
ret res
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G02] !old(self).inr(right.cls()) ==> res is None && *final(self) == *old(self),
  old(self).inr(right.cls()) ==> match res { Some(x) => old(self).stl(x) && x.cls() == left.cls(), None => !old(self).inl(left.cls()) },
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> if old(self).inr(right.cls()) { (a == left && b.cls() == right.cls() && old(self).str(b)) || (old(self).mem(a, b) && a.cls() != left.cls()) } else { old(self).mem(a, b) },
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> if old(self).inr(right.cls()) { a == left || (old(self).stl(a) && a.cls() != left.cls()) } else { old(self).stl(a) },
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b),

@@ fn GroupMap::insert_right(self, right)
props G01 G02 G04 X06
ret res
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G02] match res { Some((v, y)) => old(self).clr(right.cls(), v, y), None => !old(self).inr(right.cls()) },
  old(self).insr_rel(right, final(self)),

@@ fn GroupMap::swap_right(self, old__, new)
props G01 G04 X06
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G04] old(self).inr(old__.cls()) && old__.cls() == new.cls() ==> *final(self) == *old(self),
  !old(self).inr(old__.cls()) ==> old(self).insr_rel(new, final(self)),
  old(self).inr(old__.cls()) && old__.cls() != new.cls() ==> forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> (b == new && old(self).meml(a, old__.cls())) || (old(self).mem(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) && old__.cls() != new.cls() ==> forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) && !old(self).meml(a, new.cls()),
  old(self).inr(old__.cls()) && old__.cls() != new.cls() ==> forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> b == new || (old(self).str(b) && b.cls() != new.cls()),
end
  if old(self).inr(old__.cls()) && old__.cls() != new.cls() { assert(swr(old(self).right_set@, self.right_set@, old__.cls(), new, hv(&old(self).hash_builder, new.cls()), old(self).right_counter, true)); }
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "collect r . pairs . drain ()"
  invariant
    forall|p: (u64, ID)| #![trigger Collect::got(&acc__0, p)] #![trigger it__0@.contains(p)] #![trigger gpairs(old(self).right_set@, old__.cls()).contains(p)] gpairs(old(self).right_set@, old__.cls()).contains(p) <==> Collect::got(&acc__0, p) || it__0@.contains(p),
  ensures
    forall|p: (u64, ID)| !it__0@.contains(p),
loopghost 1
  let ghost rs0 = self.right_set;
  let ghost rc0 = self.right_counter;
loop 1 "for set"
  invariant
    self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == rc0, self.right_set == rs0,
    (exists|t: int| #[trigger] thas(rs0@, t) && tv(rs0@, t).value == new) ==> swr(old(self).right_set@, rs0@, old__.cls(), new, new_hash, new_id, true),
    swl(old(self).left_set@, old(self).right_set@, self.left_set@, old__.cls(), new.cls(), new_hash, new_id, it__1@),
    forall|p: (u64, ID)| #[trigger] it__1@.contains(p) ==> gpairs(old(self).right_set@, old__.cls()).contains(p),
  ensures
    forall|p: (u64, ID)| !it__1@.contains(p),

@@ fn GroupMap::swap_right_remove(self, old__, new)
props G01 G04 X06
ret res
requires
  old(self).wf(), old(self).left_counter.0 + 4 <= u64::MAX, old(self).right_counter.0 + 4 <= u64::MAX,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter.0 <= old(self).left_counter.0 + 4, final(self).right_counter.0 <= old(self).right_counter.0 + 4,
  [G04] match res { None => !old(self).inr(old__.cls()) && (*final(self) == *old(self) || old(self).insr_rel(new, final(self))), Some(y) => old(self).str(y) && y.cls() == old__.cls() },
  old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> (b == new && old(self).meml(a, old__.cls())) || (old(self).mem(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) ==> forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) && !(new.cls() != old__.cls() && old(self).meml(a, new.cls())),
  old(self).inr(old__.cls()) ==> forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> b == new || (old(self).str(b) && b.cls() != new.cls() && b.cls() != old__.cls()),
end
  if old(self).inr(old__.cls()) { assert(swr(old(self).right_set@, self.right_set@, old__.cls(), new, hv(&old(self).hash_builder, new.cls()), old(self).right_counter, false)); }
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "collect r . pairs . drain ()"
  invariant
    forall|p: (u64, ID)| #![trigger Collect::got(&acc__0, p)] #![trigger it__0@.contains(p)] #![trigger gpairs(old(self).right_set@, old__.cls()).contains(p)] gpairs(old(self).right_set@, old__.cls()).contains(p) <==> Collect::got(&acc__0, p) || it__0@.contains(p),
  ensures
    forall|p: (u64, ID)| !it__0@.contains(p),
loopghost 1
  let ghost rs0 = self.right_set;
  let ghost rc0 = self.right_counter;
loop 1 "for set"
  invariant
    self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == rc0, self.right_set == rs0,
    (exists|t: int| #[trigger] thas(rs0@, t) && tv(rs0@, t).value == new) ==> swr(old(self).right_set@, rs0@, old__.cls(), new, new_hash, new_id, false),
    swl(old(self).left_set@, old(self).right_set@, self.left_set@, old__.cls(), new.cls(), new_hash, new_id, it__1@),
    forall|p: (u64, ID)| #[trigger] it__1@.contains(p) ==> gpairs(old(self).right_set@, old__.cls()).contains(p),
  ensures
    forall|p: (u64, ID)| !it__1@.contains(p),

@@ fn GroupMap::pair(self, left, right)
props G01 G02 X06
ret res
requires
  old(self).wf(),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G02] res == (old(self).inl(left.cls()) && old(self).inr(right.cls())),
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> if res { (a.cls() == left.cls() && b.cls() == right.cls() && old(self).stl(a) && old(self).str(b)) || (old(self).mem(a, b) && a.cls() != left.cls()) } else { old(self).mem(a, b) },
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b),

@@ fn GroupMap::remove(self, left, right)
props G01 G03 X06
ret res
requires
  old(self).wf(),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G03] match res { Some((v, y)) => old(self).memc(left.cls(), right.cls()) && old(self).clr(right.cls(), v, y), None => !old(self).memc(left.cls(), right.cls()) && *final(self) == *old(self) },
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> old(self).mem(a, b) && !(res is Some && b.cls() == right.cls()),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a) && !(res is Some && old(self).meml(a, right.cls())),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b) && !(res is Some && b.cls() == right.cls()),

@@ fn GroupMap::remove_via_hash_and_id(self, r_hash, id)
props G05 G01 X06
ret res
requires
  old(self).wf(), forall|t: int| #[trigger] thas(old(self).right_set@, t) && tv(old(self).right_set@, t).id == id ==> th(old(self).right_set@, t) == r_hash,
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G05] res is None ==> *final(self) == *old(self) && forall|t: int| #[trigger] thas(old(self).right_set@, t) ==> tv(old(self).right_set@, t).id != id,
  rrem(old(self).right_set@, final(self).right_set@, id), lrem(old(self).left_set@, final(self).left_set@, id, Set::<(u64, ID)>::empty()),
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "collect right . pairs . iter ()"
  invariant
    self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == old(self).right_counter,
    rrem(old(self).right_set@, self.right_set@, right.id),
    lrem(old(self).left_set@, self.left_set@, right.id, it__0@),
    forall|p: (u64, ID)| #[trigger] it__0@.contains(p) ==> right.pairs@.contains(p),
  ensures
    forall|p: (u64, ID)| !it__0@.contains(p),

@@ fn Iter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.right_iter@ == self.right_iter@, res.map_ref == self.map_ref,
  (res.left_iter is Some) == (self.left_iter is Some), res.left_iter is Some ==> res.left_iter.unwrap()@ == self.left_iter.unwrap()@,

@@ fn Iter:Iterator::size_hint(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.0 == self.left(), res.1 == Some(res.0),
loop? 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + it__0.left() == self.left(), self.left() <= usize::MAX,
  ensures
    it__0.left() == 0,

@@ fn Iter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == self.left(),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + it__0.left() == self.left(), self.left() <= usize::MAX,
  ensures
    it__0.left() == 0,

@@ fn PairedIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@, res.map_ref == self.map_ref,

@@ fn UnpairedIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.right_iter@ == self.right_iter@, res.map_ref == self.map_ref,

@@ fn UnpairedIter:Iterator::size_hint(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.0 == gecount(self.right_iter@), res.1 == Some(res.0),
loop? 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + gecount(it__0.right_iter@) == gecount(self.right_iter@), gecount(self.right_iter@) <= usize::MAX,
  ensures
    gecount(it__0.right_iter@) == 0,

@@ fn UnpairedIter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == gecount(self.right_iter@),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + gecount(it__0.right_iter@) == gecount(self.right_iter@), gecount(self.right_iter@) <= usize::MAX,
  ensures
    gecount(it__0.right_iter@) == 0,

@@ fn PairedIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.left_iter@), res.1 == Some(res.0),

@@ fn PairedIter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == tlen(self.left_iter@),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + tlen(it__0.left_iter@) == tlen(self.left_iter@), tlen(self.left_iter@) <= usize::MAX,
  ensures
    tlen(it__0.left_iter@) == 0,

@@ fn Iter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> final(self).left() == 0 && old(self).left() == 0,
  res is Some ==> old(self).left() == final(self).left() + 1,
  forall|o: Option<L>, b: R| #![trigger final(self).rem(o, b)] #![trigger old(self).rem(o, b)] final(self).rem(o, b) <==> old(self).rem(o, b) && !(res is Some && o == odr(res.unwrap().0) && b == *res.unwrap().1),
  match res {
  None => forall|o: Option<L>, b: R| !#[trigger] old(self).rem(o, b),
  Some((o, b)) => old(self).map_ref.item(odr(o), *b) && old(self).rem(odr(o), *b),
  },

@@ fn PairedIter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> tlen(final(self).left_iter@) == 0 && tlen(old(self).left_iter@) == 0,
  res is Some ==> tlen(old(self).left_iter@) == tlen(final(self).left_iter@) + 1,
  match res {
  None => (forall|a: L, b: R| !#[trigger] old(self).rem(a, b)) && (forall|a: L, b: R| !#[trigger] final(self).rem(a, b)),
  Some((x, y)) => old(self).map_ref.mem(*x, *y) && old(self).rem(*x, *y) && forall|a: L, b: R| #![trigger final(self).rem(a, b)] #![trigger old(self).rem(a, b)] final(self).rem(a, b) <==> old(self).rem(a, b) && !(a == *x && b == *y),
  },

@@ fn UnpairedIter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> gecount(final(self).right_iter@) == 0 && gecount(old(self).right_iter@) == 0,
  res is Some ==> gecount(old(self).right_iter@) == gecount(final(self).right_iter@) + 1,
  match res {
  None => (forall|b: R| !#[trigger] old(self).rem(b)) && (forall|b: R| !#[trigger] final(self).rem(b)),
  Some(y) => old(self).map_ref.emp(*y) && old(self).rem(*y) && forall|b: R| #![trigger final(self).rem(b)] #![trigger old(self).rem(b)] final(self).rem(b) <==> old(self).rem(b) && b != *y,
  },
loop 0 "while let Some (item) = self . right_iter . next ()"
  invariant
    self.wf(), self.map_ref == old(self).map_ref, tsub(self.right_iter@, old(self).right_iter@),
    gecount(self.right_iter@) == gecount(old(self).right_iter@),
    forall|b: R| #![trigger self.rem(b)] #![trigger old(self).rem(b)] self.rem(b) <==> old(self).rem(b),
  ensures
    forall|s: int| !#[trigger] thas(self.right_iter@, s),

@@ fn LeftIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@,

@@ fn LeftIter:Iterator::next(self)
props X02
ret res
ensures
  [X02] match res {
  None => final(self).left_iter@ == old(self).left_iter@ && tlen(old(self).left_iter@) == 0,
  Some(x) => exists|s: int| #[trigger] thas(old(self).left_iter@, s) && tv(old(self).left_iter@, s).value == *x && final(self).left_iter@ == tdel(old(self).left_iter@, s),
  },

@@ fn LeftIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.left_iter@), res.1 == Some(res.0),

@@ fn LeftIter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == tlen(self.left_iter@),

@@ fn RightIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.right_iter@ == self.right_iter@,

@@ fn RightIter:Iterator::next(self)
props X02
ret res
ensures
  [X02] match res {
  None => final(self).right_iter@ == old(self).right_iter@ && tlen(old(self).right_iter@) == 0,
  Some(x) => exists|s: int| #[trigger] thas(old(self).right_iter@, s) && tv(old(self).right_iter@, s).value == *x && final(self).right_iter@ == tdel(old(self).right_iter@, s),
  },

@@ fn RightIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.right_iter@), res.1 == Some(res.0),

@@ fn RightIter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == tlen(self.right_iter@),

@@ fn PairIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.iter@, res.map_ref == self.map_ref,

@@ fn PairIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == self.iter@.len(), res.1 == Some(res.0),

@@ fn PairIter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == self.iter@.len(),

@@ fn PairIter:Iterator::next(self)
props X02 G01 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> old(self).iter@.len() == 0 && final(self).iter@.len() == 0,
  res is Some ==> old(self).iter@.len() == final(self).iter@.len() + 1,
  match res {
  None => (forall|a: L| !#[trigger] old(self).rem(a)) && (forall|a: L| !#[trigger] final(self).rem(a)),
  Some(x) => old(self).rem(*x) && forall|a: L| #![trigger final(self).rem(a)] #![trigger old(self).rem(a)] final(self).rem(a) <==> old(self).rem(a) && a != *x,
  },

@@ fn GroupMap::iter(self)
props X02 G01
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self,
  forall|o: Option<L>, b: R| #![trigger self.item(o, b)] #![trigger res.rem(o, b)] res.rem(o, b) <==> self.item(o, b),

@@ fn GroupMap::iter_paired(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.left_iter@ == self.left_set@,
  forall|a: L, b: R| #![trigger self.mem(a, b)] #![trigger res.rem(a, b)] res.rem(a, b) <==> self.mem(a, b),

@@ fn GroupMap::iter_unpaired(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.right_iter@ == self.right_set@,
  forall|b: R| #![trigger self.emp(b)] #![trigger res.rem(b)] res.rem(b) <==> self.emp(b),

@@ fn GroupMap::iter_left(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_set@,

@@ fn GroupMap::iter_right(self)
props X02
ret res
ensures
  [X02] res.right_iter@ == self.right_set@,

@@ fn GroupMap::get_left_iter(self, item)
props G01 X02 X06
ret res
requires
  self.wf(), lawful::<Q, Q>(), lawful_borrow::<R, Q>(),
ensures
  [G01] match res { None => !self.inr(item.cls()), Some(i) => i.wf() && i.map_ref == self && self.inr(item.cls()) && (forall|a: L| #![trigger i.rem(a)] #![trigger self.meml(a, item.cls())] i.rem(a) <==> self.meml(a, item.cls())) },
proof
  group_lists(self);

@@ fn GroupMap::retain_paired(self, f)
props G05 G01 X06
requires
  old(self).wf(),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G05] grown(old(f).trace(), final(f).trace()), once2(final(f).trace(), old(f).trace().len() as int),
  forall|a: L, b: R| old(self).mem(a, b) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #[trigger] final(self).mem(a, b) <==> called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b),
loop 0 "for self . iter_paired ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] #![trigger self.mem(a, b)] self.mem(a, b) && !it__0.rem(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, true)) ==> called(to_drop@, 0, lkey(self.left_set@, a)),
    forall|x: (u64, ID)| #[trigger] called(to_drop@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).r_id == tv(self.right_set@, t).id && x == (th(self.left_set@, s), tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(self.left_set@, s).value, tv(self.right_set@, t).value, true)),
  ensures
    forall|a: L, b: R| !it__0.rem(a, b),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == old(self).right_counter,
    tsub(self.left_set@, old(self).left_set@), rlike(old(self).right_set@, self.right_set@),
    once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] old(self).mem(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, false)) ==> self.mem(a, b),
    forall|a: L, b: R| #![trigger self.mem(a, b)] self.mem(a, b) ==> old(self).mem(a, b),
    forall|a: L, b: R| self.mem(a, b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, true)) ==> called(it__1@, 0, lkey(old(self).left_set@, a)),
    forall|x: (u64, ID)| #[trigger] called(it__1@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(old(self).left_set@, s) && #[trigger] thas(old(self).right_set@, t) && tv(old(self).left_set@, s).r_id == tv(old(self).right_set@, t).id && x == (th(old(self).left_set@, s), tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(old(self).left_set@, s).value, tv(old(self).right_set@, t).value, true)),
  ensures
    it__1@.len() == 0,

@@ fn GroupMap::retain_unpaired(self, f)
props G05 G01 X06
requires
  old(self).wf(),
ensures
  [G01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).left_counter == old(self).left_counter, final(self).right_counter == old(self).right_counter,
  [G05] grown(old(f).trace(), final(f).trace()), once1(final(f).trace(), old(f).trace().len() as int),
  forall|b: R| old(self).emp(b) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (b, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (b, false)),
  forall|a: L, b: R| #![trigger final(self).mem(a, b)] #![trigger old(self).mem(a, b)] final(self).mem(a, b) <==> old(self).mem(a, b),
  forall|b: R| #![trigger final(self).emp(b)] final(self).emp(b) <==> called(final(f).trace(), old(f).trace().len() as int, (b, false)),
  forall|b: R| #![trigger final(self).str(b)] #![trigger old(self).str(b)] final(self).str(b) <==> old(self).str(b) && !called(final(f).trace(), old(f).trace().len() as int, (b, true)),
  forall|a: L| #![trigger final(self).stl(a)] #![trigger old(self).stl(a)] final(self).stl(a) <==> old(self).stl(a),
loop 0 "for self . iter_unpaired ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once1(f.trace(), old(f).trace().len() as int),
    forall|b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (b, false))] #![trigger self.emp(b)] self.emp(b) && !it__0.rem(b) <==> called(f.trace(), old(f).trace().len() as int, (b, true)) || called(f.trace(), old(f).trace().len() as int, (b, false)),
    forall|b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (b, true)) ==> called(to_drop@, 0, rkey(self.right_set@, b)),
    forall|x: (u64, ID)| #[trigger] called(to_drop@, 0, x) ==> exists|t: int| #[trigger] thas(self.right_set@, t) && x == (th(self.right_set@, t), tv(self.right_set@, t).id) && gnone(tv(self.right_set@, t).pairs@) && called(f.trace(), old(f).trace().len() as int, (tv(self.right_set@, t).value, true)),
  ensures
    forall|b: R| !it__0.rem(b),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.hash_builder == old(self).hash_builder, self.left_counter == old(self).left_counter, self.right_counter == old(self).right_counter,
    tsub(self.left_set@, old(self).left_set@), tsub(self.right_set@, old(self).right_set@),
    forall|s: int| #![trigger thas(self.left_set@, s)] #![trigger thas(old(self).left_set@, s)] thas(self.left_set@, s) <==> thas(old(self).left_set@, s),
    once1(f.trace(), old(f).trace().len() as int),
    forall|b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (b, false))] old(self).emp(b) <==> called(f.trace(), old(f).trace().len() as int, (b, true)) || called(f.trace(), old(f).trace().len() as int, (b, false)),
    forall|t: int| #![trigger thas(self.right_set@, t)] #![trigger thas(old(self).right_set@, t)] thas(old(self).right_set@, t) && !thas(self.right_set@, t) ==> gnone(tv(old(self).right_set@, t).pairs@) && called(f.trace(), old(f).trace().len() as int, (tv(old(self).right_set@, t).value, true)),
    forall|b: R| self.str(b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (b, true)) ==> called(it__1@, 0, rkey(old(self).right_set@, b)),
    forall|x: (u64, ID)| #[trigger] called(it__1@, 0, x) ==> exists|t: int| #[trigger] thas(old(self).right_set@, t) && x == (th(old(self).right_set@, t), tv(old(self).right_set@, t).id) && gnone(tv(old(self).right_set@, t).pairs@) && called(f.trace(), old(f).trace().len() as int, (tv(old(self).right_set@, t).value, true)),
  ensures
    it__1@.len() == 0,

@@ fn GroupMap:Clone::clone(self)
props X05
ret res
requires
  self.wf(), lawful_clone::<L>(), lawful_clone::<R>(), lawful_clone_hb::<S>(),
ensures
  [X05] res.wf(), tlen(res.left_set@) == tlen(self.left_set@), tlen(res.right_set@) == tlen(self.right_set@),
  res.alike(self),
  forall|s: int| #[trigger] thas(res.left_set@, s) ==> thas(self.left_set@, s) && cloned::<L>(tv(self.left_set@, s).value, tv(res.left_set@, s).value),
  forall|s: int| #[trigger] thas(res.right_set@, s) ==> thas(self.right_set@, s) && cloned::<R>(tv(self.right_set@, s).value, tv(res.right_set@, s).value),
proof
  cloned_items::<L>(); cloned_items::<R>();

@@ fn GroupMap:PartialEq<GroupMap<L,R,S>>::eq(self, other)
props X01 X06
ret res
requires
  self.wf(), other.wf(),
ensures
  [X01] res == self.alike(other),
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
proof
  eq_means(self, other); group_means(self);
loop 0 "all self . iter ()"
  invariant
    self.wf(), other.wf(), it__0.wf(), it__0.map_ref == self,
    acc__0 ==> forall|a: L, b: R| #[trigger] self.mem(a, b) && !it__0.rem(Some(a), b) ==> other.memc(a.cls(), b.cls()),
    acc__0 ==> forall|b: R| #[trigger] self.emp(b) && !it__0.rem(None, b) ==> other.inr(b.cls()) && !other.grp(b.cls()),
    !acc__0 ==> !within(self, other),
  ensures
    acc__0 ==> within(self, other),

@@ impl GroupMap:Extend<(Option<L>,R)>
    open spec fn ext_pre(&self, items: Seq<(Option<L>, R)>) -> bool { self.wf() && self.left_counter.0 + 64 * items.len() <= u64::MAX && self.right_counter.0 + 64 * items.len() <= u64::MAX && efresh(gs_of(self), items) }
    open spec fn ext_post(&self, items: Seq<(Option<L>, R)>, fin: &Self) -> bool { fin.wf() && fin.hash_builder == self.hash_builder && elike(steps(gs_of(self), items, items.len()), fin) }

@@ fn GroupMap:Extend<(Option<L>,R)>::extend(self, iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "for iter"
  invariant
    self.wf(), self.hash_builder == old(self).hash_builder,
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    self.left_counter.0 + 64 * it__0@.len() <= u64::MAX, self.right_counter.0 + 64 * it__0@.len() <= u64::MAX,
    elike(steps(gs_of(old(self)), iter.items(), (iter.items().len() - it__0@.len()) as nat), self),
  ensures
    it__0@.len() == 0,
loopstart 0
  proof { elike_means(steps(gs_of(old(self)), iter.items(), (iter.items().len() - it__0@.len()) as nat), self); if it__0@.len() > 0 { let q = iter.items()[iter.items().len() - it__0@.len()]; assert(q.1 == it__0@[0].1); } }

@@ impl GroupMap:FromIterator<(Option<L>,R)>
    open spec fn from_pre(items: Seq<(Option<L>, R)>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() && efresh(gs_none::<L, R>(), items) }
    open spec fn from_post(items: Seq<(Option<L>, R)>, r: &Self) -> bool { r.wf() && elike(steps(gs_none::<L, R>(), items, items.len()), r) }

@@ fn GroupMap:FromIterator<(Option<L>,R)>::from_iter(iter)
props X07
proof
  ebases::<L, R, DefaultHashBuilder>();
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop? 0 "for iter"
  invariant
    acc__0.wf(),
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    acc__0.left_counter.0 <= 64 + 64 * (iter.items().len() - it__0@.len()), acc__0.right_counter.0 <= 64 + 64 * (iter.items().len() - it__0@.len()),
    elike(steps(gs_none::<L, R>(), iter.items(), (iter.items().len() - it__0@.len()) as nat), &acc__0),
  ensures
    it__0@.len() == 0,
loopstart 0
  proof { elike_means(steps(gs_none::<L, R>(), iter.items(), (iter.items().len() - it__0@.len()) as nat), &acc__0); if it__0@.len() > 0 { let q = iter.items()[iter.items().len() - it__0@.len()]; assert(q.1 == it__0@[0].1); } }

@@ impl GroupMap:Extend<(L,R)>
    open spec fn ext_pre(&self, items: Seq<(L, R)>) -> bool { self.wf() && self.left_counter.0 + 64 * items.len() <= u64::MAX && self.right_counter.0 + 64 * items.len() <= u64::MAX && efresh(gs_of(self), gsome(items)) }
    open spec fn ext_post(&self, items: Seq<(L, R)>, fin: &Self) -> bool { fin.wf() && fin.hash_builder == self.hash_builder && elike(steps(gs_of(self), gsome(items), items.len()), fin) }

@@ fn GroupMap:Extend<(L,R)>::extend(self, iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "for iter"
  invariant
    self.wf(), self.hash_builder == old(self).hash_builder,
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    self.left_counter.0 + 64 * it__0@.len() <= u64::MAX, self.right_counter.0 + 64 * it__0@.len() <= u64::MAX,
    elike(steps(gs_of(old(self)), gsome(iter.items()), (iter.items().len() - it__0@.len()) as nat), self),
  ensures
    it__0@.len() == 0,
loopstart 0
  proof { elike_means(steps(gs_of(old(self)), gsome(iter.items()), (iter.items().len() - it__0@.len()) as nat), self); if it__0@.len() > 0 { let q = gsome(iter.items())[iter.items().len() - it__0@.len()]; assert(q.1 == it__0@[0].1); } }

@@ impl GroupMap:FromIterator<(L,R)>
    open spec fn from_pre(items: Seq<(L, R)>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() && efresh(gs_none::<L, R>(), gsome(items)) }
    open spec fn from_post(items: Seq<(L, R)>, r: &Self) -> bool { r.wf() && elike(steps(gs_none::<L, R>(), gsome(items), items.len()), r) }

@@ fn GroupMap:FromIterator<(L,R)>::from_iter(iter)
props X07
proof
  ebases::<L, R, DefaultHashBuilder>();
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop? 0 "for iter"
  invariant
    acc__0.wf(),
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    acc__0.left_counter.0 <= 64 + 64 * (iter.items().len() - it__0@.len()), acc__0.right_counter.0 <= 64 + 64 * (iter.items().len() - it__0@.len()),
    elike(steps(gs_none::<L, R>(), gsome(iter.items()), (iter.items().len() - it__0@.len()) as nat), &acc__0),
  ensures
    it__0@.len() == 0,
loopstart 0
  proof { elike_means(steps(gs_none::<L, R>(), gsome(iter.items()), (iter.items().len() - it__0@.len()) as nat), &acc__0); if it__0@.len() > 0 { let q = gsome(iter.items())[iter.items().len() - it__0@.len()]; assert(q.1 == it__0@[0].1); } }
