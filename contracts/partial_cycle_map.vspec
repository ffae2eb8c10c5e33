@@ fn ::equivalent_key(k)
props P01 X06 P02 P03 P04
ret res
ensures
  [P01] forall|x: &MappingPair<K>| res.requires((x,)),
  Q::obeys_eq_spec() ==> forall|x: &MappingPair<K>, b: bool| res.ensures((x,), b) ==> b == k.eq_spec(&x.value),
closure 0
  -> (b: bool) ensures Q::obeys_eq_spec() ==> b == k.eq_spec(&x.value)

@@ fn ::hash_and_id(hash, id)
props P01 X06 P02 P03 P04
ret res
ensures
  [P01] forall|x: &MappingPair<Q>| res.requires((x,)),
  forall|x: &MappingPair<Q>, b: bool| res.ensures((x,), b) ==> b == (x.id == id && x.hash == Some(hash)),
closure 0
  -> (b: bool) ensures b == (x.id == id && x.hash == Some(hash))

@@ fn ::just_id(id)
props P05 P02 P03 X06
ret res
ensures
  [P05] forall|x: &MappingPair<Q>| res.requires((x,)),
  forall|x: &MappingPair<Q>, b: bool| res.ensures((x,), b) ==> b == (x.id == id),
closure 0
  -> (b: bool) ensures b == (x.id == id)

@@ fn MappingPair::extract(self)
props P02 P03 P04 P05
ret res
ensures
  [P02] res == self.value,

@@ impl MappingPair:Hash
    open spec fn cls(&self) -> int { self.value.cls() }

@@ fn MappingPair:Hash::hash(self, state)
props P01

@@ fn MappingPair:Clone::clone(self)
props X05
ret res
ensures
  [X05] cloned::<T>(self.value, res.value), res.hash == self.hash, res.id == self.id,

@@ fn PartialCycleMap::new()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(), res.counter <= 64,

@@ fn PartialCycleMap::with_capacity(capacity)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(), res.counter <= 64,
  res.left_set.cap() >= capacity, res.right_set.cap() >= capacity,

@@ fn PartialCycleMap::with_hasher(hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(),
  res.hash_builder == hash_builder, res.counter <= 64,

@@ fn PartialCycleMap::with_capacity_and_hasher(capacity, hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(),
  res.left_set.cap() >= capacity, res.right_set.cap() >= capacity,
  res.hash_builder == hash_builder, res.counter <= 64,

@@ fn PartialCycleMap:Default::default()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(),
  res.counter <= 64,

@@ fn PartialCycleMap::hasher(self)
props X05
ret res
ensures
  [X05] *res == self.hash_builder,

@@ fn PartialCycleMap::capacity_left(self)
props X05
ret res
ensures
  [X05] res == self.left_set.cap(), res >= tlen(self.left_set@),

@@ fn PartialCycleMap::len_left(self)
props P01
ret res
ensures
  [P01] res == tlen(self.left_set@), res <= isize::MAX,

@@ fn PartialCycleMap::capacity_right(self)
props X05
ret res
ensures
  [X05] res == self.right_set.cap(), res >= tlen(self.right_set@),

@@ fn PartialCycleMap::len_right(self)
props P01
ret res
ensures
  [P01] res == tlen(self.right_set@), res <= isize::MAX,

@@ fn PartialCycleMap::is_empty(self)
props P01
ret res
ensures
  [P01] res == (tlen(self.left_set@) == 0 && tlen(self.right_set@) == 0),
  res ==> (forall|s: int| !#[trigger] thas(self.left_set@, s)) && (forall|s: int| !#[trigger] thas(self.right_set@, s)),
proof
  if tlen(self.left_set@) == 0 { tlen_zero(self.left_set@); }
  if tlen(self.right_set@) == 0 { tlen_zero(self.right_set@); }

@@ fn PartialCycleMap::clear(self)
props P05 P01
ensures
  [P05] final(self).left_set@ == tempty::<MappingPair<L>>(), final(self).right_set@ == tempty::<MappingPair<R>>(),
  [P01 P05] final(self).hash_builder == old(self).hash_builder,

@@ fn PartialCycleMap::insert(self, left, right)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 16 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 16,
  [P02] forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == left && b == right) || (old(self).has(a, b) && a.cls() != left.cls() && b.cls() != right.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && a.cls() != left.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && b.cls() != right.cls(),
  forall|p: OptionalPair<L, R>| #[trigger] final(self).item(p) <==> p == OptionalPair::SomeBoth(left, right) || (old(self).item(p) && !(ol(p) is Some && ol(p).unwrap().cls() == left.cls()) && !(or(p) is Some && or(p).unwrap().cls() == right.cls())),
  old(self).evl(left.cls(), res.0),
  if old(self).hasc(left.cls(), right.cls()) { res.1 is Neither } else { old(self).evr(right.cls(), res.1) },
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> c == left.cls() || (old(self).inl(c) && !(ol(res.1) is Some && c == ol(res.1).unwrap().cls())),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> c == right.cls() || (old(self).inr(c) && !(or(res.0) is Some && c == or(res.0).unwrap().cls())),

@@ fn PartialCycleMap::insert_left(self, left)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && a.cls() != left.cls(),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> a == left || (old(self).frl(a) && a.cls() != left.cls()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  old(self).evl(left.cls(), res),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> c == left.cls() || old(self).inl(c),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && !(or(res) is Some && c == or(res).unwrap().cls()),

@@ fn PartialCycleMap::remove_via_left(self, item)
props P01 P03 P02 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P03] old(self).evl(item.cls(), res), res is Neither ==> *final(self) == *old(self),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && a.cls() != item.cls(),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && a.cls() != item.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != item.cls(),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && !(or(res) is Some && c == or(res).unwrap().cls()),
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is SomeBoth ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).value == ol(res).unwrap() && tv(old(self).right_set@, t).value == or(res).unwrap(),
  res is SomeLeft ==> final(self).right_set@ == old(self).right_set@ && exists|s: int| #[trigger] thas(old(self).left_set@, s) && tv(old(self).left_set@, s).value == ol(res).unwrap() && final(self).left_set@ == tdel(old(self).left_set@, s),

@@ fn PartialCycleMap::remove_left(self, item)
props P01 P03 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P03] match res { Some(x) => old(self).stl(x) && x.cls() == item.cls(), None => *final(self) == *old(self) && !old(self).inl(item.cls()) },
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && a.cls() != item.cls(),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && a.cls() != item.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) || (res is Some && old(self).has(res.unwrap(), b)),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != item.cls(),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c),

@@ fn PartialCycleMap::is_left_paired(self, left)
props P01 P02
ret res
requires
  self.wf(),
ensures
  [P01] res == tpairc(self.left_set@, left.cls()),

@@ fn PartialCycleMap::contains_left(self, left)
props P01 P04
ret res
requires
  self.wf(),
ensures
  [P01] res == self.inl(left.cls()),

@@ fn PartialCycleMap::insert_right(self, right)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && b.cls() != right.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> b == right || (old(self).frr(b) && b.cls() != right.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  old(self).evr(right.cls(), res),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> c == right.cls() || old(self).inr(c),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && !(ol(res) is Some && c == ol(res).unwrap().cls()),

@@ fn PartialCycleMap::remove_via_right(self, item)
props P01 P03 P02 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P03] old(self).evr(item.cls(), res), res is Neither ==> *final(self) == *old(self),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && b.cls() != item.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && b.cls() != item.cls(),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != item.cls(),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && !(ol(res) is Some && c == ol(res).unwrap().cls()),
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is SomeBoth ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).value == ol(res).unwrap() && tv(old(self).right_set@, t).value == or(res).unwrap(),
  res is SomeRight ==> final(self).left_set@ == old(self).left_set@ && exists|s: int| #[trigger] thas(old(self).right_set@, s) && tv(old(self).right_set@, s).value == or(res).unwrap() && final(self).right_set@ == tdel(old(self).right_set@, s),

@@ fn PartialCycleMap::remove_right(self, item)
props P01 P03 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P03] match res { Some(x) => old(self).str(x) && x.cls() == item.cls(), None => *final(self) == *old(self) && !old(self).inr(item.cls()) },
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && b.cls() != item.cls(),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && b.cls() != item.cls(),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) || (res is Some && old(self).has(a, res.unwrap())),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != item.cls(),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c),

@@ fn PartialCycleMap::is_right_paired(self, right)
props P01 P02
ret res
requires
  self.wf(),
ensures
  [P01] res == tpairc(self.right_set@, right.cls()),

@@ fn PartialCycleMap::contains_right(self, right)
props P01 P04
ret res
requires
  self.wf(),
ensures
  [P01] res == self.inr(right.cls()),

@@ fn PartialCycleMap::are_paired(self, left, right)
props P01 P02 P03 P04 X01
ret res
requires
  self.wf(),
ensures
  [P01] res == self.hasc(left.cls(), right.cls()),

@@ fn PartialCycleMap::remove(self, left, right)
props P01 P03 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P03] match res {
  Some((l, r)) => old(self).has(l, r) && l.cls() == left.cls() && r.cls() == right.cls(),
  None => !old(self).hasc(left.cls(), right.cls()) && *final(self) == *old(self),
  },
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && !(a.cls() == left.cls() && b.cls() == right.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),

@@ fn PartialCycleMap::remove_via_hashes_and_id(self, l_hash, r_hash, id)
props P05 X06
ret res
requires
  old(self).wf(),
  forall|s: int| #[trigger] thas(old(self).left_set@, s) && tv(old(self).left_set@, s).id == id && tv(old(self).left_set@, s).hash is Some ==> th(old(self).left_set@, s) == l_hash && tv(old(self).left_set@, s).hash == Some(r_hash),
ensures
  [P05] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is Neither ==> *final(self) == *old(self) && forall|s: int| #[trigger] thas(old(self).left_set@, s) && tv(old(self).left_set@, s).hash is Some ==> tv(old(self).left_set@, s).id != id,
  res is Neither || res is SomeBoth,
  res is SomeBoth ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).id == id && tv(old(self).left_set@, s).value == ol(res).unwrap() && tv(old(self).right_set@, t).value == or(res).unwrap(),

@@ fn PartialCycleMap::get_left(self, item)
props P01 X02 X01
ret res
requires
  self.wf(), lawful::<Q, R>(),
ensures
  [P01] match res { None => !tpairc(self.right_set@, item.cls()), Some(l) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).value == *l && tv(self.left_set@, s).id == tv(self.right_set@, t).id && tv(self.right_set@, t).value.cls() == item.cls() },

@@ fn PartialCycleMap::get_right(self, item)
props P01 X02 X06 X01
ret res
requires
  self.wf(), lawful::<Q, L>(),
ensures
  [P01] match res { None => !tpairc(self.left_set@, item.cls()), Some(r) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.right_set@, t).value == *r && tv(self.left_set@, s).id == tv(self.right_set@, t).id && tv(self.left_set@, s).value.cls() == item.cls() },

@@ fn PartialCycleMap::get_left_inner(self, item)
props P01 P05 X06
ret res
requires
  self.wf(),
ensures
  [P01] match res { None => !self.inl(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn PartialCycleMap::get_left_inner_with_hash(self, item, hash)
props P01 P05 X06
ret res
requires
  self.wf(), lawful::<Q, L>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [P01] match res { None => !self.inl(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn PartialCycleMap::get_right_inner(self, item)
props P01 P05 X06
ret res
requires
  self.wf(),
ensures
  [P01] match res { None => !self.inr(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.right_set@, s) && tv(self.right_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn PartialCycleMap::get_right_inner_with_hash(self, item, hash)
props P01 P05 X06
ret res
requires
  self.wf(), lawful::<Q, R>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [P01] match res { None => !self.inr(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.right_set@, s) && tv(self.right_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn PartialCycleMap::get_via_hashes_and_id(self, l_hash, r_hash, id)
props P01 X02 X06
ret res
requires
  self.wf(), exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s).id == id && th(self.left_set@, s) == l_hash && tv(self.left_set@, s).hash == Some(r_hash),
ensures
  [P01] match res { None => false, Some((l, r)) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).id == id && tv(self.right_set@, t).id == id && tv(self.left_set@, s).value == *l && tv(self.right_set@, t).value == *r },

@@ fn PartialCycleMap::shrink_to_left(self, min_capacity)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).right_set.cap() >= old(self).right_set.cap(),
  min_capacity <= old(self).left_set.cap() ==> final(self).left_set.cap() >= min_capacity,

@@ fn PartialCycleMap::reserve_left(self, additional)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).right_set.cap() >= old(self).right_set.cap(),
  final(self).left_set.cap() >= tlen(final(self).left_set@) + additional,

@@ fn PartialCycleMap::try_reserve_left(self, additional)
props X05
ret res
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).right_set.cap() >= old(self).right_set.cap(),
  res is Ok ==> final(self).left_set.cap() >= tlen(final(self).left_set@) + additional,

@@ fn PartialCycleMap::shrink_to_right(self, min_capacity)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).left_set.cap() >= old(self).left_set.cap(),
  min_capacity <= old(self).right_set.cap() ==> final(self).right_set.cap() >= min_capacity,

@@ fn PartialCycleMap::reserve_right(self, additional)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).left_set.cap() >= old(self).left_set.cap(),
  final(self).right_set.cap() >= tlen(final(self).right_set@) + additional,

@@ fn PartialCycleMap::try_reserve_right(self, additional)
props X05
ret res
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).left_set.cap() >= old(self).left_set.cap(),
  res is Ok ==> final(self).right_set.cap() >= tlen(final(self).right_set@) + additional,

@@ fn PartialCycleMap::shrink_to_fit(self)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,

@@ fn PartialCycleMap::pair(self, left, right)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] res == (tfreec(old(self).left_set@, left.cls()) && tfreec(old(self).right_set@, right.cls())),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) || (res && a.cls() == left.cls() && b.cls() == right.cls() && old(self).frl(a) && old(self).frr(b)),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && !(res && a.cls() == left.cls()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && !(res && b.cls() == right.cls()),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c),

@@ fn PartialCycleMap::pair_forced(self, l, r)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] (old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> res is Neither && final(self).counter == old(self).counter,
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> if (old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) { old(self).has(a, b) } else { (a.cls() == l.cls() && b.cls() == r.cls() && old(self).stl(a) && old(self).str(b)) || (old(self).has(a, b) && a.cls() != l.cls() && b.cls() != r.cls()) },
  !(old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> match ol(res) { Some(x) => old(self).hasl(*x, r.cls()), None => tfreec(old(self).right_set@, r.cls()) },
  !(old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> match or(res) { Some(y) => old(self).hasr(l.cls(), *y), None => tfreec(old(self).left_set@, l.cls()) },
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> (old(self).frl(a) && ((old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) || a.cls() != l.cls())) || (ol(res) is Some && a == *ol(res).unwrap()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> (old(self).frr(b) && ((old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) || b.cls() != r.cls())) || (or(res) is Some && b == *or(res).unwrap()),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c),

@@ fn PartialCycleMap::pair_forced_remove(self, l, r)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] (old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> res is Neither && final(self).counter == old(self).counter,
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> if (old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) { old(self).has(a, b) } else { (a.cls() == l.cls() && b.cls() == r.cls() && old(self).stl(a) && old(self).str(b)) || (old(self).has(a, b) && a.cls() != l.cls() && b.cls() != r.cls()) },
  !(old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> match ol(res) { Some(x) => old(self).hasl(x, r.cls()), None => tfreec(old(self).right_set@, r.cls()) },
  !(old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) ==> match or(res) { Some(y) => old(self).hasr(l.cls(), y), None => tfreec(old(self).left_set@, l.cls()) },
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && ((old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) || a.cls() != l.cls()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && ((old(self).hasc(l.cls(), r.cls()) || !old(self).inl(l.cls()) || !old(self).inr(r.cls())) || b.cls() != r.cls()),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && !(ol(res) is Some && c == ol(res).unwrap().cls()),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && !(or(res) is Some && c == or(res).unwrap().cls()),

@@ fn PartialCycleMap::unpair(self, left, right)
props P01 P02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 4,
  [P02] res == old(self).hasc(left.cls(), right.cls()),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && !(a.cls() == left.cls() && b.cls() == right.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) || (res && a.cls() == left.cls() && old(self).stl(a)),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) || (res && b.cls() == right.cls() && old(self).str(b)),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c),

@@ fn PartialCycleMap::swap_left_eq_check(self, old__, new, new_hash)
props P01 P04 X06
ret res
requires
  old(self).wf(), new_hash == hv(&old(self).hash_builder, new.cls()),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] if (old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).inl(old__.cls())) { old(self).evl(new.cls(), res) && !(res is Neither) } else { res is Neither && *final(self) == *old(self) },
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && !((old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).inl(old__.cls())) && a.cls() == new.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && !((old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).inl(old__.cls())) && a.cls() == new.cls()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && !((old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).inl(old__.cls())) && c == new.cls()),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && !(or(res) is Some && c == or(res).unwrap().cls()),

@@ fn PartialCycleMap::swap_left(self, old__, new)
props P01 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] !old(self).inl(old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).inl(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  old(self).inl(old__.cls()) ==> match or(res) { Some(e) => old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).evl(new.cls(), e), None => !(old(self).inl(new.cls()) && old__.cls() != new.cls()) },
  old(self).inl(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).inl(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> (a == new && old(self).frl(ol(res).unwrap())) || (old(self).frl(a) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).inl(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  old(self).inl(old__.cls()) ==> forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> c == new.cls() || (old(self).inl(c) && c != old__.cls()),

@@ fn PartialCycleMap::swap_left_checked(self, old__, expected, new)
props P01 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] !old(self).hasc(old__.cls(), expected.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).hasc(old__.cls(), expected.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  old(self).hasc(old__.cls(), expected.cls()) ==> match or(res) { Some(e) => old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).evl(new.cls(), e), None => !(old(self).inl(new.cls()) && old__.cls() != new.cls()) },
  old(self).hasc(old__.cls(), expected.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).hasc(old__.cls(), expected.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> (a == new && old(self).frl(ol(res).unwrap())) || (old(self).frl(a) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).hasc(old__.cls(), expected.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  old(self).hasc(old__.cls(), expected.cls()) ==> forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> c == new.cls() || (old(self).inl(c) && c != old__.cls()),

@@ fn PartialCycleMap::swap_left_or_insert(self, old__, new, to_insert)
props P01 P04 X06
ret res
requires
  old(self).wf(), old(self).counter + 64 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 64,
  [P04] old(self).inl(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  old(self).inl(old__.cls()) ==> match or(res) { Some(e) => old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).evl(new.cls(), e), None => !(old(self).inl(new.cls()) && old__.cls() != new.cls()) },
  old(self).inl(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).inl(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> (a == new && old(self).frl(ol(res).unwrap())) || (old(self).frl(a) && a.cls() != new.cls() && a.cls() != old__.cls()),
  old(self).inl(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
  old(self).inl(old__.cls()) ==> forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> c == new.cls() || (old(self).inl(c) && c != old__.cls()),
  !old(self).inl(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == new && b == to_insert) || (old(self).has(a, b) && a.cls() != new.cls() && b.cls() != to_insert.cls()),
  !old(self).inl(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && a.cls() != new.cls(),
  !old(self).inl(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && b.cls() != to_insert.cls(),
  !old(self).inl(old__.cls()) ==> match (old(self).inl(new.cls()), old(self).inr(to_insert.cls()) && !old(self).hasc(new.cls(), to_insert.cls())) {
  (false, false) => res is Neither,
  (true, false) => res is SomeRight && old(self).evl(new.cls(), or(res).unwrap()),
  (false, true) => res is SomeRight && old(self).evr(to_insert.cls(), or(res).unwrap()),
  (true, true) => res is SomeBoth && ol(res).unwrap().cls() == new.cls() && old(self).stl(ol(res).unwrap()) && old(self).evr(to_insert.cls(), or(res).unwrap()),
  },

@@ fn PartialCycleMap::swap_right_eq_check(self, old__, new, new_hash)
props P01 P04 X06
ret res
requires
  old(self).wf(), new_hash == hv(&old(self).hash_builder, new.cls()),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] if (old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).inr(old__.cls())) { old(self).evr(new.cls(), res) && !(res is Neither) } else { res is Neither && *final(self) == *old(self) },
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && !((old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).inr(old__.cls())) && b.cls() == new.cls()),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && !((old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).inr(old__.cls())) && b.cls() == new.cls()),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && !((old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).inr(old__.cls())) && c == new.cls()),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && !(ol(res) is Some && c == ol(res).unwrap().cls()),

@@ fn PartialCycleMap::swap_right(self, old__, new)
props P01 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] !old(self).inr(old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).inr(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  old(self).inr(old__.cls()) ==> match or(res) { Some(e) => old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).evr(new.cls(), e), None => !(old(self).inr(new.cls()) && old__.cls() != new.cls()) },
  old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> (b == new && old(self).frr(ol(res).unwrap())) || (old(self).frr(b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  old(self).inr(old__.cls()) ==> forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> c == new.cls() || (old(self).inr(c) && c != old__.cls()),

@@ fn PartialCycleMap::swap_right_checked(self, old__, expected, new)
props P01 P04 X06
ret res
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P04] !old(self).hasc(expected.cls(), old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).hasc(expected.cls(), old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  old(self).hasc(expected.cls(), old__.cls()) ==> match or(res) { Some(e) => old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).evr(new.cls(), e), None => !(old(self).inr(new.cls()) && old__.cls() != new.cls()) },
  old(self).hasc(expected.cls(), old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).hasc(expected.cls(), old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> (b == new && old(self).frr(ol(res).unwrap())) || (old(self).frr(b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).hasc(expected.cls(), old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  old(self).hasc(expected.cls(), old__.cls()) ==> forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> c == new.cls() || (old(self).inr(c) && c != old__.cls()),

@@ fn PartialCycleMap::swap_right_or_insert(self, old__, new, to_insert)
props P01 P04 X06
ret res
requires
  old(self).wf(), old(self).counter + 64 <= u64::MAX,
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 64,
  [P04] old(self).inr(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  old(self).inr(old__.cls()) ==> match or(res) { Some(e) => old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).evr(new.cls(), e), None => !(old(self).inr(new.cls()) && old__.cls() != new.cls()) },
  old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> (b == new && old(self).frr(ol(res).unwrap())) || (old(self).frr(b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  old(self).inr(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  old(self).inr(old__.cls()) ==> forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> c == new.cls() || (old(self).inr(c) && c != old__.cls()),
  !old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == to_insert && b == new) || (old(self).has(a, b) && a.cls() != to_insert.cls() && b.cls() != new.cls()),
  !old(self).inr(old__.cls()) ==> forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a) && a.cls() != to_insert.cls(),
  !old(self).inr(old__.cls()) ==> forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b) && b.cls() != new.cls(),
  !old(self).inr(old__.cls()) ==> match (old(self).inl(to_insert.cls()), old(self).inr(new.cls()) && !old(self).hasc(to_insert.cls(), new.cls())) {
  (false, false) => res is Neither,
  (true, false) => res is SomeRight && old(self).evl(to_insert.cls(), or(res).unwrap()),
  (false, true) => res is SomeRight && old(self).evr(new.cls(), or(res).unwrap()),
  (true, true) => res is SomeBoth && ol(res).unwrap().cls() == new.cls() && old(self).str(ol(res).unwrap()) && old(self).evl(to_insert.cls(), or(res).unwrap()),
  },

@@ fn PartialCycleMap::iter(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.left_iter@ == self.left_set@,
  forall|p: OptionalPair<L, R>| #![trigger self.item(p)] #![trigger res.rem(p)] res.rem(p) <==> self.item(p) && !(p is SomeRight),

@@ fn PartialCycleMap::iter_paired(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.left_iter@ == self.left_set@,
  forall|a: L, b: R| #![trigger self.has(a, b)] #![trigger res.rem(a, b)] res.rem(a, b) <==> self.has(a, b),

@@ fn PartialCycleMap::iter_unpaired(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.left_iter@ == self.left_set@, res.right_iter@ == self.right_set@,
  forall|p: OptionalPair<L, R>| #![trigger self.item(p)] #![trigger res.rem(p)] res.rem(p) <==> self.item(p) && !(p is SomeBoth),

@@ fn PartialCycleMap::iter_left(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.left_set@,

@@ fn PartialCycleMap::iter_right(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.right_set@,

@@ fn PartialCycleMap::drain(self)
props P05
ret res
requires
  old(self).wf(),
ensures
  [P05] res.left_iter@ == old(self).left_set@, *res.right_ref == old(self).right_set, *final(res.right_ref) == final(self).right_set, res.wf(),
  final(self).left_set@ == tempty::<MappingPair<L>>(),
  final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  (forall|s: int| !#[trigger] thas(final(self).right_set@, s)) ==> final(self).wf(),

@@ fn PartialCycleMap::drain_filter(self, f)
props P05
ret res
requires
  old(self).wf(),
ensures
  [P05] res.f == f, res.inner.wf(), *res.inner.left_ref == old(self).left_set, *res.inner.right_ref == old(self).right_set,
  forall|p: OptionalPair<L, R>| #![trigger res.inner.rem(p)] #![trigger old(self).item(p)] res.inner.rem(p) <==> old(self).item(p),
  final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  *final(res.inner.left_ref) == final(self).left_set, *final(res.inner.right_ref) == final(self).right_set,

@@ fn PartialCycleMap::retain(self, f)
props P05 P01 X06
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P05] grown(old(f).trace(), final(f).trace()), once1(final(f).trace(), old(f).trace().len() as int),
  forall|p: OptionalPair<L, R>| old(self).item(p) && !(p is SomeRight) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (p, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (p, false)),
  forall|a: L, b: R| #[trigger] final(self).has(a, b) <==> called(final(f).trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(a, b), false)),
  forall|a: L| #[trigger] final(self).frl(a) <==> called(final(f).trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), false)),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
loop 0 "for self . iter ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] #![trigger self.item(p)] self.item(p) && !(p is SomeRight) && !it__0.rem(p) <==> called(f.trace(), old(f).trace().len() as int, (p, true)) || called(f.trace(), old(f).trace().len() as int, (p, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(a, b), true)) ==> called(to_drop@, 0, trip(self.left_set@, a)),
    forall|a: L| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), true)) ==> called(to_drop@, 0, trip(self.left_set@, a)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(to_drop@, 0, x) && x.1 is Some ==> exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).id == tv(self.right_set@, t).id && x == (Some(th(self.left_set@, s)), tv(self.left_set@, s).hash, tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(tv(self.left_set@, s).value, tv(self.right_set@, t).value), true)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(to_drop@, 0, x) && x.1 is None ==> exists|s: int| #[trigger] thas(self.left_set@, s) && x == (Some(th(self.left_set@, s)), tv(self.left_set@, s).hash, tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(tv(self.left_set@, s).value), true)),
  ensures
    forall|p: OptionalPair<L, R>| !it__0.rem(p),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.counter == old(self).counter, self.hash_builder == old(self).hash_builder,
    tsub(self.left_set@, old(self).left_set@), tsub(self.right_set@, old(self).right_set@),
    once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] old(self).item(p) && !(p is SomeRight) <==> called(f.trace(), old(f).trace().len() as int, (p, true)) || called(f.trace(), old(f).trace().len() as int, (p, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(a, b), false)) ==> self.has(a, b),
    forall|a: L| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), false)) ==> self.frl(a),
    forall|b: R| #![trigger self.frr(b)] #![trigger old(self).frr(b)] self.frr(b) <==> old(self).frr(b),
    forall|a: L, b: R| self.has(a, b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(a, b), true)) ==> called(it__1@, 0, trip(old(self).left_set@, a)),
    forall|a: L| self.frl(a) && #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), true)) ==> called(it__1@, 0, trip(old(self).left_set@, a)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(it__1@, 0, x) && x.1 is Some ==> exists|s: int, t: int| #[trigger] thas(old(self).left_set@, s) && #[trigger] thas(old(self).right_set@, t) && tv(old(self).left_set@, s).id == tv(old(self).right_set@, t).id && x == (Some(th(old(self).left_set@, s)), tv(old(self).left_set@, s).hash, tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeBoth(tv(old(self).left_set@, s).value, tv(old(self).right_set@, t).value), true)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(it__1@, 0, x) && x.1 is None ==> exists|s: int| #[trigger] thas(old(self).left_set@, s) && x == (Some(th(old(self).left_set@, s)), tv(old(self).left_set@, s).hash, tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(tv(old(self).left_set@, s).value), true)),
  ensures
    it__1@.len() == 0,
closure 0
  -> (b: bool) ensures b == (p.id == id)
closure 1
  -> (b: bool) ensures b == (p.id == id)

@@ fn PartialCycleMap::retain_paired(self, f)
props P05 P01 X06
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P05] grown(old(f).trace(), final(f).trace()), once2(final(f).trace(), old(f).trace().len() as int),
  forall|a: L, b: R| old(self).has(a, b) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #[trigger] final(self).has(a, b) <==> called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|a: L| #![trigger final(self).frl(a)] #![trigger old(self).frl(a)] final(self).frl(a) <==> old(self).frl(a),
  forall|b: R| #![trigger final(self).frr(b)] #![trigger old(self).frr(b)] final(self).frr(b) <==> old(self).frr(b),
loop 0 "for self . iter_paired ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] #![trigger self.has(a, b)] self.has(a, b) && !it__0.rem(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, true)) ==> called(to_drop@, 0, trip3(self.left_set@, a)),
    forall|x: (u64, u64, u64)| #[trigger] called(to_drop@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).id == tv(self.right_set@, t).id && x == (th(self.left_set@, s), tv(self.left_set@, s).hash.unwrap(), tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(self.left_set@, s).value, tv(self.right_set@, t).value, true)),
  ensures
    forall|a: L, b: R| !it__0.rem(a, b),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.counter == old(self).counter, self.hash_builder == old(self).hash_builder,
    tsub(self.left_set@, old(self).left_set@), tsub(self.right_set@, old(self).right_set@),
    once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] old(self).has(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, false)) ==> self.has(a, b),
    forall|a: L, b: R| self.has(a, b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, true)) ==> called(it__1@, 0, trip3(old(self).left_set@, a)),
    forall|a: L| #![trigger self.frl(a)] #![trigger old(self).frl(a)] self.frl(a) <==> old(self).frl(a),
    forall|b: R| #![trigger self.frr(b)] #![trigger old(self).frr(b)] self.frr(b) <==> old(self).frr(b),
    forall|x: (u64, u64, u64)| #[trigger] called(it__1@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(old(self).left_set@, s) && #[trigger] thas(old(self).right_set@, t) && tv(old(self).left_set@, s).id == tv(old(self).right_set@, t).id && x == (th(old(self).left_set@, s), tv(old(self).left_set@, s).hash.unwrap(), tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(old(self).left_set@, s).value, tv(old(self).right_set@, t).value, true)),
  ensures
    it__1@.len() == 0,

@@ fn PartialCycleMap::retain_unpaired(self, f)
props P05 P01 X06
requires
  old(self).wf(),
ensures
  [P01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [P05] grown(old(f).trace(), final(f).trace()), once1(final(f).trace(), old(f).trace().len() as int),
  forall|p: OptionalPair<L, R>| old(self).item(p) && !(p is SomeBoth) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (p, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (p, false)),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b),
  forall|a: L| #[trigger] final(self).frl(a) <==> called(final(f).trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), false)),
  forall|b: R| #[trigger] final(self).frr(b) <==> called(final(f).trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(b), false)),
loop 0 "for self . iter_unpaired ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] #![trigger self.item(p)] self.item(p) && !(p is SomeBoth) && !it__0.rem(p) <==> called(f.trace(), old(f).trace().len() as int, (p, true)) || called(f.trace(), old(f).trace().len() as int, (p, false)),
    forall|a: L| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), true)) ==> called(to_drop@, 0, trip(self.left_set@, a)),
    forall|b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(b), true)) ==> called(to_drop@, 0, tripr(self.right_set@, b)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(to_drop@, 0, x) ==> (x.0 is Some) != (x.1 is Some),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(to_drop@, 0, x) && x.0 is Some ==> exists|s: int| #[trigger] thas(self.left_set@, s) && x == (Some(th(self.left_set@, s)), None::<u64>, tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(tv(self.left_set@, s).value), true)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(to_drop@, 0, x) && x.1 is Some ==> exists|s: int| #[trigger] thas(self.right_set@, s) && x == (None::<u64>, Some(th(self.right_set@, s)), tv(self.right_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(tv(self.right_set@, s).value), true)),
  ensures
    forall|p: OptionalPair<L, R>| !it__0.rem(p),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.counter == old(self).counter, self.hash_builder == old(self).hash_builder,
    tsub(self.left_set@, old(self).left_set@), tsub(self.right_set@, old(self).right_set@),
    once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] old(self).item(p) && !(p is SomeBoth) <==> called(f.trace(), old(f).trace().len() as int, (p, true)) || called(f.trace(), old(f).trace().len() as int, (p, false)),
    forall|a: L| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), false)) ==> self.frl(a),
    forall|b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(b), false)) ==> self.frr(b),
    forall|a: L, b: R| #![trigger self.has(a, b)] #![trigger old(self).has(a, b)] self.has(a, b) <==> old(self).has(a, b),
    forall|a: L| self.frl(a) && #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(a), true)) ==> called(it__1@, 0, trip(old(self).left_set@, a)),
    forall|b: R| self.frr(b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(b), true)) ==> called(it__1@, 0, tripr(old(self).right_set@, b)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(it__1@, 0, x) ==> (x.0 is Some) != (x.1 is Some),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(it__1@, 0, x) && x.0 is Some ==> exists|s: int| #[trigger] thas(old(self).left_set@, s) && x == (Some(th(old(self).left_set@, s)), None::<u64>, tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeLeft(tv(old(self).left_set@, s).value), true)),
    forall|x: (Option<u64>, Option<u64>, u64)| #[trigger] called(it__1@, 0, x) && x.1 is Some ==> exists|s: int| #[trigger] thas(old(self).right_set@, s) && x == (None::<u64>, Some(th(old(self).right_set@, s)), tv(old(self).right_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (OptionalPair::SomeRight(tv(old(self).right_set@, s).value), true)),
  ensures
    it__1@.len() == 0,
closure 0
  -> (b: bool) ensures b == (p.id == id)
closure 1
  -> (b: bool) ensures b == (p.id == id)

@@ fn PartialCycleMap:Clone::clone(self)
props X05
ret res
requires
  self.wf(), lawful_clone::<L>(), lawful_clone::<R>(), lawful_clone_hb::<S>(),
ensures
  [X05] res.wf(), tlen(res.left_set@) == tlen(self.left_set@), tlen(res.right_set@) == tlen(self.right_set@),
  res.alike(self),
  forall|s: int| #[trigger] thas(res.left_set@, s) ==> thas(self.left_set@, s) && cloned::<L>(tv(self.left_set@, s).value, tv(res.left_set@, s).value),
  forall|s: int| #[trigger] thas(res.right_set@, s) ==> thas(self.right_set@, s) && cloned::<R>(tv(self.right_set@, s).value, tv(res.right_set@, s).value),
proof
  cloned_mp::<L>(); cloned_mp::<R>();

@@ fn PartialCycleMap:PartialEq<PartialCycleMap<L,R,S>>::eq(self, other)
props X01 X06
ret res
requires
  self.wf(), other.wf(),
ensures
  [X01] res ==> forall|c: int, d: int| #[trigger] self.hasc(c, d) ==> other.hasc(c, d),
  res ==> forall|a: L| #[trigger] self.frl(a) ==> !tpairc(other.left_set@, a.cls()),
  res ==> tlen(self.left_set@) == tlen(other.left_set@) || tlen(self.right_set@) == tlen(other.right_set@),
  self.alike(other) ==> res,
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
proof
  if self.alike(other) { alike_len(self, other); }
  paired_means(self); paired_means(other); by_class(self);
loop 0 "all self . iter ()"
  invariant
    self.wf(), other.wf(), it__0.wf(), it__0.map_ref == self,
    acc__0 ==> forall|a: L, b: R| #[trigger] self.has(a, b) && !it__0.rem(OptionalPair::SomeBoth(a, b)) ==> other.hasc(a.cls(), b.cls()),
    acc__0 ==> forall|a: L| #[trigger] self.frl(a) && !it__0.rem(OptionalPair::SomeLeft(a)) ==> !tpairc(other.left_set@, a.cls()),
    !acc__0 ==> (exists|a: L, b: R| #[trigger] self.has(a, b) && !other.hasc(a.cls(), b.cls())) || (exists|a: L| #[trigger] self.frl(a) && tpairc(other.left_set@, a.cls())),
  ensures
    acc__0 ==> forall|a: L, b: R| #[trigger] self.has(a, b) ==> other.hasc(a.cls(), b.cls()),
    acc__0 ==> forall|a: L| #[trigger] self.frl(a) ==> !tpairc(other.left_set@, a.cls()),

@@ impl PartialCycleMap:Extend<(L,R)>
    open spec fn ext_pre(&self, items: Seq<(L, R)>) -> bool { self.wf() && self.counter + 64 * items.len() <= u64::MAX }
    open spec fn ext_post(&self, items: Seq<(L, R)>, fin: &Self) -> bool {
        &&& fin.wf() && fin.hash_builder == self.hash_builder
        &&& forall|p: OptionalPair<L, R>| #![trigger fin.item(p)] fin.item(p) <==> ext_item(self.item(p), boths(items), items.len(), p)
    }

@@ fn PartialCycleMap:Extend<(L,R)>::extend(self, iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "for iter"
  invariant
    self.wf(), self.hash_builder == old(self).hash_builder,
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    self.counter + 64 * it__0@.len() <= u64::MAX,
    forall|p: OptionalPair<L, R>| #![trigger self.item(p)] #![trigger old(self).item(p)] self.item(p) <==> ext_item(old(self).item(p), boths(iter.items()), (iter.items().len() - it__0@.len()) as nat, p),
  ensures
    it__0@.len() == 0,

@@ impl PartialCycleMap:FromIterator<(L,R)>
    open spec fn from_pre(items: Seq<(L, R)>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() }
    open spec fn from_post(items: Seq<(L, R)>, r: &Self) -> bool {
        r.wf() && forall|p: OptionalPair<L, R>| #![trigger r.item(p)] r.item(p) <==> ext_item(false, boths(items), items.len(), p)
    }

@@ fn PartialCycleMap:FromIterator<(L,R)>::from_iter(iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop? 0 "for iter"
  invariant
    acc__0.wf(),
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    acc__0.counter <= 64 + 64 * (iter.items().len() - it__0@.len()),
    forall|p: OptionalPair<L, R>| #![trigger acc__0.item(p)] acc__0.item(p) <==> ext_item(false, boths(iter.items()), (iter.items().len() - it__0@.len()) as nat, p),
  ensures
    it__0@.len() == 0,

@@ impl PartialCycleMap:Extend<OptionalPair<L,R>>
    open spec fn ext_pre(&self, items: Seq<OptionalPair<L, R>>) -> bool { self.wf() && self.counter + 64 * items.len() <= u64::MAX }
    open spec fn ext_post(&self, items: Seq<OptionalPair<L, R>>, fin: &Self) -> bool {
        &&& fin.wf() && fin.hash_builder == self.hash_builder
        &&& forall|p: OptionalPair<L, R>| #![trigger fin.item(p)] fin.item(p) <==> ext_item(self.item(p), items, items.len(), p)
    }

@@ fn PartialCycleMap:Extend<OptionalPair<L,R>>::extend(self, iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 "for iter"
  invariant
    self.wf(), self.hash_builder == old(self).hash_builder,
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    self.counter + 64 * it__0@.len() <= u64::MAX,
    forall|p: OptionalPair<L, R>| #![trigger self.item(p)] #![trigger old(self).item(p)] self.item(p) <==> ext_item(old(self).item(p), iter.items(), (iter.items().len() - it__0@.len()) as nat, p),
  ensures
    it__0@.len() == 0,

@@ impl PartialCycleMap:FromIterator<OptionalPair<L,R>>
    open spec fn from_pre(items: Seq<OptionalPair<L, R>>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() }
    open spec fn from_post(items: Seq<OptionalPair<L, R>>, r: &Self) -> bool {
        r.wf() && forall|p: OptionalPair<L, R>| #![trigger r.item(p)] r.item(p) <==> ext_item(false, items, items.len(), p)
    }

@@ fn PartialCycleMap:FromIterator<OptionalPair<L,R>>::from_iter(iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop? 0 "for iter"
  invariant
    acc__0.wf(),
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    acc__0.counter <= 64 + 64 * (iter.items().len() - it__0@.len()),
    forall|p: OptionalPair<L, R>| #![trigger acc__0.item(p)] acc__0.item(p) <==> ext_item(false, iter.items(), (iter.items().len() - it__0@.len()) as nat, p),
  ensures
    it__0@.len() == 0,

@@ fn Iter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@, res.map_ref == self.map_ref,

@@ fn PairedIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@, res.right_iter@ == self.right_iter@, res.map_ref == self.map_ref,

@@ fn UnpairedIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@, res.right_iter@ == self.right_iter@, res.map_ref == self.map_ref,

@@ fn Iter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> tlen(final(self).left_iter@) == 0 && tlen(old(self).left_iter@) == 0,
  res is Some ==> tlen(old(self).left_iter@) == tlen(final(self).left_iter@) + 1,
  res is Some ==> res.unwrap() is SomeLeft || res.unwrap() is SomeBoth,
  forall|p: OptionalPair<L, R>| #![trigger final(self).rem(p)] #![trigger old(self).rem(p)] final(self).rem(p) <==> old(self).rem(p) && !(res is Some && p == oderef(res.unwrap())),
  match res {
  None => forall|p: OptionalPair<L, R>| !#[trigger] old(self).rem(p),
  Some(q) => old(self).map_ref.item(oderef(q)) && old(self).rem(oderef(q)),
  },

@@ fn PairedIter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> tcount(final(self).left_iter@, true) == 0 && tcount(old(self).left_iter@, true) == 0,
  res is Some ==> tcount(old(self).left_iter@, true) == tcount(final(self).left_iter@, true) + 1,
  match res {
  None => (forall|a: L, b: R| !#[trigger] old(self).rem(a, b)) && (forall|a: L, b: R| !#[trigger] final(self).rem(a, b)),
  Some((x, y)) => old(self).map_ref.has(*x, *y) && old(self).rem(*x, *y) && forall|a: L, b: R| #![trigger final(self).rem(a, b)] #![trigger old(self).rem(a, b)] final(self).rem(a, b) <==> old(self).rem(a, b) && !(a == *x && b == *y),
  },
loop 0 "for self . left_iter . by_ref ()"
  invariant
    self.wf(), self.map_ref == old(self).map_ref, tsub(self.left_iter@, old(self).left_iter@),
    tcount(self.left_iter@, true) == tcount(old(self).left_iter@, true),
    forall|a: L, b: R| #![trigger self.rem(a, b)] #![trigger old(self).rem(a, b)] self.rem(a, b) <==> old(self).rem(a, b),
  ensures
    forall|s: int| !#[trigger] thas(self.left_iter@, s),

@@ fn UnpairedIter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> final(self).left() == 0 && old(self).left() == 0,
  res is Some ==> old(self).left() == final(self).left() + 1,
  res is Some ==> res.unwrap() is SomeLeft || res.unwrap() is SomeRight,
  forall|p: OptionalPair<L, R>| #![trigger final(self).rem(p)] #![trigger old(self).rem(p)] final(self).rem(p) <==> old(self).rem(p) && !(res is Some && p == oderef(res.unwrap())),
  match res {
  None => forall|p: OptionalPair<L, R>| !#[trigger] old(self).rem(p),
  Some(q) => old(self).map_ref.item(oderef(q)) && old(self).rem(oderef(q)),
  },
loop 0 "for self . left_iter . by_ref ()"
  invariant
    self.wf(), self.map_ref == old(self).map_ref, tsub(self.left_iter@, old(self).left_iter@), tsub(self.right_iter@, old(self).right_iter@),
    self.left() == old(self).left(),
    
    forall|p: OptionalPair<L, R>| #![trigger self.rem(p)] #![trigger old(self).rem(p)] self.rem(p) <==> old(self).rem(p),
  ensures
    forall|s: int| !#[trigger] thas(self.left_iter@, s),
loop 1 "for self . right_iter . by_ref ()"
  invariant
    self.wf(), self.map_ref == old(self).map_ref, tsub(self.left_iter@, old(self).left_iter@), tsub(self.right_iter@, old(self).right_iter@),
    self.left() == old(self).left(),
    forall|s: int| !#[trigger] thas(self.left_iter@, s),
    forall|p: OptionalPair<L, R>| #![trigger self.rem(p)] #![trigger old(self).rem(p)] self.rem(p) <==> old(self).rem(p),
  ensures
    forall|s: int| !#[trigger] thas(self.right_iter@, s),

@@ fn Iter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.left_iter@), res.1 == Some(res.0),

@@ fn Iter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == tlen(self.left_iter@),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + tlen(it__0.left_iter@) == tlen(self.left_iter@), tlen(self.left_iter@) <= usize::MAX,
  ensures
    tlen(it__0.left_iter@) == 0,

@@ fn PairedIter:Iterator::size_hint(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.0 == tcount(self.left_iter@, true), res.1 == Some(res.0),
loop? 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + tcount(it__0.left_iter@, true) == tcount(self.left_iter@, true), tcount(self.left_iter@, true) <= usize::MAX,
  ensures
    tcount(it__0.left_iter@, true) == 0,

@@ fn PairedIter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == tcount(self.left_iter@, true),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + tcount(it__0.left_iter@, true) == tcount(self.left_iter@, true), tcount(self.left_iter@, true) <= usize::MAX,
  ensures
    tcount(it__0.left_iter@, true) == 0,

@@ fn UnpairedIter:Iterator::size_hint(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.0 == self.left(), res.1 == Some(res.0),
loop? 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + it__0.left() == self.left(), self.left() <= usize::MAX,
  ensures
    it__0.left() == 0,

@@ fn UnpairedIter:ExactSizeIterator::len(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res == self.left(),
loop 0 "count self . clone ()"
  invariant
    it__0.wf(), acc__0 + it__0.left() == self.left(), self.left() <= usize::MAX,
  ensures
    it__0.left() == 0,

@@ fn SingleIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.iter@,

@@ fn SingleIter:Iterator::next(self)
props X02
ret res
ensures
  [X02] match res {
      None => final(self).iter@ == old(self).iter@ && tlen(old(self).iter@) == 0,
      Some(x) => exists|s: int| #[trigger] thas(old(self).iter@, s) && tv(old(self).iter@, s).value == *x && final(self).iter@ == tdel(old(self).iter@, s),
  },

@@ fn SingleIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.iter@), res.1 == Some(res.0),

@@ fn SingleIter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == tlen(self.iter@),

@@ fn DrainIter:Iterator::next(self)
props P05 X06
ret res
requires
  old(self).wf(),
ensures
  [P05] final(self).wf(), *final(final(self).right_ref) == *final(old(self).right_ref),
  res is None ==> final(self).left() == 0 && old(self).left() == 0,
  res is Some ==> old(self).left() == final(self).left() + 1,
  forall|p: OptionalPair<L, R>| #![trigger final(self).item(p)] #![trigger old(self).item(p)] final(self).item(p) <==> old(self).item(p) && !(res is Some && p == res.unwrap()),
  match res {
  None => (forall|s: int| !#[trigger] thas(final(self).left_iter@, s)) && (forall|s: int| !#[trigger] thas(final(self).right_ref@, s)),
  Some(p) => old(self).item(p),
  },

@@ fn DrainIter:Iterator::size_hint(self)
props P05
ret res
ensures
  [P05] res.0 == self.left(), res.1 == Some(res.0),

@@ fn DrainIter:ExactSizeIterator::len(self)
props P05
ret res
ensures
  [P05] res == self.left(),
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loopghost 0
  let ghost a0__ = acc__0;
loop 0 "for unsafe { self . right_ref . iter () }"
  invariant
    acc__0 + tcount(it__0@, false) == a0__ + tcount(self.right_ref@, false), tcount(self.right_ref@, false) <= isize::MAX, a0__ <= isize::MAX,
  ensures
    tcount(it__0@, false) == 0,

@@ fn DrainIter:Drop::drop(self)
props P05 X06
requires
  old(self).wf(),
ensures
  [P05] (forall|s: int| !#[trigger] thas(final(self).left_iter@, s)) && (forall|s: int| !#[trigger] thas(final(self).right_ref@, s)),
  *final(final(self).right_ref) == *final(old(self).right_ref),
loop 0 "while let Some (item) = self . next ()"
  invariant
    self.wf(), *final(self.right_ref) == *final(old(self).right_ref),
  ensures
    (forall|s: int| !#[trigger] thas(self.left_iter@, s)) && (forall|s: int| !#[trigger] thas(self.right_ref@, s)),

@@ fn DrainFilterIter:Iterator::next(self)
props P05 X06
ret res
requires
  old(self).inner.wf(),
ensures
  [P05] final(self).inner.wf(),
  *final(final(self).inner.left_ref) == *final(old(self).inner.left_ref), *final(final(self).inner.right_ref) == *final(old(self).inner.right_ref),
  grown(old(self).f.trace(), final(self).f.trace()), once1(final(self).f.trace(), old(self).f.trace().len() as int),
  forall|p: OptionalPair<L, R>| #![trigger final(self).inner.rem(p)] #![trigger old(self).inner.rem(p)] #![trigger called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true))] #![trigger called(final(self).f.trace(), old(self).f.trace().len() as int, (p, false))] old(self).inner.rem(p) && !final(self).inner.rem(p) <==> called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true)) || called(final(self).f.trace(), old(self).f.trace().len() as int, (p, false)),
  forall|p: OptionalPair<L, R>| #![trigger final(self).inner.rem(p)] #![trigger old(self).inner.rem(p)] final(self).inner.rem(p) ==> old(self).inner.rem(p),
  forall|p: OptionalPair<L, R>| #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true)) ==> res == Some(p),
  forall|p: OptionalPair<L, R>| #![trigger final(self).inner.item(p)] #![trigger old(self).inner.item(p)] final(self).inner.item(p) <==> old(self).inner.item(p) && res != Some(p),
  match res {
  None => (forall|p: OptionalPair<L, R>| !#[trigger] final(self).inner.rem(p)) && final(self).inner.left_ref@ == old(self).inner.left_ref@ && final(self).inner.right_ref@ == old(self).inner.right_ref@,
  Some(p) => called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true)) && old(self).inner.item(p),
  },

@@ fn DrainFilterInner::next(self, f)
props P05 X06
ret res
requires
  old(self).wf(),
ensures
  [P05] final(self).wf(),
  *final(final(self).left_ref) == *final(old(self).left_ref), *final(final(self).right_ref) == *final(old(self).right_ref),
  grown(old(f).trace(), final(f).trace()), once1(final(f).trace(), old(f).trace().len() as int),
  forall|p: OptionalPair<L, R>| #![trigger final(self).rem(p)] #![trigger old(self).rem(p)] #![trigger called(final(f).trace(), old(f).trace().len() as int, (p, true))] #![trigger called(final(f).trace(), old(f).trace().len() as int, (p, false))] old(self).rem(p) && !final(self).rem(p) <==> called(final(f).trace(), old(f).trace().len() as int, (p, true)) || called(final(f).trace(), old(f).trace().len() as int, (p, false)),
  forall|p: OptionalPair<L, R>| #![trigger final(self).rem(p)] #![trigger old(self).rem(p)] final(self).rem(p) ==> old(self).rem(p),
  forall|p: OptionalPair<L, R>| #[trigger] called(final(f).trace(), old(f).trace().len() as int, (p, true)) ==> res == Some(p),
  forall|p: OptionalPair<L, R>| #![trigger final(self).item(p)] #![trigger old(self).item(p)] final(self).item(p) <==> old(self).item(p) && res != Some(p),
  match res {
  None => (forall|p: OptionalPair<L, R>| !#[trigger] final(self).rem(p)) && final(self).left_ref@ == old(self).left_ref@ && final(self).right_ref@ == old(self).right_ref@,
  Some(p) => called(final(f).trace(), old(f).trace().len() as int, (p, true)) && old(self).item(p),
  },
loop 0 "for self . left_iter . by_ref ()"
  invariant
    self.left_ref == old(self).left_ref, self.right_ref == old(self).right_ref, self.wf(), tsub(self.left_iter@, old(self).left_iter@),
    self.reset_right_iter == old(self).reset_right_iter, self.right_iter == old(self).right_iter,
    grown(old(f).trace(), f.trace()), once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] !called(f.trace(), old(f).trace().len() as int, (p, true)),
    forall|p: OptionalPair<L, R>| #![trigger self.rem(p)] #![trigger old(self).rem(p)] self.rem(p) ==> old(self).rem(p),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] #![trigger self.rem(p)] #![trigger old(self).rem(p)] old(self).rem(p) && !self.rem(p) <==> called(f.trace(), old(f).trace().len() as int, (p, false)),
  ensures
    forall|s: int| !#[trigger] thas(self.left_iter@, s),
loop 1 "for self . right_iter . by_ref ()"
  invariant
    self.left_ref == old(self).left_ref, self.right_ref == old(self).right_ref, self.wf(), tsub(self.left_iter@, old(self).left_iter@),
    !self.reset_right_iter, tsub(self.right_iter@, old(self).rights()), forall|s: int| !#[trigger] thas(self.left_iter@, s),
    grown(old(f).trace(), f.trace()), once1(f.trace(), old(f).trace().len() as int),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, true))] !called(f.trace(), old(f).trace().len() as int, (p, true)),
    forall|p: OptionalPair<L, R>| #![trigger self.rem(p)] #![trigger old(self).rem(p)] self.rem(p) ==> old(self).rem(p),
    forall|p: OptionalPair<L, R>| #![trigger called(f.trace(), old(f).trace().len() as int, (p, false))] #![trigger self.rem(p)] #![trigger old(self).rem(p)] old(self).rem(p) && !self.rem(p) <==> called(f.trace(), old(f).trace().len() as int, (p, false)),
  ensures
    forall|s: int| !#[trigger] thas(self.right_iter@, s),

@@ fn DrainFilterIter:Iterator::size_hint(self)
props P05 X02
ret res
ensures
  [P05] res.0 == 0,
  res.1 is Some ==> res.1.unwrap() >= tlen(self.inner.left_iter@) + tcount(self.inner.rights(), false),

@@ fn DrainFilterIter:Drop::drop(self)
props P05 X06
requires
  old(self).inner.wf(),
ensures
  [P05] final(self).inner.wf(),
  *final(final(self).inner.left_ref) == *final(old(self).inner.left_ref), *final(final(self).inner.right_ref) == *final(old(self).inner.right_ref),
  forall|p: OptionalPair<L, R>| old(self).inner.rem(p) <==> #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true)) || #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (p, false)),
  forall|p: OptionalPair<L, R>| #[trigger] final(self).inner.item(p) <==> old(self).inner.item(p) && !called(final(self).f.trace(), old(self).f.trace().len() as int, (p, true)),
loop 0 "while let Some (item) = self . next ()"
  invariant
    self.inner.wf(), grown(old(self).f.trace(), self.f.trace()),
    *final(self.inner.left_ref) == *final(old(self).inner.left_ref), *final(self.inner.right_ref) == *final(old(self).inner.right_ref),
    forall|p: OptionalPair<L, R>| #![trigger self.inner.rem(p)] #![trigger old(self).inner.rem(p)] #![trigger called(self.f.trace(), old(self).f.trace().len() as int, (p, true))] #![trigger called(self.f.trace(), old(self).f.trace().len() as int, (p, false))] old(self).inner.rem(p) && !self.inner.rem(p) <==> called(self.f.trace(), old(self).f.trace().len() as int, (p, true)) || called(self.f.trace(), old(self).f.trace().len() as int, (p, false)),
    forall|p: OptionalPair<L, R>| #![trigger self.inner.rem(p)] #![trigger old(self).inner.rem(p)] self.inner.rem(p) ==> old(self).inner.rem(p),
    forall|p: OptionalPair<L, R>| #![trigger self.inner.item(p)] #![trigger old(self).inner.item(p)] self.inner.item(p) <==> old(self).inner.item(p) && !called(self.f.trace(), old(self).f.trace().len() as int, (p, true)),
  ensures
    forall|p: OptionalPair<L, R>| !#[trigger] self.inner.rem(p),
