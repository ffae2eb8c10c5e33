@@ fn ::equivalent_key(k)
props C01 X06 C02 C03
ret res
ensures
  [C01] forall|x: &MappingPair<K>| res.requires((x,)),
  Q::obeys_eq_spec() ==> forall|x: &MappingPair<K>, b: bool| res.ensures((x,), b) ==> b == k.eq_spec(&x.value),
closure 0
  -> (b: bool) ensures Q::obeys_eq_spec() ==> b == k.eq_spec(&x.value)

@@ fn ::hash_and_id(hash, id)
props C01 X06 C02 C03
ret res
ensures
  [C01] forall|x: &MappingPair<Q>| res.requires((x,)),
  forall|x: &MappingPair<Q>, b: bool| res.ensures((x,), b) ==> b == (x.id == id && x.hash == hash),
closure 0
  -> (b: bool) ensures b == (x.id == id && x.hash == hash)

@@ fn ::just_id(id)
props C04 X06
ret res
ensures
  [C04] forall|x: &MappingPair<Q>| res.requires((x,)),
  forall|x: &MappingPair<Q>, b: bool| res.ensures((x,), b) ==> b == (x.id == id),
closure 0
  -> (b: bool) ensures b == (x.id == id)

@@ fn MappingPair::extract(self)
props C02 C03 C04
ret res
ensures
  [C02] res == self.value,

@@ impl MappingPair:Hash
    open spec fn cls(&self) -> int { self.value.cls() }

@@ fn MappingPair:Hash::hash(self, state)
props C01

@@ fn MappingPair:Clone::clone(self)
props X05
ret res
ensures
  [X05] cloned::<T>(self.value, res.value), res.hash == self.hash, res.id == self.id,

@@ fn CycleMap::new()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(), res.counter <= 64,

@@ fn CycleMap::with_capacity(capacity)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(), res.counter <= 64,
  res.left_set.cap() >= capacity, res.right_set.cap() >= capacity,

@@ fn CycleMap::with_hasher(hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(),
  res.hash_builder == hash_builder, res.counter <= 64,

@@ fn CycleMap::with_capacity_and_hasher(capacity, hash_builder)
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(),
  res.left_set.cap() >= capacity, res.right_set.cap() >= capacity,
  res.hash_builder == hash_builder, res.counter <= 64,

@@ fn CycleMap:Default::default()
props X05
ret res
ensures
  [X05] res.left_set@ == tempty::<MappingPair<L>>(), res.right_set@ == tempty::<MappingPair<R>>(), res.counter <= 64,

@@ fn CycleMap::hasher(self)
props X05
ret res
ensures
  [X05] *res == self.hash_builder,

@@ fn CycleMap::capacity(self)
props X05
ret res
requires
  tlen(self.left_set@) == tlen(self.right_set@),
ensures
  [X05] res <= self.left_set.cap() || res <= self.right_set.cap(), res >= self.left_set.cap() || res >= self.right_set.cap(), res >= tlen(self.left_set@),

@@ fn CycleMap::len(self)
props C01
ret res
requires
  tlen(self.left_set@) == tlen(self.right_set@),
ensures
  [C01] res == tlen(self.left_set@),

@@ fn CycleMap::is_empty(self)
props C01
ret res
requires
  tlen(self.left_set@) == tlen(self.right_set@),
ensures
  [C01] res == (tlen(self.left_set@) == 0),
  res ==> forall|s: int| !#[trigger] thas(self.left_set@, s),
proof
  if tlen(self.left_set@) == 0 { tlen_zero(self.left_set@); }

@@ fn CycleMap::clear(self)
props C04 C01
ensures
  [C04] final(self).left_set@ == tempty::<MappingPair<L>>(), final(self).right_set@ == tempty::<MappingPair<R>>(),
  [C01 C04] final(self).hash_builder == old(self).hash_builder,

@@ fn CycleMap::insert(self, left, right)
props C01 C02 X06
ret res
requires
  old(self).wf(), old(self).counter + 4 <= u64::MAX,
ensures
  [C01] final(self).wf(), final(self).hash_builder == old(self).hash_builder,
  final(self).counter <= old(self).counter + 4,
  [C02] forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> (a == left && b == right) || (old(self).has(a, b) && a.cls() != left.cls() && b.cls() != right.cls()),
  match ol(res) {
      Some((l, r)) => old(self).has(l, r) && l.cls() == left.cls(),
      None => !old(self).inl(left.cls()),
  },
  match or(res) {
      Some((l, r)) => old(self).has(l, r) && r.cls() == right.cls() && l.cls() != left.cls(),
      None => !old(self).inr(right.cls()) || old(self).hasc(left.cls(), right.cls()),
  },
  forall|c: int| #![trigger final(self).inl(c)] final(self).inl(c) <==> c == left.cls() || (old(self).inl(c) && !(or(res) is Some && c == or(res).unwrap().0.cls())),
  forall|c: int| #![trigger final(self).inr(c)] final(self).inr(c) <==> c == right.cls() || (old(self).inr(c) && !(ol(res) is Some && c == ol(res).unwrap().1.cls())),

@@ fn CycleMap::are_paired(self, left, right)
props C01 C02 C03 X01
ret res
requires
  self.wf(),
ensures
  [C01] res == self.hasc(left.cls(), right.cls()),

@@ fn CycleMap::contains_left(self, left)
props C01
ret res
requires
  self.wf(),
ensures
  [C01] res == self.inl(left.cls()),

@@ fn CycleMap::contains_right(self, right)
props C01
ret res
requires
  self.wf(),
ensures
  [C01] res == self.inr(right.cls()),

@@ fn CycleMap::remove(self, left, right)
props C01 C02 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  [C02] match res {
      Some((l, r)) => old(self).has(l, r) && l.cls() == left.cls() && r.cls() == right.cls(),
      None => !old(self).hasc(left.cls(), right.cls()) && *final(self) == *old(self),
  },
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && !(a.cls() == left.cls() && b.cls() == right.cls()),
  res is Some ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@),

@@ fn CycleMap::remove_via_left(self, item)
props C01 C02 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C02] match res {
      Some((l, r)) => old(self).has(l, r) && l.cls() == item.cls(),
      None => *final(self) == *old(self) && !old(self).inl(item.cls()),
  },
  res is Some ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).value == res.unwrap().0 && tv(old(self).right_set@, t).value == res.unwrap().1,
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && a.cls() != item.cls(),
  forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != item.cls(),
  !final(self).inl(item.cls()),
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  match res { Some((l, r)) => forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != r.cls(), None => true },

@@ fn CycleMap::remove_via_right(self, item)
props C01 C02 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C02] match res {
      Some((l, r)) => old(self).has(l, r) && r.cls() == item.cls(),
      None => *final(self) == *old(self) && !old(self).inr(item.cls()),
  },
  res is Some ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).value == res.unwrap().0 && tv(old(self).right_set@, t).value == res.unwrap().1,
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && b.cls() != item.cls(),
  forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != item.cls(),
  !final(self).inr(item.cls()),
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  match res { Some((l, r)) => forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != l.cls(), None => true },

@@ fn CycleMap::remove_via_hashes_and_id(self, l_hash, r_hash, id)
props C04 X06
ret res
requires
  old(self).wf(),
  forall|s: int| #[trigger] thas(old(self).left_set@, s) && tv(old(self).left_set@, s).id == id ==> th(old(self).left_set@, s) == l_hash && tv(old(self).left_set@, s).hash == r_hash,
ensures
  [C04] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is None ==> *final(self) == *old(self) && forall|s: int| #[trigger] thas(old(self).left_set@, s) ==> tv(old(self).left_set@, s).id != id,
  res is Some ==> exists|s: int, t: int| #![trigger thas(old(self).left_set@, s), thas(old(self).right_set@, t)] pdel(old(self).left_set@, old(self).right_set@, s, t, final(self).left_set@, final(self).right_set@) && tv(old(self).left_set@, s).id == id && tv(old(self).left_set@, s).value == res.unwrap().0 && tv(old(self).right_set@, t).value == res.unwrap().1,

@@ fn CycleMap::swap_left_eq_check(self, old__, new, new_hash)
props C01 C03 X06
ret res
requires
  old(self).wf(), new_hash == hv(&old(self).hash_builder, new.cls()),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] (res is Some) == (old(self).inl(new.cls()) && old__.cls() != new.cls() && old(self).inl(old__.cls())),
  match res { Some((l, r)) => old(self).has(l, r) && l.cls() == new.cls(), None => *final(self) == *old(self) },
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && a.cls() != new.cls(),
  res is Some ==> forall|c: int| #![trigger final(self).inl(c)] #![trigger old(self).inl(c)] final(self).inl(c) <==> old(self).inl(c) && c != new.cls(),

@@ fn CycleMap::swap_right_eq_check(self, old__, new, new_hash)
props C01 C03 X06
ret res
requires
  old(self).wf(), new_hash == hv(&old(self).hash_builder, new.cls()),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] (res is Some) == (old(self).inr(new.cls()) && old__.cls() != new.cls() && old(self).inr(old__.cls())),
  match res { Some((l, r)) => old(self).has(l, r) && r.cls() == new.cls(), None => *final(self) == *old(self) },
  tsub(final(self).left_set@, old(self).left_set@), tsub(final(self).right_set@, old(self).right_set@),
  res is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && b.cls() != new.cls(),
  res is Some ==> forall|c: int| #![trigger final(self).inr(c)] #![trigger old(self).inr(c)] final(self).inr(c) <==> old(self).inr(c) && c != new.cls(),

@@ fn CycleMap::swap_left(self, old__, new)
props C01 C03 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] !old(self).inl(old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).inl(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  (or(res) is Some) == (old(self).inl(old__.cls()) && old(self).inl(new.cls()) && old__.cls() != new.cls()),
  match or(res) { Some((l, r)) => old(self).has(l, r) && l.cls() == new.cls(), None => true },
  ol(res) is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),
  ol(res) is Some ==> forall|a: L, b: R| #![trigger old(self).has(a, b)] old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls() ==> final(self).has(a, b),

@@ fn CycleMap::swap_right(self, old__, new)
props C01 C03 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] !old(self).inr(old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).inr(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  (or(res) is Some) == (old(self).inr(old__.cls()) && old(self).inr(new.cls()) && old__.cls() != new.cls()),
  match or(res) { Some((l, r)) => old(self).has(l, r) && r.cls() == new.cls(), None => true },
  ol(res) is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  ol(res) is Some ==> forall|a: L, b: R| #![trigger old(self).has(a, b)] old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls() ==> final(self).has(a, b),

@@ fn CycleMap::swap_left_checked(self, old__, expected, new)
props C01 C03 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] !old(self).hasc(old__.cls(), expected.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).hasc(old__.cls(), expected.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  ol(res) is Some ==> (or(res) is Some) == (old(self).inl(new.cls()) && old__.cls() != new.cls()),
  match or(res) { Some((l, r)) => old(self).has(l, r) && l.cls() == new.cls(), None => true },
  ol(res) is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),

@@ fn CycleMap::swap_right_checked(self, old__, expected, new)
props C01 C03 X06
ret res
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C03] !old(self).hasc(expected.cls(), old__.cls()) ==> res is Neither && *final(self) == *old(self),
  old(self).hasc(expected.cls(), old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  ol(res) is Some ==> (or(res) is Some) == (old(self).inr(new.cls()) && old__.cls() != new.cls()),
  match or(res) { Some((l, r)) => old(self).has(l, r) && r.cls() == new.cls(), None => true },
  ol(res) is Some ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),

@@ fn CycleMap::swap_left_or_insert(self, old__, new, to_insert)
props C01 C03 X06
ret res
requires
  old(self).wf(), old(self).counter + 64 <= u64::MAX,
ensures
  [C01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 64,
  [C03] old(self).inl(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).stl(ol(res).unwrap()),
  old(self).inl(old__.cls()) ==> (or(res) is Some) == (old(self).inl(new.cls()) && old__.cls() != new.cls()),
  old(self).inl(old__.cls()) ==> match or(res) { Some((l, r)) => old(self).has(l, r) && l.cls() == new.cls(), None => true },
  old(self).inl(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (a == new && old(self).has(ol(res).unwrap(), b)) || (old(self).has(a, b) && a.cls() != new.cls() && a.cls() != old__.cls()),
  !old(self).inl(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (a == new && b == to_insert) || (old(self).has(a, b) && a.cls() != new.cls() && b.cls() != to_insert.cls()),
  !old(self).inl(old__.cls()) ==> match ol(res) { Some(l) => l.cls() == new.cls() && old(self).stl(l), None => !old(self).inl(new.cls()) },
  !old(self).inl(old__.cls()) ==> match or(res) { Some((l, r)) => old(self).has(l, r) && r.cls() == to_insert.cls(), None => !old(self).inr(to_insert.cls()) || old(self).hasc(new.cls(), to_insert.cls()) },
closure 0
  -> (o: L) ensures o == p__0_0.0

@@ fn CycleMap::swap_right_or_insert(self, old__, new, to_insert)
props C01 C03 X06
ret res
requires
  old(self).wf(), old(self).counter + 64 <= u64::MAX,
ensures
  [C01] final(self).wf(), final(self).hash_builder == old(self).hash_builder, final(self).counter <= old(self).counter + 64,
  [C03] old(self).inr(old__.cls()) ==> ol(res) is Some && ol(res).unwrap().cls() == old__.cls() && old(self).str(ol(res).unwrap()),
  old(self).inr(old__.cls()) ==> (or(res) is Some) == (old(self).inr(new.cls()) && old__.cls() != new.cls()),
  old(self).inr(old__.cls()) ==> match or(res) { Some((l, r)) => old(self).has(l, r) && r.cls() == new.cls(), None => true },
  old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (b == new && old(self).has(a, ol(res).unwrap())) || (old(self).has(a, b) && b.cls() != new.cls() && b.cls() != old__.cls()),
  !old(self).inr(old__.cls()) ==> forall|a: L, b: R| #![trigger final(self).has(a, b)] final(self).has(a, b) <==> (a == to_insert && b == new) || (old(self).has(a, b) && a.cls() != to_insert.cls() && b.cls() != new.cls()),
  !old(self).inr(old__.cls()) ==> match (old(self).inl(to_insert.cls()), old(self).inr(new.cls()) && !old(self).hasc(to_insert.cls(), new.cls())) {
      (false, false) => res is Neither,
      (true, false) => res is SomeRight && old(self).has(or(res).unwrap().0, or(res).unwrap().1) && or(res).unwrap().0.cls() == to_insert.cls(),
      (false, true) => res is SomeRight && old(self).has(or(res).unwrap().0, or(res).unwrap().1) && or(res).unwrap().1.cls() == new.cls(),
      (true, true) => res is SomeBoth && ol(res).unwrap().cls() == new.cls() && old(self).str(ol(res).unwrap()) && old(self).has(or(res).unwrap().0, or(res).unwrap().1) && or(res).unwrap().0.cls() == to_insert.cls(),
  },

@@ fn CycleMap::get_left(self, item)
props C01
ret res
requires
  self.wf(), lawful::<Q, R>(),
ensures
  [C01] match res { None => !self.inr(item.cls()), Some(l) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).value == *l && tv(self.left_set@, s).id == tv(self.right_set@, t).id && tv(self.right_set@, t).value.cls() == item.cls() },

@@ fn CycleMap::get_right(self, item)
props C01 X02 X06 X01
ret res
requires
  self.wf(), lawful::<Q, L>(),
ensures
  [C01] match res { None => !self.inl(item.cls()), Some(r) => exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.right_set@, t).value == *r && tv(self.left_set@, s).id == tv(self.right_set@, t).id && tv(self.left_set@, s).value.cls() == item.cls() },

@@ fn CycleMap::get_left_inner(self, item)
props C01 C04 X06
ret res
requires
  self.wf(),
ensures
  [C01] match res { None => !self.inl(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn CycleMap::get_left_inner_with_hash(self, item, hash)
props C01
ret res
requires
  self.wf(), lawful::<Q, L>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [C01] match res { None => !self.inl(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.left_set@, s) && tv(self.left_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn CycleMap::get_right_inner_with_hash(self, item, hash)
props C01
ret res
requires
  self.wf(), lawful::<Q, R>(), hash == hv(&self.hash_builder, item.cls()),
ensures
  [C01] match res { None => !self.inr(item.cls()), Some(p) => exists|s: int| #[trigger] thas(self.right_set@, s) && tv(self.right_set@, s) == *p && p.value.cls() == item.cls() },

@@ fn CycleMap::iter(self)
props X02
ret res
requires
  self.wf(),
ensures
  [X02] res.wf(), res.map_ref == self, res.left_iter@ == self.left_set@,
  forall|a: L, b: R| #![trigger self.has(a, b)] #![trigger res.rem(a, b)] res.rem(a, b) <==> self.has(a, b),

@@ fn CycleMap::iter_left(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.left_set@,

@@ fn CycleMap::iter_right(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.right_set@,

@@ fn CycleMap::drain(self)
props C04
ret res
requires
  old(self).wf(),
ensures
  [C04] res.left_iter@ == old(self).left_set@, *res.right_ref == old(self).right_set, *final(res.right_ref) == final(self).right_set,
  final(self).left_set@ == tempty::<MappingPair<L>>(),
  final(self).hash_builder == old(self).hash_builder,
  final(self).right_set@ == tempty::<MappingPair<R>>() ==> final(self).wf(),

@@ fn CycleMap::drain_filter(self, f)
props C04
ret res
requires
  old(self).wf(),
ensures
  [C04] res.f == f, res.inner.wf(), *res.inner.left_ref == old(self).left_set, *res.inner.right_ref == old(self).right_set,
  res.inner.left_iter@ == old(self).left_set@,
  final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  *final(res.inner.left_ref) == final(self).left_set, *final(res.inner.right_ref) == final(self).right_set,

@@ fn CycleMap::retain(self, f)
props C04 C01 X06
requires
  old(self).wf(),
ensures
  [C01] final(self).wf(), final(self).counter == old(self).counter, final(self).hash_builder == old(self).hash_builder,
  [C04] grown(old(f).trace(), final(f).trace()), once2(final(f).trace(), old(f).trace().len() as int),
  forall|a: L, b: R| old(self).has(a, b) <==> #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, true)) || #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #[trigger] final(self).has(a, b) <==> called(final(f).trace(), old(f).trace().len() as int, (a, b, true)),
loop 0 "for self . iter ()"
  invariant
    *self == *old(self), self.wf(), it__0.wf(), *it__0.map_ref == *self,
    grown(old(f).trace(), f.trace()), once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] #![trigger self.has(a, b)] self.has(a, b) && !it__0.rem(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, false)) ==> called(to_drop@, 0, trip(self.left_set@, a)),
    forall|x: (u64, u64, u64)| #[trigger] called(to_drop@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(self.left_set@, s) && #[trigger] thas(self.right_set@, t) && tv(self.left_set@, s).id == tv(self.right_set@, t).id && x == (th(self.left_set@, s), tv(self.left_set@, s).hash, tv(self.left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(self.left_set@, s).value, tv(self.right_set@, t).value, false)),
  ensures
    forall|a: L, b: R| !it__0.rem(a, b),
loop 1 "for to_drop"
  invariant
    old(self).wf(), self.wf(), self.counter == old(self).counter, self.hash_builder == old(self).hash_builder,
    tsub(self.left_set@, old(self).left_set@), tsub(self.right_set@, old(self).right_set@),
    once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] old(self).has(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, true)) || called(f.trace(), old(f).trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, true)) ==> self.has(a, b),
    forall|a: L, b: R| self.has(a, b) && #[trigger] called(f.trace(), old(f).trace().len() as int, (a, b, false)) ==> called(it__1@, 0, trip(old(self).left_set@, a)),
    forall|x: (u64, u64, u64)| #[trigger] called(it__1@, 0, x) ==> exists|s: int, t: int| #[trigger] thas(old(self).left_set@, s) && #[trigger] thas(old(self).right_set@, t) && tv(old(self).left_set@, s).id == tv(old(self).right_set@, t).id && x == (th(old(self).left_set@, s), tv(old(self).left_set@, s).hash, tv(old(self).left_set@, s).id) && called(f.trace(), old(f).trace().len() as int, (tv(old(self).left_set@, s).value, tv(old(self).right_set@, t).value, false)),
  ensures
    it__1@.len() == 0,

@@ fn CycleMap::shrink_to(self, min_capacity)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  min_capacity <= old(self).left_set.cap() ==> final(self).left_set.cap() >= min_capacity,
  min_capacity <= old(self).right_set.cap() ==> final(self).right_set.cap() >= min_capacity,

@@ fn CycleMap::shrink_to_fit(self)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
proof
  both_len(&*self);

@@ fn CycleMap::reserve(self, additional)
props X05
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  final(self).left_set.cap() >= tlen(final(self).left_set@) + additional, final(self).right_set.cap() >= tlen(final(self).right_set@) + additional,

@@ fn CycleMap::try_reserve(self, additional)
props X05
ret res
requires
  old(self).wf(),
ensures
  [X05] final(self).wf(), final(self).left_set@ == old(self).left_set@, final(self).right_set@ == old(self).right_set@, final(self).hash_builder == old(self).hash_builder, final(self).counter == old(self).counter,
  res is Ok ==> final(self).left_set.cap() >= tlen(final(self).left_set@) + additional && final(self).right_set.cap() >= tlen(final(self).right_set@) + additional,

@@ fn CycleMap:Clone::clone(self)
props X05
ret res
requires
  self.wf(), lawful_clone::<L>(), lawful_clone::<R>(), lawful_clone_hb::<S>(),
ensures
  [X05] res.wf(), tlen(res.left_set@) == tlen(self.left_set@),
  forall|c: int, d: int| #![trigger res.hasc(c, d)] #![trigger self.hasc(c, d)] res.hasc(c, d) <==> self.hasc(c, d),
  forall|s: int| #[trigger] thas(res.left_set@, s) ==> thas(self.left_set@, s) && cloned::<L>(tv(self.left_set@, s).value, tv(res.left_set@, s).value),
  forall|s: int| #[trigger] thas(res.right_set@, s) ==> thas(self.right_set@, s) && cloned::<R>(tv(self.right_set@, s).value, tv(res.right_set@, s).value),
proof
  cloned_mp::<L>(); cloned_mp::<R>();

@@ fn CycleMap:PartialEq<CycleMap<L,R,S>>::eq(self, other)
props X01
ret res
requires
  self.wf(), other.wf(),
ensures
  [X01] res <==> forall|c: int, d: int| #![trigger self.hasc(c, d)] #![trigger other.hasc(c, d)] self.hasc(c, d) <==> other.hasc(c, d),
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
proof
  both_len(self); both_len(other);
  if tlen(self.left_set@) == tlen(other.left_set@) && (forall|a: L, b: R| #[trigger] self.has(a, b) ==> other.hasc(a.cls(), b.cls())) { same_pairs(self, other); }
  if forall|c: int, d: int| #![trigger self.hasc(c, d)] #![trigger other.hasc(c, d)] self.hasc(c, d) <==> other.hasc(c, d) { same_len(self, other); same_len(other, self); }
loop 0 "all self . iter ()"
  invariant
    self.wf(), other.wf(), it__0.wf(), it__0.map_ref == self,
    acc__0 ==> forall|a: L, b: R| #[trigger] self.has(a, b) && !it__0.rem(a, b) ==> other.hasc(a.cls(), b.cls()),
    !acc__0 ==> exists|a: L, b: R| #[trigger] self.has(a, b) && !other.hasc(a.cls(), b.cls()),
  ensures
    acc__0 ==> forall|a: L, b: R| #[trigger] self.has(a, b) ==> other.hasc(a.cls(), b.cls()),

@@ impl CycleMap:Extend<(L,R)>
    open spec fn ext_pre(&self, items: Seq<(L, R)>) -> bool { self.wf() && self.counter + 64 * items.len() <= u64::MAX }
    open spec fn ext_post(&self, items: Seq<(L, R)>, fin: &Self) -> bool {
        &&& fin.wf() && fin.hash_builder == self.hash_builder
        &&& forall|a: L, b: R| #[trigger] fin.has(a, b) <==> self.ext_has(items, items.len(), a, b)
        &&& (forall|x: L, y: R| !self.has(x, y)) ==> forall|a: L, b: R| #[trigger] fin.has(a, b) <==> from_has(items, items.len(), a, b)
    }

@@ fn CycleMap:Extend<(L,R)>::extend(self, iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
proof
  if forall|x: L, y: R| !self.has(x, y) { ext_from(self, iter.items(), iter.items().len()); }
loop 0 "for iter"
  invariant
    self.wf(), self.hash_builder == old(self).hash_builder,
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    self.counter + 64 * it__0@.len() <= u64::MAX,
    forall|a: L, b: R| #[trigger] self.has(a, b) <==> old(self).ext_has(iter.items(), (iter.items().len() - it__0@.len()) as nat, a, b),
  ensures
    it__0@.len() == 0,

@@ impl CycleMap:FromIterator<(L,R)>
    open spec fn from_pre(items: Seq<(L, R)>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() }
    open spec fn from_post(items: Seq<(L, R)>, r: &Self) -> bool {
        r.wf() && forall|a: L, b: R| #[trigger] r.has(a, b) <==> from_has(items, items.len(), a, b)
    }

@@ fn CycleMap:FromIterator<(L,R)>::from_iter(iter)
props X07
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop? 0 "for iter"
  invariant
    acc__0.wf(),
    it__0@.len() <= iter.items().len(), it__0@ == iter.items().subrange(iter.items().len() - it__0@.len(), iter.items().len() as int),
    acc__0.counter <= 64 + 64 * (iter.items().len() - it__0@.len()),
    forall|a: L, b: R| #[trigger] acc__0.has(a, b) <==> from_has(iter.items(), (iter.items().len() - it__0@.len()) as nat, a, b),
  ensures
    it__0@.len() == 0,

@@ fn Iter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.left_iter@ == self.left_iter@, res.map_ref == self.map_ref,

@@ fn Iter:Iterator::next(self)
props X02 X06
ret res
requires
  old(self).wf(),
ensures
  [X02] final(self).wf(), final(self).map_ref == old(self).map_ref,
  res is None ==> final(self).left_iter@ == old(self).left_iter@ && tlen(old(self).left_iter@) == 0,
  res is Some ==> tlen(old(self).left_iter@) == tlen(final(self).left_iter@) + 1,
  match res {
      None => forall|a: L, b: R| !#[trigger] old(self).rem(a, b),
      Some((x, y)) => old(self).map_ref.has(*x, *y) && old(self).rem(*x, *y) && forall|a: L, b: R| #![trigger final(self).rem(a, b)] #![trigger old(self).rem(a, b)] final(self).rem(a, b) <==> old(self).rem(a, b) && !(a == *x && b == *y),
  },

@@ fn Iter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.left_iter@), res.1 == Some(res.0),

@@ fn Iter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == tlen(self.left_iter@),

@@ fn SingleIter:Clone::clone(self)
props X02
ret res
ensures
  [X02] res.iter@ == self.iter@,

@@ fn SingleIter:Iterator::next(self)
props X02
ret res
ensures
  [X02] match res {
      None => final(self).iter@ == old(self).iter@ && tlen(old(self).iter@) == 0,
      Some(x) => exists|s: int| #[trigger] thas(old(self).iter@, s) && tv(old(self).iter@, s).value == *x && final(self).iter@ == tdel(old(self).iter@, s),
  },

@@ fn SingleIter:Iterator::size_hint(self)
props X02
ret res
ensures
  [X02] res.0 == tlen(self.iter@), res.1 == Some(res.0),

@@ fn SingleIter:ExactSizeIterator::len(self)
props X02
ret res
ensures
  [X02] res == tlen(self.iter@),

@@ fn DrainIter:Iterator::next(self)
props C04 X06
ret res
requires
  tlink(old(self).left_iter@, old(self).right_ref@), tlink(old(self).right_ref@, old(self).left_iter@),
  forall|s: int, t: int| #[trigger] thas(old(self).left_iter@, s) && #[trigger] thas(old(self).left_iter@, t) && s != t ==> tv(old(self).left_iter@, s).id != tv(old(self).left_iter@, t).id,
  forall|s: int, t: int| #[trigger] thas(old(self).right_ref@, s) && #[trigger] thas(old(self).right_ref@, t) && s != t ==> tv(old(self).right_ref@, s).id != tv(old(self).right_ref@, t).id,
ensures
  [C04] tlink(final(self).left_iter@, final(self).right_ref@), tlink(final(self).right_ref@, final(self).left_iter@),
  *final(final(self).right_ref) == *final(old(self).right_ref),
  match res {
      None => tlen(old(self).left_iter@) == 0 && (forall|s: int| !#[trigger] thas(final(self).left_iter@, s)) && (forall|s: int| !#[trigger] thas(final(self).right_ref@, s)),
      Some((x, y)) => exists|s: int, t: int| #![trigger thas(old(self).left_iter@, s), thas(old(self).right_ref@, t)] pdel(old(self).left_iter@, old(self).right_ref@, s, t, final(self).left_iter@, final(self).right_ref@) && tv(old(self).left_iter@, s).value == x && tv(old(self).right_ref@, t).value == y,
  },

@@ fn DrainIter:Iterator::size_hint(self)
props C04
ret res
ensures
  [C04] res.0 == tlen(self.left_iter@), res.1 == Some(res.0),

@@ fn DrainIter:ExactSizeIterator::len(self)
props C04
ret res
ensures
  [C04] res == tlen(self.left_iter@),

@@ fn DrainIter:Drop::drop(self)
props C04
ensures
  [C04] final(self).right_ref@ == tempty::<MappingPair<R>>(),
  *final(final(self).right_ref) == *final(old(self).right_ref),
loop? 0
  invariant
    *final(self.right_ref) == *final(old(self).right_ref),

@@ fn DrainFilterIter:Iterator::next(self)
props C04 X06
ret res
requires
  old(self).inner.wf(),
ensures
  [C04] final(self).inner.wf(),
  *final(final(self).inner.left_ref) == *final(old(self).inner.left_ref), *final(final(self).inner.right_ref) == *final(old(self).inner.right_ref),
  grown(old(self).f.trace(), final(self).f.trace()), once2(final(self).f.trace(), old(self).f.trace().len() as int),
  forall|a: L, b: R| #![trigger final(self).inner.rem(a, b)] #![trigger old(self).inner.rem(a, b)] #![trigger called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, true))] #![trigger called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, false))] old(self).inner.rem(a, b) && !final(self).inner.rem(a, b) <==> called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, true)) || called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #![trigger final(self).inner.rem(a, b)] #![trigger old(self).inner.rem(a, b)] final(self).inner.rem(a, b) ==> old(self).inner.rem(a, b),
  forall|a: L, b: R| #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, true)) ==> res == Some((a, b)),
  forall|a: L, b: R| #![trigger final(self).inner.has(a, b)] #![trigger old(self).inner.has(a, b)] final(self).inner.has(a, b) <==> old(self).inner.has(a, b) && res != Some((a, b)),
  match res {
      None => forall|a: L, b: R| !#[trigger] final(self).inner.rem(a, b),
      Some((x, y)) => called(final(self).f.trace(), old(self).f.trace().len() as int, (x, y, true)) && old(self).inner.has(x, y) && exists|s: int, t: int| #![trigger thas(old(self).inner.left_ref@, s), thas(old(self).inner.right_ref@, t)] pdel(old(self).inner.left_ref@, old(self).inner.right_ref@, s, t, final(self).inner.left_ref@, final(self).inner.right_ref@),
  },
  res is None ==> final(self).inner.left_ref@ == old(self).inner.left_ref@ && final(self).inner.right_ref@ == old(self).inner.right_ref@,

@@ fn DrainFilterInner::next(self, f)
props C04 X06
ret res
requires
  old(self).wf(),
ensures
  [C04] final(self).wf(),
  *final(final(self).left_ref) == *final(old(self).left_ref), *final(final(self).right_ref) == *final(old(self).right_ref),
  grown(old(f).trace(), final(f).trace()), once2(final(f).trace(), old(f).trace().len() as int),
  forall|a: L, b: R| #![trigger final(self).rem(a, b)] #![trigger old(self).rem(a, b)] #![trigger called(final(f).trace(), old(f).trace().len() as int, (a, b, true))] #![trigger called(final(f).trace(), old(f).trace().len() as int, (a, b, false))] old(self).rem(a, b) && !final(self).rem(a, b) <==> called(final(f).trace(), old(f).trace().len() as int, (a, b, true)) || called(final(f).trace(), old(f).trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #[trigger] final(self).rem(a, b) ==> old(self).rem(a, b),
  forall|a: L, b: R| #[trigger] called(final(f).trace(), old(f).trace().len() as int, (a, b, true)) ==> res == Some((a, b)),
  forall|a: L, b: R| #![trigger final(self).has(a, b)] #![trigger old(self).has(a, b)] final(self).has(a, b) <==> old(self).has(a, b) && res != Some((a, b)),
  match res {
      None => forall|a: L, b: R| !#[trigger] final(self).rem(a, b),
      Some((x, y)) => called(final(f).trace(), old(f).trace().len() as int, (x, y, true)) && old(self).has(x, y) && exists|s: int, t: int| #![trigger thas(old(self).left_ref@, s), thas(old(self).right_ref@, t)] pdel(old(self).left_ref@, old(self).right_ref@, s, t, final(self).left_ref@, final(self).right_ref@),
  },
  res is None ==> final(self).left_ref@ == old(self).left_ref@ && final(self).right_ref@ == old(self).right_ref@,
loop 0 "for self . left_iter . by_ref ()"
  invariant
    self.left_ref == old(self).left_ref, self.right_ref == old(self).right_ref, self.wf(), tsub(self.left_iter@, old(self).left_iter@),
    grown(old(f).trace(), f.trace()), once2(f.trace(), old(f).trace().len() as int),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, true))] !called(f.trace(), old(f).trace().len() as int, (a, b, true)),
    forall|a: L, b: R| #[trigger] self.rem(a, b) ==> old(self).rem(a, b),
    forall|a: L, b: R| #![trigger called(f.trace(), old(f).trace().len() as int, (a, b, false))] #![trigger self.rem(a, b)] #![trigger old(self).rem(a, b)] old(self).rem(a, b) && !self.rem(a, b) <==> called(f.trace(), old(f).trace().len() as int, (a, b, false)),
  ensures
    forall|a: L, b: R| !#[trigger] self.rem(a, b),

@@ fn DrainFilterIter:Iterator::size_hint(self)
props C04
ret res
ensures
  [C04] res.0 == 0, res.1 == Some(tlen(self.inner.left_iter@) as usize),

@@ fn DrainFilterIter:Drop::drop(self)
props C04 X06
requires
  old(self).inner.wf(),
ensures
  [C04] final(self).inner.wf(),
  *final(final(self).inner.left_ref) == *final(old(self).inner.left_ref), *final(final(self).inner.right_ref) == *final(old(self).inner.right_ref),
  forall|a: L, b: R| old(self).inner.rem(a, b) <==> #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, true)) || #[trigger] called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, false)),
  forall|a: L, b: R| #[trigger] final(self).inner.has(a, b) <==> old(self).inner.has(a, b) && !called(final(self).f.trace(), old(self).f.trace().len() as int, (a, b, true)),
loop 0 "while let Some (item) = self . next ()"
  invariant
    self.inner.wf(), grown(old(self).f.trace(), self.f.trace()),
    *final(self.inner.left_ref) == *final(old(self).inner.left_ref), *final(self.inner.right_ref) == *final(old(self).inner.right_ref),
    forall|a: L, b: R| #![trigger self.inner.rem(a, b)] #![trigger old(self).inner.rem(a, b)] #![trigger called(self.f.trace(), old(self).f.trace().len() as int, (a, b, true))] #![trigger called(self.f.trace(), old(self).f.trace().len() as int, (a, b, false))] old(self).inner.rem(a, b) && !self.inner.rem(a, b) <==> called(self.f.trace(), old(self).f.trace().len() as int, (a, b, true)) || called(self.f.trace(), old(self).f.trace().len() as int, (a, b, false)),
    forall|a: L, b: R| #[trigger] self.inner.rem(a, b) ==> old(self).inner.rem(a, b),
    forall|a: L, b: R| #![trigger self.inner.has(a, b)] #![trigger old(self).inner.has(a, b)] self.inner.has(a, b) <==> old(self).inner.has(a, b) && !called(self.f.trace(), old(self).f.trace().len() as int, (a, b, true)),
  ensures
    forall|a: L, b: R| !#[trigger] self.inner.rem(a, b),
