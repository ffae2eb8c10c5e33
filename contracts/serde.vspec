@@ impl CycleMapVisitor:Visitor<'de>
    type Item = (L, R);
    open spec fn visit_pre(&self, items: Seq<Option<(L, R)>>) -> bool { 64 + 64 * items.len() <= u64::MAX && lawful::<L, L>() && lawful::<R, R>() }
    open spec fn visit_post(&self, items: Seq<Option<(L, R)>>, r: Option<CycleMap<L, R, S>>) -> bool { read_as(items, r) }

@@ fn CycleMapVisitor::new()
props X04

@@ fn CycleMapVisitor:Visitor<'de>::visit_seq(self, access)
props X04
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
ghost
  let ghost a0 = access.rest::<(L, R)>();
loop 0 "while let Some (entry) = access . next_element :: < (L , R) > () ?"
  invariant
    map.wf(), access.rest::<(L, R)>().len() <= a0.len(), 64 + 64 * a0.len() <= u64::MAX,
    access.rest::<(L, R)>() == a0.subrange(a0.len() - access.rest::<(L, R)>().len(), a0.len() as int),
    map.counter + 64 * access.rest::<(L, R)>().len() <= u64::MAX,
    forall|i: int| 0 <= i < a0.len() - access.rest::<(L, R)>().len() ==> (#[trigger] a0[i]) is Some,
    forall|a: L, b: R| #[trigger] map.has(a, b) <==> from_has(unsome(a0), (a0.len() - access.rest::<(L, R)>().len()) as nat, a, b),
  ensures
    access.rest::<(L, R)>().len() == 0,

@@ impl CycleMap:Deserialize<'de>
    open spec fn de_pre<D: Deserializer<'de>>(d: &D) -> bool { lawful::<L, L>() && lawful::<R, R>() && (d.doc::<(L, R)>() is Some ==> d.doc::<(L, R)>().unwrap().len() * 64 + 64 <= u64::MAX) }
    open spec fn de_post<D: Deserializer<'de>>(d: &D, r: Option<Self>) -> bool {
        match d.doc::<(L, R)>() { Some(items) => read_as(items, r), None => r is None }
    }

@@ fn CycleMap:Deserialize<'de>::deserialize(deserializer)
props X04

@@ impl CycleMap:Serialize
    open spec fn ser_pre(&self) -> bool { self.wf() }
    open spec fn ser_post<S: Serializer>(&self, o: S::Ok) -> bool {
        exists|s: S::SerializeSeq| #[trigger] s.ended(o) && s.declared() == Some(tlen(self.left_set@) as usize) && lists(self, wlog::<S::SerializeSeq, (&L, &R)>(s))
    }

@@ fn CycleMap:Serialize::serialize(self, serializer)
props X04
attrs
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
proof
  both_len(self);
  norep_push::<(&L, &R)>();
  blank_log::<S::SerializeSeq, (&L, &R)>();
loop 0 "for self . iter ()"
  invariant
    self.wf(), it__0.wf(), it__0.map_ref == self, map.declared() == Some(tlen(self.left_set@) as usize),
    norep(wlog::<S::SerializeSeq, (&L, &R)>(map)), wlog::<S::SerializeSeq, (&L, &R)>(map).len() + tlen(it__0.left_iter@) == tlen(self.left_set@),
    forall|a: L, b: R| #![trigger called(wlog::<S::SerializeSeq, (&L, &R)>(map), 0, (&a, &b))] #![trigger self.has(a, b)] called(wlog::<S::SerializeSeq, (&L, &R)>(map), 0, (&a, &b)) <==> self.has(a, b) && !it__0.rem(a, b),
  ensures
    forall|a: L, b: R| !it__0.rem(a, b), tlen(it__0.left_iter@) == 0,
