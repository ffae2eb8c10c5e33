@@ fn OptionalPair::is_none(self)
props X03
ret res
ensures
  [X03] res == (*self is Neither),

@@ fn OptionalPair::is_some(self)
props X03
ret res
ensures
  [X03] res == !(*self is Neither),

@@ fn OptionalPair::get_left(self)
props X03
ret res
ensures
  [X03] match res { Some(l) => ol(*self) == Some(*l), None => ol(*self) is None },

@@ fn OptionalPair::get_right(self)
props X03
ret res
ensures
  [X03] match res { Some(r) => or(*self) == Some(*r), None => or(*self) is None },

@@ fn OptionalPair::convert(self)
props X03
ret res
requires
  forall|l: L| call_requires(A::from, (l,)), forall|r: R| call_requires(B::from, (r,)),
ensures
  [X03] (ol(res) is Some) == (ol(self) is Some), (or(res) is Some) == (or(self) is Some),
  ol(self) is Some ==> call_ensures(A::from, (ol(self).unwrap(),), ol(res).unwrap()),
  or(self) is Some ==> call_ensures(B::from, (or(self).unwrap(),), or(res).unwrap()),
closure 0
  -> (o: A) ensures call_ensures(A::from, (l,), o)
closure 1
  -> (o: B) ensures call_ensures(B::from, (r,), o)

@@ fn OptionalPair::map(self, left, right)
props X03
ret res
requires
  forall|l: L| left.requires((l,)), forall|r: R| right.requires((r,)),
ensures
  [X03] (ol(res) is Some) == (ol(self) is Some), (or(res) is Some) == (or(self) is Some),
  ol(self) is Some ==> left.ensures((ol(self).unwrap(),), ol(res).unwrap()),
  or(self) is Some ==> right.ensures((or(self).unwrap(),), or(res).unwrap()),

@@ fn OptionalPair::map_left(self, f)
props X03
ret res
requires
  forall|l: L| f.requires((l,)),
ensures
  [X03] (ol(res) is Some) == (ol(self) is Some),
  ol(self) is Some ==> f.ensures((ol(self).unwrap(),), ol(res).unwrap()),
  or(res) == or(self),

@@ fn OptionalPair::map_right(self, f)
props X03
ret res
requires
  forall|r: R| f.requires((r,)),
ensures
  [X03] (or(res) is Some) == (or(self) is Some),
  or(self) is Some ==> f.ensures((or(self).unwrap(),), or(res).unwrap()),
  ol(res) == ol(self),

@@ fn OptionalPair::cloned(self)
props X03
ret res
ensures
  [X03] (ol(res) is Some) == (ol(*self) is Some), (or(res) is Some) == (or(*self) is Some),
  ol(*self) is Some ==> cloned::<L>(*ol(*self).unwrap(), ol(res).unwrap()),
  or(*self) is Some ==> cloned::<R>(*or(*self).unwrap(), or(res).unwrap()),

@@ fn OptionalPair:Clone::clone(self)
props X03
ret res
ensures
  [X03] (ol(res) is Some) == (ol(*self) is Some), (or(res) is Some) == (or(*self) is Some),
  ol(*self) is Some ==> cloned::<L>(ol(*self).unwrap(), ol(res).unwrap()),
  or(*self) is Some ==> cloned::<R>(or(*self).unwrap(), or(res).unwrap()),

@@ fn OptionalPair:From<(Option<L>,Option<R>)>::from(input_pair)
props X03
ret res
ensures
  [X03] res == op2(input_pair.0, input_pair.1),

@@ fn OptionalPair:From<Option<(Option<L>,Option<R>)>>::from(input_pair)
props X03
ret res
ensures
  [X03] res == match input_pair { None => OptionalPair::Neither, Some(p) => op2(p.0, p.1) },

@@ fn (Option<L>,Option<R>):From<OptionalPair<L,R>>::from(input_pair)
props X03
ret res
ensures
  [X03] res == (ol(input_pair), or(input_pair)),

@@ fn Option:From<OptionalPair<L,R>>::from(input_pair)
props X03
ret res
ensures
  [X03] res == (if input_pair is Neither { None } else { Some((ol(input_pair), or(input_pair))) }),
