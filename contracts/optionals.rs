pub open spec fn op2<L: Eq, R: Eq>(a: Option<L>, b: Option<R>) -> OptionalPair<L, R> {
    match (a, b) {
        (None, None) => OptionalPair::Neither,
        (Some(x), None) => OptionalPair::SomeLeft(x),
        (None, Some(y)) => OptionalPair::SomeRight(y),
        (Some(x), Some(y)) => OptionalPair::SomeBoth(x, y),
    }
}
pub open spec fn ol<L: Eq, R: Eq>(p: OptionalPair<L, R>) -> Option<L> {
    match p { OptionalPair::SomeLeft(x) => Some(x), OptionalPair::SomeBoth(x, _) => Some(x), _ => None }
}
pub open spec fn or<L: Eq, R: Eq>(p: OptionalPair<L, R>) -> Option<R> {
    match p { OptionalPair::SomeRight(x) => Some(x), OptionalPair::SomeBoth(_, x) => Some(x), _ => None }
}
// the two directions are inverse of each other
pub proof fn op2_round<L: Eq, R: Eq>(p: OptionalPair<L, R>, a: Option<L>, b: Option<R>)
    ensures op2(ol(p), or(p)) == p, ol(op2(a, b)) == a, or(op2(a, b)) == b,
{ }
// #[derive(PartialEq, Eq)] written out, so that its result can be specified
impl<L: Eq, R: Eq> vstd::std_specs::cmp::PartialEqSpecImpl for OptionalPair<L, R> {
    open spec fn obeys_eq_spec() -> bool { L::obeys_eq_spec() && R::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool {
        match (*self, *other) {
            (OptionalPair::Neither, OptionalPair::Neither) => true,
            (OptionalPair::SomeLeft(a), OptionalPair::SomeLeft(b)) => a.eq_spec(&b),
            (OptionalPair::SomeRight(a), OptionalPair::SomeRight(b)) => a.eq_spec(&b),
            (OptionalPair::SomeBoth(a, c), OptionalPair::SomeBoth(b, d)) => a.eq_spec(&b) && c.eq_spec(&d),
            _ => false,
        }
    }
}
impl<L: Eq, R: Eq> PartialEq for OptionalPair<L, R> {
    fn eq(&self, other: &Self) -> (r: bool)
        ensures (*self is Neither || *other is Neither) ==> r == (*self is Neither && *other is Neither),
    {
        match (self, other) {
            (OptionalPair::Neither, OptionalPair::Neither) => true,
            (OptionalPair::SomeLeft(a), OptionalPair::SomeLeft(b)) => a == b,
            (OptionalPair::SomeRight(a), OptionalPair::SomeRight(b)) => a == b,
            (OptionalPair::SomeBoth(a, c), OptionalPair::SomeBoth(b, d)) => a == b && c == d,
            _ => false,
        }
    }
}
impl<L: Eq, R: Eq> Eq for OptionalPair<L, R> { }
impl<L: Eq, R: Eq> vstd::std_specs::convert::FromSpecImpl<(Option<L>, Option<R>)> for OptionalPair<L, R> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: (Option<L>, Option<R>)) -> Self { op2(p.0, p.1) }
}
impl<L: Eq, R: Eq> vstd::std_specs::convert::FromSpecImpl<Option<(Option<L>, Option<R>)>> for OptionalPair<L, R> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: Option<(Option<L>, Option<R>)>) -> Self { match o { None => OptionalPair::Neither, Some(p) => op2(p.0, p.1) } }
}
impl<L: Eq, R: Eq> vstd::std_specs::convert::FromSpecImpl<OptionalPair<L, R>> for (Option<L>, Option<R>) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: OptionalPair<L, R>) -> Self { (ol(p), or(p)) }
}
impl<L: Eq, R: Eq> vstd::std_specs::convert::FromSpecImpl<OptionalPair<L, R>> for Option<(Option<L>, Option<R>)> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: OptionalPair<L, R>) -> Self { if p is Neither { None } else { Some((ol(p), or(p))) } }
}
