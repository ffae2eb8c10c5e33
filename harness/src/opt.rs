// OptionalPair: every shape, every conversion.
use crate::common::*;
use cycle_map::OptionalPair as O;
use cycle_map::OptionalPair::*;

#[derive(Debug, PartialEq, Eq, Clone)]
struct A(It, u8);
impl From<LK> for A {
    fn from(l: LK) -> A {
        A(l.it(), b'l')
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
struct B(It, u8);
impl From<RK> for B {
    fn from(r: RK) -> B {
        B(r.it(), b'r')
    }
}
fn mk(l: Option<It>, r: Option<It>) -> O<LK, RK> {
    match (l, r) {
        (None, None) => Neither,
        (Some(l), None) => SomeLeft(LK::new(l)),
        (None, Some(r)) => SomeRight(RK::new(r)),
        (Some(l), Some(r)) => SomeBoth(LK::new(l), RK::new(r)),
    }
}
fn raw(p: O<LK, RK>) -> OP {
    op(p, lit, rit)
}
/// The same conversions for items of other types: without size, small, large, owning memory.
fn shapes<L, R>(out: &mut Out, l: &[L], r: &[R]) -> usize
where
    L: Clone + Eq + std::fmt::Debug,
    R: Clone + Eq + std::fmt::Debug,
{
    let pr: &[&'static str] = &["X03"];
    let mut n = 0;
    fn opts<T: Clone>(v: &[T]) -> Vec<Option<T>> {
        std::iter::once(None).chain(v.iter().cloned().map(Some)).collect()
    }
    for a in opts(l) {
        for b in opts(r) {
            let w = (a.clone(), b.clone());
            let mk = || match w.clone() {
                (None, None) => Neither,
                (Some(l), None) => SomeLeft(l),
                (None, Some(r)) => SomeRight(r),
                (Some(l), Some(r)) => SomeBoth(l, r),
            };
            fn un<L: Eq, R: Eq>(p: O<L, R>) -> (Option<L>, Option<R>) {
                match p {
                    Neither => (None, None),
                    SomeLeft(l) => (Some(l), None),
                    SomeRight(r) => (None, Some(r)),
                    SomeBoth(l, r) => (Some(l), Some(r)),
                }
            }
            macro_rules! t {
                ($what:expr, $got:expr, $want:expr) => {{
                    n += 1;
                    let (g, x) = ($got, $want);
                    if g != x {
                        let ty = (std::any::type_name::<L>(), std::any::type_name::<R>());
                        out.fail(pr, format!("{} of {w:?} ({ty:?}) gives {g:?}, expected {x:?}", $what));
                    }
                }};
            }
            let none = w == (None, None);
            t!("from (Option, Option)", un(O::from(w.clone())), w.clone());
            t!("from Option<(Option, Option)>", un(O::from(Some(w.clone()))), w.clone());
            let back: (Option<L>, Option<R>) = mk().into();
            t!("into (Option, Option)", back, w.clone());
            let back: Option<(Option<L>, Option<R>)> = mk().into();
            t!("into Option<(Option, Option)>", back, if none { None } else { Some(w.clone()) });
            t!("get_left", mk().get_left().cloned(), w.0.clone());
            t!("get_right", mk().get_right().cloned(), w.1.clone());
            t!("is_none", mk().is_none(), none);
            t!("is_some", mk().is_some(), !none);
            t!("map", un(mk().map(|x| (x, 1u8), |y| (2u8, y))), (w.0.clone().map(|x| (x, 1u8)), w.1.clone().map(|y| (2u8, y))));
            t!("map_left", un(mk().map_left(|x| (x, 1u8))), (w.0.clone().map(|x| (x, 1u8)), w.1.clone()));
            t!("map_right", un(mk().map_right(|y| (2u8, y))), (w.0.clone(), w.1.clone().map(|y| (2u8, y))));
            let c: O<Option<L>, Option<R>> = mk().convert();
            t!("convert", un(c), (w.0.clone().map(Some), w.1.clone().map(Some)));
            let refs: O<&L, &R> = match (&w.0, &w.1) {
                (None, None) => Neither,
                (Some(l), None) => SomeLeft(l),
                (None, Some(r)) => SomeRight(r),
                (Some(l), Some(r)) => SomeBoth(l, r),
            };
            t!("cloned", un(refs.cloned()), w.clone());
            t!("clone", un(mk().clone()), w.clone());
            t!("==", mk() == mk(), true);
        }
    }
    n
}
/// Items of each type on the left with items of each type on the right.
fn shapes_all(out: &mut Out) -> usize {
    let z = [()];
    let b = [false, true];
    let u = [0u64, 1, u64::MAX];
    let s = [String::new(), "item".to_string()];
    let g = [[0u64; 40], [7u64; 40]];
    macro_rules! row {
        ($l:expr) => {
            shapes(out, &$l, &z) + shapes(out, &$l, &b) + shapes(out, &$l, &u) + shapes(out, &$l, &s) + shapes(out, &$l, &g)
        };
    }
    row!(z) + row!(b) + row!(u) + row!(s) + row!(g)
}
pub fn check(out: &mut Out) -> usize {
    let pr: &[&'static str] = &["X03"];
    let mut n = 0;
    let vals = [None, Some((0, 0)), Some((1, 7)), Some((u32::MAX, u32::MAX))];
    for l in vals {
        for r in vals {
            let w = (l, r);
            macro_rules! t {
                ($what:expr, $got:expr, $want:expr) => {{
                    n += 1;
                    let (g, x) = ($got, $want);
                    if g != x {
                        out.fail(pr, format!("{} of {w:?} gives {g:?}, expected {x:?}", $what));
                    }
                }};
            }
            let k = |x: Option<It>| x.map(LK::new);
            let q = |x: Option<It>| x.map(RK::new);
            t!("from (Option, Option)", raw(O::from((k(l), q(r)))), w);
            t!("from Option<(Option, Option)>", raw(O::from(Some((k(l), q(r))))), w);
            t!("from None", raw(O::from(None::<(Option<LK>, Option<RK>)>)), (None, None));
            let back: (Option<LK>, Option<RK>) = mk(l, r).into();
            t!("into (Option, Option)", (back.0.map(lit), back.1.map(rit)), w);
            let back: Option<(Option<LK>, Option<RK>)> = mk(l, r).into();
            t!("into Option<(Option, Option)>", back.map(|b| (b.0.map(lit), b.1.map(rit))), if w == (None, None) { None } else { Some(w) });
            let b2: (Option<LK>, Option<RK>) = mk(l, r).into();
            t!("round trip", raw(O::from(b2)), w);
            let b3: Option<(Option<LK>, Option<RK>)> = mk(l, r).into();
            t!("round trip via Option", raw(O::from(b3)), w);
            t!("get_left", mk(l, r).get_left().map(|x| x.it()), l);
            t!("get_right", mk(l, r).get_right().map(|x| x.it()), r);
            t!("is_none", mk(l, r).is_none(), w == (None, None));
            t!("is_some", mk(l, r).is_some(), w != (None, None));
            let (mut lc, mut rc) = (vec![], vec![]);
            let g = mk(l, r).map(
                |x| {
                    lc.push(x.it());
                    A(x.it(), 1)
                },
                |x| {
                    rc.push(x.it());
                    B(x.it(), 2)
                },
            );
            t!("map", op(g, |a| (a.0 .0, a.0 .1 ^ a.1 as u32), |b| (b.0 .0, b.0 .1 ^ b.1 as u32)), (l.map(|x| (x.0, x.1 ^ 1)), r.map(|x| (x.0, x.1 ^ 2))));
            t!("map calls", (lc, rc), (l.into_iter().collect::<Vec<_>>(), r.into_iter().collect::<Vec<_>>()));
            let mut lc = vec![];
            let g = mk(l, r).map_left(|x| {
                lc.push(x.it());
                A(x.it(), 1)
            });
            t!("map_left", op(g, |a| (a.0 .0, a.0 .1 ^ a.1 as u32), rit), (l.map(|x| (x.0, x.1 ^ 1)), r));
            t!("map_left calls", lc, l.into_iter().collect::<Vec<_>>());
            let mut rc = vec![];
            let g = mk(l, r).map_right(|x| {
                rc.push(x.it());
                B(x.it(), 2)
            });
            t!("map_right", op(g, lit, |b| (b.0 .0, b.0 .1 ^ b.1 as u32)), (l, r.map(|x| (x.0, x.1 ^ 2))));
            t!("map_right calls", rc, r.into_iter().collect::<Vec<_>>());
            let g: O<A, B> = mk(l, r).convert();
            t!("convert", op(g, |a| (a.0 .0, a.0 .1 ^ a.1 as u32), |b| (b.0 .0, b.0 .1 ^ b.1 as u32)), (l.map(|x| (x.0, x.1 ^ b'l' as u32)), r.map(|x| (x.0, x.1 ^ b'r' as u32))));
            let (x, y) = (k(l), q(r));
            let refs: O<&LK, &RK> = match (&x, &y) {
                (None, None) => Neither,
                (Some(l), None) => SomeLeft(l),
                (None, Some(r)) => SomeRight(r),
                (Some(l), Some(r)) => SomeBoth(l, r),
            };
            t!("cloned", raw(refs.cloned()), w);
            t!("clone", raw(mk(l, r).clone()), w);
            let _ = format!("{:?}", mk(l, r));
            for l2 in vals {
                for r2 in vals {
                    let c = |a: Option<It>, b: Option<It>| a.map(|x| x.0) == b.map(|x| x.0);
                    t!("==", mk(l, r) == mk(l2, r2), c(l, l2) && c(r, r2));
                }
            }
        }
    }
    n + shapes_all(out)
}
