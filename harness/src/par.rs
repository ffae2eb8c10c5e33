// PartialCycleMap against its model: a list of entries (left, right), at least one of them present.
use crate::common::*;
use cycle_map::{OptionalPair, PartialCycleMap};

type M = PartialCycleMap<LK, RK, Hb>;
pub struct Par {
    m: M,
    md: Vec<OP>,
    side: Option<(M, Vec<OP>)>,
    cfg: Cfg,
}

const OPS: &[OpDef] = &[
    OpDef { name: "insert", w: 24, props: &["P02"] },
    OpDef { name: "insert_left", w: 12, props: &["P02"] },
    OpDef { name: "insert_right", w: 12, props: &["P02"] },
    OpDef { name: "pair", w: 10, props: &["P02"] },
    OpDef { name: "pair_forced", w: 10, props: &["P02"] },
    OpDef { name: "pair_forced_remove", w: 8, props: &["P02"] },
    OpDef { name: "unpair", w: 10, props: &["P02"] },
    OpDef { name: "remove", w: 5, props: &["P03"] },
    OpDef { name: "remove_left", w: 6, props: &["P03"] },
    OpDef { name: "remove_right", w: 6, props: &["P03"] },
    OpDef { name: "remove_via_left", w: 5, props: &["P03"] },
    OpDef { name: "remove_via_right", w: 5, props: &["P03"] },
    OpDef { name: "swap_left", w: 6, props: &["P04"] },
    OpDef { name: "swap_right", w: 6, props: &["P04"] },
    OpDef { name: "swap_left_checked", w: 5, props: &["P04"] },
    OpDef { name: "swap_right_checked", w: 5, props: &["P04"] },
    OpDef { name: "swap_left_or_insert", w: 6, props: &["P04"] },
    OpDef { name: "swap_right_or_insert", w: 6, props: &["P04"] },
    OpDef { name: "retain", w: 3, props: &["P05"] },
    OpDef { name: "retain_paired", w: 3, props: &["P05"] },
    OpDef { name: "retain_unpaired", w: 3, props: &["P05"] },
    OpDef { name: "drain", w: 2, props: &["P05"] },
    OpDef { name: "drain_filter", w: 3, props: &["P05"] },
    OpDef { name: "clear", w: 1, props: &["P05"] },
    OpDef { name: "clone_to_side", w: 3, props: &["X05"] },
    OpDef { name: "exchange_with_side", w: 3, props: &["X05"] },
    OpDef { name: "eq_side", w: 3, props: &["X01"] },
    OpDef { name: "eq_rebuilt", w: 3, props: &["X01"] },
    OpDef { name: "shrink_to", w: 2, props: &["X05"] },
    OpDef { name: "shrink_to_fit", w: 2, props: &["X05"] },
    OpDef { name: "reserve", w: 2, props: &["X05"] },
    OpDef { name: "try_reserve", w: 2, props: &["X05"] },
    OpDef { name: "extend", w: 3, props: &["X07"] },
    OpDef { name: "collect", w: 2, props: &["X07"] },
    OpDef { name: "iterate", w: 4, props: &["X02"] },
    OpDef { name: "new_map", w: 1, props: &["X05"] },
];

fn lc(p: &OP, c: u32) -> bool {
    p.0.is_some_and(|x| x.0 == c)
}
fn rc(p: &OP, c: u32) -> bool {
    p.1.is_some_and(|x| x.0 == c)
}
const NO: OP = (None, None);
fn take(md: &mut Vec<OP>, f: impl Fn(&OP) -> bool) -> OP {
    md.iter().position(f).map(|i| md.remove(i)).unwrap_or(NO)
}
fn opv(p: OptionalPair<LK, RK>) -> OP {
    op(p, lit, rit)
}
fn opr(p: OptionalPair<&LK, &RK>) -> OP {
    op(p, |l| l.it(), |r| r.it())
}
fn m_insert(md: &mut Vec<OP>, l: It, r: It) -> (OP, OP) {
    let a = take(md, |p| lc(p, l.0));
    let b = take(md, |p| rc(p, r.0));
    md.push((Some(l), Some(r)));
    (a, b)
}
fn m_swap_left(md: &mut Vec<OP>, old: u32, new: It) -> (Option<It>, OP) {
    if !md.iter().any(|p| lc(p, old)) {
        return (None, NO);
    }
    let ev = if old != new.0 { take(md, |p| lc(p, new.0)) } else { NO };
    let p = md.iter_mut().find(|p| lc(p, old)).unwrap();
    (p.0.replace(new), ev)
}
fn m_swap_right(md: &mut Vec<OP>, old: u32, new: It) -> (Option<It>, OP) {
    if !md.iter().any(|p| rc(p, old)) {
        return (None, NO);
    }
    let ev = if old != new.0 { take(md, |p| rc(p, new.0)) } else { NO };
    let p = md.iter_mut().find(|p| rc(p, old)).unwrap();
    (p.1.replace(new), ev)
}
/// (replaced item, evicted entry, as the nested OptionalPair reports them)
fn nest<A: Eq>(p: OptionalPair<A, OptionalPair<LK, RK>>, f: impl Fn(A) -> It) -> (Option<It>, Option<OP>) {
    match p {
        OptionalPair::Neither => (None, None),
        OptionalPair::SomeLeft(a) => (Some(f(a)), None),
        OptionalPair::SomeRight(b) => (None, Some(opv(b))),
        OptionalPair::SomeBoth(a, b) => (Some(f(a)), Some(opv(b))),
    }
}
fn some(p: OP) -> Option<OP> {
    if p == NO {
        None
    } else {
        Some(p)
    }
}

fn view(m: &M, nl: u32, nr: u32, seed: u32) -> Result<Vec<OP>, String> {
    let ls: Vec<&LK> = m.iter_left().collect();
    let rs: Vec<&RK> = m.iter_right().collect();
    if ls.len() != m.len_left() || rs.len() != m.len_right() || m.is_empty() != (ls.is_empty() && rs.is_empty()) {
        return Err(format!("len_left {} len_right {} is_empty {}, iter_left yields {}, iter_right {}", m.len_left(), m.len_right(), m.is_empty(), ls.len(), rs.len()));
    }
    let mut lcs: Vec<u32> = ls.iter().map(|l| l.c.0).collect();
    let mut rcs: Vec<u32> = rs.iter().map(|r| r.c.0).collect();
    lcs.sort();
    rcs.sort();
    if lcs.windows(2).any(|w| w[0] == w[1]) || rcs.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("two equal items in the map: {ls:?} {rs:?}"));
    }
    let mut v: Vec<OP> = vec![];
    for l in &ls {
        if !m.contains_left(l) {
            return Err(format!("contains_left denies {l:?}"));
        }
        let r = m.get_right(&l.c);
        if r.is_some() != m.is_left_paired(l) || m.get_right::<LK>(l).map(|x| x.it()) != r.map(|x| x.it()) {
            return Err(format!("get_right({l:?}) is {r:?}, is_left_paired {}", m.is_left_paired(l)));
        }
        if let Some(r) = r {
            if m.get_left(&r.c).map(|x| x.it()) != Some(l.it()) || !m.are_paired(l, r) || !m.is_right_paired(r) {
                return Err(format!("get_right({l:?}) is {r:?}, get_left of that is {:?}, are_paired {}, is_right_paired {}", m.get_left(&r.c), m.are_paired(l, r), m.is_right_paired(r)));
            }
            if !rs.iter().any(|x| x.it() == r.it()) {
                return Err(format!("{r:?} is not yielded by iter_right"));
            }
        }
        v.push((Some(l.it()), r.map(|r| r.it())));
    }
    for r in &rs {
        if !m.contains_right(r) {
            return Err(format!("contains_right denies {r:?}"));
        }
        let l = m.get_left(&r.c);
        if l.is_some() != m.is_right_paired(r) || m.get_left::<RK>(r).map(|x| x.it()) != l.map(|x| x.it()) {
            return Err(format!("get_left({r:?}) is {l:?}, is_right_paired {}", m.is_right_paired(r)));
        }
        match l {
            None => v.push((None, Some(r.it()))),
            Some(l) => {
                if !v.iter().any(|p| *p == (Some(l.it()), Some(r.it()))) {
                    return Err(format!("get_left({r:?}) is {l:?}, but not the other way"));
                }
            }
        }
    }
    let probe = |n: u32, i: u32| if n <= 8 { i } else { Rng((seed as u64) << 8 | i as u64).below(n as u64) as u32 };
    for i in 0..nl.min(8) {
        let c = probe(nl, i);
        let l = LK::new((c, 9999));
        let want = v.iter().find(|p| lc(p, c));
        let wr = want.and_then(|p| p.1);
        if m.contains_left(&l) != want.is_some() || m.get_right(&l.c).map(|x| x.it()) != wr || m.is_left_paired(&l) != wr.is_some() {
            return Err(format!("contains_left/get_right/is_left_paired({c}) wrong, map holds {want:?}"));
        }
        for j in 0..nr.min(8) {
            let d = probe(nr, j + 100);
            let r = RK::new((d, 9999));
            if m.are_paired(&l, &r) != wr.is_some_and(|p| p.0 == d) {
                return Err(format!("are_paired({c},{d}) is {}", m.are_paired(&l, &r)));
            }
        }
    }
    for j in 0..nr.min(8) {
        let d = probe(nr, j + 200);
        let r = RK::new((d, 9999));
        let want = v.iter().find(|p| rc(p, d));
        let wl = want.and_then(|p| p.0);
        if m.contains_right(&r) != want.is_some() || m.get_left(&r.c).map(|x| x.it()) != wl || m.is_right_paired(&r) != wl.is_some() {
            return Err(format!("contains_right/get_left/is_right_paired({d}) wrong, map holds {want:?}"));
        }
    }
    Ok(v)
}
fn build(md: &[OP], mode: u8, cap: usize) -> M {
    let mut m = M::with_capacity_and_hasher(cap, Hb { mode });
    for e in md {
        match *e {
            (Some(l), Some(r)) => {
                m.insert(LK::new(l), RK::new(r));
            }
            (Some(l), None) => {
                m.insert_left(LK::new(l));
            }
            (None, Some(r)) => {
                m.insert_right(RK::new(r));
            }
            _ => (),
        }
    }
    m
}
fn cls(md: &[OP]) -> Vec<(Option<u32>, Option<u32>)> {
    sorted(md.iter().map(|p| (p.0.map(|x| x.0), p.1.map(|x| x.0))).collect())
}
fn sub(a: &[OP], b: &[OP]) -> bool {
    let b = cls(b);
    cls(a).iter().filter(|p| p.0.is_some() && p.1.is_some()).all(|p| b.contains(p))
}
fn lens(md: &[OP]) -> (usize, usize) {
    (md.iter().filter(|p| p.0.is_some()).count(), md.iter().filter(|p| p.1.is_some()).count())
}
/// an unpaired left item of a is paired in b
fn paired_there(a: &[OP], b: &[OP]) -> bool {
    let b = cls(b);
    cls(a).iter().filter(|p| p.1.is_none()).any(|p| b.iter().any(|q| q.0 == p.0 && q.1.is_some()))
}
/// what the statement says about == : same contents are equal, and a == b only if b has every pair of a, no unpaired
/// left item of a is paired in b, and they are equally long on one side
fn eq_ok(x: bool, a: &[OP], b: &[OP]) -> bool {
    if cls(a) == cls(b) {
        x
    } else {
        let (x1, y1) = (lens(a), lens(b));
        !x || sub(a, b) && !paired_there(a, b) && (x1.0 == y1.0 || x1.1 == y1.1)
    }
}

impl Par {
    fn check(&self, seed: u32, name: &str, pr: &[&'static str], out: &mut Out) {
        match view(&self.m, self.cfg.nl, self.cfg.nr, seed) {
            Err(e) => {
                let fresh = view(&build(&self.md, self.cfg.hash, 0), self.cfg.nl, self.cfg.nr, seed);
                let p = if fresh.is_err() && !name.starts_with("insert") { vec!["P01"] } else { plus(pr, &["P01"]) };
                out.fail(&p, format!("after {name}: {e}"));
            }
            Ok(v) => {
                if sorted(v.clone()) != sorted(self.md.clone()) {
                    out.fail(pr, format!("after {name} the map holds {:?}, expected {:?}", sorted(v), sorted(self.md.clone())));
                } else {
                    let it: Vec<OP> = self.m.iter().map(opr).collect();
                    let w: Vec<OP> = v.iter().filter(|p| p.0.is_some()).copied().collect();
                    if sorted(it.clone()) != sorted(w.clone()) {
                        out.fail(&["P01", "X02"], format!("iter() yields {it:?}, the map holds {:?}", self.md));
                    }
                    let it: Vec<OP> = self.m.iter_paired().map(|(l, r)| (Some(l.it()), Some(r.it()))).collect();
                    if sorted(it.clone()) != sorted(w.iter().filter(|p| p.1.is_some()).copied().collect()) {
                        out.fail(&["P01", "X02"], format!("iter_paired() yields {it:?}, the map holds {:?}", self.md));
                    }
                    let it: Vec<OP> = self.m.iter_unpaired().map(opr).collect();
                    if sorted(it.clone()) != sorted(v.iter().filter(|p| p.1.is_none() || p.0.is_none()).copied().collect()) {
                        out.fail(&["P01", "X02"], format!("iter_unpaired() yields {it:?}, the map holds {:?}", self.md));
                    }
                }
            }
        }
        if let Some((m, md)) = &self.side {
            match view(m, self.cfg.nl, self.cfg.nr, seed) {
                Err(e) => out.fail(&["X05"], format!("{name} on a map broke its clone: {e}")),
                Ok(v) => {
                    if sorted(v.clone()) != sorted(md.clone()) {
                        out.fail(&["X05"], format!("{name} on a map changed its clone to {v:?}, expected {md:?}"));
                    }
                }
            }
        }
    }
}

impl Sys for Par {
    fn name() -> &'static str {
        "partial"
    }
    fn ops() -> &'static [OpDef] {
        OPS
    }
    fn new(cfg: &Cfg) -> Self {
        DEFMODE.with(|d| d.set(cfg.hash2));
        let m = if cfg.cap == 0 { M::with_hasher(Hb { mode: cfg.hash }) } else { M::with_capacity_and_hasher(cfg.cap, Hb { mode: cfg.hash }) };
        Par { m, md: vec![], side: None, cfg: cfg.clone() }
    }
    fn show(&self) -> String {
        format!("{:?}", self.md)
    }
    fn step(&mut self, i: usize, o: &Op, out: &mut Out) {
        let d = &OPS[o.k];
        let pr = d.props;
        let (nl, nr) = (self.cfg.nl, self.cfg.nr);
        let t = i as u32 * 8;
        let m = &mut self.m;
        let md = &mut self.md;
        let (la, lb) = (o.a % nl, o.b % nl);
        let (ra, rb) = (o.a % nr, o.b % nr);
        let l = LK::new((la, t));
        let r = RK::new((rb, t + 1));
        macro_rules! same {
            ($got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                if g != w {
                    out.fail(pr, format!("{} returned {:?}, expected {:?}", d.name, g, w));
                }
            }};
        }
        let li = md.iter().position(|p| lc(p, la));
        let ri = md.iter().position(|p| rc(p, rb));
        match d.name {
            "insert" => {
                let (x, y) = m.insert(l.clone(), r.clone());
                same!((opv(x), opv(y)), m_insert(md, l.it(), r.it()));
            }
            "insert_left" => {
                let x = opv(m.insert_left(l.clone()));
                let w = take(md, |p| lc(p, la));
                md.push((Some(l.it()), None));
                same!(x, w);
            }
            "insert_right" => {
                let x = opv(m.insert_right(r.clone()));
                let w = take(md, |p| rc(p, rb));
                md.push((None, Some(r.it())));
                same!(x, w);
            }
            "pair" => {
                let x = m.pair(&l, &r);
                let w = match (li, ri) {
                    (Some(i), Some(j)) if md[i].1.is_none() && md[j].0.is_none() => {
                        md[i].1 = md[j].1;
                        md.remove(j);
                        true
                    }
                    _ => false,
                };
                same!(x, w);
            }
            "pair_forced" | "pair_forced_remove" => {
                let force = d.name == "pair_forced";
                let x = if force { opr(m.pair_forced(&l, &r)) } else { opv(m.pair_forced_remove(&l, &r)) };
                let w = match (li, ri) {
                    (Some(i), Some(j)) if i != j => {
                        let (old_r, old_l) = (md[i].1, md[j].0);
                        md[i].1 = md[j].1;
                        md.remove(j);
                        if force {
                            if old_l.is_some() {
                                md.push((old_l, None));
                            }
                            if old_r.is_some() {
                                md.push((None, old_r));
                            }
                        }
                        (old_l, old_r)
                    }
                    _ => NO,
                };
                same!(x, w);
            }
            "unpair" => {
                let x = m.unpair(&l, &r);
                let w = li.is_some() && li == ri;
                if w {
                    let e = md[li.unwrap()].1.take();
                    md.push((None, e));
                }
                same!(x, w);
            }
            "remove" => {
                let x = m.remove(&l, &r).map(|(a, b)| (Some(a.it()), Some(b.it())));
                let w = if li.is_some() && li == ri { Some(md.remove(li.unwrap())) } else { None };
                same!(x, w);
            }
            "remove_left" => {
                let x = m.remove_left(&l).map(lit);
                let w = li.and_then(|i| md[i].0.take());
                md.retain(|p| *p != NO);
                same!(x, w);
            }
            "remove_right" => {
                let x = m.remove_right(&r).map(rit);
                let w = ri.and_then(|i| md[i].1.take());
                md.retain(|p| *p != NO);
                same!(x, w);
            }
            "remove_via_left" => {
                let x = opv(m.remove_via_left(&l));
                same!(x, take(md, |p| lc(p, la)));
            }
            "remove_via_right" => {
                let x = opv(m.remove_via_right(&r));
                same!(x, take(md, |p| rc(p, rb)));
            }
            "swap_left" | "swap_left_checked" | "swap_left_or_insert" => {
                let new = LK::new((lb, t + 2));
                let e = RK::new((o.c % nr, t + 3));
                let (g, w) = match d.name {
                    "swap_left" => (m.swap_left(&l, new.clone()), m_swap_left(md, la, new.it())),
                    "swap_left_checked" => (
                        m.swap_left_checked(&l, &e, new.clone()),
                        if li.is_some_and(|i| rc(&md[i], e.c.0)) { m_swap_left(md, la, new.it()) } else { (None, NO) },
                    ),
                    _ => (
                        m.swap_left_or_insert(&l, new.clone(), e.clone()),
                        if li.is_some() {
                            m_swap_left(md, la, new.it())
                        } else {
                            match m_insert(md, new.it(), e.it()) {
                                (x, NO) => (None, x),
                                (NO, y) => (None, y),
                                (x, y) => (x.0, y),
                            }
                        },
                    ),
                };
                same!(nest(g, lit), (w.0, some(w.1)));
            }
            "swap_right" | "swap_right_checked" | "swap_right_or_insert" => {
                let old = RK::new((ra, t));
                let new = RK::new((rb, t + 2));
                let e = LK::new((o.c % nl, t + 3));
                let oi = md.iter().position(|p| rc(p, ra));
                let (g, w) = match d.name {
                    "swap_right" => (m.swap_right(&old, new.clone()), m_swap_right(md, ra, new.it())),
                    "swap_right_checked" => (
                        m.swap_right_checked(&old, &e, new.clone()),
                        if oi.is_some_and(|i| lc(&md[i], e.c.0)) { m_swap_right(md, ra, new.it()) } else { (None, NO) },
                    ),
                    _ => (
                        m.swap_right_or_insert(&old, new.clone(), e.clone()),
                        if oi.is_some() {
                            m_swap_right(md, ra, new.it())
                        } else {
                            match m_insert(md, e.it(), new.it()) {
                                (x, NO) => (None, x),
                                (NO, y) => (None, y),
                                (x, y) => (y.1, x),
                            }
                        },
                    ),
                };
                same!(nest(g, rit), (w.0, some(w.1)));
            }
            "retain" | "retain_paired" | "retain_unpaired" => {
                let seen = std::cell::RefCell::new(vec![]);
                let f = |p: OP| {
                    seen.borrow_mut().push(p);
                    pick(o.s, p.0.map(|x| x.0), p.1.map(|x| x.0))
                };
                let shown: fn(&OP) -> bool = match d.name {
                    "retain" => {
                        m.retain(|p| f((p.get_left().map(|l| l.it()), p.get_right().map(|r| r.it()))));
                        |p| p.0.is_some()
                    }
                    "retain_paired" => {
                        m.retain_paired(|l, r| f((Some(l.it()), Some(r.it()))));
                        |p| p.0.is_some() && p.1.is_some()
                    }
                    _ => {
                        m.retain_unpaired(|p| f((p.get_left().map(|l| l.it()), p.get_right().map(|r| r.it()))));
                        |p| p.0.is_none() || p.1.is_none()
                    }
                };
                same!(sorted(seen.into_inner()), sorted(md.iter().filter(|p| shown(p)).copied().collect()));
                md.retain(|p| !(shown(p) && pick(o.s, p.0.map(|x| x.0), p.1.map(|x| x.0))));
            }
            "drain" => {
                let n = md.len();
                let stop = if o.s % 3 == 0 { n + 1 } else { (o.a as usize) % (n + 1) };
                let mut got = vec![];
                {
                    let mut it = m.drain();
                    loop {
                        if it.len() != n - got.len() || it.size_hint() != (n - got.len(), Some(n - got.len())) {
                            out.fail(&["P05", "X02"], format!("drain len {} size_hint {:?}, {} to come", it.len(), it.size_hint(), n - got.len()));
                            break;
                        }
                        if got.len() >= stop {
                            break;
                        }
                        match it.next() {
                            Some(p) => got.push(opv(p)),
                            None => {
                                same!(got.len(), n);
                                if it.next().is_some() {
                                    out.fail(pr, "drain yields after None".into());
                                }
                                break;
                            }
                        }
                        if got.len() > n {
                            out.fail(pr, format!("drain yields more than {n} entries: {got:?}"));
                            break;
                        }
                    }
                }
                let mut w = md.clone();
                for g in &got {
                    match w.iter().position(|p| p == g) {
                        Some(i) => {
                            w.remove(i);
                        }
                        None => out.fail(pr, format!("drain yielded {g:?}, not one of the entries left")),
                    }
                }
                md.clear();
            }
            "drain_filter" => {
                let n = md.len();
                let stop = if o.s % 7 < 4 { n + 1 } else { (o.a as usize) % (n + 1) };
                let mut got = vec![];
                let seen = std::cell::RefCell::new(vec![]);
                let yes = |p: &OP| pick(o.s, p.0.map(|x| x.0), p.1.map(|x| x.0));
                {
                    let mut it = m.drain_filter(|p: OptionalPair<&LK, &RK>| {
                        let p = opr(p);
                        seen.borrow_mut().push(p);
                        yes(&p)
                    });
                    let total = md.iter().filter(|p| yes(p)).count();
                    while got.len() < stop {
                        let (lo, hi) = it.size_hint();
                        if lo + got.len() > total || hi.is_some_and(|h| h + got.len() < total) {
                            out.fail(&["P05", "X02"], format!("drain_filter size_hint {:?} with {} to come", (lo, hi), total - got.len()));
                        }
                        match it.next() {
                            Some(p) => got.push(opv(p)),
                            None => {
                                same!(got.len(), total);
                                break;
                            }
                        }
                        if got.len() > n {
                            break;
                        }
                    }
                }
                same!(sorted(seen.into_inner()), sorted(md.clone()));
                let mut w: Vec<OP> = md.iter().filter(|p| yes(p)).copied().collect();
                for g in &got {
                    match w.iter().position(|p| p == g) {
                        Some(i) => {
                            w.remove(i);
                        }
                        None => out.fail(pr, format!("drain_filter yielded {g:?}")),
                    }
                }
                md.retain(|p| !yes(p));
            }
            "clear" => {
                m.clear();
                md.clear();
            }
            "clone_to_side" => {
                let c = m.clone();
                if c.hasher().mode != m.hasher().mode {
                    out.fail(pr, "clone has another hasher".into());
                }
                let mut probe = Par { m: m.clone(), md: md.clone(), side: None, cfg: self.cfg.clone() };
                self.side = Some((c, md.clone()));
                if o.s % 4 == 0 {
                    clone_probe(i, &mut probe, self, o.s, out);
                }
                if !out.fails.is_empty() {
                    std::mem::forget(probe);
                }
            }
            "exchange_with_side" => {
                if let Some((sm, smd)) = &mut self.side {
                    std::mem::swap(m, sm);
                    std::mem::swap(md, smd);
                }
            }
            "eq_side" => {
                if let Some((sm, smd)) = &self.side {
                    if !eq_ok(*m == *sm, md, smd) || !eq_ok(*sm == *m, smd, md) || (*m != *sm) == (*m == *sm) {
                        out.fail(pr, format!("{md:?} == {smd:?} is {}", *m == *sm));
                    }
                }
            }
            "eq_rebuilt" => {
                let mut w = md.clone();
                let mut g = Rng(o.s as u64);
                g.shuffle(&mut w);
                let n = w.len();
                match o.a % 5 {
                    1 if n > 0 => {
                        w.pop();
                    }
                    2 if n > 1 => {
                        let x = w[0].1;
                        w[0].1 = w[1].1;
                        w[1].1 = x;
                    }
                    3 if n > 0 => w[0].0 = Some((nl + 3, 0)),
                    4 if n > 0 => w[n - 1].1 = Some((nr + 3, 0)),
                    _ => (),
                }
                w.retain(|p| *p != NO);
                let mut x = build(&w, self.cfg.hash2, (o.b % 40) as usize);
                if o.c % 2 == 0 {
                    x.insert(LK::new((nl + 7, 0)), RK::new((nr + 7, 0)));
                    x.remove_via_left(&LK::new((nl + 7, 0)));
                }
                if !eq_ok(*m == x, md, &w) || !eq_ok(x == *m, &w, md) {
                    out.fail(pr, format!("{md:?} == {w:?} is {} / {}", *m == x, x == *m));
                }
            }
            "shrink_to" => {
                let k = o.a as usize % 64;
                let (c, d) = (m.capacity_left(), m.capacity_right());
                if o.b % 2 == 0 {
                    m.shrink_to_left(k);
                    if m.capacity_left() < m.len_left() || (k <= c && m.capacity_left() < k) || m.capacity_right() != d {
                        out.fail(pr, format!("shrink_to_left({k}): capacity {c} became {}", m.capacity_left()));
                    }
                } else {
                    m.shrink_to_right(k);
                    if m.capacity_right() < m.len_right() || (k <= d && m.capacity_right() < k) || m.capacity_left() != c {
                        out.fail(pr, format!("shrink_to_right({k}): capacity {d} became {}", m.capacity_right()));
                    }
                }
            }
            "shrink_to_fit" => {
                m.shrink_to_fit();
                if m.capacity_left() < m.len_left() || m.capacity_right() < m.len_right() {
                    out.fail(pr, "shrink_to_fit: capacity below length".into());
                }
            }
            "reserve" | "try_reserve" => {
                let k = o.a as usize % 100;
                let mut ok = true;
                let left = o.b % 2 == 0;
                match (d.name, left) {
                    ("reserve", true) => m.reserve_left(k),
                    ("reserve", false) => m.reserve_right(k),
                    (_, true) => ok = m.try_reserve_left(k).is_ok() && m.try_reserve_left(usize::MAX).is_err(),
                    (_, false) => ok = m.try_reserve_right(k).is_ok() && m.try_reserve_right(usize::MAX).is_err(),
                }
                let (n, c) = if left { (m.len_left(), m.capacity_left()) } else { (m.len_right(), m.capacity_right()) };
                if !ok || c < n + k {
                    out.fail(pr, format!("{}({k}), left {left}: {ok}, capacity {c} with {n} items", d.name));
                }
            }
            "extend" | "collect" => {
                let mut g = Rng(o.s as u64);
                let items: Vec<OP> = (0..o.a % 6)
                    .map(|j| {
                        let l = Some((g.below(nl as u64) as u32, t + j));
                        let r = Some((g.below(nr as u64) as u32, t + j));
                        match (o.b % 2, g.below(5)) {
                            (0, _) | (_, 0) | (_, 1) => (l, r),
                            (_, 2) => (l, None),
                            (_, 3) => (None, r),
                            _ => NO,
                        }
                    })
                    .collect();
                let pairs = || items.iter().map(|p| (LK::new(p.0.unwrap()), RK::new(p.1.unwrap())));
                let ops = || {
                    items.iter().map(|p| match *p {
                        (Some(l), Some(r)) => OptionalPair::SomeBoth(LK::new(l), RK::new(r)),
                        (Some(l), None) => OptionalPair::SomeLeft(LK::new(l)),
                        (None, Some(r)) => OptionalPair::SomeRight(RK::new(r)),
                        _ => OptionalPair::Neither,
                    })
                };
                let into = |w: &mut Vec<OP>| {
                    for p in &items {
                        if let Some(l) = p.0 {
                            take(w, |q| lc(q, l.0));
                        }
                        if let Some(r) = p.1 {
                            take(w, |q| rc(q, r.0));
                        }
                        if *p != NO {
                            w.push(*p);
                        }
                    }
                };
                if d.name == "extend" {
                    if o.b % 2 == 0 {
                        m.extend(pairs());
                    } else {
                        m.extend(ops());
                    }
                    into(md);
                } else {
                    let x: PartialCycleMap<LK, RK> = if o.b % 2 == 0 { pairs().collect() } else { ops().collect() };
                    let mut w = vec![];
                    into(&mut w);
                    let mut got: Vec<OP> = x.iter_paired().map(|(l, r)| (Some(l.it()), Some(r.it()))).collect();
                    got.extend(x.iter_unpaired().map(opr));
                    same!(sorted(got), sorted(w));
                }
            }
            "iterate" => {
                let v = md.clone();
                macro_rules! it {
                    ($it:expr, $map:expr, $want:expr) => {
                        match walk($it, true, |i| i.len()) {
                            Err(e) => out.fail(&["X02"], format!("{}: {e}", stringify!($it))),
                            Ok(x) => {
                                let g = sorted(x.into_iter().map($map).collect::<Vec<OP>>());
                                let w = sorted(v.iter().copied().filter($want).collect::<Vec<OP>>());
                                if g != w {
                                    out.fail(&["X02"], format!("{} yields {g:?}, expected {w:?}", stringify!($it)));
                                }
                            }
                        }
                    };
                }
                it!(m.iter(), opr, |p: &OP| p.0.is_some());
                it!(m.iter_paired(), |(l, r)| (Some(l.it()), Some(r.it())), |p: &OP| p.0.is_some() && p.1.is_some());
                it!(m.iter_unpaired(), opr, |p: &OP| p.0.is_none() || p.1.is_none());
                let g = match walk(m.iter_left(), true, |i| i.len()) {
                    Ok(x) => x.iter().map(|l| l.it()).collect(),
                    Err(e) => {
                        out.fail(pr, format!("iter_left: {e}"));
                        vec![]
                    }
                };
                same!(sorted(g), sorted(md.iter().filter_map(|p| p.0).collect()));
                let g = match walk(m.iter_right(), true, |i| i.len()) {
                    Ok(x) => x.iter().map(|l| l.it()).collect(),
                    Err(e) => {
                        out.fail(pr, format!("iter_right: {e}"));
                        vec![]
                    }
                };
                same!(sorted(g), sorted(md.iter().filter_map(|p| p.1).collect()));
                let _ = format!("{:?} {:?} {:?} {:?} {:?} {:?}", m, m.iter(), m.iter_left(), m.iter_right(), m.iter_paired(), m.iter_unpaired());
            }
            "new_map" => {
                let k = o.a as usize % 50;
                let a: PartialCycleMap<LK, RK> = PartialCycleMap::new();
                let b: PartialCycleMap<LK, RK> = PartialCycleMap::with_capacity(k);
                let c: M = Default::default();
                let e: M = M::with_hasher(Hb { mode: 3 });
                let f: M = M::with_capacity_and_hasher(k, Hb { mode: 3 });
                if a.len_left() + b.len_right() + c.len_left() + e.len_right() + f.len_left() != 0 || !a.is_empty() || b.capacity_left() < k || b.capacity_right() < k || f.capacity_left() < k || f.capacity_right() < k {
                    out.fail(pr, "a new map is not empty or has too little capacity".into());
                }
                if e.hasher().mode != 3 || f.hasher().mode != 3 || c.hasher().mode != self.cfg.hash2 {
                    out.fail(pr, "a new map has another hasher".into());
                }
            }
            x => unreachable!("{x}"),
        }
        self.check(o.s, d.name, pr, out);
    }
}
