// CycleMap against its model: a list of pairs.
use crate::common::*;
use crate::ser;
use cycle_map::CycleMap;

type M = CycleMap<LK, RK, Hb>;
pub struct Cyc {
    m: M,
    md: Vec<P>,
    side: Option<(M, Vec<P>)>,
    cfg: Cfg,
}

const OPS: &[OpDef] = &[
    OpDef { name: "insert", w: 30, props: &["C02"] },
    OpDef { name: "remove", w: 6, props: &["C02"] },
    OpDef { name: "remove_via_left", w: 6, props: &["C02"] },
    OpDef { name: "remove_via_right", w: 6, props: &["C02"] },
    OpDef { name: "swap_left", w: 6, props: &["C03"] },
    OpDef { name: "swap_right", w: 6, props: &["C03"] },
    OpDef { name: "swap_left_checked", w: 6, props: &["C03"] },
    OpDef { name: "swap_right_checked", w: 6, props: &["C03"] },
    OpDef { name: "swap_left_or_insert", w: 6, props: &["C03"] },
    OpDef { name: "swap_right_or_insert", w: 6, props: &["C03"] },
    OpDef { name: "retain", w: 3, props: &["C04"] },
    OpDef { name: "drain", w: 2, props: &["C04"] },
    OpDef { name: "drain_filter", w: 3, props: &["C04"] },
    OpDef { name: "clear", w: 1, props: &["C04"] },
    OpDef { name: "clone_to_side", w: 3, props: &["X05"] },
    OpDef { name: "exchange_with_side", w: 3, props: &["X05"] },
    OpDef { name: "eq_side", w: 3, props: &["X01"] },
    OpDef { name: "eq_rebuilt", w: 3, props: &["X01"] },
    OpDef { name: "shrink_to", w: 2, props: &["X05"] },
    OpDef { name: "shrink_to_fit", w: 2, props: &["X05"] },
    OpDef { name: "reserve", w: 2, props: &["X05"] },
    OpDef { name: "try_reserve", w: 2, props: &["X05"] },
    OpDef { name: "extend", w: 3, props: &["X07"] },
    OpDef { name: "collect", w: 2, props: &["X07"] },
    OpDef { name: "iterate", w: 4, props: &["X02"] },
    OpDef { name: "serde", w: 3, props: &["X04"] },
    OpDef { name: "new_map", w: 1, props: &["X05"] },
];

fn pk(p: (LK, RK)) -> P {
    (p.0.it(), p.1.it())
}
fn m_insert(md: &mut Vec<P>, l: It, r: It) -> (Option<P>, Option<P>) {
    let lp = md.iter().position(|p| p.0 .0 == l.0).map(|i| md.remove(i));
    let rp = md.iter().position(|p| p.1 .0 == r.0).map(|i| md.remove(i));
    md.push((l, r));
    (lp, rp)
}
fn m_swap_left(md: &mut Vec<P>, old: u32, new: It) -> (Option<It>, Option<P>) {
    if !md.iter().any(|p| p.0 .0 == old) {
        return (None, None);
    }
    let ev = if old != new.0 { md.iter().position(|p| p.0 .0 == new.0).map(|i| md.remove(i)) } else { None };
    let p = md.iter_mut().find(|p| p.0 .0 == old).unwrap();
    (Some(std::mem::replace(&mut p.0, new)), ev)
}
fn m_swap_right(md: &mut Vec<P>, old: u32, new: It) -> (Option<It>, Option<P>) {
    if !md.iter().any(|p| p.1 .0 == old) {
        return (None, None);
    }
    let ev = if old != new.0 { md.iter().position(|p| p.1 .0 == new.0).map(|i| md.remove(i)) } else { None };
    let p = md.iter_mut().find(|p| p.1 .0 == old).unwrap();
    (Some(std::mem::replace(&mut p.1, new)), ev)
}

/// everything the map answers, checked for agreement
fn view(m: &M, nl: u32, nr: u32, seed: u32) -> Result<Vec<P>, String> {
    let ls: Vec<&LK> = m.iter_left().collect();
    let rs: Vec<&RK> = m.iter_right().collect();
    if ls.len() != m.len() || rs.len() != m.len() || m.is_empty() != ls.is_empty() {
        return Err(format!("len() is {}, iter_left yields {}, iter_right {}", m.len(), ls.len(), rs.len()));
    }
    let mut lcs: Vec<u32> = ls.iter().map(|l| l.c.0).collect();
    let mut rcs: Vec<u32> = rs.iter().map(|r| r.c.0).collect();
    lcs.sort();
    rcs.sort();
    if lcs.windows(2).any(|w| w[0] == w[1]) || rcs.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("two equal items in the map: {ls:?} {rs:?}"));
    }
    let mut v: Vec<P> = vec![];
    for l in &ls {
        let r = m.get_right(&l.c).ok_or_else(|| format!("get_right({l:?}) is None"))?;
        let l2 = m.get_left(&r.c).ok_or_else(|| format!("get_left({r:?}) is None"))?;
        if l2.it() != l.it() {
            return Err(format!("get_right({l:?}) is {r:?} but get_left of that is {l2:?}"));
        }
        if !m.are_paired(l, r) || !m.contains_left(l) || !m.contains_right(r) {
            return Err(format!("are_paired/contains deny the pair {l:?} {r:?}"));
        }
        if m.get_right::<LK>(l).map(|x| x.it()) != Some(r.it()) || m.get_left::<RK>(r).map(|x| x.it()) != Some(l.it()) {
            return Err(format!("owned and borrowed lookups differ at {l:?}"));
        }
        v.push((l.it(), r.it()));
    }
    let mut rs2: Vec<It> = v.iter().map(|p| p.1).collect();
    let mut rs1: Vec<It> = rs.iter().map(|r| r.it()).collect();
    rs1.sort();
    rs2.sort();
    if rs1 != rs2 {
        return Err(format!("iter_right yields {rs1:?}, lookups give {rs2:?}"));
    }
    let probe = |n: u32, i: u32| if n <= 10 { i } else { Rng((seed as u64) << 8 | i as u64).below(n as u64) as u32 };
    for i in 0..nl.min(10) {
        let c = probe(nl, i);
        let l = LK::new((c, 9999));
        let want = v.iter().find(|p| p.0 .0 == c);
        if m.contains_left(&l) != want.is_some() || m.get_right(&l.c).map(|x| x.it()) != want.map(|p| p.1) {
            return Err(format!("contains_left/get_right({c}) wrong, map holds {want:?}"));
        }
        for j in 0..nr.min(10) {
            let d = probe(nr, j + 100);
            let r = RK::new((d, 9999));
            if m.are_paired(&l, &r) != want.is_some_and(|p| p.1 .0 == d) {
                return Err(format!("are_paired({c},{d}) is {}", m.are_paired(&l, &r)));
            }
        }
    }
    for j in 0..nr.min(10) {
        let d = probe(nr, j + 200);
        let r = RK::new((d, 9999));
        let want = v.iter().find(|p| p.1 .0 == d);
        if m.contains_right(&r) != want.is_some() || m.get_left(&r.c).map(|x| x.it()) != want.map(|p| p.0) {
            return Err(format!("contains_right/get_left({d}) wrong, map holds {want:?}"));
        }
    }
    Ok(v)
}
fn build(md: &[P], mode: u8, cap: usize) -> M {
    let mut m = M::with_capacity_and_hasher(cap, Hb { mode });
    for (l, r) in md {
        m.insert(LK::new(*l), RK::new(*r));
    }
    m
}

impl Cyc {
    fn check(&self, seed: u32, name: &str, pr: &[&'static str], out: &mut Out) {
        match view(&self.m, self.cfg.nl, self.cfg.nr, seed) {
            Err(e) => {
                // is it this operation, or the query itself?
                let fresh = view(&build(&self.md, self.cfg.hash, 0), self.cfg.nl, self.cfg.nr, seed);
                let p = if fresh.is_err() && name != "insert" { vec!["C01"] } else { plus(pr, &["C01"]) };
                out.fail(&p, format!("after {name}: {e}"));
            }
            Ok(v) => {
                if sorted(v.clone()) != sorted(self.md.clone()) {
                    out.fail(pr, format!("after {name} the map holds {:?}, expected {:?}", sorted(v), sorted(self.md.clone())));
                } else {
                    let it: Vec<P> = self.m.iter().map(|(l, r)| (l.it(), r.it())).collect();
                    if sorted(it.clone()) != sorted(v) {
                        out.fail(&["C01", "X02"], format!("iter() yields {:?}, the map holds {:?}", it, self.md));
                    }
                }
            }
        }
        if let Some((m, md)) = &self.side {
            match view(m, self.cfg.nl, self.cfg.nr, seed) {
                Err(e) => out.fail(&["X05"], format!("{name} on a map broke its clone: {e}")),
                Ok(v) => {
                    if sorted(v.clone()) != sorted(md.clone()) {
                        out.fail(&["X05"], format!("{name} on a map changed its clone to {v:?}, expected {md:?}"));
                    }
                }
            }
        }
    }
}

impl Sys for Cyc {
    fn name() -> &'static str {
        "cycle"
    }
    fn ops() -> &'static [OpDef] {
        OPS
    }
    fn new(cfg: &Cfg) -> Self {
        DEFMODE.with(|d| d.set(cfg.hash2));
        let m = if cfg.cap == 0 { M::with_hasher(Hb { mode: cfg.hash }) } else { M::with_capacity_and_hasher(cfg.cap, Hb { mode: cfg.hash }) };
        Cyc { m, md: vec![], side: None, cfg: cfg.clone() }
    }
    fn show(&self) -> String {
        format!("{:?}", self.md)
    }
    fn step(&mut self, i: usize, o: &Op, out: &mut Out) {
        let d = &OPS[o.k];
        let pr = d.props;
        let (nl, nr) = (self.cfg.nl, self.cfg.nr);
        let t = i as u32 * 8;
        let m = &mut self.m;
        let md = &mut self.md;
        let (la, lb) = (o.a % nl, o.b % nl);
        let (ra, rb) = (o.a % nr, o.b % nr);
        let l = LK::new((la, t));
        let r = RK::new((rb, t + 1));
        macro_rules! same {
            ($got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                if g != w {
                    out.fail(pr, format!("{} returned {:?}, expected {:?}", d.name, g, w));
                }
            }};
        }
        match d.name {
            "insert" => {
                let g = match m.insert(l.clone(), r.clone()) {
                    cycle_map::OptionalPair::Neither => (None, None),
                    cycle_map::OptionalPair::SomeLeft(p) => (Some(pk(p)), None),
                    cycle_map::OptionalPair::SomeRight(p) => (None, Some(pk(p))),
                    cycle_map::OptionalPair::SomeBoth(p, q) => (Some(pk(p)), Some(pk(q))),
                };
                same!(g, m_insert(md, l.it(), r.it()));
            }
            "remove" => {
                let g = m.remove(&l, &r).map(pk);
                let w = md.iter().position(|p| p.0 .0 == la && p.1 .0 == rb).map(|i| md.remove(i));
                same!(g, w);
            }
            "remove_via_left" => {
                let g = m.remove_via_left(&l).map(pk);
                let w = md.iter().position(|p| p.0 .0 == la).map(|i| md.remove(i));
                same!(g, w);
            }
            "remove_via_right" => {
                let g = m.remove_via_right(&r).map(pk);
                let w = md.iter().position(|p| p.1 .0 == rb).map(|i| md.remove(i));
                same!(g, w);
            }
            "swap_left" | "swap_left_checked" | "swap_left_or_insert" => {
                let new = LK::new((lb, t + 2));
                let rc = RK::new((o.c % nr, t + 3));
                let present = md.iter().find(|p| p.0 .0 == la).copied();
                let (g, w) = match d.name {
                    "swap_left" => (m.swap_left(&l, new.clone()), m_swap_left(md, la, new.it())),
                    "swap_left_checked" => (
                        m.swap_left_checked(&l, &rc, new.clone()),
                        if present.is_some_and(|p| p.1 .0 == rc.c.0) { m_swap_left(md, la, new.it()) } else { (None, None) },
                    ),
                    _ => (
                        m.swap_left_or_insert(&l, new.clone(), rc.clone()),
                        if present.is_some() {
                            m_swap_left(md, la, new.it())
                        } else {
                            let (x, y) = m_insert(md, new.it(), rc.it());
                            (x.map(|p| p.0), y)
                        },
                    ),
                };
                let g = match g {
                    cycle_map::OptionalPair::Neither => (None, None),
                    cycle_map::OptionalPair::SomeLeft(p) => (Some(p.it()), None),
                    cycle_map::OptionalPair::SomeRight(p) => (None, Some(pk(p))),
                    cycle_map::OptionalPair::SomeBoth(p, q) => (Some(p.it()), Some(pk(q))),
                };
                same!(g, w);
            }
            "swap_right" | "swap_right_checked" | "swap_right_or_insert" => {
                let old = RK::new((ra, t));
                let new = RK::new((rb, t + 2));
                let lc = LK::new((o.c % nl, t + 3));
                let present = md.iter().find(|p| p.1 .0 == ra).copied();
                let (g, w) = match d.name {
                    "swap_right" => (m.swap_right(&old, new.clone()), m_swap_right(md, ra, new.it())),
                    "swap_right_checked" => (
                        m.swap_right_checked(&old, &lc, new.clone()),
                        if present.is_some_and(|p| p.0 .0 == lc.c.0) { m_swap_right(md, ra, new.it()) } else { (None, None) },
                    ),
                    _ => (
                        m.swap_right_or_insert(&old, new.clone(), lc.clone()),
                        if present.is_some() {
                            m_swap_right(md, ra, new.it())
                        } else {
                            match m_insert(md, lc.it(), new.it()) {
                                (Some(p), Some(q)) => (Some(q.1), Some(p)),
                                (None, q) => (None, q),
                                (p, None) => (None, p),
                            }
                        },
                    ),
                };
                let g = match g {
                    cycle_map::OptionalPair::Neither => (None, None),
                    cycle_map::OptionalPair::SomeLeft(p) => (Some(p.it()), None),
                    cycle_map::OptionalPair::SomeRight(p) => (None, Some(pk(p))),
                    cycle_map::OptionalPair::SomeBoth(p, q) => (Some(p.it()), Some(pk(q))),
                };
                same!(g, w);
            }
            "retain" => {
                let mut seen = vec![];
                m.retain(|l, r| {
                    seen.push((l.it(), r.it()));
                    pick(o.s, Some(l.c.0), Some(r.c.0))
                });
                same!(sorted(seen), sorted(md.clone()));
                md.retain(|p| pick(o.s, Some(p.0 .0), Some(p.1 .0)));
            }
            "drain" => {
                let n = md.len();
                let stop = if o.s % 3 == 0 { n + 1 } else { (o.a as usize) % (n + 1) };
                let mut got = vec![];
                {
                    let mut it = m.drain();
                    loop {
                        if it.len() != n - got.len() || it.size_hint() != (n - got.len(), Some(n - got.len())) {
                            out.fail(&["C04", "X02"], format!("drain len {} size_hint {:?}, {} to come", it.len(), it.size_hint(), n - got.len()));
                            break;
                        }
                        if got.len() >= stop {
                            break;
                        }
                        match it.next() {
                            Some(p) => got.push(pk(p)),
                            None => {
                                same!(got.len(), n);
                                if it.next().is_some() {
                                    out.fail(pr, "drain yields after None".into());
                                }
                                break;
                            }
                        }
                        if got.len() > n {
                            out.fail(pr, format!("drain yields more than {n} pairs: {got:?}"));
                            break;
                        }
                    }
                }
                let mut w = md.clone();
                for g in &got {
                    match w.iter().position(|p| p == g) {
                        Some(i) => {
                            w.remove(i);
                        }
                        None => out.fail(pr, format!("drain yielded {g:?}, not one of the pairs left")),
                    }
                }
                md.clear();
            }
            "drain_filter" => {
                let n = md.len();
                let stop = if o.s % 7 < 4 { n + 1 } else { (o.a as usize) % (n + 1) };
                let mut got = vec![];
                let seen = std::cell::RefCell::new(vec![]);
                {
                    let mut it = m.drain_filter(|l: &LK, r: &RK| {
                        seen.borrow_mut().push((l.it(), r.it()));
                        pick(o.s, Some(l.c.0), Some(r.c.0))
                    });
                    let total = md.iter().filter(|p| pick(o.s, Some(p.0 .0), Some(p.1 .0))).count();
                    while got.len() < stop {
                        let (lo, hi) = it.size_hint();
                        if lo + got.len() > total || hi.is_some_and(|h| h + got.len() < total) {
                            out.fail(&["C04", "X02"], format!("drain_filter size_hint {:?} with {} to come", (lo, hi), total - got.len()));
                        }
                        match it.next() {
                            Some(p) => got.push(pk(p)),
                            None => {
                                same!(got.len(), total);
                                break;
                            }
                        }
                        if got.len() > n {
                            break;
                        }
                    }
                }
                same!(sorted(seen.into_inner()), sorted(md.clone()));
                let mut w: Vec<P> = md.iter().filter(|p| pick(o.s, Some(p.0 .0), Some(p.1 .0))).copied().collect();
                for g in &got {
                    match w.iter().position(|p| p == g) {
                        Some(i) => {
                            w.remove(i);
                        }
                        None => out.fail(pr, format!("drain_filter yielded {g:?}")),
                    }
                }
                md.retain(|p| !pick(o.s, Some(p.0 .0), Some(p.1 .0)));
            }
            "clear" => {
                m.clear();
                md.clear();
            }
            "clone_to_side" => {
                let c = m.clone();
                if c.hasher().mode != m.hasher().mode {
                    out.fail(pr, "clone has another hasher".into());
                }
                let mut probe = Cyc { m: m.clone(), md: md.clone(), side: None, cfg: self.cfg.clone() };
                self.side = Some((c, md.clone()));
                if o.s % 4 == 0 {
                    clone_probe(i, &mut probe, self, o.s, out);
                }
                if !out.fails.is_empty() {
                    std::mem::forget(probe);
                }
            }
            "exchange_with_side" => {
                if let Some((sm, smd)) = &mut self.side {
                    std::mem::swap(m, sm);
                    std::mem::swap(md, smd);
                }
            }
            "eq_side" => {
                if let Some((sm, smd)) = &self.side {
                    let want = sorted(md.iter().map(|p| (p.0 .0, p.1 .0)).collect()) == sorted(smd.iter().map(|p| (p.0 .0, p.1 .0)).collect());
                    #[allow(clippy::nonminimal_bool)]
                    if (*m == *sm) != want || (*sm == *m) != want || (*m != *sm) == want {
                        out.fail(pr, format!("{md:?} == {smd:?} is {}, expected {want}", *m == *sm));
                    }
                }
            }
            "eq_rebuilt" => {
                let mut w = md.clone();
                let mut g = Rng(o.s as u64);
                g.shuffle(&mut w);
                let n = w.len();
                match o.a % 5 {
                    1 if n > 0 => {
                        w.pop();
                    }
                    2 if n > 1 => {
                        let x = w[0].1;
                        w[0].1 = w[1].1;
                        w[1].1 = x;
                    }
                    3 if n > 0 => w[0].0 .0 = nl + 3,
                    4 if n > 0 => w[n - 1].1 .0 = nr + 3,
                    _ => (),
                }
                let mut x = build(&w, self.cfg.hash2, (o.b % 40) as usize);
                if o.c % 2 == 0 {
                    x.insert(LK::new((nl + 7, 0)), RK::new((nr + 7, 0)));
                    x.remove_via_left(&LK::new((nl + 7, 0)));
                }
                let want = sorted(md.iter().map(|p| (p.0 .0, p.1 .0)).collect()) == sorted(w.iter().map(|p| (p.0 .0, p.1 .0)).collect());
                if (*m == x) != want || (x == *m) != want {
                    out.fail(pr, format!("{md:?} == {w:?} is {} / {}, expected {want}", *m == x, x == *m));
                }
            }
            "shrink_to" => {
                let c = m.capacity();
                let k = o.a as usize % 64;
                m.shrink_to(k);
                if m.capacity() < md.len() || (k <= c && m.capacity() < k) {
                    out.fail(pr, format!("shrink_to({k}): capacity {c} became {}", m.capacity()));
                }
            }
            "shrink_to_fit" => {
                m.shrink_to_fit();
                if m.capacity() < md.len() {
                    out.fail(pr, format!("shrink_to_fit: capacity {} with {} pairs", m.capacity(), md.len()));
                }
            }
            "reserve" => {
                let k = o.a as usize % 100;
                m.reserve(k);
                if m.capacity() < md.len() + k {
                    out.fail(pr, format!("reserve({k}): capacity {} with {} pairs", m.capacity(), md.len()));
                }
            }
            "try_reserve" => {
                let k = o.a as usize % 100;
                let ok = m.try_reserve(k).is_ok();
                if !ok || m.capacity() < md.len() + k {
                    out.fail(pr, format!("try_reserve({k}): {ok}, capacity {} with {} pairs", m.capacity(), md.len()));
                }
                if m.try_reserve(usize::MAX).is_ok() {
                    out.fail(pr, "try_reserve(usize::MAX) succeeded".into());
                }
            }
            "extend" | "collect" => {
                let mut g = Rng(o.s as u64);
                let items: Vec<P> = (0..o.a % 6).map(|j| ((g.below(nl as u64) as u32, t + j), (g.below(nr as u64) as u32, t + j))).collect();
                if d.name == "extend" {
                    m.extend(items.iter().map(|p| (LK::new(p.0), RK::new(p.1))));
                    for p in &items {
                        m_insert(md, p.0, p.1);
                    }
                } else {
                    let x: CycleMap<LK, RK> = items.iter().map(|p| (LK::new(p.0), RK::new(p.1))).collect();
                    let mut w = vec![];
                    for p in &items {
                        m_insert(&mut w, p.0, p.1);
                    }
                    let got: Vec<P> = x.iter().map(|(l, r)| (l.it(), r.it())).collect();
                    same!(sorted(got), sorted(w.clone()));
                    same!(x.len(), w.len());
                }
            }
            "iterate" => {
                match walk(m.iter(), true, |i| i.len()) {
                    Err(e) => out.fail(&["X02"], format!("iter(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|(l, r)| (l.it(), r.it())).collect()), sorted(md.clone())),
                }
                match walk(m.iter_left(), true, |i| i.len()) {
                    Err(e) => out.fail(&["X02"], format!("iter_left(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|l| l.it()).collect()), sorted(md.iter().map(|p| p.0).collect())),
                }
                match walk(m.iter_right(), true, |i| i.len()) {
                    Err(e) => out.fail(&["X02"], format!("iter_right(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|l| l.it()).collect()), sorted(md.iter().map(|p| p.1).collect())),
                }
                let _ = format!("{:?} {:?} {:?} {:?}", m, m.iter(), m.iter_left(), m.iter_right());
            }
            "serde" => ser::check(m, md, &self.cfg, o, out),
            "new_map" => {
                let a: CycleMap<LK, RK> = CycleMap::new();
                let b: CycleMap<LK, RK> = CycleMap::with_capacity(o.a as usize % 50);
                let c: M = Default::default();
                let e: M = M::with_hasher(Hb { mode: 3 });
                let f: M = M::with_capacity_and_hasher(o.a as usize % 50, Hb { mode: 3 });
                if a.len() + b.len() + c.len() + e.len() + f.len() != 0 || !a.is_empty() || b.capacity() < o.a as usize % 50 || f.capacity() < o.a as usize % 50 {
                    out.fail(pr, "a new map is not empty or has too little capacity".into());
                }
                if e.hasher().mode != 3 || f.hasher().mode != 3 || c.hasher().mode != self.cfg.hash2 {
                    out.fail(pr, "a new map has another hasher".into());
                }
            }
            x => unreachable!("{x}"),
        }
        self.check(o.s, d.name, pr, out);
    }
}
