// GroupMap against its model: a list of (right item, its left items).
use crate::common::*;
use cycle_map::GroupMap;
use hashbrown::HashSet;

type M = GroupMap<LK, RK, Hb>;
type G = (It, Vec<It>);
pub struct Grp {
    m: M,
    md: Vec<G>,
    side: Option<(M, Vec<G>)>,
    cfg: Cfg,
    /// do not skip the recorded finding (inserting an existing pair again)
    pub raw: bool,
}

const OPS: &[OpDef] = &[
    OpDef { name: "insert", w: 30, props: &["G02"] },
    OpDef { name: "insert_remove", w: 6, props: &["G02"] },
    OpDef { name: "insert_left", w: 16, props: &["G02"] },
    OpDef { name: "insert_right", w: 8, props: &["G02"] },
    OpDef { name: "pair", w: 10, props: &["G02"] },
    OpDef { name: "remove", w: 4, props: &["G03"] },
    OpDef { name: "remove_left", w: 6, props: &["G03"] },
    OpDef { name: "remove_right", w: 5, props: &["G03"] },
    OpDef { name: "swap_right", w: 8, props: &["G04"] },
    OpDef { name: "swap_right_remove", w: 8, props: &["G04"] },
    OpDef { name: "retain_paired", w: 3, props: &["G05"] },
    OpDef { name: "retain_unpaired", w: 3, props: &["G05"] },
    OpDef { name: "clear", w: 1, props: &["G05"] },
    OpDef { name: "clone_to_side", w: 3, props: &["X05"] },
    OpDef { name: "exchange_with_side", w: 3, props: &["X05"] },
    OpDef { name: "eq_side", w: 3, props: &["X01"] },
    OpDef { name: "eq_rebuilt", w: 3, props: &["X01"] },
    OpDef { name: "extend", w: 3, props: &["X07"] },
    OpDef { name: "collect", w: 2, props: &["X07"] },
    OpDef { name: "iterate", w: 4, props: &["X02"] },
    OpDef { name: "new_map", w: 1, props: &["X05"] },
];

fn canon(md: &[G]) -> Vec<G> {
    sorted(md.iter().map(|g| (g.0, sorted(g.1.clone()))).collect())
}
fn cls(md: &[G]) -> Vec<(u32, Vec<u32>)> {
    sorted(md.iter().map(|g| (g.0 .0, sorted(g.1.iter().map(|x| x.0).collect()))).collect())
}
fn rpos(md: &[G], c: u32) -> Option<usize> {
    md.iter().position(|g| g.0 .0 == c)
}
fn lpos(md: &[G], c: u32) -> Option<(usize, usize)> {
    md.iter().enumerate().find_map(|(i, g)| g.1.iter().position(|l| l.0 == c).map(|j| (i, j)))
}
fn take_l(md: &mut [G], c: u32) -> Option<It> {
    lpos(md, c).map(|(i, j)| md[i].1.remove(j))
}
fn take_r(md: &mut Vec<G>, c: u32) -> Option<(Vec<It>, It)> {
    rpos(md, c).map(|i| {
        let g = md.remove(i);
        (sorted(g.1), g.0)
    })
}
fn set(x: Option<(HashSet<LK>, RK)>) -> Option<(Vec<It>, It)> {
    x.map(|(s, r)| (sorted(s.iter().map(|l| l.it()).collect()), r.it()))
}
fn m_insert(md: &mut Vec<G>, l: It, r: It) {
    let l = take_l(md, l.0).unwrap_or(l);
    match rpos(md, r.0) {
        Some(i) => md[i].1.push(l),
        None => md.push((r, vec![l])),
    }
}
fn paired(md: &[G], l: u32, r: u32) -> bool {
    lpos(md, l).is_some_and(|(i, _)| md[i].0 .0 == r)
}

fn view(m: &M, nl: u32, nr: u32, seed: u32) -> Result<Vec<G>, String> {
    let ls: Vec<&LK> = m.iter_left().collect();
    let rs: Vec<&RK> = m.iter_right().collect();
    if ls.len() != m.len_left() || rs.len() != m.len_right() || m.is_empty() != (ls.is_empty() && rs.is_empty()) {
        return Err(format!("len_left {} len_right {} is_empty {}, iter_left yields {}, iter_right {}", m.len_left(), m.len_right(), m.is_empty(), ls.len(), rs.len()));
    }
    let mut lcs: Vec<u32> = ls.iter().map(|l| l.c.0).collect();
    let mut rcs: Vec<u32> = rs.iter().map(|r| r.c.0).collect();
    lcs.sort();
    rcs.sort();
    if lcs.windows(2).any(|w| w[0] == w[1]) || rcs.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("two equal items in the map: {ls:?} {rs:?}"));
    }
    let mut v: Vec<G> = vec![];
    for r in &rs {
        if !m.contains_right(r) {
            return Err(format!("contains_right denies {r:?}"));
        }
        let g: Vec<It> = m.get_left_iter(&r.c).ok_or_else(|| format!("get_left_iter({r:?}) is None"))?.map(|l| l.it()).collect();
        let g2: Vec<It> = m.get_left_iter::<RK>(r).ok_or_else(|| format!("get_left_iter({r:?}) is None"))?.map(|l| l.it()).collect();
        if g != g2 || m.is_right_paired(r) == g.is_empty() {
            return Err(format!("get_left_iter({r:?}) yields {g:?} or {g2:?}, is_right_paired {}", m.is_right_paired(r)));
        }
        for l in &g {
            if !ls.iter().any(|x| x.it() == *l) {
                return Err(format!("the group of {r:?} holds {l:?}, iter_left does not"));
            }
            if m.get_right(&LQ(l.0)).map(|x| x.it()) != Some(r.it()) || !m.are_paired(&LK::new(*l), r) {
                return Err(format!("the group of {r:?} holds {l:?}, but get_right gives {:?}, are_paired {}", m.get_right(&LQ(l.0)), m.are_paired(&LK::new(*l), r)));
            }
        }
        v.push((r.it(), g));
    }
    for l in &ls {
        if !m.contains_left(l) {
            return Err(format!("contains_left denies {l:?}"));
        }
        let r = m.get_right(&l.c).ok_or_else(|| format!("get_right({l:?}) is None"))?;
        if m.get_right::<LK>(l).map(|x| x.it()) != Some(r.it()) || v.iter().filter(|g| g.1.contains(&l.it())).count() != 1 || !v.iter().any(|g| g.0 == r.it() && g.1.contains(&l.it())) {
            return Err(format!("get_right({l:?}) is {r:?}, the groups are {v:?}"));
        }
    }
    if v.iter().map(|g| g.1.len()).sum::<usize>() != ls.len() {
        return Err(format!("the groups {v:?} hold more than the {} left items", ls.len()));
    }
    let probe = |n: u32, i: u32| if n <= 8 { i } else { Rng((seed as u64) << 8 | i as u64).below(n as u64) as u32 };
    for i in 0..nl.min(8) {
        let c = probe(nl, i);
        let l = LK::new((c, 9999));
        let want = lpos(&v, c).map(|(i, _)| v[i].0);
        if m.contains_left(&l) != want.is_some() || m.get_right(&l.c).map(|x| x.it()) != want {
            return Err(format!("contains_left/get_right({c}) wrong, map holds {want:?}"));
        }
        for j in 0..nr.min(8) {
            let d = probe(nr, j + 100);
            if m.are_paired(&l, &RK::new((d, 9999))) != want.is_some_and(|p| p.0 == d) {
                return Err(format!("are_paired({c},{d}) is {}", !want.is_some_and(|p| p.0 == d)));
            }
        }
    }
    for j in 0..nr.min(8) {
        let d = probe(nr, j + 200);
        let r = RK::new((d, 9999));
        let want = rpos(&v, d);
        if m.contains_right(&r) != want.is_some() || m.get_left_iter(&r.c).is_some() != want.is_some() || m.is_right_paired(&r) != want.is_some_and(|i| !v[i].1.is_empty()) {
            return Err(format!("contains_right/get_left_iter/is_right_paired({d}) wrong, map holds {:?}", want.map(|i| &v[i])));
        }
    }
    Ok(v)
}
fn build(md: &[G], mode: u8, cap: usize) -> M {
    let mut m = M::with_capacity_and_hasher(cap, Hb { mode });
    for g in md {
        m.insert_right(RK::new(g.0));
        for l in &g.1 {
            m.insert_left(LK::new(*l), &RK::new(g.0));
        }
    }
    m
}
fn flat(md: &[G]) -> Vec<(Option<It>, It)> {
    sorted(md.iter().flat_map(|g| if g.1.is_empty() { vec![(None, g.0)] } else { g.1.iter().map(|l| (Some(*l), g.0)).collect() }).collect())
}

impl Grp {
    fn check(&self, seed: u32, name: &str, pr: &[&'static str], out: &mut Out) {
        match view(&self.m, self.cfg.nl, self.cfg.nr, seed) {
            Err(e) => {
                let fresh = view(&build(&self.md, self.cfg.hash, 0), self.cfg.nl, self.cfg.nr, seed);
                let p = if fresh.is_err() && !name.starts_with("insert") { vec!["G01"] } else { plus(pr, &["G01"]) };
                out.fail(&p, format!("after {name}: {e}"));
            }
            Ok(v) => {
                if canon(&v) != canon(&self.md) {
                    out.fail(pr, format!("after {name} the map holds {:?}, expected {:?}", canon(&v), canon(&self.md)));
                } else {
                    let it: Vec<(Option<It>, It)> = self.m.iter().map(|(l, r)| (l.map(|l| l.it()), r.it())).collect();
                    if sorted(it.clone()) != flat(&v) {
                        out.fail(&["G01", "X02"], format!("iter() yields {it:?}, the map holds {:?}", self.md));
                    }
                    let it: Vec<(Option<It>, It)> = self.m.iter_paired().map(|(l, r)| (Some(l.it()), r.it())).collect();
                    if sorted(it.clone()) != flat(&v).into_iter().filter(|p| p.0.is_some()).collect::<Vec<_>>() {
                        out.fail(&["G01", "X02"], format!("iter_paired() yields {it:?}, the map holds {:?}", self.md));
                    }
                    let it: Vec<It> = self.m.iter_unpaired().map(|r| r.it()).collect();
                    if sorted(it.clone()) != sorted(v.iter().filter(|g| g.1.is_empty()).map(|g| g.0).collect()) {
                        out.fail(&["G01", "X02"], format!("iter_unpaired() yields {it:?}, the map holds {:?}", self.md));
                    }
                }
            }
        }
        if let Some((m, md)) = &self.side {
            match view(m, self.cfg.nl, self.cfg.nr, seed) {
                Err(e) => out.fail(&["X05"], format!("{name} on a map broke its clone: {e}")),
                Ok(v) => {
                    if canon(&v) != canon(md) {
                        out.fail(&["X05"], format!("{name} on a map changed its clone to {v:?}, expected {md:?}"));
                    }
                }
            }
        }
    }
}

impl Sys for Grp {
    fn name() -> &'static str {
        "group"
    }
    fn ops() -> &'static [OpDef] {
        OPS
    }
    fn new(cfg: &Cfg) -> Self {
        DEFMODE.with(|d| d.set(cfg.hash2));
        let m = if cfg.cap == 0 { M::with_hasher(Hb { mode: cfg.hash }) } else { M::with_capacity_and_hasher(cfg.cap, Hb { mode: cfg.hash }) };
        Grp { m, md: vec![], side: None, cfg: cfg.clone(), raw: false }
    }
    fn show(&self) -> String {
        format!("{:?}", self.md)
    }
    fn step(&mut self, i: usize, o: &Op, out: &mut Out) {
        let d = &OPS[o.k];
        let pr = d.props;
        let (nl, nr) = (self.cfg.nl, self.cfg.nr);
        let t = i as u32 * 8;
        let m = &mut self.m;
        let md = &mut self.md;
        let la = o.a % nl;
        let (ra, rb) = (o.a % nr, o.b % nr);
        let l = LK::new((la, t));
        let r = RK::new((rb, t + 1));
        macro_rules! same {
            ($got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                if g != w {
                    out.fail(pr, format!("{} returned {:?}, expected {:?}", d.name, g, w));
                }
            }};
        }
        match d.name {
            "insert" => {
                if self.raw || !paired(md, la, rb) {
                    m.insert(l.clone(), r.clone());
                    m_insert(md, l.it(), r.it());
                }
            }
            "insert_remove" => {
                let (x, y) = m.insert_remove(l.clone(), r.clone());
                let a = take_l(md, la);
                let b = take_r(md, rb);
                md.push((r.it(), vec![l.it()]));
                same!((x.map(lit), set(y)), (a, b));
            }
            "insert_left" => {
                let x = m.insert_left(l.clone(), &r).map(lit);
                let w = if rpos(md, rb).is_some() {
                    let a = take_l(md, la);
                    let i = rpos(md, rb).unwrap();
                    md[i].1.push(l.it());
                    a
                } else {
                    None
                };
                same!(x, w);
            }
            "insert_right" => {
                let x = set(m.insert_right(r.clone()));
                let w = take_r(md, rb);
                md.push((r.it(), vec![]));
                same!(x, w);
            }
            "pair" => {
                let x = m.pair(&l, &r);
                let w = lpos(md, la).is_some() && rpos(md, rb).is_some();
                if w {
                    let a = take_l(md, la).unwrap();
                    let i = rpos(md, rb).unwrap();
                    md[i].1.push(a);
                }
                same!(x, w);
            }
            "remove" => {
                let x = set(m.remove(&l, &r));
                let w = if paired(md, la, rb) { take_r(md, rb) } else { None };
                same!(x, w);
            }
            "remove_left" => {
                let x = m.remove_left(&l).map(lit);
                same!(x, take_l(md, la));
            }
            "remove_right" => {
                let x = set(m.remove_right(&r));
                same!(x, take_r(md, rb));
            }
            "swap_right" => {
                let old = RK::new((ra, t));
                m.swap_right(&old, r.clone());
                if !(ra == rb && rpos(md, ra).is_some()) {
                    take_r(md, rb);
                    match rpos(md, ra) {
                        None => md.push((r.it(), vec![])),
                        Some(i) => {
                            let g = std::mem::take(&mut md[i].1);
                            md.push((r.it(), g));
                        }
                    }
                }
            }
            "swap_right_remove" => {
                let old = RK::new((ra, t));
                let x = m.swap_right_remove(&old, r.clone()).map(rit);
                if ra != rb {
                    take_r(md, rb);
                }
                let w = match rpos(md, ra) {
                    None => {
                        md.push((r.it(), vec![]));
                        None
                    }
                    Some(i) => Some(std::mem::replace(&mut md[i].0, r.it())),
                };
                same!(x, w);
            }
            "retain_paired" => {
                let mut seen = vec![];
                m.retain_paired(|l, r| {
                    seen.push((Some(l.it()), r.it()));
                    pick(o.s, Some(l.c.0), Some(r.c.0))
                });
                same!(sorted(seen), flat(md).into_iter().filter(|p| p.0.is_some()).collect::<Vec<_>>());
                for g in md.iter_mut() {
                    let c = g.0 .0;
                    g.1.retain(|l| !pick(o.s, Some(l.0), Some(c)));
                }
            }
            "retain_unpaired" => {
                let mut seen = vec![];
                m.retain_unpaired(|r| {
                    seen.push(r.it());
                    pick(o.s, None, Some(r.c.0))
                });
                same!(sorted(seen), sorted(md.iter().filter(|g| g.1.is_empty()).map(|g| g.0).collect()));
                md.retain(|g| !(g.1.is_empty() && pick(o.s, None, Some(g.0 .0))));
            }
            "clear" => {
                m.clear();
                md.clear();
            }
            "clone_to_side" => {
                let c = m.clone();
                if c.hasher().mode != m.hasher().mode {
                    out.fail(pr, "clone has another hasher".into());
                }
                let mut probe = Grp { m: m.clone(), md: md.clone(), side: None, cfg: self.cfg.clone(), raw: self.raw };
                self.side = Some((c, md.clone()));
                if o.s % 4 == 0 {
                    clone_probe(i, &mut probe, self, o.s, out);
                }
                if !out.fails.is_empty() {
                    std::mem::forget(probe);
                }
            }
            "exchange_with_side" => {
                if let Some((sm, smd)) = &mut self.side {
                    std::mem::swap(m, sm);
                    std::mem::swap(md, smd);
                }
            }
            "eq_side" => {
                if let Some((sm, smd)) = &self.side {
                    let want = cls(md) == cls(smd);
                    if (*m == *sm) != want || (*sm == *m) != want || (*m != *sm) == want {
                        out.fail(pr, format!("{md:?} == {smd:?} is {}, expected {want}", *m == *sm));
                    }
                }
            }
            "eq_rebuilt" => {
                let mut w = md.clone();
                let mut g = Rng(o.s as u64);
                g.shuffle(&mut w);
                for x in &mut w {
                    g.shuffle(&mut x.1);
                }
                let n = w.len();
                match o.a % 6 {
                    1 if n > 0 => {
                        w.pop();
                    }
                    2 if n > 1 => {
                        if let Some(l) = w[0].1.pop() {
                            w[1].1.push(l);
                        }
                    }
                    3 if n > 0 => w[0].0 .0 = nr + 3,
                    4 if n > 0 => w[n - 1].1.push((nl + 3, 0)),
                    5 if n > 1 => {
                        let x = w[0].1.clone();
                        w[0].1 = std::mem::replace(&mut w[1].1, x);
                    }
                    _ => (),
                }
                let mut x = build(&w, self.cfg.hash2, (o.b % 40) as usize);
                if o.c % 2 == 0 {
                    x.insert(LK::new((nl + 7, 0)), RK::new((nr + 7, 0)));
                    x.remove_right(&RK::new((nr + 7, 0)));
                }
                let want = cls(md) == cls(&w);
                if (*m == x) != want || (x == *m) != want {
                    out.fail(pr, format!("{md:?} == {w:?} is {} / {}, expected {want}", *m == x, x == *m));
                }
            }
            "extend" | "collect" => {
                let mut g = Rng(o.s as u64);
                let mut w: Vec<G> = if d.name == "extend" { md.clone() } else { vec![] };
                let mut items: Vec<(Option<It>, It)> = vec![];
                for j in 0..o.a % 6 {
                    let l = (g.below(nl as u64) as u32, t + j);
                    let r = (g.below(nr as u64) as u32, t + j);
                    if o.b % 2 == 1 && g.below(3) == 0 {
                        take_r(&mut w, r.0);
                        w.push((r, vec![]));
                        items.push((None, r));
                    } else if self.raw || !paired(&w, l.0, r.0) {
                        m_insert(&mut w, l, r);
                        items.push((Some(l), r));
                    }
                }
                let pairs = || items.iter().map(|p| (LK::new(p.0.unwrap()), RK::new(p.1)));
                let ops = || items.iter().map(|p| (p.0.map(LK::new), RK::new(p.1)));
                if d.name == "extend" {
                    if o.b % 2 == 0 {
                        m.extend(pairs());
                    } else {
                        m.extend(ops());
                    }
                    *md = w;
                } else {
                    let x: GroupMap<LK, RK> = if o.b % 2 == 0 { pairs().collect() } else { ops().collect() };
                    let got: Vec<(Option<It>, It)> = x.iter().map(|(l, r)| (l.map(|l| l.it()), r.it())).collect();
                    same!(sorted(got), flat(&w));
                }
            }
            "iterate" => {
                match walk(m.iter(), true, |i| i.len()) {
                    Err(e) => out.fail(pr, format!("iter(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|(l, r)| (l.map(|l| l.it()), r.it())).collect()), flat(md)),
                }
                match walk(m.iter_paired(), true, |i| i.len()) {
                    Err(e) => out.fail(pr, format!("iter_paired(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|(l, r)| (Some(l.it()), r.it())).collect::<Vec<_>>()), flat(md).into_iter().filter(|p| p.0.is_some()).collect::<Vec<_>>()),
                }
                match walk(m.iter_unpaired(), true, |i| i.len()) {
                    Err(e) => out.fail(pr, format!("iter_unpaired(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|r| r.it()).collect::<Vec<_>>()), sorted(md.iter().filter(|g| g.1.is_empty()).map(|g| g.0).collect())),
                }
                match walk(m.iter_left(), true, |i| i.len()) {
                    Err(e) => out.fail(pr, format!("iter_left(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|l| l.it()).collect::<Vec<_>>()), sorted(md.iter().flat_map(|g| g.1.clone()).collect())),
                }
                match walk(m.iter_right(), true, |i| i.len()) {
                    Err(e) => out.fail(pr, format!("iter_right(): {e}")),
                    Ok(v) => same!(sorted(v.iter().map(|l| l.it()).collect::<Vec<_>>()), sorted(md.iter().map(|g| g.0).collect())),
                }
                for g in md.iter() {
                    if let Some(it) = m.get_left_iter(&RQ(g.0 .0)) {
                        let _ = format!("{it:?}");
                        match walk(it, true, |i| i.len()) {
                            Err(e) => out.fail(pr, format!("get_left_iter(): {e}")),
                            Ok(v) => same!(sorted(v.iter().map(|l| l.it()).collect::<Vec<_>>()), sorted(g.1.clone())),
                        }
                    }
                }
                let _ = format!("{:?} {:?} {:?} {:?} {:?} {:?}", m, m.iter(), m.iter_left(), m.iter_right(), m.iter_paired(), m.iter_unpaired());
            }
            "new_map" => {
                let k = o.a as usize % 50;
                let a: GroupMap<LK, RK> = GroupMap::new();
                let b: GroupMap<LK, RK> = GroupMap::with_capacity(k);
                let c: M = Default::default();
                let e: M = M::with_hasher(Hb { mode: 3 });
                let f: M = M::with_capacity_and_hasher(k, Hb { mode: 3 });
                if a.len_left() + b.len_right() + c.len_left() + e.len_right() + f.len_left() != 0 || !a.is_empty() || b.capacity_left() < k || b.capacity_right() < k || f.capacity_left() < k || f.capacity_right() < k {
                    out.fail(pr, "a new map is not empty or has too little capacity".into());
                }
                if e.hasher().mode != 3 || f.hasher().mode != 3 || c.hasher().mode != self.cfg.hash2 {
                    out.fail(pr, "a new map has another hasher".into());
                }
                if m.capacity_left() < m.len_left() || m.capacity_right() < m.len_right() {
                    out.fail(pr, "capacity below length".into());
                }
            }
            x => unreachable!("{x}"),
        }
        self.check(o.s, d.name, pr, out);
    }
}
