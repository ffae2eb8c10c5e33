mod conform;
mod common;
mod cyc;
mod grp;
mod opt;
mod par;
mod ser;
use common::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Runs a case; the failures of the first operation that has any, with its index.
fn run<S: Sys>(c: &Case, trace: bool, tick: &dyn Fn(usize)) -> Option<(usize, Vec<Fail>)> {
    let mut s = Some(S::new(&c.cfg));
    for (i, o) in c.ops.iter().enumerate() {
        tick(i);
        let d = &S::ops()[o.k];
        if trace {
            eprintln!("STEP {i} {} {}", d.name, d.props.join(","));
        }
        let mut out = Out::default();
        let r = catch_unwind(AssertUnwindSafe(|| s.as_mut().unwrap().step(i, o, &mut out)));
        if r.is_err() {
            let m = PANIC.with(|p| p.borrow().clone());
            out.fail(&plus(d.props, &["X06"]), format!("{} panicked: {m}", d.name));
        }
        if trace && out.fails.is_empty() {
            eprintln!("     {}", s.as_ref().unwrap().show());
        }
        if !out.fails.is_empty() {
            // the map may be broken: dropping it is not part of the case
            std::mem::forget(s.take());
            return Some((i, out.fails));
        }
    }
    None
}
fn has(f: &[Fail], p: &str) -> bool {
    f.iter().any(|x| p == "any" || x.props.contains(&p))
}

fn gen<S: Sys>(seed: u64, idx: u64) -> Case {
    let mut g = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ idx.wrapping_mul(0x9e37_79b9_97f4_a7c5) ^ S::name().len() as u64);
    for _ in 0..3 {
        g.next();
    }
    let prof = idx % 8;
    let (nl, nr, len) = match prof {
        0..=3 => (1 + g.below(4), 1 + g.below(4), 3 + g.below(20)),
        4 | 5 => (4 + g.below(9), 4 + g.below(9), 20 + g.below(50)),
        6 => (20 + g.below(180), 20 + g.below(180), 60 + g.below(240)),
        _ => (3 + g.below(4), 3 + g.below(4), 100 + g.below(100)),
    };
    let (nl, nr) = if S::name() == "group" && g.below(3) == 0 { (nl + 4, 1 + nr / 4) } else { (nl, nr) };
    let hash = if prof == 6 { [4, 4, 3, 6, 5, 8][g.below(6) as usize] } else { g.below(MODES as u64) as u8 };
    let cap = if g.below(3) == 0 { g.below(100) as usize } else { 0 };
    let cfg = Cfg { nl: nl as u32, nr: nr as u32, hash, hash2: g.below(MODES as u64) as u8, cap };
    // swarm: each case favours some operations and leaves others out
    let defs = S::ops();
    let big = prof == 6;
    let w: Vec<u64> = defs
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let f = if i < 3 { [1, 2, 3, 4][g.below(4) as usize] } else { [0, 1, 1, 4][g.below(4) as usize] };
            let base = if big && matches!(d.name, "clear" | "drain" | "retain" | "drain_filter" | "retain_paired") { 0 } else { d.w as u64 };
            base * f * if big && d.name.starts_with("insert") { 6 } else { 2 } + if big && i > 8 { (g.below(12) == 0) as u64 } else { 0 }
        })
        .collect();
    let tot: u64 = w.iter().sum();
    let wide = g.below(2) == 0;
    let ops = (0..len)
        .map(|_| {
            let mut x = g.below(tot);
            let mut k = 0;
            while x >= w[k] {
                x -= w[k];
                k += 1;
            }
            let lim = if wide { 1 << 20 } else { 64 };
            Op { k, a: g.below(lim) as u32, b: g.below(lim) as u32, c: g.below(lim) as u32, s: g.below(1 << 16) as u32 }
        })
        .collect();
    Case { sys: S::name(), cfg, ops }
}

fn text<S: Sys>(c: &Case) -> String {
    let mut t = format!("case {} nl={} nr={} hash={} hash2={} cap={}\n", c.sys, c.cfg.nl, c.cfg.nr, c.cfg.hash, c.cfg.hash2, c.cfg.cap);
    for o in &c.ops {
        t += &format!("{} {} {} {} {}\n", S::ops()[o.k].name, o.a, o.b, o.c, o.s);
    }
    t
}
fn parse<S: Sys>(t: &str) -> Case {
    let mut cfg = Cfg { nl: 1, nr: 1, hash: 0, hash2: 0, cap: 0 };
    let mut ops = vec![];
    for l in t.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() || l.starts_with('#') {
            continue;
        }
        if f[0] == "case" {
            for kv in &f[2..] {
                let (k, v) = kv.split_once('=').unwrap();
                let v: u64 = v.parse().unwrap();
                match k {
                    "nl" => cfg.nl = v as u32,
                    "nr" => cfg.nr = v as u32,
                    "hash" => cfg.hash = v as u8,
                    "hash2" => cfg.hash2 = v as u8,
                    "cap" => cfg.cap = v as usize,
                    _ => panic!("{k}"),
                }
            }
            continue;
        }
        let k = S::ops().iter().position(|d| d.name == f[0]).unwrap_or_else(|| panic!("unknown op {}", f[0]));
        let n: Vec<u32> = f[1..].iter().map(|x| x.parse().unwrap()).collect();
        ops.push(Op { k, a: n[0], b: n[1], c: n[2], s: n[3] });
    }
    Case { sys: S::name(), cfg, ops }
}

fn shrink<S: Sys>(c: &Case, prop: &str, until: Instant) -> Case {
    let mut best = c.clone();
    let bad = |c: &Case| run::<S>(c, false, &|_| ()).filter(|f| has(&f.1, prop)).map(|f| f.0);
    if let Some(i) = bad(&best) {
        best.ops.truncate(i + 1);
    }
    loop {
        let mut changed = false;
        let mut size = best.ops.len().div_ceil(2);
        while size > 0 {
            let mut i = 0;
            while i < best.ops.len() {
                if Instant::now() > until {
                    return best;
                }
                let mut t = best.clone();
                t.ops.drain(i..(i + size).min(t.ops.len()));
                match bad(&t) {
                    Some(k) => {
                        t.ops.truncate(k + 1);
                        best = t;
                        changed = true;
                    }
                    None => i += size,
                }
            }
            size /= 2;
        }
        let mut tries: Vec<Case> = vec![];
        for n in 1..best.cfg.nl {
            let mut t = best.clone();
            t.cfg.nl = n;
            tries.push(t);
        }
        for n in 1..best.cfg.nr {
            let mut t = best.clone();
            t.cfg.nr = n;
            tries.push(t);
        }
        if best.cfg.cap > 0 {
            let mut t = best.clone();
            t.cfg.cap = 0;
            tries.push(t);
        }
        for i in 0..best.ops.len() {
            for f in 0..4 {
                let mut t = best.clone();
                let n = if f == 0 || f == 2 { t.cfg.nl.max(t.cfg.nr) } else { t.cfg.nr.max(t.cfg.nl) };
                let o = &mut t.ops[i];
                let x = match f {
                    0 => &mut o.a,
                    1 => &mut o.b,
                    2 => &mut o.c,
                    _ => &mut o.s,
                };
                if *x == 0 {
                    continue;
                }
                if f < 3 && *x >= n {
                    *x %= n;
                    tries.push(t.clone());
                }
                let o = &mut t.ops[i];
                let x = match f {
                    0 => &mut o.a,
                    1 => &mut o.b,
                    2 => &mut o.c,
                    _ => &mut o.s,
                };
                *x = 0;
                tries.push(t);
            }
        }
        for t in tries {
            if Instant::now() > until {
                return best;
            }
            let smaller = (t.cfg.nl, t.cfg.nr, t.cfg.cap) < (best.cfg.nl, best.cfg.nr, best.cfg.cap) || t.ops.iter().map(|o| (o.a + o.b + o.c + o.s) as u64).sum::<u64>() < best.ops.iter().map(|o| (o.a + o.b + o.c + o.s) as u64).sum::<u64>();
            let same_ops = t.ops.len() == best.ops.len();
            if smaller && same_ops {
                if let Some(k) = bad(&t) {
                    best = t;
                    best.ops.truncate(k + 1);
                    changed = true;
                }
            }
        }
        if !changed {
            return best;
        }
    }
}

struct Stats {
    cases: AtomicU64,
    ops: AtomicU64,
    distinct: Mutex<std::collections::HashSet<u64>>,
    others: Mutex<std::collections::BTreeMap<String, String>>,
}

struct Ctl<'a> {
    prop: &'a str,
    seed: u64,
    cases: u64,
    until: Instant,
    out: &'a str,
}

/// Returns true if a failing case of `prop` was found (and written).
fn search<S: Sys>(k: &Ctl, st: &Stats) -> bool {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Case)>> = Mutex::new(None);
    let nth = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    // (case index + 1, op index, ticks) per worker, for the watchdog and for crashes
    let cur: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..nth).map(|_| Default::default()).collect();
    let alive = AtomicU64::new(nth as u64);
    std::thread::scope(|sc| {
        for t in 0..nth {
            let (next, stop, found, cur, alive) = (&next, &stop, &found, &cur[t], &alive);
            sc.spawn(move || {
                let mut f = std::fs::File::create(format!("{}.cur.{}", k.out, t)).ok();
                let mut local: Vec<u64> = vec![];
                while !stop.load(Relaxed) && Instant::now() < k.until {
                    let idx = next.fetch_add(1, Relaxed);
                    if idx >= k.cases {
                        break;
                    }
                    let c = gen::<S>(k.seed, idx);
                    if let Some(f) = &mut f {
                        use std::io::Seek;
                        let _ = f.seek(std::io::SeekFrom::Start(0));
                        let _ = f.write_all(format!("{} {:>20}\n", S::name(), idx).as_bytes());
                    }
                    cur.0.store(idx + 1, Relaxed);
                    let r = run::<S>(&c, false, &|i| {
                        cur.1.store(i as u64, Relaxed);
                        cur.2.fetch_add(1, Relaxed);
                    });
                    cur.0.store(0, Relaxed);
                    st.cases.fetch_add(1, Relaxed);
                    st.ops.fetch_add(r.as_ref().map_or(c.ops.len(), |x| x.0 + 1) as u64, Relaxed);
                    if c.ops.len() > 2 {
                        let mut h = 0xcbf2_9ce4_8422_2325u64;
                        for b in text::<S>(&c).bytes() {
                            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
                        }
                        local.push(h);
                    }
                    if let Some((i, fs)) = r {
                        if has(&fs, k.prop) {
                            stop.store(true, Relaxed);
                            let mut g = found.lock().unwrap();
                            if g.as_ref().is_none_or(|x| x.0 > idx) {
                                *g = Some((idx, c));
                            }
                        } else {
                            let mut o = st.others.lock().unwrap();
                            for x in fs {
                                if o.len() < 20 {
                                    o.entry(x.props.join(",")).or_insert(format!("{} case {idx} op {i}: {}", S::name(), x.msg));
                                }
                            }
                        }
                    }
                }
                st.distinct.lock().unwrap().extend(local);
                alive.fetch_sub(1, Relaxed);
            });
        }
        // watchdog: an operation that does not end
        let mut last: Vec<(u64, Instant)> = cur.iter().map(|_| (0, Instant::now())).collect();
        while alive.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for (t, c) in cur.iter().enumerate() {
                let tick = c.2.load(Relaxed);
                let idx = c.0.load(Relaxed);
                if idx == 0 || tick != last[t].0 {
                    last[t] = (tick, Instant::now());
                } else if last[t].1.elapsed() > Duration::from_secs(12) {
                    let case = gen::<S>(k.seed, idx - 1);
                    let i = c.1.load(Relaxed) as usize;
                    let d = &S::ops()[case.ops[i].k];
                    let mut case = case;
                    case.ops.truncate(i + 1);
                    let hit = k.prop == "any" || d.props.contains(&k.prop);
                    if hit {
                        let _ = std::fs::write(k.out, format!("# property {}\n# {} does not return\n{}", k.prop, d.name, text::<S>(&case)));
                        println!("FOUND {} does not return (case {})", d.name, idx - 1);
                    } else {
                        println!("HANG {} does not return ({})", d.name, d.props.join(","));
                    }
                    let _ = std::io::stdout().flush();
                    std::process::exit(if hit { 10 } else { 12 });
                }
            }
        }
    });
    for t in 0..nth {
        let _ = std::fs::remove_file(format!("{}.cur.{}", k.out, t));
    }
    let f = found.into_inner().unwrap();
    if let Some((idx, c)) = f {
        let c = shrink::<S>(&c, k.prop, Instant::now() + Duration::from_secs(15));
        let msg = run::<S>(&c, false, &|_| ()).map(|x| x.1.into_iter().filter(|f| k.prop == "any" || f.props.contains(&k.prop)).map(|f| f.msg).collect::<Vec<_>>().join("; ")).unwrap_or_default();
        let _ = std::fs::write(k.out, format!("# property {}\n# {}\n# found as case {idx} of seed {}\n{}", k.prop, msg, k.seed, text::<S>(&c)));
        println!("FOUND {msg}");
        return true;
    }
    false
}

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned()
}

/// The recorded findings: each prints "KNOWN <id> fails|ok".
fn known() {
    use cycle_map::{GroupMap, PartialCycleMap};
    let q = |id: &str, f: &dyn Fn() -> bool| {
        let bad = catch_unwind(AssertUnwindSafe(f)).unwrap_or(true);
        println!("KNOWN {id} {}", if bad { "fails" } else { "ok" });
    };
    q("group-insert-existing-pair", &|| {
        let mut m: GroupMap<LK, RK, Hb> = GroupMap::default();
        let (l, r) = (LK::new((0, 0)), RK::new((0, 0)));
        m.insert(l.clone(), r.clone());
        m.insert(l.clone(), r.clone());
        !(m.get_left_iter(&r.c).is_some_and(|i| i.count() == 1) && m.are_paired(&l, &r))
    });
    q("group-extend-existing-pair", &|| {
        let mut m: GroupMap<LK, RK, Hb> = GroupMap::default();
        let (l, r) = (LK::new((0, 0)), RK::new((0, 0)));
        m.extend([(l.clone(), r.clone()), (l.clone(), r.clone())]);
        !(m.get_left_iter(&r.c).is_some_and(|i| i.count() == 1) && m.are_paired(&l, &r))
    });
    q("group-insert-existing-pair-panics", &|| {
        let mut m: GroupMap<LK, RK, Hb> = GroupMap::default();
        let (l, r) = (LK::new((0, 0)), RK::new((0, 0)));
        m.insert(l.clone(), r.clone());
        m.insert(l.clone(), r.clone());
        m.insert(l.clone(), RK::new((1, 0)));
        false
    });
    q("partial-eq-ignores-unpaired-rights", &|| {
        let mut a: PartialCycleMap<LK, RK, Hb> = PartialCycleMap::default();
        let b: PartialCycleMap<LK, RK, Hb> = PartialCycleMap::default();
        a.insert_right(RK::new((0, 0)));
        a == b
    });
    q("partial-iter-omits-unpaired-rights", &|| {
        let mut a: PartialCycleMap<LK, RK, Hb> = PartialCycleMap::default();
        a.insert_right(RK::new((0, 0)));
        a.iter().count() != 1
    });
}

macro_rules! with {
    ($n:expr, $f:ident ( $($a:expr),* )) => {
        match $n {
            "cycle" => $f::<cyc::Cyc>($($a),*),
            "partial" => $f::<par::Par>($($a),*),
            "group" => $f::<grp::Grp>($($a),*),
            x => panic!("no system {x}"),
        }
    };
}

fn one<S: Sys>(c: &Case, prop: &str) -> i32 {
    match run::<S>(c, true, &|_| ()) {
        None => {
            println!("OK");
            0
        }
        Some((i, fs)) => {
            for f in &fs {
                println!("FAIL op {i} [{}] {}", f.props.join(","), f.msg);
            }
            (has(&fs, prop) || prop.is_empty()) as i32
        }
    }
}
fn gentext<S: Sys>(seed: u64, idx: u64) -> String {
    text::<S>(&gen::<S>(seed, idx))
}
fn onetext<S: Sys>(t: &str, prop: &str) -> i32 {
    one::<S>(&parse::<S>(t), prop)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    match mode {
        // search <sys,sys> <prop> --cases N --secs S --seed X --out FILE
        "search" => {
            let cases: u64 = arg(&a, "--cases").map_or(1000, |x| x.parse().unwrap());
            let secs: f64 = arg(&a, "--secs").map_or(20.0, |x| x.parse().unwrap());
            let out = arg(&a, "--out").expect("--out");
            let prop = a[3].clone();
            let t0 = Instant::now();
            let st = Stats { cases: 0.into(), ops: 0.into(), distinct: Default::default(), others: Default::default() };
            let sys: Vec<&str> = a[2].split(',').collect();
            let mut found = false;
            let mut fixed = 0;
            for (i, s) in sys.iter().enumerate() {
                let share = (secs - t0.elapsed().as_secs_f64()) / (sys.len() - i) as f64;
                if *s == "opt" {
                    let mut o = Out::default();
                    fixed += opt::check(&mut o);
                    if let Some(f) = o.fails.first() {
                        let _ = std::fs::write(&out, format!("# property X03\n# {}\ncase opt\n", f.msg));
                        println!("FOUND {}", f.msg);
                        found = true;
                    }
                    continue;
                }
                let k = Ctl { prop: &prop, seed, cases, until: Instant::now() + Duration::from_secs_f64(share.max(0.5)), out: &out };
                if with!(*s, search(&k, &st)) {
                    found = true;
                    break;
                }
            }
            let sample: Vec<String> = sys.iter().filter(|s| **s != "opt").map(|s| with!(*s, gentext(seed, 0))).collect();
            println!(
                "STATS {}",
                serde_json::json!({"cases": st.cases.into_inner(), "ops": st.ops.into_inner(), "distinct": st.distinct.into_inner().unwrap().len(), "fixed": fixed,
                    "wall_s": t0.elapsed().as_secs_f64(), "samples": sample, "failures_of_other_properties": *st.others.lock().unwrap()})
            );
            std::process::exit(if found { 10 } else { 0 });
        }
        "gen" => print!("{}", with!(a[2].as_str(), gentext(seed, a[3].parse().unwrap()))),
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let prop = a.get(3).cloned().unwrap_or_default();
            let sys = t.lines().find(|l| l.starts_with("case ")).unwrap().split_whitespace().nth(1).unwrap().to_string();
            if sys == "opt" {
                let mut o = Out::default();
                opt::check(&mut o);
                for f in &o.fails {
                    println!("FAIL [X03] {}", f.msg);
                }
                std::process::exit(!o.fails.is_empty() as i32);
            }
            std::process::exit(with!(sys.as_str(), onetext(&t, &prop)));
        }
        // conform --cases N --seed X: the assumed contracts of the shim against the real hashbrown
        "conform" => match conform::run(seed, arg(&a, "--cases").map_or(2000, |x| x.parse().unwrap())) {
            Ok((c, o)) => println!("CONFORM {c} {o}"),
            Err(e) => {
                println!("NONCONFORMING {e}");
                std::process::exit(13);
            }
        },
        "known" => known(),
        _ => panic!("search | gen | replay | known"),
    }
}
