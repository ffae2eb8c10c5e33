//! The assumed contracts of contracts/shim.rs (RawTable, RawIter, RawDrain, Bucket, HashSet), run
//! against the real hashbrown 0.12.3: random operations, every postcondition evaluated on a model
//! (slot identity -> (stored hash, element)). Bounded: it supports the assumption, it does not prove it.
use crate::common::Rng;
use hashbrown::raw::RawTable;
use hashbrown::HashSet;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct E {
    slot: u64, // unique: the abstract slot
    key: u64,
    mark: u64,
    own: Box<u64>,
}
fn h(mode: u64, key: u64) -> u64 {
    match mode {
        0 => 0,
        1 => key % 2,
        2 => key << 57,
        3 => u64::MAX - (key % 3),
        _ => Rng(key).next(),
    }
}
type M = BTreeMap<u64, (u64, E)>;

fn same(t: &RawTable<E>, m: &M) -> Result<(), String> {
    if t.len() != m.len() || t.is_empty() != m.is_empty() || t.capacity() < m.len() {
        return Err(format!("len {} model {} cap {}", t.len(), m.len(), t.capacity()));
    }
    let mut it = unsafe { t.iter() };
    let mut seen = M::new();
    let mut left = m.len();
    loop {
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return Err("RawIter::len/size_hint".into());
        }
        let mut c = it.clone();
        match it.next() {
            None => break,
            Some(b) => {
                let e = unsafe { b.as_ref() };
                let d = c.next().map(|b| unsafe { b.as_ref() }.slot);
                if d != Some(e.slot) {
                    return Err("RawIter::clone".into());
                }
                match m.get(&e.slot) {
                    Some((_, x)) if x == e => {}
                    _ => return Err(format!("iter yields {e:?}")),
                }
                if seen.insert(e.slot, (0, e.clone())).is_some() {
                    return Err("iter yields twice".into());
                }
            }
        }
        left = left.wrapping_sub(1);
    }
    if left != 0 { Err("iter omits".into()) } else { Ok(()) }
}

fn table(seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let mode = r.below(6);
    let keys = 1 + r.below(40);
    let hs = move |e: &E| h(mode, e.key);
    let mut t: RawTable<E> = if r.below(2) == 0 { RawTable::new() } else { RawTable::with_capacity(r.below(50) as usize) };
    let mut m = M::new();
    let mut next = 0u64;
    let n = 5 + r.below(200);
    for _ in 0..n {
        let key = r.below(keys);
        let hash = h(mode, key);
        let cap = t.capacity();
        let want = r.below(4); // the predicate: by key, by key and mark, none, all
        let mk = r.below(3);
        let eq = |e: &E| match want { 0 | 1 => e.key == key, 2 => e.key == key && e.mark == mk, _ => e.key == key || e.mark == mk };
        let none_ok = |m: &M| m.values().all(|(hh, e)| *hh != hash || !eq(e));
        let op = r.below(20);
        match op {
            0..=5 => {
                let e = E { slot: next, key, mark: r.below(3), own: Box::new(next) };
                next += 1;
                t.insert(hash, e.clone(), hs);
                m.insert(e.slot, (hash, e));
                if t.capacity() < cap { return Err("insert shrinks".into()); }
            }
            6 => match t.get(hash, eq) {
                Some(e) => if !eq(e) || m.get(&e.slot).map(|x| &x.1) != Some(e) { return Err("get some".into()); },
                None => if !none_ok(&m) { return Err("get none".into()); },
            },
            7 | 8 => match t.get_mut(hash, eq) {
                Some(e) => {
                    if !eq(e) || m.get(&e.slot).map(|x| &x.1) != Some(&*e) { return Err("get_mut some".into()); }
                    e.mark = mk;
                    m.get_mut(&e.slot).unwrap().1.mark = mk;
                }
                None => if !none_ok(&m) { return Err("get_mut none".into()); },
            },
            9 | 10 => match t.find(hash, eq) {
                Some(b) => {
                    let e = unsafe { b.as_ref() }.clone();
                    if !eq(&e) || m.get(&e.slot).map(|x| &x.1) != Some(&e) { return Err("find some".into()); }
                    if op == 10 {
                        let x = unsafe { t.remove(b) };
                        if x != e || t.capacity() > cap { return Err("remove".into()); }
                        m.remove(&e.slot);
                    }
                }
                None => if !none_ok(&m) { return Err("find none".into()); },
            },
            11 | 12 => match t.remove_entry(hash, eq) {
                Some(e) => {
                    if !eq(&e) || m.remove(&e.slot).map(|x| x.1) != Some(e) || t.capacity() > cap { return Err("remove_entry some".into()); }
                }
                None => if !none_ok(&m) { return Err("remove_entry none".into()); },
            },
            13 => {
                let a = r.below(60) as usize;
                t.reserve(a, hs);
                if t.capacity() < m.len() + a || t.capacity() < cap { return Err("reserve".into()); }
            }
            14 => {
                let a = if r.below(4) == 0 { usize::MAX / 2 } else { r.below(60) as usize };
                let ok = t.try_reserve(a, hs).is_ok();
                if t.capacity() < cap || (ok && t.capacity() < m.len().saturating_add(a)) { return Err("try_reserve".into()); }
            }
            15 => {
                let a = r.below(60) as usize;
                t.shrink_to(a, hs);
                if t.capacity() < m.len() || (a <= cap && t.capacity() < a) { return Err("shrink_to".into()); }
            }
            16 => {
                let c = t.clone();
                same(&c, &m).map_err(|e| "clone ".to_string() + &e)?;
                for (hh, e) in m.values() {
                    if c.get(*hh, |x| x.slot == e.slot).is_none() { return Err("clone loses a hash".into()); }
                }
                if r.below(2) == 0 { t = c; }
            }
            17 if r.below(6) == 0 => {
                t.clear();
                m.clear();
                if t.capacity() < cap { return Err("clear shrinks".into()); }
            }
            18 if r.below(6) == 0 => {
                let stop = r.below(m.len() as u64 + 2);
                let mut d = t.drain();
                for _ in 0..stop {
                    if d.len() != m.len() || d.size_hint() != (m.len(), Some(m.len())) { return Err("RawDrain::len".into()); }
                    match d.next() {
                        Some(e) => if m.remove(&e.slot).map(|x| x.1) != Some(e) { return Err("drain yields".into()); },
                        None => if !m.is_empty() { return Err("drain omits".into()); } else { break },
                    }
                }
                drop(d);
                m.clear();
            }
            19 => {
                // what was yielded may be removed while the iterator goes on
                let keep = r.below(3);
                let all: Vec<u64> = m.keys().copied().collect();
                let mut seen = vec![];
                unsafe {
                    let mut it = t.iter();
                    while let Some(b) = it.next() {
                        let e = b.as_ref().clone();
                        seen.push(e.slot);
                        if e.mark != keep {
                            if t.remove(b) != e { return Err("remove while iterating".into()); }
                            m.remove(&e.slot);
                        }
                    }
                }
                seen.sort_unstable();
                if seen != all { return Err("iterating while removing".into()); }
            }
            _ => {}
        }
        same(&t, &m)?;
    }
    for (hh, e) in m.values() {
        if t.get(*hh, |x| x.slot == e.slot) != Some(e) { return Err("an element is not found under its hash".into()); }
    }
    Ok(n)
}

fn set(seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed ^ 0x5e7);
    let mut s: HashSet<(u64, u64)> = if r.below(2) == 0 { HashSet::new() } else { HashSet::with_capacity(r.below(20) as usize) };
    let mut m = std::collections::BTreeSet::new();
    let n = 5 + r.below(80);
    for _ in 0..n {
        let x = (r.below(6), r.below(6));
        match r.below(10) {
            0..=3 => if s.insert(x) != m.insert(x) { return Err("HashSet::insert".into()); },
            4 | 5 => if s.remove(&x) != m.remove(&x) { return Err("HashSet::remove".into()); },
            6 => if s.contains(&x) != m.contains(&x) { return Err("HashSet::contains".into()); },
            7 => {
                let c = s.clone();
                let mut v: Vec<_> = c.into_iter().collect();
                v.sort_unstable();
                if v != m.iter().copied().collect::<Vec<_>>() { return Err("HashSet::into_iter".into()); }
            }
            8 if r.below(5) == 0 => {
                let stop = r.below(m.len() as u64 + 2);
                let v: Vec<_> = s.drain().take(stop as usize).collect();
                for x in v { if !m.remove(&x) { return Err("HashSet::drain".into()); } }
                m.clear();
            }
            _ => {
                let mut it = s.iter();
                let mut k = m.len();
                let mut seen = std::collections::BTreeSet::new();
                loop {
                    if it.len() != k || it.size_hint() != (k, Some(k)) || it.clone().count() != k { return Err("hash_set::Iter::len".into()); }
                    match it.next() {
                        Some(x) => if !m.contains(x) || !seen.insert(*x) { return Err("hash_set::Iter::next".into()); },
                        None => break,
                    }
                    k -= 1;
                }
                if k != 0 { return Err("hash_set::Iter omits".into()); }
            }
        }
        if s.len() != m.len() || s.is_empty() != m.is_empty() { return Err("HashSet::len".into()); }
    }
    Ok(n)
}

pub fn run(seed: u64, cases: u64) -> Result<(u64, u64), String> {
    let mut ops = 0;
    for i in 0..cases {
        let s = Rng(seed ^ (i << 20)).next();
        ops += table(s).map_err(|e| format!("RawTable case {i}: {e}"))?;
        ops += set(s).map_err(|e| format!("case {i}: {e}"))?;
    }
    Ok((cases, ops))
}
