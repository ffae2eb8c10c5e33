//! Where an item is written does not matter: submodules (inline or in files of their own) are put in place of their `mod` line,
//! the items of a new module of the crate go to the modules that use it, and a private item that moved to another
//! module is looked at where the contracts have it.
use quote::ToTokens;
use serde_json::Value;
use std::collections::HashSet;
use std::path::{Path as P, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn test_only(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
}
fn sub(dir: &P, n: &str) -> Option<(PathBuf, PathBuf)> {
    let a = dir.join(format!("{n}.rs"));
    let b = dir.join(n).join("mod.rs");
    if a.is_file() { Some((a, dir.join(n))) } else if b.is_file() { Some((b, dir.join(n))) } else { None }
}
fn named(items: &[Item]) -> HashSet<String> {
    items.iter().filter_map(|i| match i {
        Item::Fn(f) => Some(f.sig.ident.to_string()),
        Item::Struct(s) => Some(s.ident.to_string()),
        Item::Enum(s) => Some(s.ident.to_string()),
        Item::Const(s) => Some(s.ident.to_string()),
        Item::Type(s) => Some(s.ident.to_string()),
        Item::Trait(s) => Some(s.ident.to_string()),
        _ => None,
    }).collect()
}
/// A module's own names that its surroundings have too get the module's name appended.
fn apart(items: Vec<Item>, module: &str, taken: &HashSet<String>) -> (Vec<Item>, HashSet<String>) {
    let both: HashSet<String> = named(&items).intersection(taken).cloned().collect();
    if both.is_empty() { return (items, both); }
    let out = items.iter().map(|i| retok(i, &both, module)).collect();
    (out, both)
}
fn retok(i: &Item, both: &HashSet<String>, module: &str) -> Item {
    use proc_macro2::{Group, Ident, TokenStream, TokenTree};
    fn go(t: TokenStream, b: &HashSet<String>, m: &str) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        // a name of another module: `x::name`, x not self
        let far = |k: usize| k >= 2 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == ':') && matches!(&v[k - 2], TokenTree::Punct(p) if p.as_char() == ':')
            && !(k >= 3 && matches!(&v[k - 3], TokenTree::Ident(i) if i == "self"));
        v.iter().enumerate().map(|(k, x)| match x {
            TokenTree::Ident(i) if b.contains(&i.to_string()) && !far(k) => TokenTree::Ident(Ident::new(&format!("{i}__{m}"), i.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), b, m))),
            x => x.clone(),
        }).collect()
    }
    parse2(go(i.to_token_stream(), both, module)).unwrap_or_else(|_| i.clone())
}
/// The items of a file, submodules in place; `dir` is where its submodules' files are.
fn splice(items: Vec<Item>, dir: &P, extra: &mut HashSet<String>, ren: &mut HashSet<(String, String)>) -> Vec<Item> {
    let own = named(&items);
    let mut out = vec![];
    for i in items {
        match i {
            Item::Mod(m) if !test_only(&m.attrs) => {
                let n = m.ident.to_string();
                if let Some((_, c)) = m.content {
                    extra.insert(n.clone());
                    let (c, b) = apart(splice(c, &dir.join(&n), extra, ren), &n, &own);
                    ren.extend(b.into_iter().map(|x| (n.clone(), x)));
                    out.extend(c);
                } else if let Some((f, d)) = sub(dir, &n) {
                    let Ok(f) = std::fs::read_to_string(f).map_err(|_| ()).and_then(|s| parse_file(&s).map_err(|_| ())) else { continue };
                    extra.insert(n.clone());
                    let (c, b) = apart(splice(f.items, &d, extra, ren), &n, &own);
                    ren.extend(b.into_iter().map(|x| (n.clone(), x)));
                    out.extend(c);
                }
            }
            i => out.push(i),
        }
    }
    out
}
struct Strip { extra: HashSet<String>, main: HashSet<String>, ren: HashSet<(String, String)> }
impl VisitMut for Strip {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let mut k = 0;
        let mut own = false;
        while k + 1 < p.segments.len() {
            let s = p.segments[k].ident.to_string();
            if s == "self" || s == "super" || s == "crate" { own = true; k += 1; }
            else if self.extra.contains(&s) || own && self.main.contains(&s) { k += 1; }
            else { break; }
        }
        if k > 0 && k < p.segments.len() {
            let (m, n) = (p.segments[k - 1].ident.to_string(), p.segments[k].ident.clone());
            if self.ren.contains(&(m.clone(), n.to_string())) { p.segments[k].ident = Ident::new(&format!("{n}__{m}"), n.span()); }
        }
        if k > 0 {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(k).cloned().collect();
        }
    }
    fn visit_visibility_mut(&mut self, _: &mut Visibility) {}
}
fn mentions(items: &[Item], n: &str) -> usize {
    fn go(t: proc_macro2::TokenStream, n: &str) -> usize {
        t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
            _ => 0,
        }).sum()
    }
    items.iter().map(|i| go(i.to_token_stream(), n)).sum()
}
/// (is a type, name) of an item that can move
fn name(i: &Item) -> Option<(bool, String)> {
    match i {
        Item::Fn(f) => Some((false, f.sig.ident.to_string())),
        Item::Struct(s) => Some((true, s.ident.to_string())),
        Item::Enum(s) => Some((true, s.ident.to_string())),
        _ => None,
    }
}
fn impl_of(i: &Item) -> Option<String> {
    match i {
        Item::Impl(i) => match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}
fn base_has(base: &Value, m: &str, ty: bool, n: &str) -> bool {
    if ty { !base[m]["types"][n].is_null() } else { !base[m]["fns"][format!("::{n}")].is_null() }
}

pub fn merge(parsed: &mut Vec<(String, File)>, base: &Value, src: &P) -> Vec<String> {
    let mut notes = vec![];
    for (k, m) in ["utils", "optionals", "cycle_map", "partial_cycle_map", "group_map", "serde"].iter().enumerate() {
        if !parsed.iter().any(|x| x.0 == *m) {
            parsed.insert(k.min(parsed.len()), (m.to_string(), File { shebang: None, attrs: vec![], items: vec![] }));
        }
    }
    let main: HashSet<String> = parsed.iter().map(|(m, _)| m.clone()).collect();
    let mut extra = HashSet::new();
    let mut rens: Vec<HashSet<(String, String)>> = vec![];
    for (m, f) in parsed.iter_mut() {
        let mut ren = HashSet::new();
        f.items = splice(std::mem::take(&mut f.items), &src.join(&*m), &mut extra, &mut ren);
        rens.push(ren);
    }
    // new modules of the crate
    let mut pool: Vec<(String, Vec<Item>)> = vec![];
    if let Some(lib) = std::fs::read_to_string(src.join("lib.rs")).ok().and_then(|s| parse_file(&s).ok()) {
        for i in lib.items {
            let Item::Mod(m) = i else { continue };
            let n = m.ident.to_string();
            if main.contains(&n) || test_only(&m.attrs) { continue; }
            let its = splice(vec![Item::Mod(m)], src, &mut extra, &mut HashSet::new());
            pool.push((n, its));
        }
    }
    // one new module may use another
    let uses: Vec<(String, Vec<String>)> = pool.iter().map(|(n, _)| {
        let mut via: HashSet<String> = HashSet::from([n.clone()]);
        loop {
            let more: Vec<String> = pool.iter().filter(|(k, its)| !via.contains(k) && via.iter().any(|v| mentions(its, v) > 0)).map(|x| x.0.clone()).collect();
            if more.is_empty() { break; }
            via.extend(more);
        }
        (n.clone(), parsed.iter().filter(|(_, f)| via.iter().any(|v| mentions(&f.items, v) > 0)).map(|x| x.0.clone()).collect())
    }).collect();
    if extra.is_empty() && parsed.iter().all(|(m, f)| f.items.iter().filter_map(name).all(|(ty, n)| base_has(base, m, ty, &n))) { return notes; }
    for (k, (m, f)) in parsed.iter().enumerate() {
        let own = named(&f.items);
        for (pn, its) in &pool {
            if uses.iter().any(|(n, u)| n == pn && u.contains(m)) { rens[k].extend(named(its).intersection(&own).map(|x| (pn.clone(), x.clone()))); }
        }
    }
    let mut strip = Strip { extra: extra.clone(), main, ren: HashSet::new() };
    for (k, (_, f)) in parsed.iter_mut().enumerate() { strip.ren = rens[k].clone(); strip.visit_file_mut(f); }
    strip.ren.clear();
    for (_, its) in pool.iter_mut() { for i in its { strip.visit_item_mut(i); } }
    for e in extra { notes.push(format!("module {e} merged")); }
    // items that moved between the known modules
    let lost = |parsed: &Vec<(String, File)>, ty: bool, n: &str| -> Vec<String> {
        parsed.iter().filter(|(m, f)| base_has(base, m, ty, n) && !f.items.iter().any(|i| name(i) == Some((ty, n.to_string())))).map(|x| x.0.clone()).collect()
    };
    let mut moves: Vec<(Vec<String>, String, Item)> = vec![];
    for k in 0..parsed.len() {
        let (m, f) = parsed[k].clone();
        let mut gone: Vec<(bool, String)> = vec![];
        for i in &f.items {
            let Some((ty, n)) = name(i) else { continue };
            if base_has(base, &m, ty, &n) { continue; }
            let to = lost(parsed, ty, &n);
            if to.is_empty() { continue; }
            notes.push(format!("{n} moved from {} to {m}", to.join(", ")));
            moves.push((to.clone(), String::new(), i.clone()));
            if ty { for i in f.items.iter().filter(|i| impl_of(i) == Some(n.clone())) { moves.push((to.clone(), String::new(), i.clone())); } }
            gone.push((ty, n));
        }
        for (ty, n) in gone {
            let mine = |i: &Item| name(i) == Some((ty, n.clone())) || ty && impl_of(i) == Some(n.clone());
            let rest: Vec<Item> = parsed[k].1.items.iter().filter(|i| !mine(i)).cloned().collect();
            if mentions(&rest, &n) == 0 { parsed[k].1.items = rest; }
        }
    }
    // the items of the new modules
    for (pn, its) in &pool {
        let users = &uses.iter().find(|(n, _)| n == pn).unwrap().1;
        for i in its {
            let to = match (name(i), impl_of(i)) {
                (Some((ty, n)), _) => { let l = lost(parsed, ty, &n); if l.is_empty() { users.clone() } else { l } }
                (_, Some(t)) => {
                    let l = lost(parsed, true, &t);
                    let here: Vec<String> = parsed.iter().filter(|(_, f)| f.items.iter().any(|i| name(i) == Some((true, t.clone())))).map(|x| x.0.clone()).collect();
                    if !l.is_empty() { l } else if !here.is_empty() { here } else { users.clone() }
                }
                _ => users.clone(),
            };
            moves.push((to, pn.clone(), i.clone()));
        }
    }
    for (k, (m, f)) in parsed.iter_mut().enumerate() {
        for (to, pn, i) in &moves {
            if !to.contains(m) { continue; }
            let taken: HashSet<String> = rens[k].iter().filter(|x| x.0 == *pn).map(|x| x.1.clone()).collect();
            f.items.push(if taken.is_empty() { i.clone() } else { retok(i, &taken, pn) });
        }
    }
    notes
}
