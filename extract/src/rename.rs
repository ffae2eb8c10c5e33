//! Private types, fields and functions that only have a new name get the name the contracts use.
//! The names of the tree the contracts were written for are in contracts/decls.json (module -> types, functions).
//! A renaming is undone only where it is unambiguous (same shape, old name gone, new name unknown before); renaming
//! back is renaming, so the program stays the one of /repo up to names of private items.
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn t(x: impl ToTokens) -> String { x.to_token_stream().to_string() }

fn self_name(i: &ItemImpl) -> String {
    match &*i.self_ty {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn sig_text(s: &Signature) -> String {
    let mut r = t(&s.generics);
    for a in &s.inputs {
        r += " ; ";
        match a {
            FnArg::Receiver(x) => r += &format!("{}{}self", if x.reference.is_some() { "&" } else { "" }, if x.mutability.is_some() && x.reference.is_some() { "mut " } else { "" }),
            FnArg::Typed(p) => r += &t(&p.ty),
        }
    }
    r + " -> " + &t(&s.output) + &s.generics.where_clause.as_ref().map(t).unwrap_or_default()
}

fn test_only(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("cfg") && t(a).contains("(test)") || t(a).contains("( test )")) }

/// types: name -> [(field, type)]; functions: Type::name -> signature (public ones included, marked "pub ")
pub fn decls(f: &File) -> Value {
    let mut traits: Vec<Value> = vec![];
    let (mut ty, mut fns) = (serde_json::Map::new(), serde_json::Map::new());
    for i in &f.items {
        match i {
            Item::Struct(s) if !test_only(&s.attrs) => {
                let fs: Vec<Value> = s.fields.iter().enumerate()
                    .map(|(k, f)| json!([f.ident.as_ref().map(|x| x.to_string()).unwrap_or(k.to_string()), t(&f.ty)])).collect();
                ty.insert(s.ident.to_string(), json!(fs));
            }
            Item::Fn(x) if !test_only(&x.attrs) => { fns.insert(format!("::{}", x.sig.ident), json!(sig_text(&x.sig))); }
            Item::Trait(x) => traits.push(json!(x.ident.to_string())),
            Item::Impl(i) if i.trait_.is_none() => for x in &i.items {
                if let ImplItem::Fn(x) = x {
                    let p = if matches!(x.vis, Visibility::Public(_)) { "pub " } else { "" };
                    fns.insert(format!("{}::{}", self_name(i), x.sig.ident), json!(format!("{p}{}", sig_text(&x.sig))));
                }
            },
            _ => {}
        }
    }
    json!({"types": ty, "fns": fns, "traits": traits})
}

fn subst(ts: TokenStream, m: &HashMap<String, String>) -> TokenStream {
    ts.into_iter().map(|x| match x {
        TokenTree::Ident(i) => match m.get(&i.to_string()) {
            Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
            None => TokenTree::Ident(i),
        },
        TokenTree::Group(g) => {
            let mut n = Group::new(g.delimiter(), subst(g.stream(), m));
            n.set_span(g.span());
            TokenTree::Group(n)
        }
        o => o,
    }).collect()
}

fn idents(ts: TokenStream, out: &mut HashSet<String>) {
    for x in ts {
        match x {
            TokenTree::Ident(i) => { out.insert(i.to_string()); }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

struct Fields { by: HashMap<String, HashMap<String, String>>, any: HashMap<String, Option<String>>, own: String }
impl Fields {
    fn new_name(&self, ty: &str, f: &Ident) -> Option<Ident> {
        let f0 = f.to_string();
        let n = if !ty.is_empty() && self.by.contains_key(ty) { self.by[ty].get(&f0).cloned() } else if ty.is_empty() { self.any.get(&f0).cloned().flatten() } else { None };
        n.map(|n| Ident::new(&n, f.span()))
    }
    fn ty_of(&self, p: &Path) -> String {
        let n = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "Self" { self.own.clone() } else { n }
    }
}
impl VisitMut for Fields {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        self.own = self_name(i);
        visit_mut::visit_item_impl_mut(self, i);
        self.own.clear();
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        let n = s.ident.to_string();
        for f in s.fields.iter_mut() {
            if let Some(i) = &f.ident { if let Some(x) = self.new_name(&n, i) { f.ident = Some(x); } }
        }
    }
    fn visit_expr_field_mut(&mut self, e: &mut ExprField) {
        visit_mut::visit_expr_field_mut(self, e);
        let mine = matches!(&*e.base, Expr::Path(p) if p.path.is_ident("self")) && self.by.contains_key(&self.own);
        if let Member::Named(i) = &e.member {
            let i = i.clone();
            let n = if mine { self.new_name(&self.own.clone(), &i) } else { self.new_name("", &i) };
            if let Some(n) = n { e.member = Member::Named(n); }
        }
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, e);
        let ty = self.ty_of(&e.path);
        for f in e.fields.iter_mut() {
            if let Member::Named(i) = &f.member {
                if let Some(n) = self.new_name(&ty, i) {
                    f.colon_token = Some(Default::default());
                    f.member = Member::Named(n);
                }
            }
        }
    }
    fn visit_pat_struct_mut(&mut self, e: &mut PatStruct) {
        visit_mut::visit_pat_struct_mut(self, e);
        let ty = self.ty_of(&e.path);
        for f in e.fields.iter_mut() {
            if let Member::Named(i) = &f.member {
                if let Some(n) = self.new_name(&ty, i) {
                    f.colon_token = Some(Default::default());
                    f.member = Member::Named(n);
                }
            }
        }
    }
}

type Map = BTreeMap<String, Vec<(String, String)>>;

fn types(d: &Value) -> Map {
    d["types"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter()
        .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string())).collect())).collect()).unwrap_or_default()
}
fn word_subst(s: &str, m: &HashMap<String, String>) -> String {
    s.parse::<TokenStream>().map(|x| subst(x, m).to_string()).unwrap_or(s.to_string())
}

/// Returns what was renamed, for the log.
pub fn undo(parsed: &mut Vec<(String, File)>, base: &Value) -> Vec<String> {
    let mut log = vec![];
    // types
    let ds: Vec<(String, Value)> = parsed.iter().map(|(m, f)| (m.clone(), decls(f))).collect();
    for (m, d) in ds {
        let mut map = HashMap::new();
        let (old, new) = (types(&base[&m]), types(&d));
        let gone: Vec<&String> = old.keys().filter(|k| !new.contains_key(*k)).collect();
        let fresh: Vec<&String> = new.keys().filter(|k| !old.contains_key(*k)).collect();
        for n in &fresh {
            let same = |g: &String| {
                let sub = HashMap::from([((*n).clone(), g.clone())]);
                old[g].len() == new[*n].len() && old[g].iter().zip(&new[*n]).all(|(a, b)| a.1 == word_subst(&b.1, &sub))
            };
            let exact: Vec<&&String> = gone.iter().filter(|g| same(g) && old[**g].iter().zip(&new[*n]).all(|(a, b)| a.0 == b.0)).collect();
            let c: Vec<&&String> = if exact.len() == 1 { exact } else { gone.iter().filter(|g| same(g)).collect() };
            if c.len() == 1 && !map.values().any(|v| v == *c[0]) {
                log.push(format!("{m}: type {n} is {}", c[0]));
                map.insert((*n).clone(), (*c[0]).clone());
            }
        }
        if map.is_empty() { continue; }
        // in the module itself, and where another module uses the type by its new name
        for (k, f) in parsed.iter_mut() {
            let mut all = HashSet::new();
            idents(f.to_token_stream(), &mut all);
            let sub: HashMap<String, String> = map.iter().filter(|(_, o)| !all.contains(*o)).map(|(a, b)| (a.clone(), b.clone())).collect();
            let other = *k != m && base[&*k]["types"].as_object().map_or(false, |x| sub.keys().any(|n| x.contains_key(n)));
            if sub.is_empty() || other { continue; }
            if let Ok(g) = parse2(subst(f.to_token_stream(), &sub)) { *f = g; }
        }
    }
    // fields
    for (m, f) in parsed.iter_mut() {
        let (old, new) = (types(&base[&*m]), types(&decls(f)));
        let mut by: HashMap<String, HashMap<String, String>> = HashMap::new();
        for (n, fs) in &new {
            let Some(ofs) = old.get(n) else { continue };
            let gone: Vec<&(String, String)> = ofs.iter().filter(|o| !fs.iter().any(|x| x.0 == o.0)).collect();
            let fresh: Vec<&(String, String)> = fs.iter().filter(|o| !ofs.iter().any(|x| x.0 == o.0)).collect();
            if gone.is_empty() || gone.len() != fresh.len() { continue; }
            // equal types go together, in order
            let mut used = vec![false; gone.len()];
            let mut mm = HashMap::new();
            for x in &fresh {
                if let Some(k) = (0..gone.len()).find(|k| !used[*k] && gone[*k].1 == x.1) {
                    used[k] = true;
                    mm.insert(x.0.clone(), gone[k].0.clone());
                }
            }
            if mm.len() == fresh.len() {
                for (a, b) in &mm { log.push(format!("{m}: field {n}.{a} is {b}")); }
                by.insert(n.clone(), mm);
            }
        }
        if by.is_empty() { continue; }
        let mut any: HashMap<String, Option<String>> = HashMap::new();
        for mm in by.values() {
            for (a, b) in mm {
                let e = any.entry(a.clone()).or_insert(Some(b.clone()));
                if e.as_ref() != Some(b) { *e = None; }
            }
        }
        // a name some other type of the module has too cannot be told apart without its owner
        for (n, fs) in &new {
            for (x, _) in fs {
                if !by.get(n).map_or(false, |mm| mm.contains_key(x)) { if let Some(e) = any.get_mut(x) { *e = None; } }
            }
        }
        for n in new.keys() { by.entry(n.clone()).or_default(); }
        Fields { by, any, own: String::new() }.visit_file_mut(f);
    }
    // functions
    let ds: Vec<(String, Value)> = parsed.iter().map(|(m, f)| (m.clone(), decls(f))).collect();
    for (m, d) in ds {
        let empty = serde_json::Map::new();
        let old = base[&m]["fns"].as_object().unwrap_or(&empty);
        let new = d["fns"].as_object().unwrap();
        let mut map = HashMap::new();
        for (k, s) in new {
            if old.contains_key(k) || s.as_str().unwrap().starts_with("pub ") { continue; }
            let (ty, n) = k.rsplit_once("::").unwrap();
            let c: Vec<&String> = old.iter().filter(|(o, os)| !new.contains_key(*o) && o.rsplit_once("::").unwrap().0 == ty && *os == s).map(|x| x.0).collect();
            let twins = new.iter().filter(|(o, os)| !old.contains_key(*o) && o.rsplit_once("::").unwrap().0 == ty && *os == s).count();
            if c.len() == 1 && twins == 1 { map.insert(n.to_string(), c[0].rsplit_once("::").unwrap().1.to_string()); }
        }
        let top = m == "utils" || m == "optionals";
        let mut all = HashSet::new();
        for (k, f) in parsed.iter() { if top || *k == m { idents(f.to_token_stream(), &mut all); } }
        map.retain(|_, o| !all.contains(o));
        if map.is_empty() { continue; }
        for (a, b) in &map { log.push(format!("{m}: function {a} is {b}")); }
        for (k, f) in parsed.iter_mut() {
            if top || *k == m { if let Ok(g) = parse2(subst(f.to_token_stream(), &map)) { *f = g; } }
        }
    }
    log
}

/// Impls of a trait the crate defines itself and does not export become inherent impls (with the trait's default methods).
pub fn own_traits(parsed: &mut Vec<(String, File)>, base: &Value) {
    let mut tr: HashMap<String, ItemTrait> = HashMap::new();
    for (m, f) in parsed.iter() {
        for i in &f.items {
            if let Item::Trait(x) = i {
                let known = base[m]["traits"].as_array().map_or(false, |a| a.iter().any(|n| n == &x.ident.to_string()));
                let plain = x.generics.params.is_empty() && x.items.iter().all(|i| matches!(i, TraitItem::Fn(_)));
                if !known && plain { tr.insert(x.ident.to_string(), x.clone()); }
            }
        }
    }
    if tr.is_empty() { return; }
    for (_, f) in parsed.iter_mut() {
        f.items.retain(|i| !matches!(i, Item::Trait(x) if tr.contains_key(&x.ident.to_string())));
        for i in f.items.iter_mut() {
            let Item::Impl(im) = i else { continue };
            let Some((None, p, _)) = &im.trait_ else { continue };
            let Some(x) = tr.get(&p.segments.last().unwrap().ident.to_string()) else { continue };
            im.trait_ = None;
            for d in &x.items {
                let TraitItem::Fn(d) = d else { continue };
                let have = im.items.iter().any(|y| matches!(y, ImplItem::Fn(y) if y.sig.ident == d.sig.ident));
                if let (false, Some(b)) = (have, &d.default) {
                    let (a, s) = (&d.attrs, &d.sig);
                    im.items.push(ImplItem::Fn(parse_quote!(#(#a)* #s #b)));
                }
            }
        }
    }
}
