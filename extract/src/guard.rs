//! Match guards, written out: `P if g => a` becomes `P => if g { a } else { b }`, where b is the body of the first later
//! arm that matches whatever P matches. Same meaning; left alone where that arm is not evident. (The verifier's
//! `&mut` resolution loses track of a guarded arm whose pattern did not match.)
use proc_macro2::Ident;
use quote::ToTokens;
use syn::visit::Visit;
use syn::*;

/// certainly no value matches both
fn disjoint(p: &Pat, q: &Pat) -> bool {
    match (p, q) {
        (Pat::Paren(a), q) => disjoint(&a.pat, q),
        (p, Pat::Paren(b)) => disjoint(p, &b.pat),
        (Pat::Or(a), q) => a.cases.iter().all(|c| disjoint(c, q)),
        (p, Pat::Or(b)) => b.cases.iter().all(|c| disjoint(p, c)),
        (Pat::Tuple(a), Pat::Tuple(b)) if plain(&a.elems) && plain(&b.elems) && a.elems.len() == b.elems.len() => {
            a.elems.iter().zip(&b.elems).any(|(x, y)| disjoint(x, y))
        }
        (Pat::Reference(a), Pat::Reference(b)) => disjoint(&a.pat, &b.pat),
        (Pat::TupleStruct(a), Pat::TupleStruct(b)) => {
            differ(&a.path, &b.path)
                || (plain(&a.elems) && plain(&b.elems) && a.elems.len() == b.elems.len() && a.elems.iter().zip(&b.elems).any(|(x, y)| disjoint(x, y)))
        }
        (Pat::Lit(a), Pat::Lit(b)) => a.to_token_stream().to_string() != b.to_token_stream().to_string(),
        _ => match (ctor(p), ctor(q)) {
            (Some(a), Some(b)) => differ(&a, &b),
            _ => false,
        },
    }
}
const CTORS: [&str; 8] = ["Some", "None", "Ok", "Err", "Neither", "SomeLeft", "SomeRight", "SomeBoth"];
fn name(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn differ(a: &Path, b: &Path) -> bool {
    let (a, b) = (name(a), name(b));
    a != b && CTORS.contains(&a.as_str()) && CTORS.contains(&b.as_str())
}
fn ctor(p: &Pat) -> Option<Path> {
    match p {
        Pat::TupleStruct(t) => Some(t.path.clone()),
        Pat::Path(p) => Some(p.path.clone()),
        Pat::Ident(i) if CTORS.contains(&i.ident.to_string().as_str()) => Some(Path::from(i.ident.clone())),
        _ => None,
    }
}
fn plain(e: &punctuated::Punctuated<Pat, Token![,]>) -> bool { !e.iter().any(|p| matches!(p, Pat::Rest(_))) }
fn binder(p: &Pat) -> Option<&PatIdent> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && !CTORS.contains(&i.ident.to_string().as_str()) => Some(i),
        _ => None,
    }
}
/// every value p matches, q matches; gives (name in q, name in p) for what q binds
fn covers(p: &Pat, q: &Pat) -> Option<Vec<(Ident, Ident)>> {
    if let Pat::Wild(_) = q { return Some(vec![]); }
    if let Pat::Paren(b) = q { return covers(p, &b.pat); }
    if let Pat::Paren(a) = p { return covers(&a.pat, q); }
    if let Pat::Or(a) = p {
        let m: Vec<_> = a.cases.iter().map(|c| covers(c, q)).collect::<Option<_>>()?;
        return if m.iter().all(|x| x.is_empty()) { Some(vec![]) } else { None };
    }
    if let Pat::Or(b) = q { return b.cases.iter().find_map(|c| covers(p, c)); }
    if let Some(b) = binder(q) {
        let a = binder(p)?;
        let same = a.by_ref.is_some() == b.by_ref.is_some() && a.mutability.is_some() == b.mutability.is_some();
        return if same { Some(vec![(b.ident.clone(), a.ident.clone())]) } else { None };
    }
    let zip = |a: &punctuated::Punctuated<Pat, Token![,]>, b: &punctuated::Punctuated<Pat, Token![,]>| {
        if b.len() == 1 && matches!(b[0], Pat::Rest(_)) { return Some(vec![]); }
        if !plain(a) || !plain(b) || a.len() != b.len() { return None; }
        let mut v = vec![];
        for (x, y) in a.iter().zip(b) { v.extend(covers(x, y)?); }
        Some(v)
    };
    match (p, q) {
        (Pat::TupleStruct(a), Pat::TupleStruct(b)) if name(&a.path) == name(&b.path) => zip(&a.elems, &b.elems),
        (Pat::Tuple(a), Pat::Tuple(b)) => zip(&a.elems, &b.elems),
        (Pat::Reference(a), Pat::Reference(b)) => covers(&a.pat, &b.pat),
        (Pat::Lit(a), Pat::Lit(b)) if a.to_token_stream().to_string() == b.to_token_stream().to_string() => Some(vec![]),
        _ => match (ctor(p), ctor(q)) {
            (Some(a), Some(b)) if name(&a) == name(&b) && !matches!(p, Pat::TupleStruct(_)) && !matches!(q, Pat::TupleStruct(_)) => Some(vec![]),
            _ => None,
        },
    }
}
struct Marks(bool);
impl<'a> Visit<'a> for Marks {
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) { self.0 = true; }
    fn visit_expr_while(&mut self, _: &'a ExprWhile) { self.0 = true; }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.0 = true; }
}
pub fn unguard(m: &mut ExprMatch) {
    for i in (0..m.arms.len()).rev() {
        let Some((_, g)) = m.arms[i].guard.clone() else { continue };
        if let Expr::Let(_) = *g { continue; }
        let p = m.arms[i].pat.clone();
        let mut els: Option<Expr> = None;
        for q in &m.arms[i + 1..] {
            if disjoint(&p, &q.pat) { continue; }
            if q.guard.is_some() { break; }
            let Some(map) = covers(&p, &q.pat) else { break };
            let mut k = Marks(false);
            k.visit_expr(&q.body);
            if k.0 { break; }
            let body = &q.body;
            let mut lets: Vec<Stmt> = vec![];
            let (mut from, mut to) = (vec![], vec![]);
            for (b, a) in map.iter().filter(|(b, a)| b != a) { from.push(a.clone()); to.push(b.clone()); }
            if !from.is_empty() { lets.push(parse_quote!(let (#(#to),*,) = (#(#from),*,);)); }
            els = Some(parse_quote!({ #(#lets)* #body }));
            break;
        }
        let Some(els) = els else { continue };
        let a = m.arms[i].body.clone();
        m.arms[i].guard = None;
        m.arms[i].body = Box::new(parse_quote!({ if #g { #a } else #els }));
    }
}

fn irrefutable(p: &Pat) -> bool {
    match p {
        Pat::Wild(_) => true,
        Pat::Ident(_) => binder(p).is_some(),
        Pat::Tuple(t) => t.elems.iter().all(irrefutable),
        Pat::Paren(t) => irrefutable(&t.pat),
        _ => false,
    }
}
/// `&p` inside a pattern becomes a name r, with `let p = *r;` to follow (the verifier has no reference patterns)
pub fn derefs(p: &mut Pat, n: &mut usize, out: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) if r.mutability.is_none() && irrefutable(&r.pat) => {
            let id = quote::format_ident!("ref__{}", *n);
            *n += 1;
            let inner = &r.pat;
            out.push(parse_quote!(let #inner = *#id;));
            *p = parse_quote!(#id);
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| derefs(x, n, out)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| derefs(x, n, out)),
        Pat::Paren(t) => derefs(&mut t.pat, n, out),
        _ => {}
    }
}
