//! Calls of functions that no contract names (a helper that an edit extracted) are replaced by the
//! helper's body, so that the caller is still verified against its own contract:
//!   self.h(a, b)   ->   { let p: T = a; let q: U = b; <body of h> }
//! A body with `return` or `?` is first brought to a form without them (the rest of the block moves
//! into the branch that does not return). Whatever does not fit is left as a call.
use super::toks;
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, ToTokens};

struct Helper {
    module: String,
    gens: Vec<String>,     // generic names of the impl
    header: String,        // impl generics + self type
    recv: Option<Receiver>,
    params: Vec<(String, bool, Option<Type>)>, // name, mut, type (without its own lifetimes)
    body: Option<Block>, // without `return` and `?`
    raw: Block,
    own: bool, // mentions Self
    fnp: HashSet<String>, // parameters that are functions
    ty: String,
}

struct Esc(bool);
impl<'a> Visit<'a> for Esc {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn esc_e(e: &Expr) -> bool { let mut v = Esc(false); v.visit_expr(e); v.0 }
fn esc_s(s: &Stmt) -> bool { let mut v = Esc(false); v.visit_stmt(s); v.0 }
fn esc_b(s: &[Stmt]) -> bool { s.iter().any(esc_s) }

fn never_macro(m: &Macro) -> bool {
    let n = toks(&m.path);
    n == "unreachable" || n == "panic" || n == "todo" || n == "unimplemented"
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Macro(m) => never_macro(&m.mac),
        Expr::If(i) => div_b(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| div_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        Expr::Block(b) => div_b(&b.block.stmts),
        _ => false,
    }
}
fn div_b(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => div_e(e),
        Some(Stmt::Macro(m)) => never_macro(&m.mac),
        _ => false,
    }
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn blk_e(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(stmts) })
}
pub fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Unary(u) if !matches!(u.op, UnOp::Deref(_)) => pure(&u.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Paren(p) => pure(&p.expr),
        _ => false,
    }
}
/// the first `?` on the part of the expression that is evaluated first
fn spine<'a>(e: &'a mut Expr) -> Option<&'a mut Expr> {
    if let Expr::Try(t) = e {
        if !esc_e(&t.expr) { return Some(e); }
    }
    match e {
        Expr::Try(t) => spine(&mut t.expr),
        Expr::Field(f) => spine(&mut f.base),
        Expr::Paren(f) => spine(&mut f.expr),
        Expr::Reference(f) => spine(&mut f.expr),
        Expr::Unary(f) => spine(&mut f.expr),
        Expr::MethodCall(m) => {
            if esc_e(&m.receiver) { return spine(&mut m.receiver); }
            if !pure(&m.receiver) { return None; }
            for a in m.args.iter_mut() {
                if esc_e(a) { return spine(a); }
                if !pure(a) { return None; }
            }
            None
        }
        Expr::Call(c) => {
            if !pure(&c.func) { return None; }
            for a in c.args.iter_mut() {
                if esc_e(a) { return spine(a); }
                if !pure(a) { return None; }
            }
            None
        }
        Expr::Tuple(c) => {
            for a in c.elems.iter_mut() {
                if esc_e(a) { return spine(a); }
                if !pure(a) { return None; }
            }
            None
        }
        Expr::If(i) => spine(&mut i.cond),
        Expr::Match(i) => spine(&mut i.expr),
        Expr::Let(i) => spine(&mut i.expr),
        _ => None,
    }
}

struct Bound(HashSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(char::is_uppercase) { self.0.insert(n); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
/// does `rest`, put at the end of a branch, see other variables than where it was?
fn captured(rest: &[Stmt], branch: &[Stmt], head: &dyn Fn(&mut Bound)) -> bool {
    if rest.is_empty() || div_b(branch) { return false; }
    let mut b = Bound(HashSet::new());
    head(&mut b);
    for s in branch { if let Stmt::Local(l) = s { b.visit_pat(&l.pat); } }
    if b.0.is_empty() { return false; }
    fn has(t: TokenStream, n: &HashSet<String>) -> bool {
        t.into_iter().any(|x| match x {
            TokenTree::Ident(i) => n.contains(&i.to_string()),
            TokenTree::Group(g) => has(g.stream(), n),
            _ => false,
        })
    }
    rest.iter().any(|s| has(s.to_token_stream(), &b.0))
}
/// statements that may be written more than once: short, no loops, no closures
fn small(rest: &[Stmt]) -> bool {
    struct Big(bool);
    impl<'a> Visit<'a> for Big {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_)) { self.0 = true; }
            visit::visit_expr(self, e);
        }
    }
    let mut b = Big(false);
    for s in rest { b.visit_stmt(s); }
    !b.0 && rest.iter().map(|s| s.to_token_stream().to_string().len()).sum::<usize>() < 300
}

struct Conv { kind: String, n: usize }
impl Conv {
    fn conv(&mut self, mut stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let i = match stmts.iter().position(esc_s) { None => return Some(stmts), Some(i) => i };
        let rest = stmts.split_off(i + 1);
        let s = stmts.pop().unwrap();
        let mut pre = stmts;
        // `?` first: match e { Some(v) => { s[v]; rest }, None => None }
        {
            let mut s2 = s.clone();
            let target = match &mut s2 {
                Stmt::Expr(Expr::If(e), _) => spine(&mut e.cond),
                Stmt::Expr(Expr::Match(e), _) => spine(&mut e.expr),
                Stmt::Expr(Expr::Return(r), _) => r.expr.as_mut().and_then(|e| spine(e)),
                Stmt::Expr(e, _) => spine(e),
                Stmt::Local(l) => l.init.as_mut().and_then(|i| spine(&mut i.expr)),
                _ => None,
            };
            if let Some(t) = target {
                let v = format_ident!("q__{}", self.n);
                self.n += 1;
                let inner = match &*t { Expr::Try(x) => (*x.expr).clone(), _ => unreachable!() };
                *t = parse_quote!(#v);
                let mut body = vec![s2];
                body.extend(rest);
                let body = blk_e(self.conv(body)?);
                let e: Expr = match self.kind.as_str() {
                    "Option" => parse_quote!(match #inner { Some(#v) => #body, None => None }),
                    "Result" => parse_quote!(match #inner { Ok(#v) => #body, Err(e__) => Err(e__) }),
                    _ => return None,
                };
                pre.push(Stmt::Expr(e, None));
                return Some(pre);
            }
        }
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    pre.extend(self.conv(stmts_of(&e))?);
                }
                Some(pre)
            }
            Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_)), semi) => {
                let tail = rest.is_empty() && semi.is_none();
                let e = self.branches(e, &mut |me, mut b| {
                    if !div_b(&b) {
                        if !tail {
                            if let Some(Stmt::Expr(_, s @ None)) = b.last_mut() { *s = Some(Default::default()); }
                        }
                        b.extend(rest.clone());
                    }
                    me.conv(b)
                }, &rest, if rest.is_empty() { 9 } else if small(&rest) { 4 } else { 1 })?;
                pre.push(Stmt::Expr(e, None));
                Some(pre)
            }
            Stmt::Expr(Expr::Block(b), _) if rest.is_empty() && b.label.is_none() => {
                pre.push(Stmt::Expr(blk_e(self.conv(b.block.stmts)?), None));
                Some(pre)
            }
            Stmt::Expr(Expr::Unsafe(mut b), _) if rest.is_empty() => {
                b.block.stmts = self.conv(b.block.stmts)?;
                pre.push(Stmt::Expr(Expr::Unsafe(b), None));
                Some(pre)
            }
            Stmt::Local(mut l) => {
                let init = l.init.take()?;
                let pat = l.pat.clone();
                if let Some((_, d)) = init.diverge {
                    if esc_e(&init.expr) { return None; }
                    let no = blk_e(self.conv(stmts_of(&d))?);
                    let yes = blk_e(self.conv(rest)?);
                    let e = &init.expr;
                    pre.push(Stmt::Expr(parse_quote!(match #e { #pat => #yes, _ => #no }), None));
                    return Some(pre);
                }
                let e = self.branches(*init.expr, &mut |me, mut b| {
                    if !div_b(&b) {
                        match b.pop() {
                            Some(Stmt::Expr(v, None)) => {
                                b.push(parse_quote!(let #pat = #v;));
                                b.extend(rest.clone());
                            }
                            _ => return None,
                        }
                    }
                    me.conv(b)
                }, &rest, if small(&rest) { 4 } else { 1 })?;
                pre.push(Stmt::Expr(e, None));
                Some(pre)
            }
            _ => None,
        }
    }
    /// applies f to every branch; at most `max` of them may go on
    fn branches(&mut self, e: Expr, f: &mut dyn FnMut(&mut Self, Vec<Stmt>) -> Option<Vec<Stmt>>, rest: &[Stmt], max: usize) -> Option<Expr> {
        match e {
            Expr::If(mut i) => {
                if esc_e(&i.cond) { return None; }
                let els = match &i.else_branch { Some((_, e)) => stmts_of(e), None => vec![] };
                let go = !div_b(&i.then_branch.stmts) as usize + !div_b(&els) as usize;
                if go > max { return None; }
                if captured(rest, &i.then_branch.stmts, &|b| b.visit_expr(&i.cond)) || captured(rest, &els, &|_| ()) { return None; }
                i.then_branch = blk(f(self, i.then_branch.stmts)?);
                let els = f(self, els)?;
                i.else_branch = Some((Default::default(), Box::new(blk_e(els))));
                Some(Expr::If(i))
            }
            Expr::Match(mut m) => {
                if esc_e(&m.expr) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |(_, g)| esc_e(g))) { return None; }
                let go = m.arms.iter().filter(|a| !div_e(&a.body)).count();
                if go > max { return None; }
                for a in &m.arms {
                    if captured(rest, &stmts_of(&a.body), &|b| b.visit_pat(&a.pat)) { return None; }
                }
                for a in m.arms.iter_mut() {
                    let s = f(self, stmts_of(&a.body))?;
                    *a.body = blk_e(s);
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            _ => None,
        }
    }
}

struct Mentions<'b> { names: &'b HashSet<String>, hit: bool }
impl<'a, 'b> Visit<'a> for Mentions<'b> {
    fn visit_path(&mut self, p: &'a Path) {
        if self.names.contains(&p.segments[0].ident.to_string()) { self.hit = true; }
        visit::visit_path(self, p);
    }
}
fn mentions_t(t: &Type, names: &HashSet<String>) -> bool { let mut m = Mentions { names, hit: false }; m.visit_type(t); m.hit }
fn mentions_b(t: &Block, names: &HashSet<String>) -> bool { let mut m = Mentions { names, hit: false }; m.visit_block(t); m.hit }

struct Lts;
impl VisitMut for Lts {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident != "static" { l.ident = format_ident!("_"); }
    }
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.as_ref().map_or(false, |l| l.ident != "static") { r.lifetime = None; }
        visit_mut::visit_type_reference_mut(self, r);
    }
}

/// the helper's own type parameters, where inference finds them
struct Wild<'a> { own: &'a HashSet<String> }
impl<'a> VisitMut for Wild<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.get_ident().map_or(false, |i| self.own.contains(&i.to_string())) {
                *t = parse_quote!(_);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn helper(module: &str, gens: &Generics, self_ty: Option<&Type>, sig: &Signature, block: &Block) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.variadic.is_some() { return None; }
    let mut own: HashSet<String> = HashSet::new();
    for p in sig.generics.type_params() { own.insert(p.ident.to_string()); }
    let text = format!("{} {}", toks(sig), toks(block));
    // parameters that are functions: `f: F` or `f: &mut F` with F: Fn.., `f: impl Fn..`
    let is_fn = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if ["Fn", "FnMut", "FnOnce"].contains(&super::last_seg(&t.path).as_str()));
    let mut fgen: HashSet<String> = sig.generics.type_params().filter(|p| p.bounds.iter().any(is_fn)).map(|p| p.ident.to_string()).collect();
    for w in sig.generics.where_clause.iter().flat_map(|w| w.predicates.iter()) {
        if let WherePredicate::Type(p) = w {
            if p.bounds.iter().any(is_fn) { fgen.insert(toks(&p.bounded_ty)); }
        }
    }
    let mut fnp = HashSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let mut ty = &*t.ty;
            while let Type::Reference(r) = ty { ty = &r.elem; }
            let f = match ty {
                Type::ImplTrait(i) => i.bounds.iter().any(is_fn),
                ty => own.contains(&toks(ty)) && fgen.contains(&toks(ty)),
            };
            if f { if let Pat::Ident(p) = &*t.pat { fnp.insert(p.ident.to_string()); } }
        }
    }
    // other predicates and iterators of the caller stay calls
    let words = if fnp.is_empty() { &["Fn", "FnMut", "FnOnce", "Iterator", "IntoIterator", "dyn", "impl"][..] } else { &["Iterator", "IntoIterator", "dyn"][..] };
    for w in words {
        if toks(sig).split(' ').any(|x| x == *w) { return None; }
    }
    if !fnp.is_empty() && toks(&sig.output).split(' ').any(|x| ["impl", "Fn", "FnMut", "FnOnce"].contains(&x)) { return None; }
    let mut block = block.clone();
    Wild { own: &own }.visit_block_mut(&mut block);
    let block = &block;
    if mentions_b(block, &own) { return None; }
    let mut recv = None;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() { return None; }
                recv = Some(r.clone());
            }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                    let mut ty = (*t.ty).clone();
                    Lts.visit_type_mut(&mut ty);
                    let ty = if mentions_t(&ty, &own) || fnp.contains(&p.ident.to_string()) { None } else { Some(ty) };
                    params.push((p.ident.to_string(), p.mutability.is_some(), ty));
                }
                _ => return None,
            },
        }
    }
    let kind = match &sig.output {
        ReturnType::Type(_, t) => match &**t { Type::Path(p) => super::last_seg(&p.path), _ => String::new() },
        _ => String::new(),
    };
    let body = if esc_b(&block.stmts) {
        Conv { kind, n: 0 }.conv(block.stmts.clone()).filter(|b| !esc_b(b)).map(blk)
    } else { Some(block.clone()) };
    let gens_names = gens.type_params().map(|p| p.ident.to_string()).collect();
    Some(Helper {
        module: module.to_string(), gens: gens_names,
        header: format!("{} {}", gens.type_params().map(|p| p.ident.to_string()).collect::<Vec<_>>().join(","), self_ty.map(toks).unwrap_or_default()),
        recv, params, body, raw: block.clone(),
        own: text.split(' ').any(|x| x == "Self"),
        fnp,
        ty: match self_ty { Some(Type::Path(p)) => super::last_seg(&p.path), _ => String::new() },
    })
}

/// a parameter that is a function, replaced by what the caller hands over
struct SubFn<'a> { name: &'a str, arg: Expr, callee: Option<Ident>, clo: Option<ExprClosure>, calls: usize, bad: bool }
impl<'a> VisitMut for SubFn<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            loop {
                match f {
                    Expr::Paren(p) => f = &p.expr,
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => f = &u.expr,
                    _ => break,
                }
            }
            if matches!(f, Expr::Path(p) if p.path.is_ident(self.name)) {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                self.calls += 1;
                if let Some(g) = &self.callee { *c.func = parse_quote!(#g); return; }
                let k = self.clo.clone().unwrap();
                if k.inputs.len() != c.args.len() { self.bad = true; return; }
                let mut out: Vec<Stmt> = vec![];
                for (p, a) in k.inputs.iter().zip(c.args.iter()) {
                    let id = format_ident!("q__{}", out.len());
                    out.push(parse_quote!(let #id = #a;));
                    let _ = p;
                }
                for (i, p) in k.inputs.iter().enumerate() {
                    let id = format_ident!("q__{}", i);
                    out.push(match p {
                        Pat::Type(t) => { let (p, ty) = (&t.pat, &t.ty); parse_quote!(let #p: #ty = #id;) }
                        p => parse_quote!(let #p = #id;),
                    });
                }
                out.push(Stmt::Expr((*k.body).clone(), None));
                *e = blk_e(out);
                return;
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) {
            if self.clo.is_some() { self.bad = true; }
            *e = self.arg.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        // a local of the helper that would capture or hide the function
        if p.ident == self.name || self.callee.as_ref().map_or(false, |c| *c == p.ident) { self.bad = true; }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if toks(&m.tokens).split(' ').any(|x| x == self.name) { self.bad = true; }
    }
}

struct SubSelf { to: Expr, bad: bool }
impl VisitMut for SubSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if toks(&*f.base) == "self" => *f.base = self.to.clone(),
            Expr::MethodCall(m) if toks(&*m.receiver) == "self" => {
                *m.receiver = self.to.clone();
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
            }
            Expr::Path(p) if p.path.is_ident("self") => self.bad = true,
            Expr::Macro(m) if toks(&m.mac.tokens).split(' ').any(|x| x == "self") => self.bad = true,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct Inl<'b> {
    helpers: &'b HashMap<String, Helper>,
    module: String,
    header: String,
    ty: String,
    me: String,
    done: Vec<String>,
}
impl<'b> Inl<'b> {
    /// `last`: what the call yields is what the function returns, so a `return` of the helper may stay one
    fn expand(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, last: bool) -> Option<Expr> {
        if h.params.len() != args.len() || recv.is_some() != h.recv.is_some() { return None; }
        let same = h.header == self.header && h.module == self.module;
        if !same {
            let g: HashSet<String> = h.gens.iter().cloned().collect();
            if mentions_b(&h.raw, &g) { return None; }
        }
        let mut body = if last { h.raw.clone() } else { h.body.clone()? };
        if !same && h.own {
            // `Self { .. }`, `Self::f` outside its impl
            struct Own<'a>(&'a Ident, bool);
            impl<'a> VisitMut for Own<'a> {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { self.go(&mut p.path); visit_mut::visit_expr_path_mut(self, p); }
                fn visit_expr_struct_mut(&mut self, p: &mut ExprStruct) { self.go(&mut p.path); visit_mut::visit_expr_struct_mut(self, p); }
                fn visit_pat_struct_mut(&mut self, p: &mut PatStruct) { self.go(&mut p.path); visit_mut::visit_pat_struct_mut(self, p); }
                fn visit_pat_tuple_struct_mut(&mut self, p: &mut PatTupleStruct) { self.go(&mut p.path); visit_mut::visit_pat_tuple_struct_mut(self, p); }
                fn visit_path_mut(&mut self, p: &mut Path) { if p.segments[0].ident == "Self" { self.1 = true; } visit_mut::visit_path_mut(self, p); }
                fn visit_macro_mut(&mut self, m: &mut Macro) { if toks(&m.tokens).split(' ').any(|x| x == "Self") { self.1 = true; } }
            }
            impl<'a> Own<'a> {
                fn go(&mut self, p: &mut Path) { if p.segments[0].ident == "Self" { p.segments[0].ident = self.0.clone(); } }
            }
            if h.ty.is_empty() { return None; }
            let id = format_ident!("{}", h.ty);
            let mut o = Own(&id, false);
            o.visit_block_mut(&mut body);
            if o.1 { return None; }
        }
        let mut out: Vec<Stmt> = vec![];
        if let Some(r) = recv {
            let r = match r { Expr::Paren(p) => *p.expr, r => r };
            if toks(&r) != "self" {
                let byref = h.recv.as_ref().unwrap().reference.is_some();
                let place = { let mut x = &r; while let Expr::Field(f) = x { x = &f.base; } matches!(x, Expr::Path(_)) };
                let mut s = SubSelf { to: r.clone(), bad: false };
                if !(place && byref) {
                    out.push(parse_quote!(let recv__ = #r;));
                    s.to = parse_quote!(recv__);
                    if !byref {
                        struct Ren;
                        impl VisitMut for Ren {
                            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                                if p.path.is_ident("self") { p.path = parse_quote!(recv__); }
                            }
                        }
                        Ren.visit_block_mut(&mut body);
                    }
                }
                s.visit_block_mut(&mut body);
                if s.bad { return None; }
            }
        }
        let names: HashSet<String> = h.params.iter().map(|p| p.0.clone()).collect();
        let clash = args.iter().enumerate().any(|(i, a)| {
            let mut m = Mentions { names: &names, hit: false };
            m.visit_expr(a);
            m.hit && toks(a) != h.params[i].0
        });
        let g: HashSet<String> = h.gens.iter().cloned().collect();
        let mut second: Vec<Stmt> = vec![];
        for ((n, mu, ty), a) in h.params.iter().zip(args) {
            if h.fnp.contains(n) {
                let mut x = &a;
                loop {
                    match x {
                        Expr::Paren(p) => x = &p.expr,
                        Expr::Reference(r) => x = &r.expr,
                        _ => break,
                    }
                }
                let mut s = SubFn { name: n, arg: a.clone(), callee: None, clo: None, calls: 0, bad: false };
                match x {
                    Expr::Path(p) if p.path.get_ident().is_some() => s.callee = p.path.get_ident().cloned(),
                    Expr::Closure(k) => {
                        if esc_e(&k.body) { return None; }
                        s.clo = Some(k.clone());
                    }
                    _ => return None,
                }
                s.visit_block_mut(&mut body);
                if s.bad || (s.clo.is_some() && s.calls != 1) { return None; }
                continue;
            }
            if toks(&a) == *n && !mu { continue; }
            let id = format_ident!("{}", n);
            let tgt = if clash { format_ident!("arg__{}", n) } else { id.clone() };
            let ty = ty.clone().filter(|t| same || (!mentions_t(t, &g) && !toks(t).split(' ').any(|x| x == "Self")));
            let s: Stmt = match (&ty, *mu && !clash) {
                (Some(t), false) => parse_quote!(let #tgt: #t = #a;),
                (Some(t), true) => parse_quote!(let mut #tgt: #t = #a;),
                (None, false) => parse_quote!(let #tgt = #a;),
                (None, true) => parse_quote!(let mut #tgt = #a;),
            };
            out.push(s);
            if clash {
                second.push(if *mu { parse_quote!(let mut #id = #tgt;) } else { parse_quote!(let #id = #tgt;) });
            }
        }
        out.extend(second);
        out.extend(body.stmts);
        if out.len() == 1 {
            if let Stmt::Expr(e, None) = &out[0] { return Some(parse_quote!((#e))); }
        }
        Some(blk_e(out))
    }
}
impl<'b> Inl<'b> {
    /// the key of the helper that a name stands for: its own type first, then its own module
    fn key(&self, ty: Option<&str>, n: &str) -> String {
        let m = &self.module;
        if let Some(t) = ty {
            for k in [format!("{m}/{t}::{n}"), format!("{t}::{n}")] {
                if self.helpers.contains_key(&k) { return k; }
            }
        }
        let k = format!("{m}/{n}");
        if self.helpers.contains_key(&k) { k } else { n.to_string() }
    }
    fn key_path(&self, p: &Path) -> String {
        let n = super::last_seg(p);
        if p.segments.len() == 2 {
            let t = p.segments[0].ident.to_string();
            return self.key(Some(if t == "Self" { &self.ty } else { &t }), &n);
        }
        self.key(None, &n)
    }
}
impl<'b> VisitMut for Inl<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            // a helper handed over as a function is the closure that calls it
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = &*a {
                    if p.qself.is_some() { continue; }
                    let single = p.path.segments.len() == 1;
                    let k = self.key_path(&p.path);
                    if let Some(h) = self.helpers.get(&k) {
                        if single && h.recv.is_some() { continue; }
                        let f = p.path.clone();
                        match h.params.len() + h.recv.is_some() as usize {
                            0 => *a = parse_quote!(|| #f()),
                            1 => *a = parse_quote!(|x__e| #f(x__e)),
                            2 => *a = parse_quote!(|x__e, y__e| #f(x__e, y__e)),
                            _ => {}
                        }
                    }
                }
            }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = r.expr.as_mut() { self.call(x, true); }
        }
        visit_mut::visit_expr_mut(self, e);
        self.call(e, false);
    }
}
impl<'b> Inl<'b> {
    /// the calls whose value the block yields
    fn tails_b(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tails(e); }
    }
    fn tails(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tails_b(&mut b.block),
            Expr::Unsafe(b) => self.tails_b(&mut b.block),
            Expr::Paren(p) => self.tails(&mut p.expr),
            Expr::If(i) => {
                self.tails_b(&mut i.then_branch);
                if let Some((_, x)) = i.else_branch.as_mut() { self.tails(x); }
            }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tails(&mut a.body); },
            Expr::MethodCall(_) | Expr::Call(_) => self.call(e, true),
            _ => {}
        }
    }
    /// replaces the call e by the helper's body
    fn call(&mut self, e: &mut Expr, last: bool) {
        let (name, recv, args) = match e {
            Expr::MethodCall(m) if m.turbofish.is_none() => {
                let t = if toks(&*m.receiver) == "self" { Some(self.ty.as_str()) } else { None };
                (self.key(t, &m.method.to_string()), Some((*m.receiver).clone()), m.args.iter().cloned().collect::<Vec<_>>())
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = self.key_path(&p.path);
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    let mut recv = None;
                    if self.helpers.get(&n).map_or(false, |h| h.recv.is_some()) && !args.is_empty() {
                        let r = args.remove(0);
                        recv = Some(match r { Expr::Reference(x) => *x.expr, x => x });
                    }
                    (n, recv, args)
                }
                _ => return,
            },
            _ => return,
        };
        if name.rsplit(['/', ':']).next() == Some(self.me.as_str()) { return; }
        let hs = self.helpers;
        if let Some(h) = hs.get(&name) {
            if last && h.body.is_some() { return; }
            if let Some(x) = self.expand(h, recv, args, last) {
                *e = x;
                self.done.push(name.rsplit(['/', ':']).next().unwrap().to_string());
            }
        }
    }
}

const MAPS: [&str; 3] = ["cycle_map", "partial_cycle_map", "group_map"];

/// inlines the helpers everywhere; returns (helper, caller) pairs
pub fn inline_all(files: &mut [(String, File)], known: &HashSet<(String, String)>) -> Vec<(String, String)> {
    let mut log = vec![];
    for _ in 0..4 {
        let mut hs: HashMap<String, Helper> = HashMap::new();
        let mut count: HashMap<String, usize> = HashMap::new();
        let mut outer: HashSet<String> = HashSet::new(); // names defined outside the three maps
        for (m, f) in files.iter() {
            for it in &f.items {
                match it {
                    Item::Fn(x) => {
                        let n = x.sig.ident.to_string();
                        for k in [n.clone(), format!("{m}/{n}")] { *count.entry(k).or_default() += 1; }
                        if !MAPS.contains(&m.as_str()) { outer.insert(n.clone()); }
                        if known.contains(&(m.clone(), n.clone())) { continue; }
                        for k in [n.clone(), format!("{m}/{n}")] {
                            if let Some(h) = helper(m, &Generics::default(), None, &x.sig, &x.block) { hs.insert(k, h); }
                        }
                    }
                    Item::Impl(im) => for i in &im.items {
                        if let ImplItem::Fn(x) = i {
                            let n = x.sig.ident.to_string();
                            let ty = match &*im.self_ty { Type::Path(p) => super::last_seg(&p.path), t => toks(t) };
                            let q = format!("{ty}::{n}");
                            for k in [n.clone(), q.clone(), format!("{m}/{n}"), format!("{m}/{q}")] { *count.entry(k).or_default() += 1; }
                            if !MAPS.contains(&m.as_str()) { outer.insert(n.clone()); }
                            if im.trait_.is_some() || matches!(x.vis, Visibility::Public(_)) { continue; }
                            for (k, what) in [(n.clone(), &n), (format!("{m}/{n}"), &n), (q.clone(), &q), (format!("{m}/{q}"), &q)] {
                                // a name under contract is not a helper
                                if known.contains(&(m.clone(), what.clone())) || known.contains(&(m.clone(), q.clone())) { continue; }
                                if let Some(h) = helper(m, &im.generics, Some(&im.self_ty), &x.sig, &x.block) { hs.insert(k, h); }
                            }
                        }
                    },
                    _ => {}
                }
            }
        }
        hs.retain(|n, _| count[n] == 1 && (n.contains("::") || !n.contains('/') || !outer.contains(n.rsplit('/').next().unwrap())));
        if hs.is_empty() { break; }
        let mut any = false;
        for (m, f) in files.iter_mut() {
            for it in f.items.iter_mut() {
                let mut run = |header: String, ty: String, sig: &Signature, b: &mut Block| {
                    let mut v = Inl { helpers: &hs, module: m.clone(), header, ty, me: sig.ident.to_string(), done: vec![] };
                    v.tails_b(b);
                    v.visit_block_mut(b);
                    for d in v.done { any = true; log.push((d, sig.ident.to_string())); }
                };
                match it {
                    Item::Fn(x) => { let s = x.sig.clone(); run(" ".to_string(), String::new(), &s, &mut x.block) }
                    Item::Impl(im) => {
                        let header = format!("{} {}", im.generics.type_params().map(|p| p.ident.to_string()).collect::<Vec<_>>().join(","), toks(&*im.self_ty));
                        for i in im.items.iter_mut() {
                            if let ImplItem::Fn(x) = i { let s = x.sig.clone(); run(header.clone(), match &*im.self_ty { Type::Path(p) => super::last_seg(&p.path), t => toks(t) }, &s, &mut x.block) }
                        }
                    }
                    _ => {}
                }
            }
        }
        if !any { break; }
    }
    // a helper that is inlined everywhere has no code of its own any more; one that is still called stays
    struct Idents(HashMap<String, usize>);
    impl<'a> Visit<'a> for Idents {
        fn visit_ident(&mut self, i: &'a Ident) { *self.0.entry(i.to_string()).or_default() += 1; }
        fn visit_macro(&mut self, m: &'a Macro) {
            for w in toks(&m.tokens).split(' ') { *self.0.entry(w.to_string()).or_default() += 1; }
        }
    }
    loop {
        let mut ids = Idents(HashMap::new());
        for (_, f) in files.iter() { ids.visit_file(f); }
        let gone = |i: &Ident| ids.0.get(&i.to_string()) == Some(&1) && log.iter().any(|(h, _)| h.rsplit(['/', ':']).next() == Some(&i.to_string()));
        let mut removed = false;
        for (_, f) in files.iter_mut() {
            f.items.retain(|it| !matches!(it, Item::Fn(x) if gone(&x.sig.ident)) || { removed = true; false });
            for it in f.items.iter_mut() {
                if let Item::Impl(im) = it {
                    if im.trait_.is_some() { continue; }
                    im.items.retain(|i| !matches!(i, ImplItem::Fn(x) if gone(&x.sig.ident)) || { removed = true; false });
                }
            }
        }
        if !removed { break; }
    }
    log
}
