//! Mechanical extraction of /repo/src/*.rs into Verus-shaped pieces.
//! Output: JSON on stdout; one entry per source file with its items, each function's text
//! carrying placeholders that assemble.py replaces with contract text:
//!   __FNSPEC!();           first statement of every function body
//!   __LOOPSPEC!(k);        first statement of the k-th loop of a function
//!   __CLOSPEC!(k);         first statement of the k-th closure body of a function
//!   __RET!(T)              the return type
//! Everything else is the tokens of the source; the rewrites are listed in DESIGN.md.
mod guard;
mod inline;
mod modules;
mod rename;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const RESERVED: &[&str] = &[
    "old", "forall", "exists", "choose", "assume", "requires", "ensures", "invariant",
    "decreases", "proof", "spec", "exec", "ghost", "tracked", "open", "closed", "via", "when",
    "has", "implies", "recommends", "by", "reveal", "hide", "int", "nat", "trigger",
];
const INHERENT: &[&str] = &[
    "Iterator", "ExactSizeIterator", "Drop", "Default",
];
const DROPPED_TRAITS: &[&str] = &["Debug", "FusedIterator", "Display"];
const DROPPED_TYPES: &[&str] = &["ConsumeAllOnDrop"];
// private entry types whose PartialEq/Eq impls no table lookup uses (lookups use closures)
const ENTRY_TYPES: &[&str] = &["MappingPair", "LeftItem", "RightItem"];

fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    walk(ts, &mut s, 0);
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}
fn walk(ts: TokenStream, s: &mut String, ind: usize) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(s, ind + 1);
                    walk(g.stream(), s, ind + 1);
                    nl(s, ind);
                    s.push_str(c);
                    nl(s, ind);
                } else {
                    walk(g.stream(), s, ind);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                let n = i.to_string();
                if RESERVED.contains(&n.as_str()) {
                    s.push_str(&n);
                    s.push_str("__ ");
                } else {
                    s.push_str(&n);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    nl(s, ind);
                } else if p.as_char() == ',' && s.len() > 0 {
                    let l = s.rfind('\n').map(|i| s.len() - i).unwrap_or(0);
                    if l > 100 {
                        nl(s, ind + 1);
                    } else {
                        s.push(' ');
                    }
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}
fn toks<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    walk(t.to_token_stream(), &mut s, 0);
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// Path prefixes of library modules are dropped; the shim has the names in scope.
fn strip_path(p: &mut Path) {
    let roots = ["std", "core", "hashbrown", "crate", "serde", "alloc", "mem"];
    if p.segments.len() > 1 && roots.contains(&p.segments[0].ident.to_string().as_str()) {
        let mods = ["std", "core", "hashbrown", "crate", "serde", "alloc", "hash", "hash_map", "raw",
            "borrow", "default", "iter", "marker", "fmt", "ops", "ser", "de", "cycle_map",
            "partial_cycle_map", "group_map", "optionals", "utils", "vec", "collections", "cmp",
            "clone", "option", "mem"];
        let mut k = 0;
        while k + 1 < p.segments.len() && mods.contains(&p.segments[k].ident.to_string().as_str()) {
            k += 1;
        }
        let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect();
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    }
}

struct Types {
    assoc: HashMap<String, Type>, // Self::Item -> type
}
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            if tp.qself.is_none() && tp.path.segments.len() == 2 && tp.path.segments[0].ident == "Self" {
                if let Some(r) = self.assoc.get(&tp.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct Clean;
impl VisitMut for Clean {
    // PhantomData<fn() -> X> -> PhantomData<X>: no value either way, and Verus has no function pointer types
    fn visit_path_mut(&mut self, p: &mut Path) {
        if last_seg(p) == "PhantomData" {
            if let PathArguments::AngleBracketed(a) = &mut p.segments.last_mut().unwrap().arguments {
                for x in a.args.iter_mut() {
                    if let GenericArgument::Type(Type::BareFn(f)) = x {
                        if let (true, ReturnType::Type(_, t)) = (f.inputs.is_empty(), &f.output) {
                            *x = GenericArgument::Type((**t).clone());
                        }
                    }
                }
            }
        }
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        if !matches!(v, Visibility::Public(_)) {
            *v = parse_quote!(pub);
        }
    }
    // FnMut user predicates become shim traits with a ghost call trace
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            if let Some(n) = userpred(&t.path) {
                t.path = n;
                return;
            }
            // IntoIterator<Item = X> -> IntoItems<X>
            if last_seg(&t.path) == "IntoIterator" {
                if let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments {
                    for x in &a.args {
                        if let GenericArgument::AssocType(at) = x {
                            let ty = at.ty.clone();
                            t.path = parse_quote!(IntoItems<#ty>);
                            break;
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_param_bound_mut(self, b);
    }
}
fn userpred(p: &Path) -> Option<Path> {
    let s = p.segments.last()?;
    if s.ident != "FnMut" {
        return None;
    }
    let PathArguments::Parenthesized(a) = &s.arguments else { return None };
    let ins: Vec<&Type> = a.inputs.iter().collect();
    let deref = |t: &Type| -> Option<Type> {
        if let Type::Reference(r) = t { Some((*r.elem).clone()) } else { None }
    };
    let opt = |t: &Type| -> Option<(Type, Type)> {
        if let Type::Path(tp) = t {
            let s = tp.path.segments.last()?;
            if s.ident == "OptionalPair" {
                if let PathArguments::AngleBracketed(g) = &s.arguments {
                    let v: Vec<_> = g.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { deref(t) } else { None }).collect();
                    if v.len() == 2 {
                        return Some((v[0].clone(), v[1].clone()));
                    }
                }
            }
        }
        None
    };
    match ins.len() {
        2 => {
            let (x, y) = (deref(ins[0])?, deref(ins[1])?);
            Some(parse_quote!(Pred2<#x, #y>))
        }
        1 => {
            if let Some((x, y)) = opt(ins[0]) {
                return Some(parse_quote!(PredO<#x, #y>));
            }
            let d = deref(ins[0])?;
            if let Some((x, y)) = opt(&d) {
                return Some(parse_quote!(PredOR<#x, #y>));
            }
            Some(parse_quote!(Pred1<#d>))
        }
        _ => None,
    }
}
fn is_userfn_generics(g: &Generics, out: &mut HashSet<String>) {
    is_bound_generics(g, out, "FnMut")
}
fn is_bound_generics(g: &Generics, out: &mut HashSet<String>, tr: &str) {
    let hasfn = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path) == tr);
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(hasfn) {
                out.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounds.iter().any(hasfn) {
                    out.insert(toks(&t.bounded_ty));
                }
            }
        }
    }
}

struct Uses { name: String, total: usize, calls: usize }
impl<'a> Visit<'a> for Uses {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident(&self.name) { self.calls += 1; }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.name) { self.total += 1; }
    }
}
struct HasEscape(bool);
impl<'a> Visit<'a> for HasEscape {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn escapes(e: &Expr) -> bool {
    let mut h = HasEscape(false);
    h.visit_expr(e);
    h.0
}

struct Body {
    userfns: HashSet<String>, // parameters to be called as f.call(..)
    userits: HashSet<String>, // parameters that are IntoIterator<Item = ..> of the caller
    loops: Vec<String>,
    clos: Vec<String>,
    calls: HashSet<String>,
    dropped_guards: HashSet<String>,
    ret_into_bool: bool,
    notes: Vec<String>,
    nref: usize,
    let_ty: Option<Type>, // the type of the `let` a collect() is the value of
    vecs: HashSet<String>, // locals that are evidently a Vec
    clospec: Vec<Option<String>>, // what a closure without a contract evidently returns
    ret: String,
}
impl Body {
    fn loopspec(&mut self, fp: String) -> Stmt {
        let k = Literal(self.loops.len());
        self.loops.push(fp);
        let k = k.0;
        parse_quote!(__LOOPSPEC!(#k);)
    }
    /// what a loop over a local Vec runs over: `&v`, `v`, or `v` backwards
    fn vec_iter(&self, it: &Expr) -> Option<Expr> {
        let Expr::MethodCall(mc) = it else { return None };
        let local = |e: &Expr| self.vecs.contains(&toks(e));
        let (r, m) = (&mc.receiver, mc.method.to_string());
        match (m.as_str(), mc.args.len()) {
            ("iter", 0) if local(r) => Some(parse_quote!(&#r)),
            ("into_iter", 0) if local(r) => Some((**r).clone()),
            ("drain", 1) if local(r) && toks(&mc.args[0]) == ".." => Some((**r).clone()),
            ("copied", 0) => match self.vec_iter(r)? {
                Expr::Reference(x) => Some(*x.expr),
                _ => None,
            },
            ("rev", 0) => {
                let x = self.vec_iter(r)?;
                Some(parse_quote!(IntoIt::into_it(#x).rev()))
            }
            _ => None,
        }
    }
}
struct Literal(usize);

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && !escapes(&c.body) {
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = p { p = *t.pat; }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

fn closure0(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() && !escapes(&c.body) => Some((*c.body).clone()),
        _ => None,
    }
}

/// one adapter of an iterator chain
enum Stage { Map(Pat, Expr), Filter(Pat, Expr), FilterMap(Pat, Expr) }
/// the source of a chain of adapters, and the adapters in order
fn peel(e: &Expr) -> (Expr, Vec<Stage>) {
    if let Expr::MethodCall(mc) = e {
        let m = mc.method.to_string();
        if mc.args.len() == 1 && mc.turbofish.is_none() {
            if let Some((p, b)) = closure1(&mc.args[0]) {
                let st = match m.as_str() {
                    "map" => Some(Stage::Map(p, b)),
                    "filter" => Some(Stage::Filter(p, b)),
                    "filter_map" => Some(Stage::FilterMap(p, b)),
                    _ => None,
                };
                if let Some(st) = st {
                    let (src, mut v) = peel(&mc.receiver);
                    v.push(st);
                    return (src, v);
                }
            }
        }
    }
    (e.clone(), vec![])
}
/// binds a closure parameter to `&x`
fn bind_ref(p: &Pat, x: &Expr, out: &mut Vec<Stmt>) {
    match p {
        Pat::Wild(_) => {}
        Pat::Paren(q) => bind_ref(&q.pat, x, out),
        Pat::Reference(r) => { let q = &r.pat; out.push(parse_quote!(let #q = #x;)); }
        Pat::Tuple(t) if !t.elems.iter().any(|q| matches!(q, Pat::Rest(_))) => {
            for (i, q) in t.elems.iter().enumerate() {
                let i = Index::from(i);
                bind_ref(q, &parse_quote!(#x.#i), out);
            }
        }
        p => out.push(parse_quote!(let #p = &#x;)),
    }
}
/// what is done with one element: its pattern, and the adapters in order around `fin`
fn stream(n: usize, st: Vec<Stage>, scoped: bool, fin: impl FnOnce(Expr) -> Expr) -> (Pat, Expr) {
    let name = |i: usize| if i == 0 { format_ident!("x__") } else { format_ident!("v__{}_{}", n, i) };
    let k = st.len();
    let direct = k == 1 && !scoped; // nothing else to see the parameter's names
    let x = name(k);
    let mut body = fin(parse_quote!(#x));
    let mut first: Pat = parse_quote!(x__);
    for (i, s) in st.into_iter().enumerate().rev() {
        let (x, y) = (name(i), name(i + 1));
        body = match s {
            Stage::Map(p, b) if direct => { first = p; parse_quote!({ let #y = #b; #body }) }
            Stage::Map(p, b) => parse_quote!({ let #y = { let #p = #x; #b }; #body }),
            Stage::Filter(p, c) => {
                let mut lets = vec![];
                bind_ref(&p, &parse_quote!(#x), &mut lets);
                parse_quote!({ if { #(#lets)* #c } { let #y = #x; #body } })
            }
            Stage::FilterMap(p, b) if direct => { first = p; parse_quote!({ match #b { Some(#y) => #body None => {} } }) }
            Stage::FilterMap(p, b) => parse_quote!({ match { let #p = #x; #b } { Some(#y) => #body None => {} } }),
        };
    }
    (first, body)
}

impl VisitMut for Body {
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
            if r.mutability.is_none() && i.diverge.is_none() {
                let x = &i.expr;
                i.expr = Box::new(parse_quote!(*(#x)));
                l.pat = (*r.pat).clone();
            }
        }
        let (id, ty) = match &l.pat {
            Pat::Ident(i) => (Some(i.ident.to_string()), false),
            Pat::Type(t) => (if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None }, toks(&t.ty).starts_with("Vec <")),
            _ => (None, false),
        };
        if let Some(id) = id {
            let init = l.init.as_ref().map(|i| toks(&i.expr)).unwrap_or_default();
            if ty || init.starts_with("Vec ::") || init.starts_with("vec !") || init.ends_with("collect :: < Vec < _ >> ()") || init.ends_with("collect :: < Vec < _ > > ()") {
                self.vecs.insert(id);
            } else {
                self.vecs.remove(&id);
            }
        }
        self.let_ty = match (&l.pat, &l.init) {
            (Pat::Type(t), Some(i)) if matches!(&*i.expr, Expr::MethodCall(m) if m.method == "collect") => Some((*t.ty).clone()),
            _ => None,
        };
        visit_mut::visit_local_mut(self, l);
        self.let_ty = None;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut st in std::mem::take(&mut b.stmts) {
            match &st {
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) => {
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Call(c) = &*init.expr {
                            if toks(&c.func) == "ConsumeAllOnDrop" {
                                self.dropped_guards.insert(pi.ident.to_string());
                                continue;
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::Call(c), _) => {
                    let f = toks(&c.func);
                    if (f == "mem :: forget" || f == "core :: mem :: forget" || f == "std :: mem :: forget")
                        && c.args.len() == 1
                        && self.dropped_guards.contains(&toks(&c.args[0]))
                    {
                        continue;
                    }
                }
                Stmt::Macro(m) => {
                    let n = last_seg(&m.mac.path);
                    if let Some(e) = macro_expr(&n, &m.mac) {
                        let semi = m.semi_token;
                        let never = toks(&e) == toks(&macro_never());
                        // a statement that diverges has whatever type its block needs
                        st = if never { Stmt::Expr(e, None) } else { Stmt::Expr(e, semi) };
                        if never {
                            out.push(st);
                            break;
                        }
                    }
                }
                _ => {}
            }
            self.visit_stmt_mut(&mut st);
            out.push(st);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) => {
                guard::unguard(m);
                for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                    let mut lets = vec![];
                    guard::derefs(&mut a.pat, &mut self.nref, &mut lets);
                    if !lets.is_empty() { let x = &a.body; a.body = Box::new(parse_quote!({ #(#lets)* #x })); }
                }
            }
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                let mut lets = vec![];
                guard::derefs(&mut l.pat, &mut self.nref, &mut lets);
                i.then_branch.stmts.splice(0..0, lets);
            },
            Expr::While(i) => if let Expr::Let(l) = &mut *i.cond {
                let mut lets = vec![];
                guard::derefs(&mut l.pat, &mut self.nref, &mut lets);
                i.body.stmts.splice(0..0, lets);
            },
            Expr::ForLoop(i) => {
                let mut lets = vec![];
                guard::derefs(&mut i.pat, &mut self.nref, &mut lets);
                i.body.stmts.splice(0..0, lets);
            }
            _ => {}
        }
        // `x.try_for_each(|p| c)?`: the loop it stands for
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(mc) = &*t.expr {
                if mc.method == "try_for_each" && mc.args.len() == 1 {
                    if let Some((p, b)) = closure1(&mc.args[0]) {
                        let src = &mc.receiver;
                        let (o, n): (Expr, Arm) = match self.ret.as_str() {
                            "Option" => (parse_quote!(Some), parse_quote!(None => { return None; })),
                            _ => (parse_quote!(Ok), parse_quote!(Err(e__) => { return Err(e__); })),
                        };
                        *e = parse_quote!({ for #p in #src { match #b { #o(_) => {} #n } } });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                let n = last_seg(&m.mac.path);
                if let Some(x) = macro_expr(&n, &m.mac) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let (mut pat, mut it, mut body) = ((*f.pat).clone(), (*f.expr).clone(), f.body.clone());
                let (src, st) = peel(&it);
                if !st.is_empty() {
                    // `for p in src.filter(..).map(..) { body }`: the adapters are written into the body
                    let inner = f.body.clone();
                    let (np, nb) = stream(self.loops.len(), st, true, |x| parse_quote!({ let #pat = #x; #inner }));
                    it = src;
                    pat = np;
                    body = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(nb, None)] };
                }
                if let Some(x) = self.vec_iter(&it) { it = x; }
                let fp = if let Expr::Reference(r) = &it { toks(&*r.expr) } else { toks(&it) };
                let spec = self.loopspec(format!("for {fp}"));
                let label = f.label.clone();
                let byref = if let Expr::MethodCall(mc) = &it {
                    if mc.method == "by_ref" && mc.args.is_empty() { Some((*mc.receiver).clone()) } else { None }
                } else { None };
                self.visit_block_mut(&mut body);
                if let Some(mut place) = byref {
                    self.visit_expr_mut(&mut place);
                    *e = parse_quote!({ #label loop { #spec match #place.next() { None => break, Some(#pat) => #body } } });
                } else if self.userits.contains(&toks(&it)) {
                    let v = format_ident!("it__{}", self.loops.len() - 1);
                    *e = parse_quote!({ let mut #v = IntoItems::into_items(#it); #label loop { #spec match #v.next() { None => break, Some(#pat) => #body } } });
                } else {
                    self.visit_expr_mut(&mut it);
                    let v = format_ident!("it__{}", self.loops.len() - 1);
                    *e = parse_quote!({ let mut #v = IntoIt::into_it(#it); #label loop { #spec match #v.next() { None => break, Some(#pat) => #body } } });
                }
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (pat, mut ex, mut body) = ((*l.pat).clone(), (*l.expr).clone(), w.body.clone());
                    let spec = self.loopspec(format!("while let {} = {}", toks(&pat), toks(&ex)));
                    let label = w.label.clone();
                    self.visit_expr_mut(&mut ex);
                    self.visit_block_mut(&mut body);
                    *e = parse_quote!({ #label loop { #spec match #ex { #pat => #body _ => break } } });
                    return;
                }
                let (mut cond, mut body) = ((*w.cond).clone(), w.body.clone());
                let spec = self.loopspec(format!("while {}", toks(&cond)));
                let label = w.label.clone();
                self.visit_expr_mut(&mut cond);
                self.visit_block_mut(&mut body);
                *e = parse_quote!({ #label loop { #spec if #cond #body else { break } } });
                return;
            }
            Expr::Loop(l) => {
                let spec = self.loopspec("loop".into());
                self.visit_block_mut(&mut l.body);
                l.body.stmts.insert(0, spec);
                let lp = l.clone();
                *e = parse_quote!({ #lp });
                return;
            }
            // `|x| x`
            Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() && toks(&*c.body) == p.ident.to_string()) => {
                *e = parse_quote!(identity);
                return;
            }
            Expr::Closure(c) => {
                let k = self.clos.len();
                self.clos.push(toks(c));
                self.clospec.push(None);
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                let value = if specable(&b) { Some(toks(&b)) } else { None };
                let mut lets = String::new();
                let mut plain = true;
                let spec: Stmt = parse_quote!(__CLOSPEC!(#k););
                let mut nb: Block = match b {
                    Expr::Block(bl) if bl.label.is_none() => bl.block,
                    other => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(other, None)] },
                };
                // pattern parameters are bound by a `let` at the start of the closure body
                let mut j = 0usize;
                for inp in c.inputs.iter_mut() {
                    let inner = match inp { Pat::Type(t) => &mut *t.pat, p => p };
                    if !matches!(inner, Pat::Ident(_)) {
                        let id = format_ident!("p__{}_{}", k, j);
                        let old = std::mem::replace(inner, parse_quote!(#id));
                        plain &= matches!(&old, Pat::Tuple(t) if t.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))));
                        lets += &format!("let {} = {};", toks(&old), id);
                        nb.stmts.insert(j, parse_quote!(let #old = #id;));
                        j += 1;
                    }
                }
                if let (true, Some(v)) = (plain, value) { self.clospec[k] = Some(format!("{{ {lets} r__ == ({v}) }}")); }
                nb.stmts.insert(0, spec);
                c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: nb }));
                c.output = ReturnType::Default;
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.calls.insert(last_seg(&p.path));
                    if p.path.segments.len() == 1 && self.userfns.contains(&p.path.segments[0].ident.to_string()) {
                        let id = p.path.segments[0].ident.clone();
                        let mut args = c.args.clone();
                        for a in args.iter_mut() { self.visit_expr_mut(a); }
                        *e = parse_quote!(#id.call(#args));
                        return;
                    }
                }
            }
            Expr::MethodCall(mc) => {
                let m = mc.method.to_string();
                self.calls.insert(m.clone());
                if m == "into_iter" && mc.args.is_empty() && mc.turbofish.is_none() {
                    let mut r = (*mc.receiver).clone();
                    if self.userits.contains(&toks(&r)) {
                        *e = parse_quote!(IntoItems::into_items(#r));
                    } else {
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(IntoIt::into_it(#r));
                    }
                    return;
                }
                if matches!((m.as_str(), mc.args.len()), ("collect" | "count", 0)) {
                    let (mut src, st) = peel(&mc.receiver);
                    if m == "count" && !st.is_empty() && matches!(st[st.len() - 1], Stage::Map(..)) { src = (*mc.receiver).clone(); }
                    let st = if src == *mc.receiver { vec![] } else { st };
                    let ty: Option<Type> = if m == "count" { Some(parse_quote!(usize)) } else { mc.turbofish.as_ref().and_then(|t| match t.args.first() { Some(GenericArgument::Type(t)) => Some(t.clone()), _ => None }).or(self.let_ty.take()) };
                    let spec = self.loopspec(format!("{} {}", m, toks(&src)));
                    let n = self.loops.len() - 1;
                    let (v, a) = (format_ident!("it__{}", n), format_ident!("acc__{}", n));
                    let plain = st.is_empty();
                    let (pat, mut body) = stream(n, st, false, |x| if m == "count" { parse_quote!({ #a += 1; }) } else { parse_quote!({ Collect::push_one(&mut #a, #x); }) });
                    let pat = if m == "count" && plain { parse_quote!(_) } else { pat };
                    self.visit_expr_mut(&mut src);
                    self.visit_expr_mut(&mut body);
                    let zero: Expr = if m == "count" { parse_quote!(0) } else { parse_quote!(Collect::empty()) };
                    let ty = ty.map(|t| quote::quote!(: #t));
                    *e = parse_quote!({ let mut #v = IntoIt::into_it(#src); let mut #a #ty = #zero; loop { #spec match #v.next() { None => break, Some(#pat) => #body } } #a });
                    return;
                }
                if matches!(m.as_str(), "all" | "any" | "find" | "find_map") && mc.args.len() == 1 {
                    if let Some((cp, cb)) = closure1(&mc.args[0]) {
                        let (mut src, mut st) = peel(&mc.receiver);
                        let spec = self.loopspec(format!("{} {}", m, toks(&src)));
                        let n = self.loops.len() - 1;
                        let (v, a) = (format_ident!("it__{}", n), format_ident!("acc__{}", n));
                        let (pat, mut body) = match m.as_str() {
                            "all" | "any" => {
                                st.push(Stage::Map(cp, cb));
                                let r = m == "any";
                                if r { stream(n, st, false, |x| parse_quote!({ if #x { #a = true; break; } })) } else { stream(n, st, false, |x| parse_quote!({ if !(#x) { #a = false; break; } })) }
                            }
                            "find" => { st.push(Stage::Filter(cp, cb)); stream(n, st, false, |x| parse_quote!({ #a = Some(#x); break; })) }
                            _ => { st.push(Stage::Map(cp, cb)); stream(n, st, false, |x| parse_quote!({ #a = #x; if #a.is_some() { break; } })) }
                        };
                        let place = match &src {
                            Expr::MethodCall(r) if r.method == "by_ref" && r.args.is_empty() => Some((*r.receiver).clone()),
                            Expr::Path(_) | Expr::Field(_) => Some(src.clone()),
                            _ => None,
                        };
                        self.visit_expr_mut(&mut body);
                        let zero: Expr = match m.as_str() { "all" => parse_quote!(true), "any" => parse_quote!(false), _ => parse_quote!(None) };
                        *e = if let Some(mut pl) = place {
                            self.visit_expr_mut(&mut pl);
                            parse_quote!({ let mut #a = #zero; loop { #spec match #pl.next() { None => break, Some(#pat) => #body } } #a })
                        } else {
                            self.visit_expr_mut(&mut src);
                            parse_quote!({ let mut #v = IntoIt::into_it(#src); let mut #a = #zero; loop { #spec match #v.next() { None => break, Some(#pat) => #body } } #a })
                        };
                        return;
                    }
                }
                if m == "for_each" && mc.args.len() == 1 {
                    if let Some((pat, body)) = closure1(&mc.args[0]) {
                        let mut src = (*mc.receiver).clone();
                        if matches!(&src, Expr::Path(p) if p.path.is_ident("self")) { src = parse_quote!(#src.by_ref()); }
                        *e = parse_quote!(for #pat in #src { #body });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                // Option::map and friends with a closure argument
                if mc.args.len() == 1 {
                    if let Some((pat, mut body)) = closure1(&mc.args[0]) {
                        let mut recv = (*mc.receiver).clone();
                        let arm: Option<Expr> = match m.as_str() {
                            "map" => { self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body);
                                Some(parse_quote!(match #recv { Some(#pat) => Some(#body), None => None })) }
                            "and_then" => { self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body);
                                Some(parse_quote!(match #recv { Some(#pat) => #body, None => None })) }
                            "is_none_or" => { self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body);
                                Some(parse_quote!(match #recv { Some(#pat) => #body, None => true })) }
                            "is_some_and" => { self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body);
                                Some(parse_quote!(match #recv { Some(#pat) => #body, None => false })) }
                            _ => None,
                        };
                        if let Some(x) = arm {
                            *e = x;
                            return;
                        }
                    }
                }
                if m == "map_or_else" && mc.args.len() == 2 {
                    if let (Some(mut d), Some((pat, mut body))) = (closure0(&mc.args[0]), closure1(&mc.args[1])) {
                        let mut recv = (*mc.receiver).clone();
                        self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body); self.visit_expr_mut(&mut d);
                        *e = parse_quote!(match #recv { Some(#pat) => #body, None => #d });
                        return;
                    }
                }
                if m == "then" && mc.args.len() == 1 {
                    if let Some(mut d) = closure0(&mc.args[0]) {
                        let mut recv = (*mc.receiver).clone();
                        self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut d);
                        *e = parse_quote!(if #recv { Some(#d) } else { None });
                        return;
                    }
                }
                if (m == "unwrap_or_else" || m == "or_else") && mc.args.len() == 1 {
                    if let Some(mut d) = closure0(&mc.args[0]) {
                        let mut recv = (*mc.receiver).clone();
                        self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut d);
                        *e = if m == "or_else" { parse_quote!(match #recv { Some(o__) => Some(o__), None => #d }) } else { parse_quote!(match #recv { Some(o__) => o__, None => #d }) };
                        return;
                    }
                }
                if m == "map_or" && mc.args.len() == 2 && inline::pure(&mc.args[0]) {
                    if let Some((pat, mut body)) = closure1(&mc.args[1]) {
                        let mut recv = (*mc.receiver).clone();
                        let mut d = mc.args[0].clone();
                        self.visit_expr_mut(&mut recv); self.visit_expr_mut(&mut body); self.visit_expr_mut(&mut d);
                        *e = parse_quote!(match #recv { Some(#pat) => #body, None => #d });
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn macro_never() -> Expr {
    parse_quote!(shim_unreached())
}
fn macro_expr(n: &str, m: &Macro) -> Option<Expr> {
    match n {
        "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(shim_unreached())),
        "assert" | "debug_assert" => {
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            let c = args.first()?.clone();
            Some(if n == "assert" { parse_quote!(if !(#c) { shim_unreached() }) } else { parse_quote!(if !(#c) { shim_debug_unreached() }) })
        }
        "assert_eq" | "debug_assert_eq" => {
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            let a = args.get(0)?.clone();
            let b = args.get(1)?.clone();
            Some(if n == "assert_eq" { parse_quote!(if !(#a == #b) { shim_unreached() }) } else { parse_quote!(if !(#a == #b) { shim_debug_unreached() }) })
        }
        "matches" => {
            struct M(Expr, Pat, Option<Expr>);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            let M(e, p, g) = m.parse_body().ok()?;
            Some(match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            })
        }
        _ => None,
    }
}

/// the locals of a function: name and value, in order
struct Lets(Vec<(String, String)>);
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a Local) {
        let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let (Pat::Ident(i), Some(x)) = (p, &l.init) { self.0.push((i.ident.to_string(), toks(&*x.expr))); }
        visit::visit_local(self, l);
    }
}
struct Rename { from: String, to: Ident }
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from { p.ident = self.to.clone(); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() { p.colon_token = Some(Default::default()); }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() { p.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.from) { p.path = self.to.clone().into(); }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream, f: &str, to: &Ident) -> TokenStream {
            ts.into_iter().map(|t| match t {
                TokenTree::Ident(i) if i == f => TokenTree::Ident(to.clone()),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), f, to))),
                t => t,
            }).collect()
        }
        m.tokens = go(std::mem::take(&mut m.tokens), &self.from, &self.to);
    }
}
/// `let p = ..` at the top of a body, where p is a parameter: the local gets a name of its own, so
/// that the contract's p is the parameter
fn unshadow(params: &[String], block: &mut Block) {
    let mut i = 0;
    while i < block.stmts.len() {
        if let Stmt::Local(l) = &block.stmts[i] {
            let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if let Pat::Ident(p) = p {
                let n = p.ident.to_string();
                if params.contains(&n) && n != "self" {
                    let mut r = Rename { to: format_ident!("{}__s{}", n, i), from: n };
                    if let Stmt::Local(l) = &mut block.stmts[i] { r.visit_pat_mut(&mut l.pat); }
                    for s in block.stmts[i + 1..].iter_mut() { r.visit_stmt_mut(s); }
                }
            }
        }
        i += 1;
    }
}
/// an expression that can be repeated in a specification as it stands
fn specable(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => specable(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(specable),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if last_seg(&p.path).starts_with(char::is_uppercase)) && c.args.iter().all(specable),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| specable(&f.expr)),
        _ => false,
    }
}
/// a function used as an argument is written as the closure it stands for
fn eta(m: &str, args: &mut punctuated::Punctuated<Expr, Token![,]>) {
    let pos: &[usize] = match (m, args.len()) {
        ("map" | "map_left" | "map_right" | "and_then" | "is_some_and" | "for_each" | "filter_map" | "find_map" | "filter" | "find" | "flat_map" | "all" | "any" | "try_for_each", 1) => &[0],
        ("map_or", 2) => &[1],
        ("map" | "map_or_else", 2) => &[0, 1],
        _ => return,
    };
    for i in pos {
        if let Expr::Path(p) = &args[*i] {
            let n = last_seg(&p.path);
            if p.path.segments.len() == 1 && !n.starts_with(char::is_uppercase) && n != "identity" && n != "drop" { continue; }
            let f = p.path.clone();
            args[*i] = if n == "identity" { parse_quote!(|x__e| x__e) } else { parse_quote!(|x__e| #f(x__e)) };
        }
    }
}

struct Etas;
impl VisitMut for Etas {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        let n = m.method.to_string();
        eta(&n, &mut m.args);
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}

/// `src.find(c)` or `src.find_map(c)`: the loop over src with `hit` at the element found, which has to leave the function
fn find_loop(e: &Expr, hit: &mut dyn FnMut(Expr) -> Expr) -> Option<Stmt> {
    let Expr::MethodCall(m) = e else { return None };
    if !(m.method == "find" || m.method == "find_map") || m.args.len() != 1 { return None; }
    let (p, c) = closure1(&m.args[0])?;
    let mut src = (*m.receiver).clone();
    if toks(&src).contains("drain") { return None; }
    if matches!(src, Expr::Path(_) | Expr::Field(_)) { src = parse_quote!(#src.by_ref()); }
    Some(if m.method == "find" {
        let mut lets = vec![];
        bind_ref(&p, &parse_quote!(x__f), &mut lets);
        let h = hit(parse_quote!(x__f));
        parse_quote!(for x__f in #src { let hit__f = { #(#lets)* #c }; if hit__f { #h } })
    } else {
        let h = hit(parse_quote!(y__f));
        parse_quote!(for x__f in #src { let opt__f = { let #p = x__f; #c }; if let Some(y__f) = opt__f { #h } })
    })
}
fn has_ident(s: &Stmt, n: &str) -> bool {
    fn go(t: TokenStream, n: &str) -> bool {
        t.into_iter().any(|x| match x {
            TokenTree::Ident(i) => i == n,
            TokenTree::Group(g) => go(g.stream(), n),
            _ => false,
        })
    }
    go(s.to_token_stream(), n)
}
fn loops_in(stmts: &[Stmt]) -> bool {
    let t = stmts.iter().map(|s| toks(s)).collect::<String>();
    ["for ", "while ", "loop "].iter().any(|k| t.contains(k))
}
/// the statements of a function that leave it with `x` when they end with `x`
fn leaving(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut v = stmts.to_vec();
    match v.pop()? {
        Stmt::Expr(Expr::Return(r), _) => v.push(Stmt::Expr(Expr::Return(r), Some(Default::default()))),
        Stmt::Expr(e, None) => v.push(parse_quote!(return #e;)),
        _ => return None,
    }
    Some(v)
}
/// A function that goes on with the element `find` finds, or ends, is the loop that goes on at the hit: `src.find(c)` (or find_map, or
/// one of them with `.map(d)`) as its value, `let p = src.find(c)?; rest`, `if let Some(p) = src.find(c) { ..return } rest`,
/// `match src.find(c) { Some(p) => a, None => b }`.
fn tail_find(block: &mut Block) {
    if let Some(s) = find_stmts(&block.stmts) { block.stmts = s; }
}
/// `v.extend(chain)` of a local vector or set: the loop that pushes or inserts each element
struct Extends { text: String }
impl VisitMut for Extends {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        if m.method != "extend" || m.args.len() != 1 { return; }
        let Expr::Path(v) = &*m.receiver else { return };
        let Some(v) = v.path.get_ident() else { return };
        let is = |t: &str| [format!("let mut {v} : {t} <"), format!("let mut {v} = {t} ::")].iter().any(|x| self.text.contains(x));
        if !matches!(&m.args[0], Expr::MethodCall(a) if matches!(a.method.to_string().as_str(), "map" | "filter" | "filter_map" | "iter" | "copied" | "cloned")) { return; }
        let src = &m.args[0];
        if is("Vec") { *e = parse_quote!({ for x__e in #src { #v.push(x__e); } }); }
        else if is("HashSet") { *e = parse_quote!({ for x__e in #src { #v.insert(x__e); } }); }
    }
}
/// serde's `serializer.collect_seq(self.iter())` as the value of a function: the provided method's body
fn tail_collect(block: &mut Block) {
    let Some(Stmt::Expr(Expr::MethodCall(m), None)) = block.stmts.last() else { return };
    if m.method != "collect_seq" || m.args.len() != 1 || !matches!(&*m.receiver, Expr::Path(_)) { return; }
    let (s, it) = (m.receiver.clone(), m.args[0].clone());
    if toks(&it).replace(' ', "") != "self.iter()" { return; }
    let hint = it;
    block.stmts.pop();
    let b: Block = parse_quote!({
        let hint__c = #hint.size_hint();
        let mut map = #s.serialize_seq(if hint__c.1 == Some(hint__c.0) { Some(hint__c.0) } else { None })?;
        for pair in #hint { map.serialize_element(&pair)?; }
        map.end()
    });
    block.stmts.extend(b.stmts);
}
fn find_stmts(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (k, s) in stmts.iter().enumerate() {
        let rest = &stmts[k + 1..];
        let mut out: Vec<Stmt> = stmts[..k].to_vec();
        match s {
            Stmt::Local(l) => {
                let pat = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let Some(i) = &l.init else { continue };
                // `let v = src.find(c); if v.is_some() { return v; }`
                if let (Pat::Ident(v), Some(n), true) = (&pat, rest.first(), rest.len() > 1) {
                    let v = v.ident.to_string();
                    let want = format!("if {v} . is_some ( ) {{ return {v} ; }}");
                    if toks(n).trim_end_matches(';').trim().replace("()", "( )") == want && !rest[1..].iter().any(|s| has_ident(s, &v)) {
                        if let Some(mut a) = find_stmts(&[Stmt::Expr((*i.expr).clone(), None)]) {
                            a.pop();
                            out.extend(a);
                            out.extend(find_stmts(&rest[1..]).unwrap_or_else(|| rest[1..].to_vec()));
                            return Some(out);
                        }
                    }
                }
                if loops_in(rest) || rest.is_empty() { continue; }
                let Some(go) = leaving(rest) else { continue };
                let (find, pat, none): (Expr, Pat, Vec<Stmt>) = match (&*i.expr, &i.diverge, &pat) {
                    (Expr::Try(t), None, _) => ((*t.expr).clone(), pat, vec![Stmt::Expr(parse_quote!(None), None)]),
                    (e, Some((_, d)), Pat::TupleStruct(t)) if t.path.is_ident("Some") && t.elems.len() == 1 => {
                        let Expr::Block(d) = &**d else { continue };
                        (e.clone(), t.elems[0].clone(), d.block.stmts.clone())
                    }
                    _ => continue,
                };
                // `.map(d)` after it
                let (find, then) = match &find {
                    Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match closure1(&m.args[0]) {
                        Some(x) => ((*m.receiver).clone(), Some(x)),
                        None => continue,
                    },
                    f => (f.clone(), None),
                };
                let Some(l) = find_loop(&find, &mut |v| {
                    let v: Expr = match &then { Some((q, b)) => parse_quote!({ let #q = #v; #b }), None => v };
                    parse_quote!({ let #pat = #v; #(#go)* })
                }) else { continue };
                out.push(l);
                out.extend(none);
                return Some(out);
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => {
                let Expr::Let(c) = &*i.cond else { continue };
                let Pat::TupleStruct(t) = &*c.pat else { continue };
                if !t.path.is_ident("Some") || t.elems.len() != 1 { continue; }
                let b = &i.then_branch.stmts;
                if !matches!(b.last(), Some(Stmt::Expr(Expr::Return(_), _))) || loops_in(b) { continue; }
                let p = &t.elems[0];
                let Some(l) = find_loop(&c.expr, &mut |v| parse_quote!({ let #p = #v; #(#b)* })) else { continue };
                out.push(l);
                out.extend(find_stmts(rest).unwrap_or_else(|| rest.to_vec()));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), None) if rest.is_empty() && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let is_some = |a: &Arm| matches!(&a.pat, Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1);
                let Some(k) = m.arms.iter().position(|a| is_some(a)) else { continue };
                let (a, z) = (&m.arms[k], &m.arms[1 - k]);
                if !matches!(toks(&z.pat).as_str(), "None" | "_") { continue; }
                let Pat::TupleStruct(t) = &a.pat else { continue };
                let p = &t.elems[0];
                let (body, none) = (&a.body, &z.body);
                if loops_in(&[Stmt::Expr((**body).clone(), None)]) { continue; }
                let Some(l) = find_loop(&m.expr, &mut |v| parse_quote!({ let #p = #v; return #body; })) else { continue };
                out.push(l);
                match &**none {
                    Expr::Block(b) if b.label.is_none() => out.extend(find_stmts(&b.block.stmts).unwrap_or_else(|| b.block.stmts.clone())),
                    n => out.push(Stmt::Expr(n.clone(), None)),
                }
                return Some(out);
            }
            Stmt::Expr(e, None) if rest.is_empty() => {
                let (f, then) = match e {
                    Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => ((*m.receiver).clone(), Some(closure1(&m.args[0])?)),
                    Expr::MethodCall(m) if m.method == "and_then" && m.args.len() == 1 => {
                        let (q, b) = closure1(&m.args[0])?;
                        let l = find_loop(&m.receiver, &mut |v| parse_quote!({ let #q = #v; return #b; }))?;
                        out.push(l);
                        out.push(Stmt::Expr(parse_quote!(None), None));
                        return Some(out);
                    }
                    // `a.find(c).or_else(|| d)`
                    Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 => {
                        let d = closure0(&m.args[0])?;
                        let mut a = find_stmts(&[Stmt::Expr((*m.receiver).clone(), None)])?;
                        a.pop();
                        out.extend(a);
                        let d = match d { Expr::Block(b) if b.label.is_none() => b.block.stmts, d => vec![Stmt::Expr(d, None)] };
                        out.extend(find_stmts(&d).unwrap_or_else(|| d.to_vec()));
                        return Some(out);
                    }
                    e => (e.clone(), None),
                };
                let l = find_loop(&f, &mut |v| {
                    let v: Expr = match &then { Some((q, b)) => parse_quote!({ let #q = #v; #b }), None => v };
                    parse_quote!({ return Some(#v); })
                })?;
                out.push(l);
                out.push(Stmt::Expr(parse_quote!(None), None));
                return Some(out);
            }
            _ => {}
        }
    }
    None
}

fn do_fn(sig: &mut Signature, block: &mut Block, types: &mut Types, outer_userfns: &HashSet<String>) -> Value {
    let line0 = sig.span().start().line;
    let line1 = block.span().end().line;
    let src_text = format!("{} {}", toks(sig), toks(block));
    let mut ug = outer_userfns.clone();
    is_userfn_generics(&sig.generics, &mut ug);
    let mut userfns = HashSet::new();
    let mut userits = HashSet::new();
    let mut ui = HashSet::new();
    is_bound_generics(&sig.generics, &mut ui, "IntoIterator");
    let mut params = Vec::new();
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(_) => params.push("self".to_string()),
            FnArg::Typed(t) => {
                let name = match &*t.pat { Pat::Ident(p) => p.ident.to_string(), p => toks(p) };
                let ty = match &*t.ty { Type::Reference(r) => toks(&*r.elem), t => toks(t) };
                if ui.contains(&ty) {
                    userits.insert(name.clone());
                }
                if ug.contains(&ty) {
                    userfns.insert(name.clone());
                }
                params.push(name);
            }
        }
    }
    let mut lets = Lets(vec![]);
    lets.visit_block(block);
    Etas.visit_block_mut(block);
    Extends { text: toks(block) }.visit_block_mut(block);
    tail_collect(block);
    tail_find(block);
    unshadow(&params, block);
    // a predicate taken by value and only ever called is taken as `&mut F`, so that its call
    // trace can be named after the call (by value it would be dropped at the end: same calls)
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &mut *t.pat {
                if userfns.contains(&p.ident.to_string()) && !matches!(*t.ty, Type::Reference(_)) {
                    let mut u = Uses { name: p.ident.to_string(), total: 0, calls: 0 };
                    u.visit_block(block);
                    if u.total == u.calls {
                        let ty = (*t.ty).clone();
                        *t.ty = parse_quote!(&mut #ty);
                        p.mutability = None;
                    }
                }
            }
        }
    }
    types.visit_signature_mut(sig);
    types.visit_block_mut(block);
    Clean.visit_signature_mut(sig);
    // `mut` on by-value params: rebind inside (mut params are not supported by Verus)
    let mut rebind: Vec<Stmt> = Vec::new();
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Typed(t) => {
                if let Pat::Ident(p) = &mut *t.pat {
                    if p.mutability.is_some() {
                        p.mutability = None;
                        let id = p.ident.clone();
                        rebind.push(parse_quote!(let mut #id = #id;));
                    }
                }
            }
            FnArg::Receiver(_) => {}
        }
    }
    sig.constness = None;
    let mut b = Body {
        userfns, userits, loops: vec![], clos: vec![], calls: HashSet::new(),
        dropped_guards: HashSet::new(), ret_into_bool: false, notes: vec![], nref: 0, let_ty: None, vecs: HashSet::new(), clospec: vec![],
        ret: match &sig.output { ReturnType::Type(_, t) => match &**t { Type::Path(p) => last_seg(&p.path), _ => String::new() }, _ => String::new() },
    };
    // nested generic bounds in the body (turbofish etc.) keep their tokens
    b.visit_block_mut(block);
    let _ = b.ret_into_bool;
    let mut stmts: Vec<Stmt> = vec![parse_quote!(__FNSPEC!();)];
    stmts.extend(rebind);
    stmts.extend(std::mem::take(&mut block.stmts));
    block.stmts = stmts;
    let has_ret = !matches!(sig.output, ReturnType::Default);
    if let ReturnType::Type(_, t) = &mut sig.output {
        let ty = (**t).clone();
        **t = parse_quote!(__RET!(#ty));
    }
    let mut calls: Vec<_> = b.calls.into_iter().collect();
    calls.sort();
    json!({
        "name": sig.ident.to_string(),
        "text": print(quote!(pub #sig #block)),
        "sig": print(quote!(pub #sig)),
        "has_ret": has_ret,
        "params": params, "loops": b.loops, "closures": b.clos, "calls": calls,
        "line0": line0, "line1": line1, "src": src_text, "notes": b.notes, "lets": lets.0, "clospec": b.clospec,
    })
}

fn main() {
    let mut files = Vec::new();
    // functions that have a contract, as "module name" lines
    let known: HashSet<(String, String)> = std::env::var("VV_KNOWN").unwrap_or_default().lines()
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let mut parsed = Vec::new();
    for path in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&path).expect("read");
        let pp = std::path::Path::new(&path);
        let stem = if pp.ends_with("mod.rs") { pp.parent().unwrap().file_name().unwrap() } else { pp.file_stem().unwrap() };
        let stem = stem.to_string_lossy().to_string();
        match parse_file(&src) {
            Ok(f) => parsed.push((stem, f)),
            Err(e) => {
                println!("{}", json!({"error": format!("{}: {}", path, e)}));
                return;
            }
        };
    }
    if std::env::var("VV_MKDECLS").is_ok() {
        let d: serde_json::Map<String, Value> = parsed.iter().map(|(m, f)| (m.clone(), rename::decls(f))).collect();
        println!("{}", serde_json::to_string_pretty(&d).unwrap());
        return;
    }
    let mut moved: Vec<String> = vec![];
    let mut renamed = match std::env::var("VV_DECLS").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
        Some(base) => {
            moved = std::env::var("VV_SRC").map(|d| modules::merge(&mut parsed, &base, std::path::Path::new(&d))).unwrap_or_default();
            rename::own_traits(&mut parsed, &base);
            rename::undo(&mut parsed, &base)
        }
        None => vec![],
    };
    renamed.extend(moved);
    let inlined = if known.is_empty() { vec![] } else { inline::inline_all(&mut parsed, &known) };
    for (stem, file) in parsed {
        let mut items = Vec::new();
        for item in file.items {
            let attrs = match &item {
                Item::Mod(m) => &m.attrs,
                Item::Use(u) => &u.attrs,
                Item::Struct(s) => &s.attrs,
                Item::Enum(s) => &s.attrs,
                Item::Impl(s) => &s.attrs,
                Item::Fn(s) => &s.attrs,
                Item::Type(s) => &s.attrs,
                Item::Const(s) => &s.attrs,
                _ => continue,
            };
            let cfgtest = attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("( test )"));
            if cfgtest { continue; }
            let derives: Vec<String> = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| toks(&a.meta)).collect();
            match item {
                Item::Struct(mut s) => {
                    if DROPPED_TYPES.contains(&s.ident.to_string().as_str()) { continue; }
                    s.attrs.clear();
                    // user-predicate bounds on the struct are not needed by the extraction
                    Clean.visit_item_struct_mut(&mut s);
                    items.push(json!({"kind": "struct", "name": s.ident.to_string(), "derives": derives, "text": print(s.to_token_stream())}));
                }
                Item::Enum(mut s) => {
                    s.attrs.clear();
                    Clean.visit_item_enum_mut(&mut s);
                    for v in s.variants.iter_mut() {
                        for f in v.fields.iter_mut() { f.vis = Visibility::Inherited; }
                    }
                    items.push(json!({"kind": "enum", "name": s.ident.to_string(), "derives": derives, "text": print(s.to_token_stream())}));
                }
                Item::Const(mut c) => {
                    c.attrs.clear();
                    c.vis = Visibility::Public(Default::default());
                    Clean.visit_item_const_mut(&mut c);
                    items.push(json!({"kind": "type", "name": c.ident.to_string(), "text": print(c.to_token_stream())}));
                }
                Item::Type(mut t) => {
                    t.attrs.clear();
                    Clean.visit_item_type_mut(&mut t);
                    items.push(json!({"kind": "type", "name": t.ident.to_string(), "text": print(t.to_token_stream())}));
                }
                Item::Fn(mut f) => {
                    let mut types = Types { assoc: HashMap::new() };
                    let v = do_fn(&mut f.sig, &mut f.block, &mut types, &HashSet::new());
                    items.push(json!({"kind": "fn", "fn": v}));
                }
                Item::Impl(mut im) => {
                    let selfname = match &*im.self_ty { Type::Path(p) => last_seg(&p.path), t => toks(t) };
                    if DROPPED_TYPES.contains(&selfname.as_str()) { continue; }
                    let mut trait_name = String::new();
                    let mut trait_full = String::new();
                    if let Some((_, p, _)) = &im.trait_ {
                        trait_name = last_seg(p);
                        let mut q = p.clone();
                        strip_path(&mut q);
                        trait_full = toks(&q).replace(' ', "");
                    }
                    if DROPPED_TRAITS.contains(&trait_name.as_str()) { continue; }
                    if ENTRY_TYPES.contains(&selfname.as_str()) && (trait_name == "PartialEq" || trait_name == "Eq") { continue; }
                    let mut userg = HashSet::new();
                    is_userfn_generics(&im.generics, &mut userg);
                    let mut types = Types { assoc: HashMap::new() };
                    let mut assoc_types = Vec::new();
                    let inherent = INHERENT.contains(&trait_name.as_str())
                        || (trait_name == "PartialEq" && selfname.ends_with("Map"))
                        || (trait_name == "Clone" && !ENTRY_TYPES.contains(&selfname.as_str()) && selfname != "OptionalPair");
                    for it in &im.items {
                        if let ImplItem::Type(t) = it {
                            let mut ty = t.ty.clone();
                            Clean.visit_type_mut(&mut ty);
                            types.assoc.insert(t.ident.to_string(), ty.clone());
                            assoc_types.push(json!([t.ident.to_string(), toks(&ty)]));
                        }
                    }
                    let mut fns = Vec::new();
                    for it in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = it {
                            let isc = f.attrs.iter().any(|a| a.path().is_ident("cfg"));
                            let _ = isc;
                            // serde's text for error messages: formatting, like Display
                            if trait_name == "Visitor" && f.sig.ident == "expecting" { continue; }
                            fns.push(do_fn(&mut f.sig, &mut f.block, &mut types, &userg));
                        }
                    }
                    im.attrs.clear();
                    im.items.clear();
                    if inherent { im.trait_ = None; }
                    Clean.visit_item_impl_mut(&mut im);
                    let (ig, _, wc) = im.generics.split_for_impl();
                    let st = &im.self_ty;
                    let header = match &im.trait_ {
                        Some((_, p, _)) => quote!(impl #ig #p for #st #wc),
                        None => quote!(impl #ig #st #wc),
                    };
                    items.push(json!({"kind": "impl", "self": selfname, "self_full": toks(st), "trait": trait_name, "trait_full": trait_full,
                        "inherent": inherent, "generics": print(quote!(#ig)), "where": print(quote!(#wc)),
                        "header": print(header), "assoc": assoc_types, "fns": fns}));
                }
                _ => {}
            }
        }
        files.push(json!({"module": stem, "items": items}));
    }
    println!("{}", json!({"files": files, "inlined": inlined, "renamed": renamed}));
}
