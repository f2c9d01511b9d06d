//! The mechanical rewriting of a function of the repository into the subset of
//! Rust that Verus accepts. Each rule is described in DESIGN.md.
use crate::Env;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
pub fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        _ => None,
    }
}
fn path_str(e: &Expr) -> String {
    match e {
        Expr::Path(p) => ts(&p.path).replace(' ', ""),
        Expr::Paren(p) => path_str(&p.expr),
        _ => String::new(),
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
pub fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => {
            out.push(i.ident.to_string());
            if let Some((_, p)) = &i.subpat {
                pat_names(p, out)
            }
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| pat_names(&f.pat, out)),
        Pat::Type(t) => pat_names(&t.pat, out),
        Pat::Reference(t) => pat_names(&t.pat, out),
        Pat::Paren(t) => pat_names(&t.pat, out),
        Pat::Slice(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::Or(t) => t.cases.iter().for_each(|p| pat_names(p, out)),
        _ => {}
    }
}
fn is_float_ty(t: &Type) -> bool {
    matches!(ts(t).as_str(), "f64" | "f32")
}

// ------------------------------------------------------------------ types
pub struct Types<'a> {
    pub assoc: &'a HashMap<String, Type>,
    pub self_ty: Option<Type>,
}
impl VisitMut for Types<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = ts(t);
        if s == "f64" || s == "f32" {
            *t = parse_quote!(Fl);
            return;
        }
        if s.replace(' ', "") == "Box<dynError>" {
            *t = parse_quote!(MetricsError);
            return;
        }
        if let Some(n) = s.strip_prefix("Self :: ").or_else(|| s.strip_prefix("< Self as Iterator > :: ")) {
            if let Some(x) = self.assoc.get(n) {
                *t = x.clone();
                self.visit_type_mut(t);
                return;
            }
        }
        if s == "Self" {
            if let Some(x) = &self.self_ty {
                *t = x.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

// ------------------------------------------------------- floats and casts
/// Finds the expressions of float type, to rewrite the casts.
pub struct Floats<'a> {
    pub env: &'a Env,
    pub vars: Vec<String>,
    pub planes: Vec<String>,
}
impl Floats<'_> {
    pub fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Float(_)) || matches!(&l.lit, Lit::Int(i) if i.suffix().starts_with('f')),
            Expr::Paren(p) => self.is(&p.expr),
            Expr::Group(p) => self.is(&p.expr),
            Expr::Unary(u) => self.is(&u.expr),
            Expr::Reference(u) => self.is(&u.expr),
            Expr::Binary(b) => {
                use BinOp::*;
                matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_)) && (self.is(&b.left) || self.is(&b.right))
            }
            Expr::Cast(c) => is_float_ty(&c.ty),
            Expr::Index(i) => self.is(&i.expr),
            Expr::Array(a) => a.elems.iter().any(|e| self.is(e)),
            Expr::Repeat(a) => self.is(&a.expr),
            Expr::Field(f) => match &f.member {
                Member::Named(n) => self.env.float_fields.contains(&n.to_string()),
                _ => false,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["log10", "sqrt", "powf", "powi", "sin", "cos", "tan", "exp", "ln", "floor", "ceil", "round", "atan2", "log", "cbrt", "to_radians", "to_degrees"].contains(&n.as_str())
                    || (["min", "max", "abs", "clamp", "mul_add", "recip"].contains(&n.as_str()) && self.is(&m.receiver))
                    || ts(&m.turbofish) == ":: < f64 >"
                    || ts(&m.turbofish) == ":: < f32 >"
            }
            Expr::Call(c) => {
                let p = path_str(&c.func);
                let last = p.rsplit("::").next().unwrap_or("").to_string();
                self.env.float_fns.contains(&last) || p.starts_with("f32::from_bits") || p == "fl_from_bits"
            }
            Expr::Path(_) => {
                let p = path_str(e);
                self.vars.contains(&p) || self.env.fconsts.contains_key(&p) || ["E", "PI", "EPSILON"].contains(&p.rsplit("::").next().unwrap()) && !self.env.consts.contains(&p)
            }
            Expr::If(i) => i.then_branch.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, None) if self.is(e))),
            Expr::Block(b) => b.block.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, None) if self.is(e))),
            _ => false,
        }
    }
    fn see(&mut self, p: &Pat, float: bool) {
        let mut n = vec![];
        pat_names(p, &mut n);
        for x in n {
            self.vars.retain(|v| *v != x);
            if float {
                self.vars.push(x);
            }
        }
    }
}
impl VisitMut for Floats<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let f = match (&l.pat, &l.init) {
            (Pat::Type(t), _) if is_float_ty(&t.ty) => true,
            (_, Some(i)) => self.is(&i.expr),
            _ => false,
        };
        let p = l.pat.clone();
        self.see(&p, f);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.see(&f.pat.clone(), false);
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Cast(c) = e {
            let t = ts(&c.ty);
            let x = &c.expr;
            if t == "f64" || t == "f32" {
                *e = parse_quote!(to_fl(#x));
            } else if self.is(x) {
                let f = id(&format!("fl_to_{t}"));
                *e = parse_quote!(#f(#x));
            } else if let Expr::Binary(b) = unparen(x) {
                use BinOp::*;
                if matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Gt(_) | Le(_) | Ge(_)) {
                    let (one, zero) = (LitInt::new(&format!("1{t}"), Span::call_site()), LitInt::new(&format!("0{t}"), Span::call_site()));
                    let b = unparen(x);
                    *e = parse_quote!(if #b { #one } else { #zero });
                }
            }
        }
    }
}

/// Float literals and constants become calls; other small rules.
pub struct Lits<'a> {
    pub env: &'a Env,
    pub lits: &'a mut HashMap<String, String>,
}
pub fn lit_name(digits: &str) -> String {
    format!("fl_{}", digits.replace('.', "_").replace('-', "m"))
}
/// decimal expansion without exponent nor trailing dot
fn norm(d: &str) -> String {
    let d = d.replace('_', "");
    let (m, ex) = match d.split_once(['e', 'E']) {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap()),
        None => (d, 0),
    };
    let (i, f) = m.split_once('.').map_or((m.as_str(), ""), |x| x);
    let (mut i, mut f) = (i.to_string(), f.to_string());
    for _ in 0..ex {
        i.push(if f.is_empty() { '0' } else { f.remove(0) });
    }
    for _ in 0..-ex {
        f.insert(0, i.pop().unwrap_or('0'));
        if i.is_empty() {
            i.push('0');
        }
    }
    while f.ends_with('0') {
        f.pop();
    }
    let i = i.trim_start_matches('0');
    let i = if i.is_empty() { "0" } else { i };
    format!("{i}.{}", if f.is_empty() { "0" } else { &f })
}
impl VisitMut for Lits<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                let d = match &l.lit {
                    Lit::Float(f) => f.base10_digits().to_string(),
                    Lit::Int(i) if i.suffix().starts_with('f') => i.base10_digits().to_string(),
                    _ => return,
                };
                let d = norm(&d);
                let f = id(&lit_name(&d));
                self.lits.insert(f.to_string(), d);
                *e = parse_quote!(#f());
            }
            Expr::Path(_) => {
                let p = path_str(e);
                let key = p.as_str();
                if self.env.fconsts.contains_key(key) {
                    let f = id(&format!("fc_{key}"));
                    *e = parse_quote!(#f());
                } else if !self.env.consts.contains(key) {
                    match key {
                        "E" | "f64::consts::E" => *e = parse_quote!(fl_e()),
                        "PI" | "f64::consts::PI" | "f32::consts::PI" => *e = parse_quote!(fl_pi()),
                        "f64::EPSILON" => *e = parse_quote!(fl_f64_epsilon()),
                        _ => {}
                    }
                }
            }
            // `x == Some("text")`
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let text = |e: &Expr| match e {
                    Expr::Call(c) if path_str(&c.func) == "Some" && c.args.len() == 1 && matches!(&c.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => Some(c.args[0].clone()),
                    _ => None,
                };
                let (l, r) = ((*b.left).clone(), (*b.right).clone());
                let x = match (text(&l), text(&r)) {
                    (_, Some(s)) => parse_quote!(vx_some_is(#l, #s)),
                    (Some(s), _) => parse_quote!(vx_some_is(#r, #s)),
                    _ => return,
                };
                *e = if matches!(b.op, BinOp::Eq(_)) { x } else { parse_quote!(!#x) };
            }
            // `&TABLE` of a float table, which is now a value
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Call(c) = &*r.expr {
                    if path_str(&c.func).starts_with("fc_") {
                        *e = (*r.expr).clone();
                    }
                }
            }
            _ => {}
        }
    }
}

// --------------------------------------------------------- iterator chains
struct Ctx {
    n: usize,
}
impl Ctx {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        id(&format!("{p}{}", self.n))
    }
}

#[derive(Clone)]
enum Node {
    /// samples of a plane, by value
    Plane(Expr),
    /// elements of a sequence by reference
    Ref(Expr),
    /// elements by value (copied) of a consumed Vec
    Val(Expr),
    Mut(Expr),
    Range(Expr, Expr),
    /// a..=b
    RangeIncl(Expr, Expr),
    Chunks(Expr, Expr),
    ChunksMut(Expr, Expr),
    ChunksExact(Expr, Expr),
    ChunksExactMut(Expr, Expr),
    Interleave(Box<Node>, Box<Node>),
    Zip(Vec<Node>),
    Zip2(Box<Node>, Box<Node>),
    Take(Box<Node>, Expr),
    Skip(Box<Node>, Expr),
    Enumerate(Box<Node>),
    Copied(Box<Node>),
    Map(Box<Node>, Expr),
    Filter(Box<Node>, Expr),
    FilterMap(Box<Node>, Expr),
    Flatten(Box<Node>),
    Rev(Box<Node>),
    StepBy(Box<Node>, Expr),
}

pub struct Chains<'a> {
    pub env: &'a Env,
    pub planes: Vec<String>,
    /// the elements of a consumed Vec are moved out of it
    pub moves: bool,
    ctx: Ctx,
    pub notes: Vec<String>,
}

/// `setup` statements, `len` expression, and the item for an index.
struct Indexed {
    setup: Vec<Stmt>,
    len: Expr,
    item: Box<dyn Fn(&Ident) -> Expr>,
    /// the index starts here (0 if none)
    from: Option<Expr>,
}

impl<'a> Chains<'a> {
    pub fn new(env: &'a Env, planes: Vec<String>) -> Self {
        Chains { env, planes, moves: false, ctx: Ctx { n: 0 }, notes: vec![] }
    }
    fn is_plane(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Reference(r) => self.is_plane(&r.expr),
            Expr::Index(i) => matches!(unparen(&i.expr), Expr::Field(f) if ts(&f.member) == "planes") && !matches!(unparen(&i.index), Expr::Range(_)),
            e => path_ident(e).map_or(false, |n| self.planes.contains(&n)),
        }
    }
    /// `strict`: a plain expression is not an iterator
    fn node(&self, e: &Expr, strict: bool) -> Option<Node> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let r = &*m.receiver;
                let a0 = m.args.first().cloned();
                let b = |n: Option<Node>| n.map(Box::new);
                match m.method.to_string().as_str() {
                    "iter" => Some(if self.is_plane(r) { Node::Plane(r.clone()) } else { Node::Ref(r.clone()) }),
                    "iter_mut" => Some(Node::Mut(r.clone())),
                    "into_iter" | "into_par_iter" => {
                        if let Expr::Range(_) = unparen(r) {
                            self.node(r, false)
                        } else {
                            Some(Node::Val(r.clone()))
                        }
                    }
                    "par_iter" => Some(Node::Ref(r.clone())),
                    "chunks" => Some(Node::Chunks(r.clone(), a0?)),
                    "chunks_mut" => Some(Node::ChunksMut(r.clone(), a0?)),
                    "chunks_exact" => Some(Node::ChunksExact(r.clone(), a0?)),
                    "chunks_exact_mut" => Some(Node::ChunksExactMut(r.clone(), a0?)),
                    "clone" => self.node(r, true),
                    "zip" => Some(Node::Zip2(b(self.node(r, true))?, b(self.node(&a0?, false))?)),
                    "take" => Some(Node::Take(b(self.node(r, true))?, a0?)),
                    "skip" => Some(Node::Skip(b(self.node(r, true))?, a0?)),
                    "enumerate" => Some(Node::Enumerate(b(self.node(r, true))?)),
                    "copied" | "cloned" => Some(Node::Copied(b(self.node(r, true))?)),
                    "map" => Some(Node::Map(b(self.node(r, true))?, a0?)),
                    "filter" => Some(Node::Filter(b(self.node(r, true))?, a0?)),
                    "filter_map" => Some(Node::FilterMap(b(self.node(r, true))?, a0?)),
                    "flatten" => Some(Node::Flatten(b(self.node(r, true))?)),
                    "rev" => Some(Node::Rev(b(self.node(r, true))?)),
                    "step_by" => Some(Node::StepBy(b(self.node(r, false))?, a0?)),
                    _ if strict => None,
                    _ => Some(Node::Ref(e.clone())),
                }
            }
            Expr::Range(r) => {
                let (s, t) = (r.start.as_deref()?, r.end.as_deref()?);
                Some(match r.limits {
                    RangeLimits::HalfOpen(_) => Node::Range(s.clone(), t.clone()),
                    RangeLimits::Closed(_) => Node::RangeIncl(s.clone(), t.clone()),
                })
            }
            Expr::Call(c) => {
                let p = path_str(&c.func);
                if p.ends_with("interleave") && c.args.len() == 2 {
                    // a copy of a reference or of an iterator gives the same items
                    let plain = |e: &Expr| match unparen(e) {
                        Expr::MethodCall(m) if m.method == "clone" => (*m.receiver).clone(),
                        x => x.clone(),
                    };
                    return Some(Node::Interleave(Box::new(self.node(&plain(&c.args[0]), false)?), Box::new(self.node(&plain(&c.args[1]), false)?)));
                }
                // a function of the file that returns an iterator
                if let Some(f) = self.env.free_fns.get(&p) {
                    let tail = match f.block.stmts.last() {
                        Some(Stmt::Expr(t, None)) if f.block.stmts.len() == 1 => t,
                        _ => return if strict { None } else { Some(Node::Ref(e.clone())) },
                    };
                    let mut t = tail.clone();
                    for (a, v) in f.sig.inputs.iter().zip(&c.args) {
                        if let FnArg::Typed(a) = a {
                            let mut n = vec![];
                            pat_names(&a.pat, &mut n);
                            subst_ident(&mut t, &n[0], v);
                        }
                    }
                    if let Some(n) = self.node(&t, true) {
                        return Some(n);
                    }
                }
                if strict {
                    None
                } else {
                    Some(Node::Ref(e.clone()))
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("izip") => {
                let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                Some(Node::Zip(args.iter().map(|a| self.node(a, false)).collect::<Option<_>>()?))
            }
            Expr::Path(_) | Expr::Field(_) | Expr::Reference(_) | Expr::Index(_) if !strict => {
                let e = unparen(e);
                match e {
                    Expr::Reference(r) if r.mutability.is_some() => Some(Node::Mut((*r.expr).clone())),
                    _ if path_ident(e).map_or(false, |n| self.env.mut_slices.borrow().contains(&n)) => Some(Node::Mut(e.clone())),
                    _ => Some(Node::Ref(e.clone())),
                }
            }
            _ => None,
        }
    }
    fn indexed(&mut self, n: &Node) -> Option<Indexed> {
        let z = |setup: Vec<Stmt>, len: Expr, item: Box<dyn Fn(&Ident) -> Expr>| Some(Indexed { setup, len, item, from: None });
        match n {
            Node::Plane(e) => {
                let s = self.ctx.fresh("vis__");
                let e = match unparen(e) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                z(vec![parse_quote!(let #s = #e.visible();)], parse_quote!(#s.len()), Box::new(move |i| parse_quote!(#s[#i])))
            }
            Node::Val(e) if self.moves => {
                let s = self.ctx.fresh("rest__");
                z(vec![parse_quote!(let mut #s = #e;)], parse_quote!(#s.len()), Box::new(move |_| parse_quote!(vx_pop_front(&mut #s))))
            }
            Node::Ref(e) | Node::Val(e) => {
                let by_ref = matches!(n, Node::Ref(_));
                let base = match unparen(e) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                let simple = matches!(unparen(&base), Expr::Path(_) | Expr::Field(_)) || matches!(unparen(&base), Expr::Index(i) if !matches!(*i.index, Expr::Range(_)));
                let (setup, b): (Vec<Stmt>, Expr) = if simple {
                    (vec![], base)
                } else {
                    let s = self.ctx.fresh("seq__");
                    (vec![parse_quote!(let #s = &#base;)], parse_quote!(#s))
                };
                let b2 = b.clone();
                z(setup, parse_quote!(#b.len()), Box::new(move |i| if by_ref { parse_quote!(&#b2[#i]) } else { parse_quote!(#b2[#i]) }))
            }
            Node::Mut(e) => {
                let e = e.clone();
                let e2 = e.clone();
                z(vec![], parse_quote!(#e.len()), Box::new(move |i| parse_quote!(&mut #e2[#i])))
            }
            Node::Range(a, b) => {
                let (a, b) = (a.clone(), b.clone());
                Some(Indexed { setup: vec![], len: b, item: Box::new(|i| parse_quote!(#i)), from: Some(a) })
            }
            Node::RangeIncl(a, b) => {
                let (a, b) = (a.clone(), b.clone());
                Some(Indexed { setup: vec![], len: parse_quote!((#b) + 1), item: Box::new(|i| parse_quote!(#i)), from: Some(a) })
            }
            Node::Chunks(e, k) | Node::ChunksMut(e, k) => {
                let m = matches!(n, Node::ChunksMut(..));
                let (e, k) = (e.clone(), k.clone());
                let (e2, k2) = (e.clone(), k.clone());
                z(
                    vec![],
                    parse_quote!(chunk_count(#e.len(), #k)),
                    Box::new(move |i| {
                        if m {
                            parse_quote!({ let vx_end = chunk_end(#e2.len(), #i, #k2); &mut #e2[(#i * #k2)..vx_end] })
                        } else {
                            parse_quote!(&#e2[(#i * #k2)..chunk_end(#e2.len(), #i, #k2)])
                        }
                    }),
                )
            }
            Node::ChunksExact(e, k) | Node::ChunksExactMut(e, k) => {
                let m = matches!(n, Node::ChunksExactMut(..));
                let (mut e, k) = (e.clone(), k.clone());
                let mut setup = vec![];
                if matches!(unparen(&e), Expr::MethodCall(_)) {
                    let s = self.ctx.fresh("chunked__");
                    setup.push(parse_quote!(let #s = #e;));
                    e = parse_quote!(#s);
                }
                let (e2, k2) = (e.clone(), k.clone());
                z(
                    setup,
                    parse_quote!(chunks_exact_count(#e.len(), #k)),
                    Box::new(move |i| if m { parse_quote!(&mut #e2[(#i * #k2)..(#i * #k2 + #k2)]) } else { parse_quote!(&#e2[(#i * #k2)..(#i * #k2 + #k2)]) }),
                )
            }
            Node::Interleave(a, b) => {
                let a = self.indexed(a)?;
                let b = self.indexed(b)?;
                let (la, lb) = (a.len.clone(), b.len.clone());
                let mut setup = a.setup;
                setup.extend(b.setup);
                let (fa, fb) = (a.item, b.item);
                let ctr = self.ctx.n;
                let _ = ctr;
                z(
                    setup,
                    parse_quote!(interleave_len(#la, #lb)),
                    Box::new(move |i| {
                        // elements alternate, so the index of each source is half of it
                        let h = id("half__");
                        let (x, y) = (fa(&h), fb(&h));
                        if ts(&x) == ts(&y) {
                            parse_quote!({ let half__ = #i / 2; #x })
                        } else {
                            parse_quote!({ let half__ = #i / 2; if #i % 2 == 0 { #x } else { #y } })
                        }
                    }),
                )
            }
            Node::Zip(v) => {
                let mut setup = vec![];
                let mut len: Option<Expr> = None;
                let mut items = vec![];
                for x in v {
                    let i = self.indexed(x)?;
                    if i.from.is_some() {
                        return None;
                    }
                    setup.extend(i.setup);
                    let l = i.len;
                    len = Some(match len {
                        None => l,
                        Some(p) => parse_quote!(vx_min(#p, #l)),
                    });
                    items.push(i.item);
                }
                z(
                    setup,
                    len?,
                    Box::new(move |i| {
                        let v: Vec<Expr> = items.iter().map(|f| f(i)).collect();
                        parse_quote!((#(#v),*))
                    }),
                )
            }
            Node::Zip2(a, b) => {
                let a = self.indexed(a)?;
                let b = self.indexed(b)?;
                if a.from.is_some() || b.from.is_some() {
                    return None;
                }
                let mut setup = a.setup;
                setup.extend(b.setup);
                let (x, y) = (a.len, b.len);
                let (fa, fb) = (a.item, b.item);
                z(
                    setup,
                    parse_quote!(vx_min(#x, #y)),
                    Box::new(move |i| {
                        let (x, y) = (fa(i), fb(i));
                        parse_quote!((#x, #y))
                    }),
                )
            }
            Node::Take(a, k) => {
                let a = self.indexed(a)?;
                if a.from.is_some() {
                    return None;
                }
                let l = a.len;
                z(a.setup, parse_quote!(vx_min(#l, #k)), a.item)
            }
            Node::Skip(a, k) => {
                let mut a = self.indexed(a)?;
                if a.from.is_some() {
                    return None;
                }
                let l = a.len.clone();
                a.from = Some(parse_quote!(vx_min(#k, #l)));
                Some(a)
            }
            Node::Enumerate(a) => {
                let a = self.indexed(a)?;
                if a.from.is_some() {
                    return None;
                }
                let f = a.item;
                z(
                    a.setup,
                    a.len,
                    Box::new(move |i| {
                        let x = f(i);
                        parse_quote!((#i, #x))
                    }),
                )
            }
            Node::Copied(a) => {
                let a = self.indexed(a)?;
                let f = a.item;
                Some(Indexed {
                    setup: a.setup,
                    len: a.len,
                    from: a.from,
                    item: Box::new(move |i| match f(i) {
                        Expr::Reference(r) => *r.expr,
                        x => parse_quote!(*(#x)),
                    }),
                })
            }
            Node::Map(a, c) => {
                // only a pure projection can be computed by index
                let a = self.indexed(a)?;
                let c = c.clone();
                let f = a.item;
                Some(Indexed {
                    setup: a.setup,
                    len: a.len,
                    from: a.from,
                    item: Box::new(move |i| apply(&c, &[f(i)])),
                })
            }
            _ => None,
        }
    }
    /// The statements that run `k` on each item.
    fn emit(&mut self, n: &Node, k: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Option<Vec<Stmt>> {
        match n {
            Node::Map(a, c) => {
                let c = c.clone();
                self.emit(a, &mut |s, item| match split_closure(&c) {
                    Some((pats, body)) => {
                        let mut v: Vec<Stmt> = bind(&pats, &[item]);
                        v.extend(k(s, body));
                        v
                    }
                    None => k(s, parse_quote!(#c(#item))),
                })
            }
            Node::Filter(a, c) => {
                let c = c.clone();
                self.emit(a, &mut |s, item| {
                    let x = s.ctx.fresh("item__");
                    let cond = apply(&c, &[parse_quote!(&#x)]);
                    let b = k(s, parse_quote!(#x));
                    vec![parse_quote!(let #x = #item;), Stmt::Expr(parse_quote!(if #cond { #(#b)* }), None)]
                })
            }
            Node::FilterMap(a, c) => {
                let c = c.clone();
                self.emit(a, &mut |s, item| {
                    let x = s.ctx.fresh("item__");
                    let val = apply(&c, &[item]);
                    let b = k(s, parse_quote!(#x));
                    vec![Stmt::Expr(parse_quote!(match #val { Some(#x) => { #(#b)* } None => {} }), None)]
                })
            }
            Node::Flatten(a) => self.emit(a, &mut |s, item| {
                let x = s.ctx.fresh("inner__");
                let inner = Node::Ref(parse_quote!(#x));
                let b = s.emit(&inner, k).expect("slices are iterable");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #x = #item;)];
                v.extend(b);
                v
            }),
            Node::Copied(a) if matches!(**a, Node::Flatten(_)) => self.emit(a, &mut |s, item| {
                let e = match item {
                    Expr::Reference(r) => *r.expr,
                    x => parse_quote!(*(#x)),
                };
                k(s, e)
            }),
            Node::StepBy(a, st) => {
                // while loop with the stated step
                let a = self.indexed(a)?;
                let i = self.ctx.fresh("i__");
                let from = a.from.clone().unwrap_or_else(|| parse_quote!(0usize));
                let len = &a.len;
                let body = k(self, (a.item)(&i));
                let mut v = a.setup;
                let m = self.ctx.fresh("pos__");
                v.push(parse_quote!(let mut #m = #from;));
                v.push(Stmt::Expr(parse_quote!(while #m < #len { let #i = #m; #(#body)* #m = step_to(#m, #st, #len); }), None));
                Some(v)
            }
            n => {
                let a = self.indexed(n)?;
                let i = self.ctx.fresh("i__");
                let body = k(self, (a.item)(&i));
                let from = a.from.unwrap_or_else(|| parse_quote!(0));
                let len = a.len;
                let l = self.ctx.fresh("len__");
                let mut v = a.setup;
                v.push(parse_quote!(let #l = #len;));
                v.push(Stmt::Expr(parse_quote!(for #i in #from..#l { #(#body)* }), None));
                Some(v)
            }
        }
    }
    fn zero(&self, m: &ExprMethodCall) -> Expr {
        let t = ts(&m.turbofish);
        let t = t.trim_start_matches(":: < ").trim_end_matches(" >").to_string();
        match t.as_str() {
            "u64" | "u32" | "usize" | "i64" | "i32" => {
                let l = LitInt::new(&format!("0{t}"), Span::call_site());
                parse_quote!(#l)
            }
            _ => parse_quote!(fl_0_0()),
        }
    }
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        if !["sum", "fold", "collect", "for_each", "any", "all", "count", "product"].contains(&name.as_str()) {
            return None;
        }
        let n = self.node(&m.receiver, true)?;
        let save = self.ctx.n;
        let acc = self.ctx.fresh("acc__");
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let (init, r): (Option<Stmt>, Option<Vec<Stmt>>) = match name.as_str() {
            "sum" => {
                let z = self.zero(m);
                (Some(parse_quote!(let mut #acc = #z;)), self.emit(&n, &mut |_, x| {
                    let x = strip_ref(x);
                    vec![parse_quote!(#acc = #acc + #x;)]
                }))
            }
            "product" => (Some(parse_quote!(let mut #acc = fl_1_0();)), self.emit(&n, &mut |_, x| {
                let x = strip_ref(x);
                vec![parse_quote!(#acc = #acc * #x;)]
            })),
            "fold" => {
                let (z, c) = (&args[0], args[1].clone());
                (Some(parse_quote!(let mut #acc = #z;)), self.emit(&n, &mut |_, x| {
                    let b = apply(&c, &[parse_quote!(#acc), x]);
                    vec![parse_quote!(#acc = #b;)]
                }))
            }
            "collect" => (Some(parse_quote!(let mut #acc = Vec::new();)), self.emit(&n, &mut |_, x| vec![parse_quote!(#acc.push(#x);)])),
            "count" => (Some(parse_quote!(let mut #acc = 0usize;)), self.emit(&n, &mut |_, _| vec![parse_quote!(#acc = #acc + 1;)])),
            "any" | "all" => {
                let any = name == "any";
                let c = args[0].clone();
                let init: Stmt = if any { parse_quote!(let mut #acc = false;) } else { parse_quote!(let mut #acc = true;) };
                (Some(init), self.emit(&n, &mut |_, x| {
                    let b = apply(&c, &[x]);
                    if any {
                        vec![Stmt::Expr(parse_quote!(if #b { #acc = true; }), None)]
                    } else {
                        vec![Stmt::Expr(parse_quote!(if !(#b) { #acc = false; }), None)]
                    }
                }))
            }
            "for_each" => {
                let c = args[0].clone();
                (None, self.emit(&n, &mut |_, x| {
                    let b = apply(&c, &[x]);
                    vec![Stmt::Expr(b, Some(Default::default()))]
                }))
            }
            _ => return None,
        };
        let Some(body) = r else {
            self.ctx.n = save;
            return None;
        };
        let mut stmts: Vec<Stmt> = init.into_iter().collect();
        stmts.extend(body);
        Some(if name == "for_each" { parse_quote!({ #(#stmts)* }) } else { parse_quote!({ #(#stmts)* #acc }) })
    }
}
fn strip_ref(x: Expr) -> Expr {
    match x {
        Expr::Reference(r) => *r.expr,
        x => x,
    }
}
fn split_closure(c: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match unparen(c) {
        Expr::Closure(c) => Some((
            c.inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect(),
            (*c.body).clone(),
        )),
        _ => None,
    }
}
fn bind(pats: &[Pat], args: &[Expr]) -> Vec<Stmt> {
    let mut v = vec![];
    for (p, a) in pats.iter().zip(args) {
        if let Pat::Wild(_) = p {
            continue;
        }
        bind_pat(p, a, &mut v);
    }
    v
}
/// Binds tuple patterns to tuple expressions one by one
fn bind_pat(p: &Pat, a: &Expr, v: &mut Vec<Stmt>) {
    if let Pat::Ident(i) = p {
        if ts(&i.ident) == ts(a) {
            return;
        }
        if i.ident.to_string().starts_with('_') && matches!(a, Expr::Path(_)) {
            return;
        }
    }
    match (p, a) {
        (Pat::Tuple(p), Expr::Tuple(a)) if p.elems.len() == a.elems.len() => {
            p.elems.iter().zip(&a.elems).for_each(|(p, a)| bind_pat(p, a, v))
        }
        (Pat::Reference(r), Expr::Reference(x)) => bind_pat(&r.pat, &x.expr, v),
        _ => v.push(parse_quote!(let #p = #a;)),
    }
}
pub fn apply(c: &Expr, args: &[Expr]) -> Expr {
    match split_closure(c) {
        Some((pats, body)) => {
            let b = bind(&pats, args);
            if b.is_empty() {
                return body;
            }
            match body {
                Expr::Block(x) if x.label.is_none() => {
                    let s = &x.block.stmts;
                    parse_quote!({ #(#b)* #(#s)* })
                }
                body => parse_quote!({ #(#b)* #body }),
            }
        }
        None => parse_quote!(#c(#(#args),*)),
    }
}
pub struct SubstIdent<'a> {
    name: &'a str,
    with: &'a Expr,
    pub count: usize,
}
impl VisitMut for SubstIdent<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.is_ident(self.name) {
                *e = self.with.clone();
                self.count += 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn subst_ident(e: &mut Expr, name: &str, with: &Expr) -> usize {
    let mut s = SubstIdent { name, with, count: 0 };
    s.visit_expr_mut(e);
    s.count
}
impl VisitMut for Chains<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // iterators bound to a variable are moved to their single use
        let mut i = 0;
        while i < b.stmts.len() {
            let lazy = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if p.mutability.is_none() && matches!(unparen(&init.expr), Expr::MethodCall(m) if ["map","iter","zip","filter","filter_map","enumerate","copied","into_par_iter","into_iter","par_iter","step_by"].contains(&m.method.to_string().as_str())) => {
                        self.node(&init.expr, true).map(|_| (p.ident.to_string(), (*init.expr).clone()))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, e)) = lazy {
                let mut count = 0;
                let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                for s in &mut rest {
                    let mut v = SubstIdent { name: &name, with: &e, count: 0 };
                    v.visit_stmt_mut(s);
                    count += v.count;
                }
                if count == 1 {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the outermost chain first, so that its parts are not rewritten alone
        if let Some(n) = self.chain(e) {
            *e = n;
        } else if let Expr::ForLoop(f) = e {
            if f.label.is_none() {
                let simple = matches!(unparen(&f.expr), Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)));
                if !simple {
                    if let Some(n) = self.node(&f.expr, false) {
                        let (p, body) = (f.pat.clone(), f.body.stmts.clone());
                        // a range with an inclusive end keeps the name of its index
                        if let (Node::RangeIncl(a, b), Pat::Ident(i)) = (&n, &*f.pat) {
                            let body = &f.body.stmts;
                            *e = parse_quote!(for #i in #a..((#b) + 1) { #(#body)* });
                        } else {
                            let mut made = None;
                            let save = self.ctx.n;
                            let r = self.emit(&n, &mut |_, item| {
                                made = Some(());
                                let mut v = vec![];
                                bind_pat(&p, &item, &mut v);
                                v.extend(body.clone());
                                v
                            });
                            match r {
                                Some(v) => *e = parse_quote!({ #(#v)* }),
                                None => self.ctx.n = save,
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_fn_mut(&mut self, _: &mut ItemFn) {}
}

// ------------------------------------------------------------ other rules
pub struct Misc<'a> {
    pub env: &'a Env,
    pub this: bool,
    pub self_name: Option<String>,
    pub assoc: &'a HashMap<String, Type>,
    pub fnvar: Option<(String, String)>,
    pub fnvalues: Option<String>,
    pub tself: Option<String>,
}
impl VisitMut for Misc<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Unsafe(u) => {
                let b = &u.block.stmts;
                *e = parse_quote!({ #(#b)* });
            }
            // a pointer to the first bytes of a slice, and what is read there
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_)) => {
                if let Expr::MethodCall(m) = unparen(&c.expr) {
                    if m.method == "as_ptr" {
                        let x = &m.receiver;
                        *e = parse_quote!(#x.vx_bytes());
                    }
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Expr::MethodCall(m) = unparen(expr) {
                    if m.method == "vx_bytes" {
                        let x = m.clone();
                        *e = parse_quote!(vx_read_i32(#x));
                    }
                }
            }
            Expr::Call(c) => {
                let p = path_str(&c.func);
                if let (Some(t), Some(f)) = (&self.tself, p.strip_prefix("Self::").or_else(|| self.tself.as_ref().and_then(|t| p.strip_prefix(&format!("{t}::"))))) {
                    // a default method of the trait, which is a function here
                    if let Some(n) = self.env.trait_fns.get(f) {
                        let (t, f, a) = (id(t), id(f), &c.args);
                        let us: Vec<Type> = (0..*n).map(|_| parse_quote!(_)).collect();
                        *e = parse_quote!(#f::<#t #(, #us)*>(#a));
                    }
                } else if self.fnvar.as_ref().map_or(false, |f| f.0 == p) {
                    // a function that a variable holds
                    let (f, v, a) = (id(&self.fnvar.as_ref().unwrap().1), &c.func, &c.args);
                    *e = parse_quote!(#f(#v, #a));
                } else if p == "f32::from_bits" && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!(fl_from_bits(#a));
                } else if p == "Box::new" && c.args.len() == 1 && ts(&c.args[0]).starts_with("MetricsError") {
                    *e = c.args[0].clone();
                } else if p.starts_with("size_of::<") || p.starts_with("mem::size_of::<") || p.starts_with("std::mem::size_of::<") {
                    let f = c.func.clone();
                    let t = ts(&f);
                    let ty = t.split_once('<').unwrap().1.trim_end_matches('>').trim();
                    let ty: Type = parse_str(ty).unwrap();
                    *e = parse_quote!(vx_size_of::<#ty>());
                } else if p == "std::mem::transmute" && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!(vx_transmute(#a));
                } else if p == "rayon::current_num_threads" {
                    *e = parse_quote!(vx_num_threads());
                } else if p == "Default::default" {
                    *e = parse_quote!(VxDefault::vx_default());
                } else if p.ends_with("::default") && c.args.is_empty() {
                    let t: Path = parse_str(p.trim_end_matches("::default")).unwrap();
                    *e = parse_quote!(#t::vx_default());
                } else if (p == "cmp::min" || p == "std::cmp::min") && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!(vx_min(#a, #b));
                } else if (p == "cmp::max" || p == "std::cmp::max") && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!(vx_max(#a, #b));
                } else if let Some(t) = p.strip_suffix("::cast_from").filter(|t| t.len() == 1) {
                    // to a generic sample type
                    let (t, a) = (id(t), &c.args[0]);
                    *e = parse_quote!(#t::from_i32(vx_to_i32(#a)));
                } else if p == "drop" && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!(vx_drop(#a));
                }
            }
            Expr::Reference(r) if r.mutability.is_some() && matches!(unparen(&r.expr), Expr::Index(i) if matches!(unparen(&i.index), Expr::Range(r) if r.start.is_none() && r.end.is_none())) => {
                // &mut x[..]
                if let Expr::Index(i) = unparen(&r.expr) {
                    let x = &i.expr;
                    *e = parse_quote!(#x.as_mut_slice());
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.this && path_ident(&m.receiver).as_deref() == Some("this") && self.env.this_fns.contains(&n) {
                    // a default method of the trait, which is a function here
                    let (f, a) = (id(&n), &m.args);
                    let g: Vec<GenericArgument> = m.turbofish.iter().flat_map(|t| t.args.iter().cloned()).collect();
                    *e = if g.is_empty() { parse_quote!(#f(this, #a)) } else { parse_quote!(#f::<_, #(#g),*>(this, #a)) };
                } else if n == "extend" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(vx_extend(&mut #r, #a));
                } else if n == "into" && ts(&m.receiver).starts_with("MetricsError") {
                    *e = (*m.receiver).clone();
                } else if let Some((p, b, d)) = option_choice(&n, &m.args) {
                    let r = option_of(&m.receiver);
                    *e = parse_quote!(match #r { Some(#p) => #b, None => #d });
                } else if n == "contains" && m.args.len() == 1 {
                    if let Expr::Range(r) = unparen(&m.receiver) {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let x = strip_ref(m.args[0].clone());
                            *e = parse_quote!((#a <= #x && #x < #b));
                        } else if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                            let x = strip_ref(m.args[0].clone());
                            *e = parse_quote!((#a <= #x && #x <= #b));
                        }
                    }
                }
            }
            Expr::Macro(m) => {
                if let Some(mut x) = macro_expr(&m.mac) {
                    if m.mac.path.is_ident("vec") {
                        self.visit_expr_mut(&mut x);
                    }
                    *e = x;
                }
            }
            Expr::Path(p) if self.fnvalues.is_some() && p.path.segments.len() == 2 && p.path.segments[1].ident.to_string().starts_with(|c: char| c.is_lowercase()) => {
                let (t, v) = (id(self.fnvalues.as_ref().unwrap()), id(&format!("{}__{}", p.path.segments[0].ident, p.path.segments[1].ident)));
                *e = parse_quote!(#t::#v);
            }
            Expr::Path(p) if self.this && p.path.is_ident("self") => *e = parse_quote!(this),
            Expr::Struct(s) if s.path.is_ident("Self") => {
                if let Some(n) = &self.self_name {
                    s.path = parse_str(n).unwrap();
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = macro_expr(&m.mac) {
                *s = Stmt::Expr(x, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(n) = self.tself.as_ref().or(self.self_name.as_ref()) {
            if p.segments.len() > 1 && p.segments[0].ident == "Self" {
                p.segments[0].ident = id(n);
            }
        }
    }
    /// Local constants become variables.
    fn visit_block_mut(&mut self, b: &mut Block) {
        // imports of the variants of an enum stay
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(u)) if !of_enum(&u.tree)));
        for s in &mut b.stmts {
            if let Stmt::Item(syn::Item::Const(c)) = s {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                *s = parse_quote!(let #i: #t = #e;);
            }
        }
        // inner attributes and cfg of this target
        for s in &mut b.stmts {
            if let Stmt::Expr(Expr::Block(x), _) = s {
                x.attrs.clear();
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// An option that `filter` or `map` of another yields.
fn option_of(e: &Expr) -> Expr {
    if let Expr::MethodCall(m) = unparen(e) {
        if let (1, Some(Expr::Closure(c))) = (m.args.len(), m.args.first().map(unparen)) {
            let (r, b) = (option_of(&m.receiver), &c.body);
            let p = match c.inputs.first() {
                Some(Pat::Type(t)) => (*t.pat).clone(),
                Some(x) => x.clone(),
                None => return e.clone(),
            };
            if !ts(b).split(' ').any(|w| w == "return" || w == "?") {
                if m.method == "filter" {
                    return parse_quote!(match #r { Some(vx_kept) => if { let #p = &vx_kept; #b } { Some(vx_kept) } else { None }, None => None });
                }
                if m.method == "map" {
                    return parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                }
            }
        }
    }
    e.clone()
}
/// The choices `map_or`, `is_some_and` and `is_none_or` of an option: pattern, value for it, value for None.
fn option_choice(n: &str, a: &punctuated::Punctuated<Expr, Token![,]>) -> Option<(Pat, Expr, Expr)> {
    let d: Expr = match (n, a.len()) {
        ("map_or", 2) if !ts(&a[0]).contains('(') => a[0].clone(),
        ("is_some_and", 1) => parse_quote!(false),
        ("is_none_or", 1) => parse_quote!(true),
        _ => return None,
    };
    let Expr::Closure(c) = unparen(a.last()?) else { return None };
    if c.inputs.len() != 1 || ts(&c.body).split(' ').any(|w| w == "return" || w == "?") {
        return None;
    }
    let p = match &c.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        x => x.clone(),
    };
    Some((p, (*c.body).clone(), d))
}
fn macro_expr(m: &Macro) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
    Some(match n.as_str() {
        "unreachable" | "panic" | "unimplemented" | "todo" => parse_quote!(vx_unreachable()),
        "assert" | "debug_assert" => {
            let a = args()?;
            let c = &a[0];
            parse_quote!(vx_assert(#c))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args()?;
            let (x, y) = (&a[0], &a[1]);
            parse_quote!(vx_assert(#x == #y))
        }
        "format" => parse_quote!(vx_format()),
        "writeln" => {
            // the template, and the values in the order of its placeholders
            let a = args()?;
            let w = a.first()?.clone();
            let Some(Expr::Lit(ExprLit { lit: Lit::Str(t), .. })) = a.iter().nth(1) else { return None };
            let mut pos = a.iter().skip(2);
            let mut chain: Expr = parse_quote!(vx_args());
            let mut text = String::new();
            let v = t.value();
            let mut c = v.chars().peekable();
            while let Some(x) = c.next() {
                text.push(x);
                if x == '{' && c.peek() == Some(&'{') || x == '}' && c.peek() == Some(&'}') {
                    text.push(c.next()?);
                } else if x == '{' {
                    let mut name = String::new();
                    while c.peek().is_some_and(|y| *y != ':' && *y != '}') {
                        name.push(c.next()?);
                    }
                    let x: Expr = if name.is_empty() { pos.next()?.clone() } else { let n = syn::parse_str::<Ident>(&name).ok()?; parse_quote!(#n) };
                    chain = parse_quote!(#chain.arg(&#x));
                    while c.peek().is_some_and(|y| *y != '}') {
                        text.push(c.next()?);
                    }
                }
            }
            if pos.next().is_some() {
                return None;
            }
            let t = LitStr::new(&text, Span::call_site());
            parse_quote!(vx_writeln(&mut *#w, #t, #chain))
        }
        "env" => parse_quote!(vx_env()),
        "is_x86_feature_detected" => parse_quote!(vx_any_bool()),
        "vec" => {
            // vec![x; n]
            struct R(Expr, Expr);
            impl parse::Parse for R {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let a = i.parse()?;
                    i.parse::<Token![;]>()?;
                    Ok(R(a, i.parse()?))
                }
            }
            let R(x, k) = m.parse_body().ok()?;
            // rows of equal values
            if matches!(&x, Expr::Macro(m) if m.mac.path.is_ident("vec")) {
                parse_quote!(vx_rows(#x, #k))
            } else {
                parse_quote!(vx_vec(#x, #k))
            }
        }
        "matches" => {
            struct M(Expr, Pat, Option<Expr>);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            let M(e, p, g) = m.parse_body().ok()?;
            match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            }
        }
        _ => return None,
    })
}

/// `rayon::scope(|s| { s.spawn(|_| A); s.spawn(|_| B); })` becomes `{ A; B; }`:
/// the borrow checker guarantees that the closures share no mutable state.
pub struct Scopes;
impl VisitMut for Scopes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if path_str(&c.func) == "rayon::scope" && c.args.len() == 1 {
                if let Some((pats, body)) = split_closure(&c.args[0]) {
                    let mut n = vec![];
                    pat_names(&pats[0], &mut n);
                    let mut b = match body {
                        Expr::Block(b) => b.block,
                        x => parse_quote!({ #x }),
                    };
                    for s in &mut b.stmts {
                        if let Stmt::Expr(Expr::MethodCall(m), semi) = s {
                            if m.method == "spawn" && path_ident(&m.receiver).as_ref() == n.first() {
                                if let Some((_, body)) = split_closure(&m.args[0]) {
                                    *semi = Some(Default::default());
                                    *s = Stmt::Expr(parse_quote!({ #body; }), None);
                                }
                            }
                        }
                    }
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                }
            } else if path_str(&c.func) == "rayon::join" && c.args.len() == 2 {
                if let (Some((_, a)), Some((_, b))) = (split_closure(&c.args[0]), split_closure(&c.args[1])) {
                    *e = parse_quote!((#a, #b));
                }
            }
        }
    }
}

/// `crossbeam::scope`: the closure of a spawned thread becomes a function of its
/// own (the k-th one is `threadK`), the call becomes `vx_spawn_K`. The receivers
/// of the channels are passed along, because their state is ghost.
/// Callbacks (`F: Fn(..)`) are called by `vx_call`.
pub struct Threads<'a> {
    pub hoisted: &'a mut Vec<ItemFn>,
    pub prefix: String,
    /// parameters of the contracts of the threads
    pub params: Vec<(Vec<String>, Vec<String>)>,
    pub callbacks: Vec<String>,
    pub channels: Vec<(String, String)>,
}
impl Threads<'_> {
    fn receivers(&self) -> Vec<Expr> {
        self.channels.iter().map(|(_, r)| { let r = id(r); parse_quote!(&mut #r) }).collect()
    }
}
impl VisitMut for Threads<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Tuple(t), Some(i)) = (&mut l.pat, &mut l.init) {
            if let Expr::Call(c) = &mut *i.expr {
                if path_str(&c.func).ends_with("channel::bounded") && t.elems.len() == 2 {
                    let mut n = vec![];
                    pat_names(&Pat::Tuple(t.clone()), &mut n);
                    if n.len() == 2 {
                        self.channels.push((n[0].clone(), n[1].clone()));
                        let (a, b, k) = (id(&n[0]), id(&n[1]), &c.args[0]);
                        *i.expr = parse_quote!(vx_channel(#k));
                        l.pat = parse_quote!((#a, mut #b));
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if path_str(&c.func) == "crossbeam::scope" && c.args.len() == 1 && !self.channels.is_empty() {
                if let Some((pats, body)) = split_closure(&c.args[0]) {
                    let mut n = vec![];
                    pat_names(&pats[0], &mut n);
                    let mut body = body;
                    Spawns { scope: n.first().cloned().unwrap_or_default(), t: self }.visit_expr_mut(&mut body);
                    self.visit_expr_mut(&mut body);
                    let r = self.receivers();
                    *e = parse_quote!({ let scope__ = #body; vx_scope_end(#(#r,)* scope__) });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Some(n) = path_ident(&c.func) {
                if self.callbacks.contains(&n) {
                    let (f, a) = (&c.func, &c.args);
                    *e = parse_quote!(#f.vx_call(#a));
                } else if n == "drop" && c.args.len() == 1 {
                    if let Some(x) = path_ident(&c.args[0]) {
                        if self.channels.iter().any(|(_, r)| *r == x) {
                            let x = id(&x);
                            *e = parse_quote!(#x.close());
                        }
                    }
                }
            }
        }
    }
}
struct Spawns<'a, 'b> {
    scope: String,
    t: &'a mut Threads<'b>,
}
impl VisitMut for Spawns<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "spawn" && path_ident(&m.receiver).as_deref() == Some(&self.scope) && m.args.len() == 1 {
                let k = self.t.hoisted.iter().filter(|f| f.sig.ident.to_string().contains("__thread")).count();
                if let (Some((_, body)), Some((generics, params))) = (split_closure(&m.args[0]), self.t.params.get(k).cloned()) {
                    let mut b: Block = match body {
                        Expr::Block(b) => b.block,
                        x => parse_quote!({ #x }),
                    };
                    let callbacks = self.t.callbacks.clone();
                    Threads { hoisted: &mut vec![], prefix: String::new(), params: vec![], callbacks, channels: vec![] }.visit_block_mut(&mut b);
                    let f = id(&format!("{}__thread{}", self.t.prefix, k + 1));
                    self.t.hoisted.push(parse_quote!(fn #f() #b));
                    let a: Vec<Ident> = params.iter().map(|p| id(p)).collect();
                    let r = self.t.receivers();
                    let f = id(&format!("vx_spawn_{}", k + 1));
                    let g: Vec<Ident> = generics.iter().map(|p| id(p)).collect();
                    *e = parse_quote!(#f::<#(#g),*>(#(#a,)* #(#r),*));
                    return;
                }
            } else if n == "join" && m.args.is_empty() {
                for r in self.t.receivers() {
                    m.args.push(r);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn of_enum(t: &UseTree) -> bool {
    match t {
        UseTree::Path(p) => p.ident.to_string().starts_with(char::is_uppercase) || of_enum(&p.tree),
        _ => false,
    }
}

/// Methods of Option and Result that take a closure become a `match`.
pub struct OptRes;
fn is_result(e: &Expr) -> bool {
    match unparen(e) {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "recv" | "send" | "join" | "process_frame" | "map_err" | "can_compare" | "aggregate_frame_results" | "try_recv" => true,
            "map" | "and_then" => is_result(&m.receiver),
            _ => false,
        },
        _ => false,
    }
}
impl VisitMut for OptRes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = e {
            let (n, r) = (m.method.to_string(), &m.receiver);
            let res = is_result(r);
            let c = m.args.first().filter(|a| split_closure(a).is_some());
            let v: Expr = parse_quote!(val__);
            new = match (n.as_str(), c) {
                ("map", Some(c)) => {
                    let b = apply(c, &[v]);
                    Some(if res { parse_quote!(match #r { Ok(val__) => Ok(#b), Err(err__) => Err(err__) }) } else { parse_quote!(match #r { Some(val__) => Some(#b), None => None }) })
                }
                ("map_err", Some(c)) => {
                    let b = apply(c, &[v]);
                    Some(parse_quote!(match #r { Ok(ok__) => Ok(ok__), Err(val__) => Err(#b) }))
                }
                ("unwrap_or_else", Some(c)) if res => {
                    let b = apply(c, &[v]);
                    Some(parse_quote!(match #r { Ok(ok__) => ok__, Err(val__) => #b }))
                }
                ("unwrap_or_else", Some(c)) => {
                    let b = apply(c, &[]);
                    Some(parse_quote!(match #r { Some(ok__) => ok__, None => #b }))
                }
                ("ok", None) if m.args.is_empty() => Some(parse_quote!(match #r { Ok(ok__) => Some(ok__), Err(_) => None })),
                _ => None,
            };
        }
        if let Some(n) = new {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Closures bound to a variable are expanded where they are called; so is a
/// choice between nested functions.
pub struct Inline<'a> {
    pub hoisted: &'a mut Vec<ItemFn>,
    pub prefix: String,
    pub keep: Vec<String>,
    /// closures with a contract, which become functions
    pub nested: Vec<String>,
}
struct CallSubst<'a> {
    name: &'a str,
    f: &'a dyn Fn(&[Expr]) -> Expr,
    count: usize,
}
impl VisitMut for CallSubst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if path_ident(&c.func).as_deref() == Some(self.name) {
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                *e = (self.f)(&a);
                self.count += 1;
            }
        }
    }
}
fn nested_choice(e: &Expr) -> Option<(Expr, ItemFn, ItemFn)> {
    let Expr::If(i) = unparen(e) else { return None };
    let part = |b: &Block| -> Option<ItemFn> {
        match &b.stmts[..] {
            [Stmt::Item(Item::Fn(f)), Stmt::Expr(e, None)] if path_ident(e)? == f.sig.ident.to_string() => Some(f.clone()),
            _ => None,
        }
    };
    let a = part(&i.then_branch)?;
    let b = match &*i.else_branch.as_ref()?.1 {
        Expr::Block(b) => part(&b.block)?,
        _ => return None,
    };
    Some(((*i.cond).clone(), a, b))
}
impl VisitMut for Inline<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            // nested functions
            if let Stmt::Item(syn::Item::Fn(f)) = &b.stmts[i] {
                let mut f = f.clone();
                let old = f.sig.ident.to_string();
                let mut new = id(&format!("{}__{}", self.prefix, old));
                let mut k = 1;
                while self.hoisted.iter().any(|h| h.sig.ident == new) {
                    // another scope has a function with this name
                    k += 1;
                    new = id(&format!("{}__{}_{k}", self.prefix, old));
                }
                f.sig.ident = new.clone();
                let w: Expr = parse_quote!(#new);
                b.stmts.remove(i);
                for s in &mut b.stmts {
                    let mut v = SubstIdent { name: &old, with: &w, count: 0 };
                    v.visit_stmt_mut(s);
                }
                self.hoisted.push(f);
                continue;
            }
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) = &b.stmts[i] {
                if let (true, Expr::Closure(c)) = (self.nested.contains(&p.ident.to_string()), unparen(&init.expr)) {
                    let old = p.ident.to_string();
                    let new = id(&format!("{}__{}", self.prefix, old));
                    let args: Vec<FnArg> = c.inputs.iter().filter_map(|p| match p {
                        Pat::Type(t) => Some(FnArg::Typed(t.clone())),
                        _ => None,
                    }).collect();
                    // the constants of the function
                    let consts: Vec<Stmt> = b.stmts[..i].iter().filter(|s| match s {
                        Stmt::Local(l) => {
                            let mut n = vec![];
                            pat_names(&l.pat, &mut n);
                            n.len() == 1 && n[0].chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
                        }
                        _ => false,
                    }).cloned().collect();
                    let body: Vec<Stmt> = match &*c.body {
                        Expr::Block(x) => x.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), None)],
                    };
                    if args.len() == c.inputs.len() {
                        let f: ItemFn = parse_quote!(fn #new(#(#args),*) { #(#consts)* #(#body)* });
                        let w: Expr = parse_quote!(#new);
                        b.stmts.remove(i);
                        for s in &mut b.stmts {
                            let mut v = SubstIdent { name: &old, with: &w, count: 0 };
                            v.visit_stmt_mut(s);
                        }
                        self.hoisted.push(f);
                        continue;
                    }
                }
            }
            let mut action: Option<(String, Box<dyn Fn(&[Expr]) -> Expr>, Option<Stmt>)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let name = p.ident.to_string();
                    if let Some((cond, mut f, mut g)) = nested_choice(&init.expr) {
                        let sel = id(&format!("{name}__sel"));
                        f.sig.ident = id(&format!("{}__{}", self.prefix, f.sig.ident));
                        g.sig.ident = id(&format!("{}__{}", self.prefix, g.sig.ident));
                        let (x, y) = (f.sig.ident.clone(), g.sig.ident.clone());
                        self.hoisted.push(f);
                        self.hoisted.push(g);
                        let s2 = sel.clone();
                        action = Some((
                            name,
                            Box::new(move |a| parse_quote!((if #s2 { #x(#(#a),*) } else { #y(#(#a),*) }))),
                            Some(parse_quote!(let #sel = #cond;)),
                        ));
                    } else if let Some((pats, body)) = split_closure(&init.expr) {
                        if !has_return(&body) && !self.keep.contains(&name) {
                            action = Some((
                                name,
                                Box::new(move |a| {
                                    let bs = bind(&pats, a);
                                    match &body {
                                        Expr::Block(x) => {
                                            let s = &x.block.stmts;
                                            parse_quote!({ #(#bs)* #(#s)* })
                                        }
                                        body => parse_quote!({ #(#bs)* #body }),
                                    }
                                }),
                                None,
                            ));
                        }
                    }
                }
            }
            if let Some((name, f, keep)) = action {
                match keep {
                    Some(s) => {
                        b.stmts[i] = s;
                        i += 1;
                    }
                    None => {
                        b.stmts.remove(i);
                    }
                }
                for s in &mut b.stmts[i..] {
                    let mut v = CallSubst { name: &name, f: &*f, count: 0 };
                    v.visit_stmt_mut(s);
                    // passed as a function
                }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
pub fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut r = R(false);
    syn::visit::Visit::visit_expr(&mut r, e);
    r.0
}

/// Calls of functions of the same file that have no contract are expanded.
pub struct Helpers<'a> {
    pub env: &'a Env,
    pub depth: usize,
    pub used: Vec<String>,
}
impl VisitMut for Helpers<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args) = match e {
            Expr::Call(c) => {
                let p = path_str(&c.func);
                let last = p.trim_start_matches("self::").trim_start_matches("super::");
                let last = last.split("::<").next().unwrap().to_string();
                (last, c.args.iter().cloned().collect::<Vec<_>>())
            }
            _ => return,
        };
        if self.env.known.contains(&name) || self.depth > 6 {
            return;
        }
        let Some(f) = self.env.free_fns.get(&name) else { return };
        let body: Expr = {
            let s = &f.block.stmts;
            parse_quote!({ #(#s)* })
        };
        if has_return(&body) || f.sig.inputs.len() != args.len() {
            return;
        }
        // iterators are expanded by the chain rule
        if let ReturnType::Type(_, t) = &f.sig.output {
            let t = ts(t);
            if t.contains("Iter") || t.contains("Interleave") {
                return;
            }
        }
        let mut names: Vec<Ident> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        for (k, (a, v)) in f.sig.inputs.iter().zip(&args).enumerate() {
            let FnArg::Typed(a) = a else { return };
            let t = id(&format!("arg__{}_{}", self.depth, k));
            names.push(t.clone());
            let has_generic = f.sig.generics.type_params().any(|g| ts(&a.ty).split(' ').any(|w| w == g.ident.to_string()));
            if has_generic || ts(&a.ty).contains('\'') || ts(&a.ty).contains("impl ") {
                pre.push(parse_quote!(let #t = #v;));
            } else {
                let ty = &a.ty;
                pre.push(parse_quote!(let #t: #ty = #v;));
            }
            let p = &a.pat;
            let _ = p;
        }
        let mut post: Vec<Stmt> = vec![];
        for (a, t) in f.sig.inputs.iter().zip(&names) {
            if let FnArg::Typed(a) = a {
                let p = &a.pat;
                post.push(parse_quote!(let #p = #t;));
            }
        }
        let s = &f.block.stmts;
        self.used.push(name);
        let mut n: Expr = parse_quote!({ #(#pre)* #(#post)* #(#s)* });
        self.depth += 1;
        if let Expr::Block(b) = &mut n {
            for s in b.block.stmts.iter_mut().skip(2 * args.len()) {
                self.visit_stmt_mut(s);
            }
        }
        self.depth -= 1;
        *e = n;
    }
}

// ------------------------------------------------------------- local names
/// The names that a function binds, in order of their first binding.
pub struct Binds(pub Vec<String>);
impl<'a> syn::visit::Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !self.0.contains(&n) && n != "None" && !n.starts_with(|c: char| c.is_uppercase()) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
pub struct Rename<'a>(pub &'a HashMap<String, String>);
impl VisitMut for Rename<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.0.get(&i.to_string()) {
                        *e = Expr::Path(ExprPath { attrs: vec![], qself: None, path: id(n).into() });
                    }
                }
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = id(n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(t: TokenStream, m: &HashMap<String, String>) -> TokenStream {
            use proc_macro2::TokenTree::*;
            t.into_iter()
                .map(|t| match t {
                    Ident(i) => match m.get(&i.to_string()) {
                        Some(n) => Ident(id(n)),
                        None => Ident(i),
                    },
                    Group(g) => Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), m))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), self.0);
    }
}

// ----------------------------------------------------- loops and anchors
/// parentheses around blocks that stand in front of an operator
pub struct Parens;
fn paren_block(e: &mut Expr) {
    if matches!(e, Expr::Block(_)) {
        let b = e.clone();
        *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(b) });
    }
}
impl VisitMut for Parens {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => paren_block(&mut b.left),
            Expr::MethodCall(m) => paren_block(&mut m.receiver),
            Expr::Field(f) => paren_block(&mut f.base),
            Expr::Index(i) => paren_block(&mut i.expr),
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for i in 1..b.stmts.len() {
            let after = matches!(&b.stmts[i - 1], Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            if let (true, Stmt::Expr(e, None)) = (after, &mut b.stmts[i]) {
                paren_block(e);
            }
        }
    }
}
/// operations of floating point numbers whose result may be infinite or not a number
pub struct Specials;
impl VisitMut for Specials {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::Div(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(fl_div_any(#l, #r));
            }
            Expr::MethodCall(m) if ["sqrt", "log", "ln", "log10", "powf"].contains(&m.method.to_string().as_str()) => {
                m.method = Ident::new(&format!("{}_any", m.method), m.method.span());
            }
            _ => {}
        }
    }
}
pub struct Loops {
    pub n: usize,
    pub isolated: Vec<usize>,
    pub inv: Vec<usize>,
    pub start: HashMap<usize, Vec<usize>>,
    pub end: HashMap<usize, Vec<usize>>,
}
impl Loops {
    fn body(&mut self, b: &mut Block) {
        self.n += 1;
        let k = self.n;
        visit_mut::visit_block_mut(self, b);
        if let Some(v) = self.end.get(&k) {
            // a last expression without a semicolon is a statement in a loop
            for t in v {
                let l = LitInt::new(&t.to_string(), Span::call_site());
                if let Some(Stmt::Expr(e, semi @ None)) = b.stmts.last_mut() {
                    if !matches!(e, Expr::If(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_)) {
                        *semi = Some(Default::default());
                    }
                }
                b.stmts.push(parse_quote!(__vx_text!(#l);));
            }
        }
        let mut pre: Vec<Stmt> = vec![];
        if self.inv.contains(&k) {
            let l = LitInt::new(&k.to_string(), Span::call_site());
            pre.push(parse_quote!(__vx_inv!(#l);));
        }
        for t in self.start.get(&k).into_iter().flatten() {
            let l = LitInt::new(&t.to_string(), Span::call_site());
            pre.push(parse_quote!(__vx_text!(#l);));
        }
        b.stmts.splice(0..0, pre);
    }
}
impl VisitMut for Loops {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        if self.isolated.contains(&(self.n + 1)) {
            f.attrs.push(parse_quote!(#[verifier::loop_isolation(true)]));
        }
        self.body(&mut f.body);
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        self.visit_expr_mut(&mut f.cond);
        if self.isolated.contains(&(self.n + 1)) {
            f.attrs.push(parse_quote!(#[verifier::loop_isolation(true)]));
        }
        self.body(&mut f.body);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        if self.isolated.contains(&(self.n + 1)) {
            f.attrs.push(parse_quote!(#[verifier::loop_isolation(true)]));
        }
        self.body(&mut f.body);
    }
}
/// Inserts text before or after the statement that is loop k, or after a `let`.
pub struct Around {
    pub n: usize,
    pub before: HashMap<usize, Vec<usize>>,
    pub after: HashMap<usize, Vec<usize>>,
    pub lets: Vec<(String, usize)>,
    pub placed: Vec<usize>,
}
impl Around {
    fn stmt_loop(s: &Stmt) -> bool {
        matches!(s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _))
    }
}
impl VisitMut for Around {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let text = |t: usize| -> Stmt {
            let l = LitInt::new(&t.to_string(), Span::call_site());
            parse_quote!(__vx_text!(#l);)
        };
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = Self::stmt_loop(&s);
            let k = self.n + 1;
            if is_loop {
                for t in self.before.get(&k).cloned().unwrap_or_default() {
                    out.push(text(t));
                    self.placed.push(t);
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let mut names = vec![];
            if let Stmt::Local(l) = &s {
                pat_names(&l.pat, &mut names);
            }
            out.push(s);
            if is_loop {
                for t in self.after.get(&k).cloned().unwrap_or_default() {
                    out.push(text(t));
                    self.placed.push(t);
                }
            }
            let mut rest = vec![];
            for (n, t) in std::mem::take(&mut self.lets) {
                if names.contains(&n) {
                    out.push(text(t));
                    self.placed.push(t);
                } else {
                    rest.push((n, t));
                }
            }
            self.lets = rest;
        }
        b.stmts = out;
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.n += 1;
        self.visit_block_mut(&mut f.body);
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        self.visit_expr_mut(&mut f.cond);
        self.n += 1;
        self.visit_block_mut(&mut f.body);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        self.n += 1;
        self.visit_block_mut(&mut f.body);
    }
}
pub fn tokens(t: impl ToTokens) -> TokenStream {
    quote!(#t)
}
