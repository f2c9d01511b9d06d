//! vx: extracts functions of the repository, rewrites them mechanically into
//! the Rust that Verus accepts and joins them with their contracts.
//!
//! vx CONTRACTS.vx --repo DIR --prelude DIR --out FILE.rs --map FILE.json
//!    [--locals FILE] [--record]
//!
//! Exits with 2 and a line `LOST: ...` if a contract has no place to go.
mod macros;
mod print;
mod rewrite;
mod spec;

use quote::ToTokens;
use rewrite::*;
use spec::{Anchor, FnSpec};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Env {
    pub free_fns: HashMap<String, ItemFn>,
    pub trait_fns: HashMap<String, usize>,
    pub macros: HashMap<String, macros::Rules>,
    pub known: HashSet<String>,
    /// default methods of traits that are extracted as functions
    pub this_fns: HashSet<String>,
    pub float_fns: HashSet<String>,
    pub float_fields: HashSet<String>,
    pub fconsts: HashMap<String, ()>,
    pub consts: HashSet<String>,
    pub mut_slices: RefCell<Vec<String>>,
}

fn lost(m: &str) -> ! {
    println!("LOST: {m}");
    std::process::exit(2)
}

enum Found {
    Free(ItemFn),
    /// generics and type of the impl, associated types, function
    Impl(Box<(Generics, Type, HashMap<String, Type>, ImplItemFn)>),
    Trait(ImplItemFn),
}

fn items_of(f: &File) -> Vec<syn::Item> {
    fn go(v: &[syn::Item], o: &mut Vec<syn::Item>) {
        for i in v {
            if let syn::Item::Mod(m) = i {
                if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("cfg (test)")) {
                    continue;
                }
                if let Some((_, v)) = &m.content {
                    go(v, o);
                }
            }
            o.push(i.clone());
        }
    }
    let mut o = vec![];
    go(&f.items, &mut o);
    o
}
/// a source file of the version of a dependency that Cargo.lock names
fn dependency(repo: &str, krate: &str, file: &str) -> String {
    let lock = std::fs::read_to_string(format!("{repo}/Cargo.lock")).unwrap_or_else(|e| lost(&format!("Cargo.lock: {e}")));
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    let mut name = "";
    for l in lock.lines() {
        if let Some(n) = l.strip_prefix("name = ") {
            name = n.trim_matches('"');
        }
        if let (true, Some(v)) = (name == krate, l.strip_prefix("version = ")) {
            for d in std::fs::read_dir(format!("{home}/registry/src")).into_iter().flatten().flatten() {
                let p = d.path().join(format!("{krate}-{}", v.trim_matches('"'))).join(file);
                if p.exists() {
                    return p.display().to_string();
                }
            }
        }
    }
    lost(&format!("no source of {krate}/{file}"))
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}
fn find(items: &[syn::Item], path: &str) -> Option<Found> {
    let v: Vec<&str> = path.split("::").collect();
    for i in items {
        match (i, &v[..]) {
            (syn::Item::Fn(f), [n]) if f.sig.ident == n => return Some(Found::Free(f.clone())),
            // `Type@Arg::name`: of the trait that has this argument
            (syn::Item::Impl(im), [t, n])
                if ty_name(&im.self_ty) == t.split('@').next().unwrap()
                    && t.split_once('@').map_or(true, |(_, a)| {
                        im.trait_.as_ref().is_some_and(|t| t.1.to_token_stream().to_string().replace(' ', "").ends_with(&format!("<{a}>")))
                    }) =>
            {
                let mut assoc = HashMap::new();
                for x in &im.items {
                    if let ImplItem::Type(t) = x {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == n {
                            return Some(Found::Impl(Box::new((im.generics.clone(), (*im.self_ty).clone(), assoc, f.clone()))));
                        }
                    }
                }
            }
            (syn::Item::Trait(tr), [t, n]) if tr.ident == t => {
                for x in &tr.items {
                    if let TraitItem::Fn(f) = x {
                        if let (true, Some(b)) = (f.sig.ident == n, &f.default) {
                            return Some(Found::Trait(ImplItemFn {
                                attrs: vec![],
                                vis: Visibility::Inherited,
                                defaultness: None,
                                sig: f.sig.clone(),
                                block: b.clone(),
                            }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct Out {
    text: String,
    lits: HashMap<String, String>,
    fns: Vec<String>,
    recorded: BTreeMap<String, Vec<String>>,
    reference: HashMap<String, Vec<String>>,
    notes: Vec<String>,
    vacuity: bool,
}

struct Cleaner;
impl VisitMut for Cleaner {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        f.attrs.clear();
        visit_mut::visit_item_fn_mut(self, f);
    }
}

fn emit_fn(out: &mut Out, env: &Env, sp: &FnSpec, repo_rel: &str, found: Found) {
    let (mut sig, mut block, wrap, assoc, span_line) = match found {
        Found::Free(f) => (f.sig.clone(), *f.block.clone(), None, HashMap::new(), f.span().start().line),
        Found::Impl(b) => {
            let (g, t, a, f) = *b;
            (f.sig.clone(), f.block.clone(), Some((g, t)), a, f.span().start().line)
        }
        Found::Trait(f) => (f.sig.clone(), f.block.clone(), None, HashMap::new(), f.sig.span().start().line),
    };
    let self_ty = wrap.as_ref().map(|(_, t)| t.clone());
    // --- names of the locals
    let mut b = Binds(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            b.visit_pat(&t.pat);
        }
    }
    b.visit_block(&block);
    let key = format!("{}:{}", repo_rel, sp.path);
    if let Some(want) = out.reference.get(&key) {
        let mut map: HashMap<String, String> = HashMap::new();
        let (new, gone): (Vec<&String>, Vec<&String>) =
            (b.0.iter().filter(|n| !want.contains(n)).collect(), want.iter().filter(|n| !b.0.contains(n)).collect());
        if new.len() == gone.len() && b.0.len() == want.len() {
            // renamed variables, in the order of their declarations
            for (n, g) in new.iter().zip(&gone) {
                map.insert((*n).clone(), (*g).clone());
            }
        }
        if !map.is_empty() {
            let mut r = Rename(&map);
            for a in &mut sig.inputs {
                if let FnArg::Typed(t) = a {
                    r.visit_pat_mut(&mut t.pat);
                }
            }
            r.visit_block_mut(&mut block);
            out.notes.push(format!("{}: local variables renamed: {map:?}", sp.path));
        }
    }
    out.recorded.insert(key, b.0);
    // --- environment of the parameters
    let mut floats = vec![];
    let mut planes = vec![];
    env.mut_slices.borrow_mut().clear();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let mut n = vec![];
            pat_names(&t.pat, &mut n);
            let ty = t.ty.to_token_stream().to_string();
            if n.len() != 1 {
                continue;
            }
            if ty == "f64" || ty == "f32" || ty.contains("[f32") || ty.contains("[f64") || ty.contains("[f 32") {
                floats.push(n[0].clone());
            }
            if ty.contains("Plane <") {
                planes.push(n[0].clone());
            }
            if ty.starts_with("& mut [") {
                env.mut_slices.borrow_mut().push(n[0].clone());
            }
        }
    }
    // --- passes
    let mut hoisted: Vec<ItemFn> = vec![];
    let name = sp.as_name.clone().unwrap_or_else(|| sig.ident.to_string());
    macros::Expand(&env.macros).visit_block_mut(&mut block);
    Cleaner.visit_block_mut(&mut block);
    for (a, b) in &sp.subst {
        block = subst_tokens(&block, a, b).unwrap_or_else(|| lost(&format!("{}: substitution of {a}", sp.path)));
    }
    let this = sp.self_ty.is_some();
    let self_name = sp.self_ty.clone().or_else(|| self_ty.as_ref().map(ty_name));
    let callbacks: Vec<String> = sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) => {
            let ty = t.ty.to_token_stream().to_string();
            let fnb = sig.generics.type_params().any(|g| g.ident == ty && g.bounds.to_token_stream().to_string().starts_with("Fn"));
            let mut n = vec![];
            pat_names(&t.pat, &mut n);
            if fnb { n.pop() } else { None }
        }
        _ => None,
    }).collect();
    Threads {
        hoisted: &mut hoisted,
        prefix: sig.ident.to_string(),
        params: sp.nested.iter().filter(|n| n.path.starts_with("thread")).map(|n| (sig_generics(n.sig.as_deref().unwrap_or("")), sig_params(n.sig.as_deref().unwrap_or("")))).collect(),
        callbacks,
        channels: vec![],
    }
    .visit_block_mut(&mut block);
    Misc { env, this, self_name: self_name.clone(), assoc: &assoc, fnvar: sp.fnvar.clone(), fnvalues: sp.fnvalues.clone(), tself: sp.tself.as_ref().map(|t| t.split(':').next().unwrap().trim().to_string()) }.visit_block_mut(&mut block);
    Scopes.visit_block_mut(&mut block);
    Inline { hoisted: &mut hoisted, prefix: sig.ident.to_string(), keep: vec![], nested: sp.nested.iter().map(|n| n.path.clone()).collect() }.visit_block_mut(&mut block);
    // nested functions without a contract are expanded
    let mut env2 = Env {
        free_fns: env.free_fns.clone(),
        trait_fns: env.trait_fns.clone(),
        macros: env.macros.clone(),
        known: env.known.clone(),
        this_fns: env.this_fns.clone(),
        float_fns: env.float_fns.clone(),
        float_fields: env.float_fields.clone(),
        fconsts: env.fconsts.clone(),
        consts: env.consts.clone(),
        mut_slices: RefCell::new(env.mut_slices.borrow().clone()),
    };
    let mut nested_out = vec![];
    for f in hoisted {
        let short = f.sig.ident.to_string();
        if let Some(n) = sp.nested.iter().find(|n| short == format!("{}__{}", sig.ident, n.path)) {
            env2.known.insert(short);
            nested_out.push((n.clone(), f));
        } else {
            env2.free_fns.insert(short, f);
        }
    }
    for n in &sp.nested {
        if !nested_out.iter().any(|(m, _)| m.path == n.path) {
            lost(&format!("{}: nested function {}", sp.path, n.path));
        }
    }
    let env = &env2;
    let mut h = Helpers { env, depth: 0, used: vec![] };
    h.visit_block_mut(&mut block);
    for u in &h.used {
        out.notes.push(format!("{}: call of {u} expanded", sp.path));
    }
    Inline { hoisted: &mut vec![], prefix: sig.ident.to_string(), keep: vec![], nested: vec![] }.visit_block_mut(&mut block);
    Floats { env, vars: floats, planes: planes.clone() }.visit_block_mut(&mut block);
    let mut ch = Chains::new(env, planes);
    ch.moves = sp.moves;
    ch.visit_block_mut(&mut block);
    OptRes.visit_block_mut(&mut block);
    Lits { env, lits: &mut out.lits }.visit_block_mut(&mut block);
    if sp.specials {
        Specials.visit_block_mut(&mut block);
    }
    let st: Option<Type> = sp.self_ty.as_ref().map(|s| parse_str(s).unwrap());
    Types { assoc: &assoc, self_ty: st.clone() }.visit_block_mut(&mut block);
    Types { assoc: &assoc, self_ty: st }.visit_signature_mut(&mut sig);
    Parens.visit_block_mut(&mut block);
    // --- anchors
    let mut texts: Vec<String> = vec![];
    let (mut start, mut end, mut before, mut after): (HashMap<usize, Vec<usize>>, HashMap<usize, Vec<usize>>, HashMap<usize, Vec<usize>>, HashMap<usize, Vec<usize>>) = Default::default();
    let (mut lets, mut at_start, mut at_end) = (vec![], vec![], vec![]);
    for (a, t) in &sp.ats {
        texts.push(t.clone());
        let i = texts.len() - 1;
        match a {
            Anchor::Start => at_start.push(i),
            Anchor::End => at_end.push(i),
            Anchor::LoopStart(k) => start.entry(*k).or_default().push(i),
            Anchor::LoopEnd(k) => end.entry(*k).or_default().push(i),
            Anchor::LoopBefore(k) => before.entry(*k).or_default().push(i),
            Anchor::LoopAfter(k) => after.entry(*k).or_default().push(i),
            Anchor::Let(n) => lets.push((n.clone(), i)),
        }
    }
    let mut ar = Around { n: 0, before: before.clone(), after: after.clone(), lets, placed: vec![] };
    ar.visit_block_mut(&mut block);
    if let Some((n, _)) = ar.lets.first() {
        lost(&format!("{}: no variable {n}", sp.path));
    }
    for t in before.values().chain(after.values()).flatten() {
        if !ar.placed.contains(t) {
            lost(&format!("{}: a loop is missing or not a statement", sp.path));
        }
    }
    let mut lp = Loops { n: 0, isolated: sp.isolated.clone(), inv: sp.loops.keys().copied().collect(), start: start.clone(), end: end.clone() };
    lp.visit_block_mut(&mut block);
    let wanted = sp.loops.keys().chain(start.keys()).chain(end.keys()).max().copied().unwrap_or(0);
    if wanted > lp.n || (!sp.loops.is_empty() && lp.n != sp.loops.len()) {
        lost(&format!("{}: {} loops instead of {}", sp.path, lp.n, sp.loops.len()));
    }
    let lit = |i: usize| LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
    if !at_end.is_empty() {
        let t: Vec<Stmt> = at_end.iter().map(|i| { let l = lit(*i); parse_quote!(__vx_text!(#l);) }).collect();
        let has_ret = sp.sig.as_ref().map_or(!matches!(sig.output, ReturnType::Default), |s| s.contains("-> (ret"));
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) if has_ret => {
                block.stmts.push(parse_quote!(let ret__ = #e;));
                block.stmts.extend(t);
                block.stmts.push(Stmt::Expr(parse_quote!(ret__), None));
            }
            Some(s) => {
                let s = match s {
                    Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                    s => s,
                };
                block.stmts.push(s);
                block.stmts.extend(t);
            }
            None => block.stmts.extend(t),
        }
    }
    if out.vacuity {
        texts.push("assert(false); // vacuity\n".into());
        at_start.push(texts.len() - 1);
    }
    let t: Vec<Stmt> = at_start.iter().map(|i| { let l = lit(*i); parse_quote!(__vx_text!(#l);) }).collect();
    block.stmts.splice(0..0, t);
    // --- text
    let mut body = print::text(block.to_token_stream());
    for (k, inv) in &sp.loops {
        let pat = format!("{{\n__vx_inv ! ({k}) ;\n");
        if !body.contains(&pat) {
            lost(&format!("{}: loop {k}", sp.path));
        }
        body = body.replacen(&pat, &format!("\n{inv}{{\n"), 1);
    }
    for (i, t) in texts.iter().enumerate() {
        let pat = format!("__vx_text ! ({i}) ;");
        if !body.contains(&pat) {
            lost(&format!("{}: an anchor", sp.path));
        }
        body = body.replacen(&pat, t, 1);
    }
    for (n, f) in nested_out {
        emit_fn(out, env, &FnSpec { as_name: Some(f.sig.ident.to_string()), ..n }, repo_rel, Found::Free(f));
    }
    let head = match &sp.sig {
        Some(s) => s.clone(),
        None => {
            let g = sig.generics.params.to_token_stream().to_string();
            let g = match &sp.tself {
                Some(t) => format!("<{t}, {g}>"),
                None if g.is_empty() => g,
                None => format!("<{g}>"),
            };
            let g = g.replace("Fn (usize) + Send", "Progress");
            let mut args = vec![];
            for a in &sig.inputs {
                match a {
                    FnArg::Receiver(r) => {
                        if this {
                            let m = if r.mutability.is_some() { "&mut " } else { "&" };
                            // a number is passed by value
                            let m = if m == "&" && sp.self_ty.as_deref() == Some("usize") { "" } else { m };
                            args.push(format!("this: {m}{}", sp.self_ty.as_ref().unwrap()));
                        } else {
                            args.push(r.to_token_stream().to_string());
                        }
                    }
                    FnArg::Typed(t) => args.push(print::text(t.to_token_stream())),
                }
            }
            let w = sig.generics.where_clause.to_token_stream().to_string();
            let r = match &sig.output {
                ReturnType::Default => String::new(),
                ReturnType::Type(_, t) => format!(" -> (ret: {})", print::text(t.to_token_stream())),
            };
            format!("fn {name}{g}({}){r} {w}", args.join(", "))
        }
    };
    let line0 = out.text.lines().count() + 1;
    let (a, z) = match (&wrap, this) {
        (Some((g, t)), false) => {
            let gp = g.params.to_token_stream().to_string();
            let gp = if gp.is_empty() { gp } else { format!("<{gp}>") };
            let wh = g.where_clause.to_token_stream().to_string();
            (format!("impl{gp} {} {wh} {{\n", print::text(t.to_token_stream())), "\n}\n")
        }
        _ => (String::new(), "\n"),
    };
    let mut attrs = String::from("#[verifier::loop_isolation(false)]\n");
    for x in &sp.attrs {
        attrs.push_str(x);
        attrs.push('\n');
    }
    out.text.push_str(&format!("// @fn {} {repo_rel}:{span_line}\n{a}{attrs}pub {head}\n{}\n{body}{z}// @endfn\n", sp.path, sp.spec));
    let line1 = out.text.lines().count();
    out.fns.push(format!(
        "{{\"fn\":{:?},\"source\":{:?},\"line\":{span_line},\"from\":{line0},\"to\":{line1},\"loops\":{},\"clauses\":{}}}",
        sp.path,
        repo_rel,
        lp.n,
        sp.spec.lines().filter(|l| !l.trim().is_empty()).count() + sp.loops.values().map(|s| s.lines().filter(|l| !l.trim().is_empty()).count()).sum::<usize>()
    ));
}

/// the names of the type parameters of a signature
fn sig_generics(s: &str) -> Vec<String> {
    let head = s.split('(').next().unwrap();
    match head.split_once('<') {
        Some((_, g)) => g.trim_end_matches('>').split(',').map(|p| p.split(':').next().unwrap().trim().to_string()).collect(),
        None => vec![],
    }
}
/// the names of the parameters of a signature
fn sig_params(s: &str) -> Vec<String> {
    let (mut depth, mut cur, mut out, mut started) = (0i32, String::new(), vec![], false);
    let mut angle = 0i32;
    for c in s.chars() {
        match c {
            '(' if !started && angle == 0 => started = true,
            '<' if !started => angle += 1,
            '>' if !started => angle -= 1,
            _ if !started => {}
            '(' | '[' | '<' => {
                depth += 1;
                cur.push(c)
            }
            ')' if depth == 0 => break,
            ')' | ']' | '>' => {
                depth -= 1;
                cur.push(c)
            }
            ',' if depth == 0 => out.push(std::mem::take(&mut cur)),
            c => cur.push(c),
        }
    }
    out.push(cur);
    out.iter().filter_map(|p| p.split_once(':')).map(|(n, _)| n.trim().trim_start_matches("mut ").trim().to_string()).collect()
}

fn subst_tokens(b: &Block, from: &str, to: &str) -> Option<Block> {
    // on the printed tokens, whose form is canonical
    let s = b.to_token_stream().to_string();
    let f: proc_macro2::TokenStream = from.parse().ok()?;
    let f = f.to_string();
    if !s.contains(&f) {
        return None;
    }
    parse_str(&s.replace(&f, to)).ok()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let repo = opt("--repo").unwrap_or("/repo".into());
    let prelude = opt("--prelude").unwrap_or("/verif/contracts".into());
    let text = std::fs::read_to_string(&a[1]).expect("contracts");
    // %include
    fn include(t: &str, dir: &str) -> String {
        let mut o = String::new();
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("%include ") {
                let p = format!("{dir}/{}", f.trim());
                let s = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
                if p.ends_with(".rs") {
                    o.push_str("%raw\n");
                    o.push_str(&s);
                    o.push_str("\n%end\n");
                } else {
                    o.push_str(&include(&s, dir));
                }
            } else {
                o.push_str(l);
                o.push('\n');
            }
        }
        o
    }
    let items = spec::parse(&include(&text, &prelude));
    let reference: HashMap<String, Vec<String>> = opt("--locals")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| l.split_once('\t'))
                .map(|(k, v)| (k.to_string(), v.split(' ').filter(|s| !s.is_empty()).map(str::to_string).collect()))
                .collect()
        })
        .unwrap_or_default();
    let mut known: HashSet<String> = HashSet::new();
    let mut this_fns: HashSet<String> = HashSet::new();
    let mut sources: Vec<String> = vec![];
    let mut fconsts: HashMap<String, HashMap<String, ()>> = HashMap::new();
    for i in &items {
        match i {
            spec::Item::Fn(f) => {
                if !f.source.starts_with("@v_frame/src/plane") {
                    known.insert(f.path.rsplit("::").next().unwrap().to_string());
                }
                if f.self_ty.is_some() {
                    this_fns.insert(f.path.rsplit("::").next().unwrap().to_string());
                }
                if let Some(n) = &f.as_name {
                    known.insert(n.clone());
                }
                sources.push(f.source.clone());
            }
            spec::Item::Known(v) => known.extend(v.iter().cloned()),
            spec::Item::Struct(_, s) | spec::Item::Const(_, s) | spec::Item::Consts(_, s) => sources.push(s.clone()),
            spec::Item::FConst(n, _, s) => {
                sources.push(s.clone());
                fconsts.entry(s.clone()).or_default().insert(n.clone(), ());
            }
            _ => {}
        }
    }
    let mut files: HashMap<String, (Vec<syn::Item>, Env)> = HashMap::new();
    let mut all_float_fns = HashSet::new();
    let mut all_float_fields = HashSet::new();
    for s in &sources {
        if files.contains_key(s) {
            continue;
        }
        let p = if s.starts_with('/') {
            s.clone()
        } else if let Some((krate, file)) = s.strip_prefix('@').and_then(|r| r.split_once('/')) {
            dependency(&repo, krate, file)
        } else {
            format!("{repo}/{s}")
        };
        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| lost(&format!("{p}: {e}")));
        let f = parse_file(&t).unwrap_or_else(|e| lost(&format!("{p}: {e}")));
        let its = items_of(&f);
        let mut env = Env {
            free_fns: HashMap::new(),
            trait_fns: HashMap::new(),
            macros: HashMap::new(),
            known: known.clone(),
            this_fns: this_fns.clone(),
            float_fns: HashSet::new(),
            float_fields: HashSet::new(),
            fconsts: fconsts.get(s).cloned().unwrap_or_default(),
            consts: HashSet::new(),
            mut_slices: RefCell::new(vec![]),
        };
        let fl = |r: &ReturnType| matches!(r, ReturnType::Type(_, t) if ["f64", "f32"].contains(&t.to_token_stream().to_string().as_str()));
        for i in &its {
            match i {
                syn::Item::Fn(f) => {
                    if fl(&f.sig.output) {
                        env.float_fns.insert(f.sig.ident.to_string());
                    }
                    env.free_fns.insert(f.sig.ident.to_string(), f.clone());
                }
                syn::Item::Trait(tr) => {
                    for x in &tr.items {
                        if let TraitItem::Fn(f) = x {
                            if f.default.is_some() {
                                env.trait_fns.insert(f.sig.ident.to_string(), f.sig.generics.type_params().count());
                            }
                        }
                    }
                }
                syn::Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if fl(&f.sig.output) {
                                env.float_fns.insert(f.sig.ident.to_string());
                            }
                        }
                    }
                }
                syn::Item::Struct(st) => {
                    for f in &st.fields {
                        if ["f64", "f32"].contains(&f.ty.to_token_stream().to_string().as_str()) {
                            if let Some(i) = &f.ident {
                                env.float_fields.insert(i.to_string());
                            }
                        }
                    }
                }
                syn::Item::Const(c) => {
                    env.consts.insert(c.ident.to_string());
                }
                syn::Item::Macro(m) => {
                    if let (Some(n), Some(r)) = (&m.ident, macros::rules(m)) {
                        env.macros.insert(n.to_string(), r);
                    }
                }
                _ => {}
            }
        }
        all_float_fns.extend(env.float_fns.iter().cloned());
        all_float_fields.extend(env.float_fields.iter().cloned());
        files.insert(s.clone(), (its, env));
    }
    let mut out = Out {
        text: String::from("#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n"),
        lits: HashMap::new(),
        fns: vec![],
        recorded: BTreeMap::new(),
        reference,
        notes: vec![],
        vacuity: a.iter().any(|x| x == "--vacuity"),
    };
    if items.iter().any(|i| matches!(i, spec::Item::Raw(t) if t.contains("struct Fl "))) {
        for d in ["0.0", "1.0"] {
            out.lits.insert(lit_name(d), d.into());
        }
    }
    let none = HashMap::new();
    for i in &items {
        match i {
            spec::Item::Raw(t) => out.text.push_str(t),
            spec::Item::Known(_) => {}
            spec::Item::Consts(n, s) => {
                // a trait of constants, and the types that implement it
                let (its, _) = &files[s];
                let Some(mut tr) = its.iter().find_map(|i| match i {
                    syn::Item::Trait(t) if t.ident == n => Some(t.clone()),
                    _ => None,
                }) else { lost(&format!("{s}: no trait {n}")) };
                tr.items.retain(|i| matches!(i, TraitItem::Const(_)));
                tr.vis = parse_quote!(pub);
                tr.attrs.clear();
                out.text.push_str(&format!("// @consts {n} {s}\n{}\n", print::text(tr.to_token_stream())));
                for i in its {
                    if let syn::Item::Impl(im) = i {
                        if im.trait_.as_ref().map_or(false, |t| t.1.is_ident(n.as_str())) {
                            let mut im = im.clone();
                            im.attrs.clear();
                            im.items.retain(|i| matches!(i, ImplItem::Const(_)));
                            out.text.push_str(&format!("pub struct {};\n{}\n", ty_name(&im.self_ty), print::text(im.to_token_stream())));
                        }
                    }
                }
            }
            spec::Item::Fn(f) => {
                let (its, env) = &files[&f.source];
                let Some(x) = find(its, &f.path) else { lost(&format!("{}: no function {}", f.source, f.path)) };
                emit_fn(&mut out, env, f, &f.source, x);
            }
            spec::Item::Struct(n, s) => {
                let (its, _) = &files[s];
                let (n, extra) = n.split_once(' ').unwrap_or((n, ""));
                let st = its.iter().find_map(|i| match i {
                    syn::Item::Struct(x) if x.ident == n => Some(syn::Item::Struct(x.clone())),
                    syn::Item::Enum(x) if x.ident == n => Some(syn::Item::Enum(x.clone())),
                    _ => None,
                });
                let Some(st) = st else { lost(&format!("{s}: no struct {n}")) };
                let mut dflt = None;
                let t = match st {
                    syn::Item::Struct(mut x) => {
                        let copy = x.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Copy"));
                        if x.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Default")) {
                            let (mut e, mut sp) = (vec![], vec![]);
                            for f in &x.fields {
                                let ty = f.ty.to_token_stream().to_string();
                                let name = f.ident.as_ref().unwrap();
                                let fl = ty == "f64" || ty == "f32";
                                if ty.starts_with("Option") {
                                    e.push(format!("{name}: None"));
                                    sp.push(format!("{name}: None"));
                                } else {
                                    e.push(format!("{name}: {}", if fl { "fl_0_0()" } else { "0" }));
                                    sp.push(format!("{name}: {}", if fl { "from_real(0real)" } else { "0" }));
                                }
                            }
                            // the default of a text has no contract here
                            if x.generics.params.is_empty() && x.fields.iter().all(|f| f.ty.to_token_stream().to_string() != "String") {
                                dflt = Some((e.join(", "), sp.join(", ")));
                            }
                        }
                        x.attrs.clear();
                        for f in x.fields.iter_mut() {
                            f.attrs.clear();
                            f.vis = parse_quote!(pub);
                        }
                        x.vis = parse_quote!(pub);
                        Types { assoc: &none, self_ty: None }.visit_item_struct_mut(&mut x);
                        format!("{}{}", if copy { "#[derive(Clone, Copy)]\n" } else { "" }, print::text(x.to_token_stream()))
                    }
                    syn::Item::Enum(mut x) => {
                        let copy = x.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Copy"));
                        x.attrs.clear();
                        for v in x.variants.iter_mut() {
                            v.attrs.clear();
                            for f in v.fields.iter_mut() {
                                f.attrs.clear();
                            }
                        }
                        x.vis = parse_quote!(pub);
                        format!("{}{}", if copy { "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" } else { "" }, print::text(x.to_token_stream()))
                    }
                    _ => unreachable!(),
                };
                out.text.push_str(&format!("// @struct {n} {s}\n{extra}\n{t}\n"));
                if let Some((e, sp)) = dflt {
                    out.text.push_str(&format!(
                        "impl VxDefault for {n} {{ open spec fn dflt() -> Self {{ {n} {{ {sp} }} }}\n fn vx_default() -> (ret: Self) {{ broadcast use ax_ext; {n} {{ {e} }} }} }}\n"
                    ));
                }
            }
            spec::Item::Const(n, s) => {
                let (its, _) = &files[s];
                if let Some((ty, name)) = n.split_once("::") {
                    // a constant of a type
                    let c = its.iter().find_map(|i| match i {
                        syn::Item::Impl(im) if im.trait_.is_none() && ty_name(&im.self_ty) == ty => im.items.iter().find_map(|x| match x {
                            ImplItem::Const(c) if c.ident == name => Some(c.clone()),
                            _ => None,
                        }),
                        _ => None,
                    });
                    let Some(mut c) = c else { lost(&format!("{s}: no constant {n}")) };
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    out.text.push_str(&format!("impl {ty} {{ {} }}\n", print::text(c.to_token_stream())));
                    continue;
                }
                let c = its.iter().find_map(|i| match i {
                    syn::Item::Const(c) if c.ident == n => Some(c.clone()),
                    _ => None,
                });
                let Some(mut c) = c else { lost(&format!("{s}: no constant {n}")) };
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                out.text.push_str(&print::text(c.to_token_stream()));
                out.text.push('\n');
            }
            spec::Item::FConst(n, sp, s) => {
                let (its, env) = &files[s];
                let c = its.iter().find_map(|i| match i {
                    syn::Item::Const(c) if c.ident == n => Some(c.clone()),
                    _ => None,
                });
                let Some(mut c) = c else { lost(&format!("{s}: no constant {n}")) };
                let line = c.span().start().line;
                Floats { env, vars: vec![], planes: vec![] }.visit_expr_mut(&mut c.expr);
                Misc { env, this: false, self_name: None, assoc: &none, fnvar: None, fnvalues: None, tself: None }.visit_expr_mut(&mut c.expr);
                Lits { env, lits: &mut out.lits }.visit_expr_mut(&mut c.expr);
                Types { assoc: &none, self_ty: None }.visit_type_mut(&mut c.ty);
                Types { assoc: &none, self_ty: None }.visit_expr_mut(&mut c.expr);
                let from = out.text.lines().count() + 1;
                out.text.push_str(&format!(
                    "// @fn {n} {s}:{line}\npub fn fc_{n}() -> (ret: {})\n{sp}\n{{ broadcast use ax_fr; {} }}\n// @endfn\n",
                    print::text(c.ty.to_token_stream()),
                    print::text(c.expr.to_token_stream())
                ));
                let to = out.text.lines().count();
                out.fns.push(format!("{{\"fn\":{n:?},\"source\":{s:?},\"line\":{line},\"from\":{from},\"to\":{to},\"loops\":0,\"clauses\":{}}}", sp.lines().filter(|l| !l.trim().is_empty()).count()));
            }
        }
    }
    let mut l: Vec<_> = out.lits.iter().collect();
    l.sort();
    for (f, d) in l {
        out.text.push_str(&format!(
            "#[verifier::external_body]\npub fn {f}() -> (ret: Fl) ensures ret@ == {d}real {{ Fl {{ v: {d} }} }}\n"
        ));
    }
    out.text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(opt("--out").expect("--out"), &out.text).unwrap();
    if let Some(m) = opt("--map") {
        let notes: Vec<String> = out.notes.iter().map(|n| format!("{n:?}")).collect();
        std::fs::write(m, format!("{{\"fns\":[{}],\"notes\":[{}]}}\n", out.fns.join(","), notes.join(","))).unwrap();
    }
    if let Some(p) = opt("--record") {
        let t: String = out.recorded.iter().map(|(k, v)| format!("{k}\t{}\n", v.join(" "))).collect();
        std::fs::write(p, t).unwrap();
    }
}
