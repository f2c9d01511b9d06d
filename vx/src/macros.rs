//! Expansion of the `macro_rules!` of a file (one level of repetition).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Rules(Vec<(Vec<TokenTree>, TokenStream)>);
#[derive(Clone)]
enum Bound {
    One(TokenStream),
    Many(Vec<HashMap<String, Bound>>),
}
type Binds = HashMap<String, Bound>;

pub fn rules(m: &ItemMacro) -> Option<Rules> {
    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (mut i, mut out) = (0, vec![]);
    while i + 3 < v.len() + 0 {
        let (TokenTree::Group(p), TokenTree::Group(b)) = (&v[i], &v[i + 3]) else { return None };
        out.push((p.stream().into_iter().collect(), b.stream()));
        i += 4;
        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
            i += 1;
        }
    }
    Some(Rules(out))
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
/// the fragment at the start of the input, and what follows it
fn fragment(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    let s: TokenStream = input.iter().cloned().collect();
    let (f, rest): (TokenStream, TokenStream) = match kind {
        "expr" => (|i: ParseStream| {
            let e: Expr = i.parse()?;
            let simple = matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::Paren(_));
            let r: TokenStream = i.parse()?;
            Ok((if simple { quote::quote!(#e) } else { quote::quote!((#e)) }, r))
        })
        .parse2(s)
        .ok()?,
        "ident" | "tt" | "literal" => {
            let t = input.first()?.clone();
            (t.into(), input[1..].iter().cloned().collect())
        }
        "ty" => (|i: ParseStream| {
            let e: Type = i.parse()?;
            let r: TokenStream = i.parse()?;
            Ok((quote::quote!(#e), r))
        })
        .parse2(s)
        .ok()?,
        _ => return None,
    };
    Some((f, rest.into_iter().collect()))
}
/// what is left of the input
fn matches_(pat: &[TokenTree], mut input: Vec<TokenTree>, out: &mut Binds) -> Option<Vec<TokenTree>> {
    let mut i = 0;
    while i < pat.len() {
        if punct(pat.get(i), '$') {
            match pat.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = pat.get(i + 3)? else { return None };
                    let (f, r) = fragment(&k.to_string(), &input)?;
                    out.insert(n.to_string(), Bound::One(f));
                    input = r;
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    // a separator is optional
                    let (sep, n) = match pat.get(i + 2)? {
                        TokenTree::Punct(p) if "*+?".contains(p.as_char()) => (None, 3),
                        TokenTree::Punct(p) => (Some(p.as_char()), 4),
                        _ => return None,
                    };
                    let mut many = vec![];
                    loop {
                        let mut b = Binds::new();
                        let before = input.len();
                        let Some(r) = matches_(&inner, input.clone(), &mut b) else { break };
                        if r.len() == before {
                            break;
                        }
                        input = r;
                        many.push(b);
                        match sep {
                            Some(c) if punct(input.first(), c) => {
                                input.remove(0);
                            }
                            Some(_) => break,
                            None => {}
                        }
                    }
                    out.insert(format!("$rep{i}"), Bound::Many(many));
                    i += n;
                }
                _ => return None,
            }
            continue;
        }
        let t = input.first()?.clone();
        match (&pat[i], &t) {
            (TokenTree::Group(p), TokenTree::Group(g)) if p.delimiter() == g.delimiter() => {
                let inner: Vec<TokenTree> = p.stream().into_iter().collect();
                let r = matches_(&inner, g.stream().into_iter().collect(), out)?;
                if !r.is_empty() {
                    return None;
                }
            }
            (a, b) if a.to_string() == b.to_string() => {}
            _ => return None,
        }
        input.remove(0);
        i += 1;
    }
    Some(input)
}
fn names(t: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => names(g.stream(), out),
            TokenTree::Ident(n) if i > 0 && punct(v.get(i - 1), '$') => out.push(n.to_string()),
            _ => {}
        }
    }
}
fn expand(t: TokenStream, b: &Binds) -> Option<TokenStream> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let Bound::One(s) = b.get(&n.to_string())? else { return None };
                    out.extend(s.clone());
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let n = match v.get(i + 2)? {
                        TokenTree::Punct(p) if "*+?".contains(p.as_char()) => 3,
                        _ => 4,
                    };
                    let sep = if n == 4 { v.get(i + 2).cloned() } else { None };
                    let mut used = vec![];
                    names(g.stream(), &mut used);
                    let many = b.values().find_map(|x| match x {
                        Bound::Many(m) if m.iter().any(|h| used.iter().any(|u| h.contains_key(u))) => Some(m.clone()),
                        _ => None,
                    });
                    for (k, h) in many.unwrap_or_default().iter().enumerate() {
                        let mut all = b.clone();
                        all.extend(h.clone());
                        if k > 0 {
                            out.extend(sep.clone());
                        }
                        out.extend(expand(g.stream(), &all)?);
                    }
                    i += n;
                }
                _ => return None,
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), expand(g.stream(), b)?))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Some(out.into_iter().collect())
}
pub fn call(r: &Rules, input: TokenStream) -> Option<Expr> {
    for (p, body) in &r.0 {
        let mut b = Binds::new();
        if let Some(rest) = matches_(p, input.clone().into_iter().collect(), &mut b) {
            if rest.is_empty() {
                let t = expand(body.clone(), &b)?;
                if let Ok(e) = parse2::<Expr>(t.clone()) {
                    return Some(e);
                }
                return parse2::<Expr>(TokenTree::Group(Group::new(Delimiter::Brace, t)).into()).ok();
            }
        }
    }
    None
}
pub struct Expand<'a>(pub &'a HashMap<String, Rules>);
impl VisitMut for Expand<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..20 {
            let Expr::Macro(m) = &*e else { break };
            let Some(r) = m.mac.path.get_ident().and_then(|n| self.0.get(&n.to_string())) else { break };
            match call(r, m.mac.tokens.clone()) {
                Some(x) => *e = x,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(r) = m.mac.path.get_ident().and_then(|n| self.0.get(&n.to_string())) {
                if let Some(x) = call(r, m.mac.tokens.clone()) {
                    *s = Stmt::Expr(x, m.semi_token);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
