//! Reads a contract file (.vx).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Anchor {
    Start,
    End,
    LoopStart(usize),
    LoopEnd(usize),
    LoopBefore(usize),
    LoopAfter(usize),
    Let(String),
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub path: String,
    pub as_name: Option<String>,
    pub self_ty: Option<String>,
    /// the implementing type of a trait whose default method is emitted as a function
    pub tself: Option<String>,
    pub sig: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub isolated: Vec<usize>,
    /// infinities and NaN are expected in this function
    pub specials: bool,
    pub moves: bool,
    /// a variable that holds a function
    pub fnvar: Option<(String, String)>,
    /// the enum of the functions that are used as values
    pub fnvalues: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub ats: Vec<(Anchor, String)>,
    pub subst: Vec<(String, String)>,
    pub nested: Vec<FnSpec>,
    pub source: String,
}

#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Fn(FnSpec),
    Struct(String, String),
    /// a constant of float type, emitted as a function with this postcondition
    FConst(String, String, String),
    Const(String, String),
    /// a trait of constants with its implementations
    Consts(String, String),
    /// functions which have a contract in the prelude (assumed, or verified there)
    Known(Vec<String>),
}

pub fn parse(text: &str) -> Vec<Item> {
    let mut items = vec![];
    let mut source = String::new();
    let mut cur: Option<FnSpec> = None;
    // where text lines go
    enum Sink {
        None,
        Raw(String),
        Spec,
        Loop(usize),
        At(usize),
        FConst(String, String),
    }
    let mut sink = Sink::None;
    let mut nested_stack: Vec<FnSpec> = vec![];
    for (no, line) in text.lines().enumerate() {
        let t = line.trim();
        if let Sink::Raw(s) = &mut sink {
            if t == "%end" {
                items.push(Item::Raw(std::mem::take(s)));
                sink = Sink::None;
            } else {
                s.push_str(line);
                s.push('\n');
            }
            continue;
        }
        if let Some(d) = t.strip_prefix('%') {
            let mut w = d.split_whitespace();
            let cmd = w.next().unwrap_or("");
            let rest = d[cmd.len()..].trim().to_string();
            if let Sink::FConst(n, s) = &mut sink {
                items.push(Item::FConst(std::mem::take(n), std::mem::take(s), source.clone()));
            }
            sink = Sink::None;
            match cmd {
                "source" => source = rest,
                "raw" => sink = Sink::Raw(String::new()),
                "struct" => items.push(Item::Struct(rest, source.clone())),
                "consts" => items.push(Item::Consts(rest, source.clone())),
                "fnvar" => {
                    let (a, b) = rest.split_once(' ').expect("%fnvar NAME FUNCTION");
                    cur.as_mut().unwrap().fnvar = Some((a.into(), b.into()));
                }
                "fnvalues" => cur.as_mut().unwrap().fnvalues = Some(rest),
                "const" => items.push(Item::Const(rest, source.clone())),
                "fconst" => sink = Sink::FConst(rest, String::new()),
                "known" => items.push(Item::Known(rest.split_whitespace().map(str::to_string).collect())),
                "fn" => {
                    assert!(cur.is_none(), "line {}: %endfn is missing", no + 1);
                    let mut p = rest.split(" as ");
                    cur = Some(FnSpec {
                        path: p.next().unwrap().trim().into(),
                        as_name: p.next().map(|s| s.trim().into()),
                        source: source.clone(),
                        ..Default::default()
                    });
                }
                "nested" => {
                    nested_stack.push(cur.take().unwrap());
                    cur = Some(FnSpec { path: rest, source: source.clone(), ..Default::default() });
                }
                "endnested" => {
                    let n = cur.take().unwrap();
                    let mut p = nested_stack.pop().unwrap();
                    p.nested.push(n);
                    cur = Some(p);
                }
                "endfn" => items.push(Item::Fn(cur.take().unwrap())),
                "moves" => cur.as_mut().unwrap().moves = true,
                "specials" => cur.as_mut().unwrap().specials = true,
                "tself" => cur.as_mut().unwrap().tself = Some(rest),
                "self" => cur.as_mut().unwrap().self_ty = Some(rest),
                "sig" => cur.as_mut().unwrap().sig = Some(rest),
                "attr" => cur.as_mut().unwrap().attrs.push(rest),
                "subst" => {
                    let (a, b) = rest.split_once("=>").expect("%subst A => B");
                    cur.as_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                "spec" => sink = Sink::Spec,
                "loop" => {
                    let (k, iso) = rest.split_once(' ').unwrap_or((&rest, ""));
                    let k: usize = k.parse().unwrap();
                    if iso == "isolated" {
                        cur.as_mut().unwrap().isolated.push(k);
                    }
                    cur.as_mut().unwrap().loops.insert(k, String::new());
                    sink = Sink::Loop(k);
                }
                "at" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    let a = match v[..] {
                        ["start"] => Anchor::Start,
                        ["end"] => Anchor::End,
                        ["loop", k, "start"] => Anchor::LoopStart(k.parse().unwrap()),
                        ["loop", k, "end"] => Anchor::LoopEnd(k.parse().unwrap()),
                        ["loop", k, "before"] => Anchor::LoopBefore(k.parse().unwrap()),
                        ["loop", k, "after"] => Anchor::LoopAfter(k.parse().unwrap()),
                        ["let", n] => Anchor::Let(n.to_string()),
                        _ => panic!("line {}: bad anchor {rest}", no + 1),
                    };
                    let c = cur.as_mut().unwrap();
                    c.ats.push((a, String::new()));
                    sink = Sink::At(c.ats.len() - 1);
                }
                _ => panic!("line {}: unknown directive {t}", no + 1),
            }
            continue;
        }
        match &mut sink {
            Sink::None => {
                assert!(t.is_empty() || t.starts_with('#'), "line {}: stray text {t}", no + 1)
            }
            Sink::Spec => {
                let s = &mut cur.as_mut().unwrap().spec;
                s.push_str(line);
                s.push('\n');
            }
            Sink::Loop(k) => {
                let s = cur.as_mut().unwrap().loops.get_mut(k).unwrap();
                s.push_str(line);
                s.push('\n');
            }
            Sink::At(i) => {
                let s = &mut cur.as_mut().unwrap().ats[*i].1;
                s.push_str(line);
                s.push('\n');
            }
            Sink::FConst(_, s) => {
                s.push_str(line);
                s.push('\n');
            }
            Sink::Raw(_) => unreachable!(),
        }
    }
    assert!(cur.is_none(), "%endfn is missing at the end");
    if let Sink::FConst(n, s) = sink {
        items.push(Item::FConst(n, s, source));
    }
    items
}
