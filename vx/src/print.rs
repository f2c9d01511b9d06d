//! Prints tokens with line breaks after `;`, `{` and `}`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn text(ts: TokenStream) -> String {
    let mut o = String::new();
    go(ts, &mut o, true);
    o
}

fn go(ts: TokenStream, o: &mut String, braces: bool) {
    let mut glue = true;
    for t in ts {
        if !glue && !o.ends_with('\n') {
            o.push(' ');
        }
        glue = false;
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{\n", "}"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                go(g.stream(), o, g.delimiter() == Delimiter::Brace);
                if g.delimiter() == Delimiter::Brace && !o.ends_with('\n') {
                    o.push('\n');
                }
                o.push_str(b);
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                glue = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' && braces {
                    o.push('\n');
                }
            }
            t => o.push_str(&t.to_string()),
        }
    }
}
