//! Token printing with line breaks, and hole substitution.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

fn walk(ts: TokenStream, o: &mut String, nl: bool) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::None {
                    // invisible group: keep precedence explicit
                    o.push_str(" (");
                    walk(g.stream(), o, false);
                    o.push(')');
                } else {
                    if !joint {
                        o.push(' ');
                    }
                    o.push_str(a);
                    let brace = g.delimiter() == Delimiter::Brace && nl;
                    if brace {
                        o.push('\n');
                    }
                    walk(g.stream(), o, nl);
                    if brace {
                        o.push('\n');
                    }
                    o.push_str(b);
                    if brace {
                        o.push('\n');
                    }
                }
                joint = false;
            }
            TokenTree::Ident(i) => {
                if !joint {
                    o.push(' ');
                }
                o.push_str(&i.to_string());
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint {
                    o.push(' ');
                }
                o.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' && nl {
                    o.push('\n');
                }
            }
            TokenTree::Literal(l) => {
                if !joint {
                    o.push(' ');
                }
                o.push_str(&l.to_string());
                joint = false;
            }
        }
    }
}

pub fn print(ts: TokenStream) -> String {
    let mut o = String::new();
    walk(ts, &mut o, true);
    // drop empty lines
    o.lines()
        .filter(|l| !l.trim().is_empty())
        .collect::<Vec<_>>()
        .join("\n")
}

pub fn flat(ts: TokenStream) -> String {
    let mut o = String::new();
    walk(ts, &mut o, false);
    o.trim().to_string()
}

/// Replaces `vx_hole!(i);`; for a loop-invariant hole the text goes before the preceding `{`.
pub fn fill_hole(body: &str, i: usize, text: &str, inv: bool) -> String {
    let needle = format!("vx_hole ! ({i}) ;");
    let needle2 = format!("vx_hole ! ( {i}) ;");
    let (pos, len) = match body.find(&needle) {
        Some(p) => (p, needle.len()),
        None => match body.find(&needle2) {
            Some(p) => (p, needle2.len()),
            None => return body.to_string(),
        },
    };
    if inv {
        let brace = body[..pos].rfind('{').unwrap();
        format!(
            "{}\n{}{{{}",
            &body[..brace],
            text,
            &body[pos + len..]
        )
    } else {
        format!("{}\n{}\n{}", &body[..pos], text, &body[pos + len..])
    }
}
