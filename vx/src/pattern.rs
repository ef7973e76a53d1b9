//! Token-level expression patterns with metavariables `$x`.
use crate::Res;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum P {
    Meta(String),
    Tok(String),
    Grp(Delimiter, Vec<P>),
}

#[derive(Clone)]
pub struct Rule {
    pat: Vec<P>,
    rep: String,
    pub src: String,
    kind: Option<std::mem::Discriminant<syn::Expr>>,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn build(ts: TokenStream) -> Vec<P> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id.to_string().starts_with("META_") => {
                o.push(P::Meta(id.to_string()[5..].to_string()));
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => {
                o.extend(build(g.stream()));
            }
            TokenTree::Group(g) => o.push(P::Grp(g.delimiter(), build(g.stream()))),
            t => o.push(P::Tok(t.to_string())),
        }
        i += 1;
    }
    // trailing commas are not significant
    o
}

fn strip_none(ts: TokenStream) -> Vec<TokenTree> {
    let mut o = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => {
                o.extend(strip_none(g.stream()))
            }
            t => o.push(t),
        }
    }
    o
}

fn m(p: &[P], t: &[TokenTree], env: &mut BTreeMap<String, TokenStream>) -> bool {
    if p.is_empty() {
        return t.is_empty() || (t.len() == 1 && t[0].to_string() == ",");
    }
    match &p[0] {
        P::Tok(s) => !t.is_empty() && t[0].to_string() == *s && m(&p[1..], &t[1..], env),
        P::Grp(d, inner) => match t.first() {
            Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                let saved = env.clone();
                let it = strip_none(g.stream());
                if m(inner, &it, env) && m(&p[1..], &t[1..], env) {
                    true
                } else {
                    *env = saved;
                    false
                }
            }
            _ => false,
        },
        P::Meta(n) => {
            for k in 1..=t.len() {
                // an expression metavariable does not swallow statement separators
                if t[k - 1].to_string() == ";" {
                    break;
                }
                let ts: TokenStream = t[..k].iter().cloned().collect();
                if let Some(prev) = env.get(n) {
                    if prev.to_string() != ts.to_string() {
                        continue;
                    }
                    if m(&p[1..], &t[k..], env) {
                        return true;
                    }
                    continue;
                }
                let saved = env.clone();
                env.insert(n.clone(), ts);
                if m(&p[1..], &t[k..], env) {
                    return true;
                }
                *env = saved;
            }
            false
        }
    }
}

fn metas(s: &str) -> String {
    s.replace('$', "META_")
}

impl Rule {
    pub fn parse(a: &str, b: &str) -> Res<Rule> {
        let ts: TokenStream = metas(a).parse().map_err(|e| format!("pattern {a}: {e}"))?;
        // a pattern that is itself an expression only matches expressions of its own kind
        let kind = syn::parse2::<syn::Expr>(ts.clone())
            .ok()
            .filter(|e| !matches!(e, syn::Expr::Path(_)))
            .map(|e| std::mem::discriminant(&e));
        Ok(Rule {
            kind,
            pat: build(ts),
            rep: metas(b),
            src: format!("{a} => {b}"),
        })
    }
    pub fn apply_tokens(&self, ts: TokenStream) -> Option<TokenStream> {
        let t = strip_none(ts);
        let mut env = BTreeMap::new();
        if !m(&self.pat, &t, &mut env) {
            return None;
        }
        let rep: TokenStream = self.rep.parse().ok()?;
        Some(subst(rep, &env))
    }
    pub fn apply(&self, e: &syn::Expr) -> Option<syn::Expr> {
        if let Some(k) = self.kind {
            if k != std::mem::discriminant(e) {
                return None;
            }
        }
        let ts = self.apply_tokens(e.to_token_stream())?;
        match syn::parse2(ts.clone()) {
            Ok(x) => Some(x),
            Err(err) => {
                eprintln!("vx: rule {} gives unparsable {}: {}", self.src, ts, err);
                None
            }
        }
    }
}

fn subst(ts: TokenStream, env: &BTreeMap<String, TokenStream>) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(ref i) if i.to_string().starts_with("META_") => {
                    match env.get(&i.to_string()[5..]) {
                        Some(x) => x.clone().into_iter().collect(),
                        None => vec![t],
                    }
                }
                TokenTree::Group(g) => {
                    vec![TokenTree::Group(proc_macro2::Group::new(
                        g.delimiter(),
                        subst(g.stream(), env),
                    ))]
                }
                t => vec![t],
            }
        })
        .collect()
}

/// Does the statement itself (not a block nested in it) call `name`?
struct Calls<'a> {
    name: &'a str,
    hit: bool,
}

impl<'ast, 'a> syn::visit::Visit<'ast> for Calls<'a> {
    fn visit_block(&mut self, _b: &'ast syn::Block) {}
    fn visit_expr_method_call(&mut self, i: &'ast syn::ExprMethodCall) {
        if i.method == self.name {
            self.hit = true;
        }
        syn::visit::visit_expr_method_call(self, i);
    }
    fn visit_expr_call(&mut self, i: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*i.func {
            if p.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
                self.hit = true;
            }
        }
        syn::visit::visit_expr_call(self, i);
    }
}

fn idents(ts: TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => v.extend(idents(g.stream())),
            proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()),
            _ => {}
        }
    }
    v
}

/// Anchors: `@if x` (an `if` whose condition mentions x), `@call f` (statement that itself calls f), `@let x` (statement that
/// binds x), otherwise a whole-statement pattern with metavariables.
pub fn stmt_matches(pat: &str, s: &syn::Stmt) -> bool {
    let pat = pat.trim();
    if let Some(name) = pat.strip_prefix("@call ") {
        let mut c = Calls { name: name.trim(), hit: false };
        syn::visit::Visit::visit_stmt(&mut c, s);
        return c.hit;
    }
    if let Some(name) = pat.strip_prefix("@if ") {
        if let syn::Stmt::Expr(syn::Expr::If(i), _) = s {
            return idents(i.cond.to_token_stream()).iter().any(|t| t == name.trim());
        }
        return false;
    }
    if pat == "@continue" {
        return matches!(s, syn::Stmt::Expr(syn::Expr::Continue(_), _));
    }
    if pat == "@loop" {
        return matches!(
            s,
            syn::Stmt::Expr(syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_), _)
        );
    }
    if let Some(name) = pat.strip_prefix("@let ") {
        if let syn::Stmt::Local(l) = s {
            return strip_none(l.pat.to_token_stream())
                .into_iter()
                .any(|t| t.to_string() == name.trim());
        }
        return false;
    }
    let ts: TokenStream = match metas(pat).parse() {
        Ok(t) => t,
        Err(_) => return false,
    };
    let p = build(ts);
    let t = strip_none(s.to_token_stream());
    let mut env = BTreeMap::new();
    m(&p, &t, &mut env)
}
