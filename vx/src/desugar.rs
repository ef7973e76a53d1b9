//! The documented rewrites: macros, loops, iterator chains, closures, arithmetic, types.
use crate::{Res, Rules};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Stmt};

fn args(ts: &proc_macro2::TokenStream) -> Res<Vec<Expr>> {
    use syn::parse::Parser;
    let p = Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    p.parse2(ts.clone())
        .map(|x| x.into_iter().collect())
        .map_err(|e| format!("macro arguments {ts}: {e}"))
}

pub fn errexpr(e: Option<&Expr>) -> Expr {
    match e {
        Some(e) => parse_quote!(vx_err(#e)),
        None => parse_quote!(vx_err_unspecified()),
    }
}

struct Macros<'a> {
    dropped: &'a mut BTreeSet<String>,
    abort: bool,
    err: Option<String>,
}

const DROP: &[&str] = &["msg", "emit", "emit_cpi", "println", "eprintln", "debug_assert"];
const DROP_FN: &[&str] = &["emit_stack"];

impl<'a> Macros<'a> {
    /// None: not a macro we translate.
    fn mac(&mut self, m: &syn::Macro) -> Res<Option<Expr>> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if DROP.contains(&name.as_str()) {
            self.dropped.insert(format!("{name}!(..)"));
            return Ok(Some(parse_quote!(())));
        }
        let cmp = |op: &str| -> Option<syn::BinOp> { syn::parse_str(op).ok() };
        let bin = match name.as_str() {
            "require_gte" => cmp(">="),
            "require_gt" => cmp(">"),
            "require_eq" | "require_keys_eq" => cmp("=="),
            "require_neq" | "require_keys_neq" => cmp("!="),
            _ => None,
        };
        if let Some(op) = bin {
            let a = args(&m.tokens)?;
            let (x, y) = (&a[0], &a[1]);
            let e = errexpr(a.get(2));
            return Ok(Some(parse_quote!(if !((#x) #op (#y)) { return Err(#e); })));
        }
        let r: Option<Expr> = match name.as_str() {
            "require" => {
                let a = args(&m.tokens)?;
                let c = &a[0];
                let e = errexpr(a.get(1));
                Some(parse_quote!(if !(#c) { return Err(#e); }))
            }
            "err" => {
                let a = args(&m.tokens)?;
                let e = errexpr(a.first());
                Some(parse_quote!(Err(#e)))
            }
            "error" => Some(errexpr(args(&m.tokens)?.first())),
            "error_msg_typed" => {
                // only the code is kept, the message is dropped
                self.dropped.insert("error message text".into());
                let t: Vec<proc_macro2::TokenTree> = m
                    .tokens
                    .clone()
                    .into_iter()
                    .take_while(|t| t.to_string() != ",")
                    .collect();
                let ts: proc_macro2::TokenStream = t.into_iter().collect();
                let e: Expr = syn::parse2(ts).map_err(|e| e.to_string())?;
                Some(errexpr(Some(&e)))
            }
            "error_msg" => Some(errexpr(None)),
            "assert" => {
                let a = args(&m.tokens)?;
                let c = &a[0];
                Some(if self.abort {
                    parse_quote!(vx_assert(#c))
                } else {
                    parse_quote!(vx_require(#c))
                })
            }
            "assert_eq" | "assert_ne" => {
                let a = args(&m.tokens)?;
                let (x, y) = (&a[0], &a[1]);
                let op: syn::BinOp = if name == "assert_eq" {
                    syn::parse_str("==").unwrap()
                } else {
                    syn::parse_str("!=").unwrap()
                };
                Some(if self.abort {
                    parse_quote!(vx_assert((#x) #op (#y)))
                } else {
                    parse_quote!(vx_require((#x) #op (#y)))
                })
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(if self.abort {
                parse_quote!(vx_abort())
            } else {
                parse_quote!(vx_unreachable())
            }),
            _ => None,
        };
        Ok(r)
    }
}

impl<'a> VisitMut for Macros<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(sm) => match self.mac(&sm.mac) {
                    Ok(Some(e)) => {
                        if e.to_token_stream().to_string() == "()" {
                            continue;
                        }
                        out.push(Stmt::Expr(
                            e,
                            sm.semi_token.or(Some(Default::default())),
                        ));
                    }
                    Ok(None) => out.push(Stmt::Macro(sm)),
                    Err(e) => self.err = Some(e),
                },
                Stmt::Expr(Expr::Call(c), semi) => {
                    let f = c.func.to_token_stream().to_string();
                    if DROP_FN.contains(&f.as_str()) {
                        self.dropped.insert(format!("{f}(..)"));
                        continue;
                    }
                    out.push(Stmt::Expr(Expr::Call(c), semi));
                }
                Stmt::Item(i) => {
                    if !matches!(i, syn::Item::Use(_)) {
                        out.push(Stmt::Item(i));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        e_strip_attrs(e);
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac) {
                Ok(Some(x)) => {
                    *e = x;
                }
                Ok(None) => {}
                Err(x) => self.err = Some(x),
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        l.attrs.clear();
        syn::visit_mut::visit_local_mut(self, l);
    }
}

fn e_strip_attrs(e: &mut Expr) {
    macro_rules! s { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clear(),)* _ => {} } } }
    s!(Assign, Block, Call, If, Match, MethodCall, Loop, While, ForLoop, Return, Let, Macro, Struct);
}

/// One-arm macros of the repository itself are expanded in place.
pub fn local_macros(b: &mut syn::Block, repo: &crate::source::Repo) -> Res<()> {
    struct L<'a> {
        repo: &'a crate::source::Repo,
    }
    impl<'a> VisitMut for L<'a> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                if let Stmt::Macro(m) = &s {
                    if let Some(ts) = self.repo.expand(&m.mac) {
                        if let Ok(bl) = syn::parse2::<syn::Block>(quote::quote!({ #ts })) {
                            out.extend(bl.stmts);
                            continue;
                        }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
            syn::visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if let Some(ts) = self.repo.expand(&m.mac) {
                    if let Ok(x) = syn::parse2::<Expr>(ts) {
                        *e = x;
                    }
                }
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    L { repo }.visit_block_mut(b);
    Ok(())
}

pub fn macros(b: &mut syn::Block, dropped: &mut BTreeSet<String>, abort: bool) -> Res<()> {
    let mut m = Macros {
        dropped,
        abort,
        err: None,
    };
    m.visit_block_mut(b);
    match m.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------

struct ApplyRules<'a> {
    rules: &'a Rules,
}

impl<'a> ApplyRules<'a> {
    fn one(&self, e: &mut Expr) -> bool {
        for r in &self.rules.expr {
            if let Some(x) = r.apply(e) {
                if x.to_token_stream().to_string() == e.to_token_stream().to_string() {
                    continue;
                }
                *e = x;
                return true;
            }
        }
        false
    }
}

impl<'a> VisitMut for ApplyRules<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut n = 0;
        while n < 8 && self.one(e) {
            n += 1;
        }
        syn::visit_mut::visit_expr_mut(self, e);
        n = 0;
        while n < 8 && self.one(e) {
            n += 1;
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
        b.stmts.retain(|s| match s {
            Stmt::Expr(e, Some(_)) => e.to_token_stream().to_string() != "()",
            _ => true,
        });
    }
}

// ------------------------------------------------------------------ let-bound closures
/// `let f = <closure or if/else of closures>; ... f(args)` : calls are replaced by the body.
struct LetClosures {
    map: BTreeMap<String, Expr>,
}

fn closure_leaves(e: &Expr) -> bool {
    match e {
        Expr::Closure(_) => true,
        Expr::Paren(p) => closure_leaves(&p.expr),
        Expr::If(i) => {
            let then = match i.then_branch.stmts.as_slice() {
                [Stmt::Expr(x, None)] => closure_leaves(x),
                _ => false,
            };
            let els = match &i.else_branch {
                Some((_, x)) => closure_leaves(x),
                None => false,
            };
            then && els
        }
        Expr::Block(b) => match b.block.stmts.as_slice() {
            [Stmt::Expr(x, None)] => closure_leaves(x),
            _ => false,
        },
        _ => false,
    }
}

fn beta(e: &Expr, argv: &[Expr]) -> Expr {
    match e {
        Expr::Closure(c) => apply_closure(c, argv),
        Expr::Paren(p) => beta(&p.expr, argv),
        Expr::If(i) => {
            let mut j = i.clone();
            if let [Stmt::Expr(x, None)] = i.then_branch.stmts.as_slice() {
                j.then_branch.stmts = vec![Stmt::Expr(beta(x, argv), None)];
            }
            if let Some((t, x)) = &i.else_branch {
                j.else_branch = Some((*t, Box::new(beta(x, argv))));
            }
            Expr::If(j)
        }
        Expr::Block(b) => {
            let mut j = b.clone();
            if let [Stmt::Expr(x, None)] = b.block.stmts.as_slice() {
                j.block.stmts = vec![Stmt::Expr(beta(x, argv), None)];
            }
            Expr::Block(j)
        }
        _ => e.clone(),
    }
}

/// The value an expression of reference type points to.
fn peel_ref(a: &Expr) -> Expr {
    match a {
        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
        a => parse_quote!(*(#a)),
    }
}

// ------------------------------------------------------------------ reference patterns
/// `&x` in a match arm or `if let` binds `x` by reference and copies it at the start of the body.
struct RefPats;

struct DropRef {
    ids: Vec<syn::Ident>,
    inside: bool,
}

impl VisitMut for DropRef {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p {
            let mut q = (*r.pat).clone();
            let was = self.inside;
            self.inside = true;
            self.visit_pat_mut(&mut q);
            self.inside = was;
            *p = q;
            return;
        }
        if let (syn::Pat::Ident(i), true) = (&*p, self.inside) {
            self.ids.push(i.ident.clone());
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        syn::visit_mut::visit_field_pat_mut(self, f);
    }
}

fn copies(p: &mut syn::Pat) -> Vec<Stmt> {
    let mut d = DropRef { ids: vec![], inside: false };
    d.visit_pat_mut(p);
    d.ids.iter().map(|i| parse_quote!(let #i = *#i;)).collect()
}

impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let c = copies(&mut a.pat);
        if !c.is_empty() {
            let b = &a.body;
            a.body = match &**b {
                Expr::Block(bl) => {
                    let st = &bl.block.stmts;
                    Box::new(parse_quote!({ #(#c)* #(#st)* }))
                }
                b => Box::new(parse_quote!({ #(#c)* #b })),
            };
            a.comma = Some(Default::default());
        }
        syn::visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, e: &mut syn::ExprIf) {
        if let Expr::Let(l) = &mut *e.cond {
            let c = copies(&mut l.pat);
            for s in c.into_iter().rev() {
                e.then_branch.stmts.insert(0, s);
            }
        }
        syn::visit_mut::visit_expr_if_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let (syn::Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
            if i.diverge.is_none() {
                i.expr = Box::new(peel_ref(&i.expr));
                l.pat = (*r.pat).clone();
            }
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
}

/// `{ let p1 = a1; ...; body }`
pub fn apply_closure(c: &syn::ExprClosure, argv: &[Expr]) -> Expr {
    let mut stmts: Vec<Stmt> = vec![];
    for (p, a) in c.inputs.iter().zip(argv) {
        if matches!(p, syn::Pat::Wild(_)) {
            continue;
        }
        if let syn::Pat::Reference(r) = p {
            let (q, a) = (&r.pat, peel_ref(a));
            stmts.push(parse_quote!(let #q = #a;));
            continue;
        }
        stmts.push(parse_quote!(let #p = #a;));
    }
    let body = &c.body;
    if stmts.is_empty() {
        return parse_quote!((#body));
    }
    parse_quote!({ #(#stmts)* #body })
}

impl VisitMut for LetClosures {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let saved = self.map.clone();
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if closure_leaves(&init.expr) {
                        self.map.insert(i.ident.to_string(), (*init.expr).clone());
                        continue;
                    }
                }
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.map = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident() {
                    if let Some(f) = self.map.get(&i.to_string()) {
                        let a: Vec<Expr> = c.args.iter().cloned().collect();
                        let r = beta(f, &a);
                        *e = parse_quote!((#r));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ option/result closures
struct OptClosures;

fn closure_arg(m: &syn::ExprMethodCall, i: usize) -> Option<syn::ExprClosure> {
    match m.args.iter().nth(i) {
        Some(Expr::Closure(c)) => Some(c.clone()),
        _ => None,
    }
}

impl VisitMut for OptClosures {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = &m.receiver;
            let v: Expr = parse_quote!(vx_v);
            match (name.as_str(), m.args.len()) {
                ("ok_or_else", 1) => {
                    if let Some(c) = closure_arg(m, 0) {
                        let b = apply_closure(&c, &[]);
                        *e = parse_quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) }));
                    }
                }
                ("map_err", 1) => {
                    if let Some(c) = closure_arg(m, 0) {
                        let b = apply_closure(&c, &[v]);
                        *e = parse_quote!((match #recv { Ok(vx_ok) => Ok(vx_ok), Err(vx_v) => Err(#b) }));
                    }
                }
                ("unwrap_or_else", 1) => {
                    if let Some(c) = closure_arg(m, 0) {
                        if c.inputs.is_empty() {
                            let b = apply_closure(&c, &[]);
                            *e = parse_quote!((match #recv { Some(vx_v) => vx_v, None => #b }));
                        }
                    }
                }
                ("and_then", 1) => {
                    if let Some(c) = closure_arg(m, 0) {
                        let b = apply_closure(&c, &[v]);
                        *e = parse_quote!((match #recv { Some(vx_v) => #b, None => None }));
                    }
                }
                ("map", 1) => {
                    if let Some(c) = closure_arg(m, 0) {
                        let b = apply_closure(&c, &[v]);
                        *e = parse_quote!((match #recv { Some(vx_v) => Some(#b), None => None }));
                    }
                }
                ("map_or", 2) => {
                    if let Some(c) = closure_arg(m, 1) {
                        let d = &m.args[0];
                        let b = apply_closure(&c, &[v]);
                        *e = parse_quote!((match #recv { Some(vx_v) => #b, None => #d }));
                    }
                }
                ("filter", 1) if false => {}
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------ iterator chains
/// `base.iter()[.rev()][.filter(p)][.map(f)]*.terminal(..)` becomes an index loop.
struct Chains {
    n: usize,
}

enum Step {
    Filter(syn::ExprClosure),
    Map(syn::ExprClosure),
}

fn split_chain(e: &Expr) -> Option<(Expr, bool, Vec<Step>)> {
    // returns (indexable base, reversed, steps)
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) => Some(((*m.receiver).clone(), false, vec![])),
                ("rev", 0) => {
                    let (b, r, s) = split_chain(&m.receiver)?;
                    if s.is_empty() {
                        Some((b, !r, s))
                    } else {
                        None
                    }
                }
                ("filter", 1) => {
                    let (b, r, mut s) = split_chain(&m.receiver)?;
                    s.push(Step::Filter(closure_arg(m, 0)?));
                    Some((b, r, s))
                }
                ("map", 1) => {
                    let (b, r, mut s) = split_chain(&m.receiver)?;
                    s.push(Step::Map(closure_arg(m, 0)?));
                    Some((b, r, s))
                }
                _ => None,
            }
        }
        Expr::Paren(p) => split_chain(&p.expr),
        _ => None,
    }
}

impl Chains {
    fn wrap(steps: &[Step], k: usize, cur: Expr, inner: Vec<Stmt>) -> Vec<Stmt> {
        if k == steps.len() {
            return inner;
        }
        match &steps[k] {
            Step::Filter(c) => {
                let cond = apply_closure(c, &[parse_quote!(&#cur)]);
                let rest = Self::wrap(steps, k + 1, cur, inner);
                vec![parse_quote!(if #cond { #(#rest)* })]
            }
            Step::Map(c) => {
                let v = apply_closure(c, &[cur]);
                let id = quote::format_ident!("vx_m{}", k);
                let rest = Self::wrap(steps, k + 1, parse_quote!(#id), inner);
                let mut o: Vec<Stmt> = vec![parse_quote!(let #id = #v;)];
                o.extend(rest);
                o
            }
        }
    }
    fn last(steps: &[Step]) -> Expr {
        let mut cur: Expr = parse_quote!(vx_x);
        for (k, s) in steps.iter().enumerate() {
            if let Step::Map(_) = s {
                let id = quote::format_ident!("vx_m{}", k);
                cur = parse_quote!(#id);
            }
        }
        cur
    }
    fn make(
        &mut self,
        base: Expr,
        rev: bool,
        steps: Vec<Step>,
        init: Vec<Stmt>,
        each: Vec<Stmt>,
        fin: Expr,
    ) -> Expr {
        let i = quote::format_ident!("vx_c{}", self.n);
        self.n += 1;
        let inner = Self::wrap(&steps, 0, parse_quote!(vx_x), each);
        if rev {
            parse_quote!({ #(#init)* let mut #i: usize = (#base).len(); while #i > 0 { #i = #i - 1; let vx_x = &(#base)[#i]; #(#inner)* } #fin })
        } else {
            parse_quote!({ #(#init)* let mut #i: usize = 0; while #i < (#base).len() { let vx_x = &(#base)[#i]; #(#inner)* #i = #i + 1; } #fin })
        }
    }
}

impl VisitMut for Chains {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if let Some((base, rev, steps)) = split_chain(&m.receiver) {
                let cur = Self::last(&steps);
                let i = quote::format_ident!("vx_c{}", self.n);
                let r = match (name.as_str(), m.args.len()) {
                    ("position", 1) if steps.is_empty() && !rev => closure_arg(m, 0).map(|c| {
                        let cond = apply_closure(&c, &[cur.clone()]);
                        self.make(
                            base,
                            rev,
                            steps,
                            vec![parse_quote!(let mut vx_r: Option<usize> = None;)],
                            vec![parse_quote!(if #cond { vx_r = Some(#i); break; })],
                            parse_quote!(vx_r),
                        )
                    }),
                    ("find", 1) => closure_arg(m, 0).map(|c| {
                        let cond = apply_closure(&c, &[parse_quote!(&#cur)]);
                        self.make(
                            base,
                            rev,
                            steps,
                            vec![parse_quote!(let mut vx_r = None;)],
                            vec![parse_quote!(if #cond { vx_r = Some(#cur); break; })],
                            parse_quote!(vx_r),
                        )
                    }),
                    ("any", 1) => closure_arg(m, 0).map(|c| {
                        let cond = apply_closure(&c, &[cur.clone()]);
                        self.make(
                            base,
                            rev,
                            steps,
                            vec![parse_quote!(let mut vx_r: bool = false;)],
                            vec![parse_quote!(if #cond { vx_r = true; break; })],
                            parse_quote!(vx_r),
                        )
                    }),
                    ("all", 1) => closure_arg(m, 0).map(|c| {
                        let cond = apply_closure(&c, &[cur.clone()]);
                        self.make(
                            base,
                            rev,
                            steps,
                            vec![parse_quote!(let mut vx_r: bool = true;)],
                            vec![parse_quote!(if !(#cond) { vx_r = false; break; })],
                            parse_quote!(vx_r),
                        )
                    }),
                    _ => None,
                };
                if let Some(x) = r {
                    *e = parse_quote!((#x));
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ for loops
struct ForLoops {
    n: usize,
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        e => e,
    }
}

impl VisitMut for ForLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let k = self.n;
            self.n += 1;
            let i = quote::format_ident!("vx_i{}", k);
            let n = quote::format_ident!("vx_n{}", k);
            let it = quote::format_ident!("vx_it{}", k);
            let pat = (*f.pat).clone();
            let body = f.body.stmts.clone();
            let mut rev = false;
            let mut src = peel(&f.expr).clone();
            if let Expr::MethodCall(m) = &src {
                if m.method == "rev" && matches!(peel(&m.receiver), Expr::Range(_)) {
                    rev = true;
                    src = peel(&m.receiver).clone();
                }
            }
            let bind: Stmt = if matches!(pat, syn::Pat::Wild(_)) {
                parse_quote!(();)
            } else {
                parse_quote!(let #pat = #i;)
            };
            let r: Expr = if let Expr::Range(rg) = &src {
                let a: Expr = rg
                    .start
                    .as_ref()
                    .map(|x| (**x).clone())
                    .unwrap_or(parse_quote!(0));
                let b = rg.end.clone();
                let incl = matches!(rg.limits, syn::RangeLimits::Closed(_));
                match (b, incl, rev) {
                    (Some(b), false, false) => parse_quote!({
                        let mut #i = #a; let #n = #b;
                        while #i < #n { #bind #i = #i + 1; #(#body)* }
                    }),
                    (Some(b), false, true) => parse_quote!({
                        let mut #i = #b; let #n = #a;
                        while #i > #n { #i = #i - 1; #bind #(#body)* }
                    }),
                    _ => e.clone(),
                }
            } else if let Some((base, rev, steps)) = match split_chain(&src) {
                Some((b, r, s)) if s.is_empty() => Some((b, r, s)),
                _ => match &src {
                    Expr::Reference(r) if r.mutability.is_none() => {
                        Some(((*r.expr).clone(), false, vec![]))
                    }
                    _ => None,
                },
            } {
                let _: Vec<Step> = steps;
                if rev {
                    parse_quote!({
                        let mut #i: usize = (#base).len();
                        while #i > 0 { #i = #i - 1; let #pat = &(#base)[#i]; #(#body)* }
                    })
                } else {
                    parse_quote!({
                        let mut #i: usize = 0;
                        while #i < (#base).len() { let #pat = &(#base)[#i]; #i = #i + 1; #(#body)* }
                    })
                }
            } else if let Expr::Path(_) = &src {
                parse_quote!({
                    let mut #i: usize = 0;
                    while #i < (#src).len() { let #pat = vx_copy(&(#src)[#i]); #i = #i + 1; #(#body)* }
                })
            } else {
                parse_quote!({
                    let mut #it = #src;
                    loop { match #it.next() { Some(#pat) => { #(#body)* } None => { break; } } }
                })
            };
            *e = r;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ abort-on-overflow arithmetic
struct Arith;

/// Does the expression call anything but the arithmetic itself?
fn calls(e: &Expr) -> bool {
    struct C(bool);
    impl VisitMut for C {
        fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
            if !c.func.to_token_stream().to_string().starts_with("vx_") {
                self.0 = true;
            }
            syn::visit_mut::visit_expr_call_mut(self, c);
        }
        fn visit_expr_method_call_mut(&mut self, _: &mut syn::ExprMethodCall) {
            self.0 = true;
        }
    }
    let mut c = C(false);
    c.visit_expr_mut(&mut e.clone());
    c.0
}

/// A variable or a field of one.
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

impl VisitMut for Arith {
    fn visit_type_mut(&mut self, _t: &mut syn::Type) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let (l, r) = (&b.left, &b.right);
                let f = |n: &str| quote::format_ident!("{}", n);
                let (fun, assign) = match b.op {
                    Add(_) => (f("vx_add"), false),
                    Sub(_) => (f("vx_sub"), false),
                    Mul(_) => (f("vx_mul"), false),
                    Div(_) => (f("vx_div"), false),
                    Rem(_) => (f("vx_rem"), false),
                    AddAssign(_) => (f("vx_add"), true),
                    SubAssign(_) => (f("vx_sub"), true),
                    MulAssign(_) => (f("vx_mul"), true),
                    DivAssign(_) => (f("vx_div"), true),
                    _ => return,
                };
                *e = if assign && calls(r) {
                    // the right side is evaluated first
                    parse_quote!({ let vx_rhs = #r; #l = #fun(#l, vx_rhs) })
                } else if assign {
                    parse_quote!(#l = #fun(#l, #r))
                } else {
                    parse_quote!(#fun(#l, #r))
                };
            }
            Expr::Cast(c) => {
                let (x, t) = (&c.expr, &c.ty);
                *e = parse_quote!(vx_as::<_, #t>(#x));
            }
            Expr::Index(x) => {
                let (b, i) = (&x.expr, &x.index);
                if place(b) && !matches!(**i, Expr::Range(_) | Expr::Lit(_)) {
                    *e = parse_quote!(#b[vx_ix(#i, #b.len())]);
                }
            }
            Expr::MethodCall(m) => {
                if (m.method == "unwrap" || m.method == "expect") && m.args.len() <= 1 {
                    let r = &m.receiver;
                    *e = parse_quote!(#r.vx_unwrap());
                }
            }
            _ => {}
        }
    }
}

/// Blocks that consist of an expression only, and stray parentheses, are left to the printer.
pub fn structure(
    b: &mut syn::Block,
    rules: &Rules,
    abort: bool,
    _self_ty: &Option<syn::Type>,
) -> Res<()> {
    ApplyRules { rules }.visit_block_mut(b);
    RefPats.visit_block_mut(b);
    LetClosures {
        map: BTreeMap::new(),
    }
    .visit_block_mut(b);
    if abort {
        Arith.visit_block_mut(b);
    }
    Chains { n: 0 }.visit_block_mut(b);
    ForLoops { n: 0 }.visit_block_mut(b);
    OptClosures.visit_block_mut(b);
    Ok(())
}

// ------------------------------------------------------------------ types
struct Types<'a> {
    rules: &'a Rules,
}

impl<'a> VisitMut for Types<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        for r in &self.rules.ty {
            if let Some(ts) = r.apply_tokens(t.to_token_stream()) {
                if let Ok(x) = syn::parse2::<syn::Type>(ts) {
                    *t = x;
                    break;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

pub fn types_block(b: &mut syn::Block, rules: &Rules, _s: &Option<syn::Type>) {
    Types { rules }.visit_block_mut(b);
}

pub fn types_sig(s: &mut syn::Signature, rules: &Rules, _st: &Option<syn::Type>) {
    let mut has_ctx = false;
    for i in s.inputs.iter_mut() {
        if let syn::FnArg::Typed(p) = i {
            if let Some(t) = crate::accts::context_type(&p.ty) {
                *p.ty = t;
                has_ctx = true;
            }
        }
    }
    if has_ctx {
        s.generics = Default::default();
    }
    for i in s.inputs.iter_mut() {
        match i {
            syn::FnArg::Typed(p) => p.attrs.clear(),
            syn::FnArg::Receiver(r) => {
                r.attrs.clear();
                // `self: &Side` is printed as `&self`
                if r.colon_token.is_some() {
                    let t = r.ty.to_token_stream().to_string();
                    let n: syn::Receiver = if t.starts_with("& mut") || t.starts_with("&mut") {
                        parse_quote!(&mut self)
                    } else if t.starts_with('&') {
                        parse_quote!(&self)
                    } else {
                        parse_quote!(self)
                    };
                    *r = n;
                }
            }
        }
    }
    Types { rules }.visit_signature_mut(s);
}

fn has_derive(attrs: &[syn::Attribute], d: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.to_token_stream()
                .to_string()
                .split(|c: char| !c.is_alphanumeric() && c != '_')
                .any(|w| w == d)
    })
}

pub fn item(it: &syn::Item, rules: &Rules, opts: &BTreeMap<String, String>) -> Res<String> {
    match it {
        syn::Item::Struct(s) if crate::accts::is_accounts(s) => crate::accts::emit_struct(s),
        syn::Item::Struct(s) => {
            let mut s = s.clone();
            let zc = s.attrs.iter().any(|a| {
                crate::pattern::norm(&a.to_token_stream().to_string()).contains("zero_copy")
            });
            let copy = zc || has_derive(&s.attrs, "Copy");
            let eq = has_derive(&s.attrs, "PartialEq");
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            Types { rules }.visit_item_struct_mut(&mut s);
            let mut o = String::new();
            let mut d = vec![];
            if copy && !opts.contains_key("nocopy") {
                d.push("Clone");
                d.push("Copy");
            }
            if eq && !opts.contains_key("noeq") {
                d.push("PartialEq");
                d.push("Eq");
                d.push("Structural");
            }
            if !d.is_empty() {
                o.push_str(&format!("#[derive({})]\n", d.join(", ")));
            }
            o.push_str(&crate::print::print(s.to_token_stream()));
            o.push('\n');
            Ok(o)
        }
        syn::Item::Enum(s) => {
            let mut s = s.clone();
            let copy = has_derive(&s.attrs, "Copy");
            let eq = has_derive(&s.attrs, "PartialEq");
            let from = has_derive(&s.attrs, "TryFromPrimitive");
            let into = has_derive(&s.attrs, "IntoPrimitive");
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let mut next = 0i64;
            let mut discs = vec![];
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                if let Some((_, d)) = &v.discriminant {
                    next = d
                        .to_token_stream()
                        .to_string()
                        .parse()
                        .map_err(|_| format!("discriminant of {}", v.ident))?;
                }
                discs.push((v.ident.to_string(), next));
                next += 1;
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            Types { rules }.visit_item_enum_mut(&mut s);
            let name = s.ident.to_string();
            let mut o = String::new();
            let mut d = vec![];
            if copy || opts.contains_key("copy") {
                d.push("Clone");
                d.push("Copy");
            }
            if eq || opts.contains_key("eq") {
                d.push("PartialEq");
                d.push("Eq");
                d.push("Structural");
            }
            if !d.is_empty() {
                o.push_str(&format!("#[derive({})]\n", d.join(", ")));
            }
            let fieldless = s.variants.iter().all(|v| v.fields.is_empty());
            o.push_str(&crate::print::print(s.to_token_stream()));
            o.push('\n');
            if fieldless {
                let arms: String = discs
                    .iter()
                    .map(|(n, v)| format!("{name}::{n} => {v},"))
                    .collect();
                o.push_str(&format!(
                    "impl {name} {{ pub open spec fn disc(self) -> int {{ match self {{ {arms} }} }} }}\n"
                ));
                if into {
                    let arms8: String = discs
                        .iter()
                        .map(|(n, v)| format!("{name}::{n} => {v}u8,"))
                        .collect();
                    o.push_str(&format!(
                        "impl From<{name}> for u8 {{ fn from(x: {name}) -> (r: u8) ensures r == x.disc() {{ match x {{ {arms8} }} }} }}\n\
                         impl vstd::std_specs::convert::FromSpecImpl<{name}> for u8 {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(x: {name}) -> u8 {{ x.disc() as u8 }} }}\n"
                    ));
                }
                if from {
                    let arms8: String = discs
                        .iter()
                        .map(|(n, v)| format!("{v}u8 => Ok({name}::{n}),"))
                        .collect();
                    let sarms: String = discs
                        .iter()
                        .map(|(n, v)| format!("if x == {v} {{ Ok({name}::{n}) }} else "))
                        .collect();
                    o.push_str(&format!(
                        "impl {name} {{ pub open spec fn spec_try_from(x: u8) -> core::result::Result<{name}, VxTryErr> {{ {sarms} {{ Err(VxTryErr {{}}) }} }} }}\n\
                         impl TryFrom<u8> for {name} {{ type Error = VxTryErr; fn try_from(x: u8) -> (r: core::result::Result<{name}, VxTryErr>) ensures r == {name}::spec_try_from(x) {{ match x {{ {arms8} _ => Err(VxTryErr {{}}) }} }} }}\n\
                         impl vstd::std_specs::convert::TryFromSpecImpl<u8> for {name} {{ open spec fn obeys_try_from_spec() -> bool {{ true }} open spec fn try_from_spec(x: u8) -> core::result::Result<{name}, VxTryErr> {{ {name}::spec_try_from(x) }} }}\n\
                         impl VxConvTo<{name}> for u8 {{ open spec fn conv_ok(self, r: {name}) -> bool {{ self == r.disc() }} #[verifier::external_body] fn vconv(self) -> (r: {name}) {{ unimplemented!() }} }}\n"
                    ));
                }
            }
            Ok(o)
        }
        syn::Item::Const(c) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            Types { rules }.visit_item_const_mut(&mut c);
            Ok(crate::print::print(c.to_token_stream()))
        }
        syn::Item::Type(c) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            Types { rules }.visit_item_type_mut(&mut c);
            Ok(crate::print::print(c.to_token_stream()))
        }
        _ => Err("unsupported item".into()),
    }
}
