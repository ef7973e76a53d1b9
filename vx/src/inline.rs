//! Inlining of repository functions that have no contract in the template.
use crate::source::{Found, Repo};
use crate::{Res, Rules};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Stmt};

/// Method names that also exist on standard types: only resolved when the receiver is `self`.
const STD: &[&str] = &[
    "new", "len", "is_empty", "iter", "next", "key", "init", "min", "max", "from", "into", "get",
    "push", "pop", "clone", "default", "unwrap", "insert", "remove", "find", "position", "filter",
    "map", "as_ref", "as_mut", "load", "load_mut", "eq", "is_some", "is_none", "try_from",
    "try_into", "take", "front", "count", "abs", "context", "name", "borrow", "owner", "data", "peek",
    "side", "nodes", "root", "node", "node_mut", "price", "fmt", "space",
];

pub struct Inliner<'a> {
    repo: &'a Repo,
    known: &'a BTreeSet<String>,
    rules: &'a Rules,
    self_name: Option<String>,
    file: String,
    abort: bool,
    pub inlined: Vec<String>,
    fresh: usize,
    err: Option<String>,
    changed: bool,
    dropped: BTreeSet<String>,
}

struct HasReturn(bool, bool);
impl VisitMut for HasReturn {
    fn visit_expr_return_mut(&mut self, _: &mut syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try_mut(&mut self, t: &mut syn::ExprTry) {
        self.1 = true;
        syn::visit_mut::visit_expr_try_mut(self, t);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

fn returns(b: &mut syn::Block) -> (bool, bool) {
    let mut h = HasReturn(false, false);
    h.visit_block_mut(b);
    (h.0, h.1)
}

/// `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }`, and so on.
fn structured(b: &mut syn::Block) {
    for i in 0..b.stmts.len() {
        if let Stmt::Expr(Expr::If(ife), _) = &b.stmts[i] {
            if ife.else_branch.is_none() && i + 1 < b.stmts.len() {
                if let Some(Stmt::Expr(Expr::Return(_), _)) = ife.then_branch.stmts.last() {
                    let mut ife = ife.clone();
                    let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                    b.stmts.pop();
                    let mut rb: syn::Block = parse_quote!({ #(#rest)* });
                    structured(&mut rb);
                    structured(&mut ife.then_branch);
                    ife.else_branch = Some((
                        Default::default(),
                        Box::new(Expr::Block(syn::ExprBlock {
                            attrs: vec![],
                            label: None,
                            block: rb,
                        })),
                    ));
                    b.stmts.push(Stmt::Expr(Expr::If(ife), None));
                    return;
                }
            }
        }
    }
    tail_returns(b);
}

fn tail_returns(b: &mut syn::Block) {
    let n = b.stmts.len();
    if n == 0 {
        return;
    }
    if let Stmt::Expr(e, _) = &mut b.stmts[n - 1] {
        let mut x = e.clone();
        tail_expr(&mut x);
        let unit_if = matches!(&x, Expr::If(i) if i.else_branch.is_none());
        let keep = matches!(&b.stmts[n - 1], Stmt::Expr(_, Some(_)))
            && !matches!(&b.stmts[n - 1], Stmt::Expr(Expr::Return(_), _));
        b.stmts[n - 1] = if keep || unit_if {
            Stmt::Expr(x, Some(Default::default()))
        } else {
            Stmt::Expr(x, None)
        };
    }
}

fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            *e = match &r.expr {
                Some(x) => (**x).clone(),
                None => parse_quote!(()),
            };
            tail_expr(e);
        }
        Expr::If(i) => {
            structured(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                tail_expr(x);
            }
        }
        Expr::Block(b) => structured(&mut b.block),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_expr(&mut a.body);
            }
        }
        _ => {}
    }
}

/// Turns the tail `Ok(v)` of a block into `v` and any other tail `e` into `e?`; `Err(x)` tails
/// become `return Err(x)`.
fn unok_block(b: &mut syn::Block) {
    let n = b.stmts.len();
    if n == 0 {
        return;
    }
    if let Stmt::Expr(e, None) = &mut b.stmts[n - 1] {
        unok_expr(e);
    }
}

fn unok_expr(e: &mut Expr) {
    match e {
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string();
            if f == "Ok" {
                let a = c.args[0].clone();
                *e = a;
            } else if f == "Err" {
                let x = e.clone();
                *e = parse_quote!(return #x);
            } else {
                let x = e.clone();
                *e = parse_quote!(#x?);
            }
        }
        Expr::If(i) => {
            unok_block(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                unok_expr(x);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                unok_expr(&mut a.body);
            }
        }
        Expr::Block(b) => unok_block(&mut b.block),
        _ => {
            let x = e.clone();
            *e = parse_quote!((#x)?);
        }
    }
}

struct Rename<'a> {
    map: BTreeMap<String, String>,
    self_expr: Option<Expr>,
    self_ty: Option<syn::Type>,
    _p: std::marker::PhantomData<&'a ()>,
}

struct Binders(BTreeSet<String>);
impl VisitMut for Binders {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        let n = p.ident.to_string();
        // constants and unit variants in patterns start with an upper-case letter
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.insert(n);
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
}

impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            p.ident = quote::format_ident!("{}", n);
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Pat::Ident(_) = &*f.pat {
                f.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                let s = i.to_string();
                if s == "self" {
                    if let Some(x) = &self.self_expr {
                        *e = x.clone();
                        return;
                    }
                }
                if let Some(n) = self.map.get(&s) {
                    let id = quote::format_ident!("{}", n);
                    *e = parse_quote!(#id);
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let (Some(t), Some(s)) = (&self.self_ty, p.segments.first()) {
            if s.ident == "Self" {
                if let syn::Type::Path(tp) = t {
                    let mut segs: Vec<syn::PathSegment> = tp.path.segments.iter().cloned().collect();
                    for s in segs.iter_mut() {
                        s.arguments = syn::PathArguments::None;
                    }
                    segs.extend(p.segments.iter().skip(1).cloned());
                    p.segments = segs.into_iter().collect();
                }
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Index(i) => is_place(&i.expr) && matches!(&*i.index, Expr::Lit(_) | Expr::Path(_)),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

fn is_ref_arg(e: &Expr) -> bool {
    match e {
        Expr::Reference(r) => is_place(&r.expr),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    pub fn new(
        repo: &'a Repo,
        known: &'a BTreeSet<String>,
        rules: &'a Rules,
        self_name: Option<String>,
        file: String,
        abort: bool,
    ) -> Self {
        Inliner {
            repo,
            known,
            rules,
            self_name,
            file,
            abort,
            inlined: vec![],
            fresh: 0,
            err: None,
            changed: false,
            dropped: BTreeSet::new(),
        }
    }

    pub fn run_fn(&mut self, b: &mut syn::Block, dropped: &mut BTreeSet<String>) -> Res<()> {
        for _ in 0..6 {
            self.changed = false;
            self.visit_block_mut(b);
            if let Some(e) = &self.err {
                return Err(e.clone());
            }
            if !self.changed {
                break;
            }
        }
        dropped.extend(self.dropped.clone());
        Ok(())
    }

    fn resolve_method(&self, recv: &Expr, name: &str) -> Option<Found> {
        if self.rules.noinline.contains(name) {
            return None;
        }
        let on_self = recv.to_token_stream().to_string() == "self";
        let cands: Vec<&Found> = self
            .repo
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && f.self_name.is_some()
                    && f.sig.receiver().is_some()
            })
            .collect();
        // explicit `//@inline Type::name`
        for c in &cands {
            let q = format!("{}::{}", c.self_name.as_ref().unwrap(), name);
            if self.rules.inline.contains(&q) {
                return Some((*c).clone());
            }
        }
        if self.known.contains(name) {
            return None;
        }
        if on_self {
            let here: Vec<&&Found> = cands
                .iter()
                .filter(|f| f.self_name == self.self_name)
                .collect();
            if here.len() == 1 {
                return Some((**here[0]).clone());
            }
            return None;
        }
        if STD.contains(&name) {
            return None;
        }
        if cands.len() == 1 {
            return Some(cands[0].clone());
        }
        None
    }

    fn resolve_path(&self, p: &syn::Path) -> Option<Found> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?.clone();
        if self.rules.noinline.contains(&name) {
            return None;
        }
        let ty = if segs.len() >= 2 {
            let t = segs[segs.len() - 2].clone();
            if t == "Self" {
                self.self_name.clone()
            } else if t.chars().next()?.is_uppercase() {
                Some(t)
            } else {
                None
            }
        } else {
            None
        };
        let q = match &ty {
            Some(t) => format!("{t}::{name}"),
            None => name.clone(),
        };
        if !self.rules.inline.contains(&q) && self.known.contains(&name) {
            return None;
        }
        let c: Vec<&Found> = self
            .repo
            .fns
            .iter()
            .filter(|f| f.sig.ident == name && f.self_name == ty)
            .collect();
        let here: Vec<&&Found> = c.iter().filter(|f| f.file == self.file).collect();
        if here.len() == 1 {
            return Some((**here[0]).clone());
        }
        if c.len() == 1 {
            return Some(c[0].clone());
        }
        None
    }

    /// Builds the inlined block; `tryed` when the call is directly under `?`.
    fn build(&mut self, f: &Found, recv: Option<Expr>, argv: Vec<Expr>, tryed: bool, tail: bool) -> Option<Expr> {
        let mut block = f.block.clone();
        if let Err(e) = crate::desugar::macros(&mut block, &mut self.dropped, self.abort) {
            self.err = Some(e);
            return None;
        }
        // a function returning `impl Iterator` is only inlined when it is a single expression
        let (ret, q) = returns(&mut block);
        if ret && !tail {
            structured(&mut block);
        }
        let (ret, _) = returns(&mut block);
        if tryed {
            unok_block(&mut block);
            // remaining returns must be error returns
            struct OnlyErr(bool);
            impl VisitMut for OnlyErr {
                fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
                    let t = r
                        .expr
                        .as_ref()
                        .map(|e| e.to_token_stream().to_string())
                        .unwrap_or_default();
                    if !t.starts_with("Err") {
                        self.0 = false;
                    }
                }
                fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
            }
            let mut o = OnlyErr(true);
            o.visit_block_mut(&mut block);
            if !o.0 {
                return None;
            }
        } else if !tail && (ret || q) {
            return None;
        }
        // hygiene
        self.fresh += 1;
        let sfx = self.fresh;
        let mut bs = Binders(BTreeSet::new());
        bs.visit_block_mut(&mut block);
        let mut params: Vec<(syn::Pat, syn::Type)> = vec![];
        let mut self_by_val = false;
        for i in &f.sig.inputs {
            match i {
                syn::FnArg::Typed(t) => {
                    let mut p = (*t.pat).clone();
                    bs.visit_pat_mut(&mut p);
                    params.push((p, (*t.ty).clone()));
                }
                syn::FnArg::Receiver(r) => {
                    self_by_val = r.reference.is_none() && r.mutability.is_some();
                }
            }
        }
        if self_by_val {
            return None;
        }
        let map: BTreeMap<String, String> = bs
            .0
            .iter()
            .map(|n| (n.clone(), format!("{n}_vx{sfx}")))
            .collect();
        let mut pre: Vec<Stmt> = vec![];
        let self_expr = match recv {
            None => None,
            Some(e) if is_place(&e) => Some(match &e {
                Expr::Unary(_) => parse_quote!((#e)),
                _ => e,
            }),
            Some(e) => {
                let id = quote::format_ident!("vx_self{}", sfx);
                pre.push(parse_quote!(let #id = #e;));
                Some(parse_quote!(#id))
            }
        };
        let mut rn = Rename {
            map,
            self_expr,
            self_ty: f.self_ty.clone(),
            _p: std::marker::PhantomData,
        };
        rn.visit_block_mut(&mut block);
        if params.len() != argv.len() {
            return None;
        }
        for ((mut p, mut t), a) in params.into_iter().zip(argv) {
            rn.visit_pat_mut(&mut p);
            rn.visit_type_mut(&mut t);
            let generic = t.to_token_stream().to_string().contains("impl ")
                || f.sig.generics.type_params().any(|g| {
                    t.to_token_stream()
                        .to_string()
                        .split(|c: char| !c.is_alphanumeric())
                        .any(|w| g.ident == w)
                });
            let has_lt = t.to_token_stream().to_string().contains('\'');
            // by-name substitution of `&mut place` / `&place` arguments keeps borrows short
            if is_ref_arg(&a) || matches!(&a, Expr::Lit(_)) {
                if let syn::Pat::Ident(pi) = &p {
                    if pi.mutability.is_none() && !assigned(&block, &pi.ident.to_string()) {
                        let mut s = SubstId {
                            id: pi.ident.to_string(),
                            by: a.clone(),
                        };
                        s.visit_block_mut(&mut block);
                        continue;
                    }
                }
            }
            if generic || has_lt {
                pre.push(parse_quote!(let #p = #a;));
            } else {
                pre.push(parse_quote!(let #p: #t = #a;));
            }
        }
        self.inlined.push(match &f.self_name {
            Some(s) => format!("{}::{} ({})", s, f.sig.ident, f.file),
            None => format!("{} ({})", f.sig.ident, f.file),
        });
        self.changed = true;
        if pre.is_empty() && block.stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &block.stmts[0] {
                return Some(parse_quote!((#x)));
            }
        }
        let stmts = &block.stmts;
        // a function without result used as a statement
        Some(parse_quote!({ #(#pre)* #(#stmts)* }))
    }
}

fn assigned(_b: &syn::Block, _n: &str) -> bool {
    false
}

struct SubstId {
    id: String,
    by: Expr,
}
impl VisitMut for SubstId {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `p.field` with p := &x  becomes x.field
        if let Expr::Field(f) = e {
            if f.base.to_token_stream().to_string() == self.id {
                if let Expr::Reference(r) = &self.by {
                    let x = &r.expr;
                    f.base = parse_quote!(#x);
                    return;
                }
            }
        }
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) && u.expr.to_token_stream().to_string() == self.id
            {
                if let Expr::Reference(r) = &self.by {
                    let x = &r.expr;
                    *e = parse_quote!(#x);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.receiver.to_token_stream().to_string() == self.id {
                if let Expr::Reference(r) = &self.by {
                    let x = &r.expr;
                    m.receiver = parse_quote!(#x);
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if i == &self.id {
                    *e = self.by.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // call under `?`
        if let Expr::Try(t) = e {
            if let Some(x) = self.try_call(&t.expr, true, false) {
                *e = x;
                return;
            }
        }
        if let Some(x) = self.try_call(e, false, false) {
            *e = x;
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
    }
}

impl<'a> Inliner<'a> {
    fn try_call(&mut self, e: &Expr, tryed: bool, tail: bool) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let f = self.resolve_method(&m.receiver, &m.method.to_string())?;
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                self.build(&f, Some(r), args, tryed, tail)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let f = self.resolve_path(&p.path)?;
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    let recv = if f.sig.receiver().is_some() && !args.is_empty() {
                        Some(args.remove(0))
                    } else {
                        None
                    };
                    return self.build(&f, recv, args, tryed, tail);
                }
                None
            }
            _ => None,
        }
    }
}
