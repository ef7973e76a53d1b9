//! Anchor account structs: the field types, and the checks Anchor generates from the attributes as
//! an ordinary function `admit` over them (rule R12).
use quote::{format_ident, ToTokens};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr};

use crate::source::Found;
use crate::Res;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Signer,
    Info,
    Program,
    Data,
}

pub fn is_accounts(s: &syn::ItemStruct) -> bool {
    s.attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.to_token_stream()
                .to_string()
                .split(|c: char| !c.is_alphanumeric() && c != '_')
                .any(|w| w == "Accounts")
    })
}

fn args(t: &syn::Type) -> (String, Vec<syn::Type>) {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last().unwrap();
        let mut v = vec![];
        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
            for x in &a.args {
                if let syn::GenericArgument::Type(t) = x {
                    v.push(t.clone());
                }
            }
        }
        return (s.ident.to_string(), v);
    }
    (String::new(), vec![])
}

/// (optional, kind, model type)
pub fn classify(t: &syn::Type) -> Res<(bool, Kind, syn::Type)> {
    let (n, a) = args(t);
    match n.as_str() {
        "Option" => {
            let (_, k, m) = classify(&a[0])?;
            Ok((true, k, parse_quote!(Option<#m>)))
        }
        "Box" => classify(&a[0]),
        "Signer" => Ok((false, Kind::Signer, parse_quote!(VxInfo))),
        "UncheckedAccount" | "AccountInfo" | "SystemAccount" => Ok((false, Kind::Info, parse_quote!(VxInfo))),
        "Program" | "Sysvar" => Ok((false, Kind::Program, parse_quote!(VxInfo))),
        "Account" | "AccountLoader" | "InterfaceAccount" => {
            let d = &a[0];
            Ok((false, Kind::Data, parse_quote!(VxAcc<#d>)))
        }
        _ => Err(format!("account field type {}", t.to_token_stream())),
    }
}

/// `Context<'_, '_, '_, 'info, X<'info>>` is a mutable view of the accounts.
pub fn context_type(t: &syn::Type) -> Option<syn::Type> {
    let (n, a) = args(t);
    if n == "Context" && a.len() == 1 {
        let (x, _) = args(&a[0]);
        let x = format_ident!("{}", x);
        return Some(parse_quote!(&mut VxCtx<#x>));
    }
    None
}

pub fn emit_struct(s: &syn::ItemStruct) -> Res<String> {
    let mut o = format!("pub struct {} {{\n", s.ident);
    for f in &s.fields {
        let (_, _, m) = classify(&f.ty)?;
        o.push_str(&format!(
            "    pub {}: {},\n",
            f.ident.as_ref().unwrap(),
            crate::print::flat(m.to_token_stream())
        ));
    }
    o.push_str("}\n");
    Ok(o)
}

struct FieldInfo {
    name: String,
    opt: bool,
    kind: Kind,
}

/// field names of the struct become fields of `acc`
struct Names<'a> {
    fields: &'a [FieldInfo],
}

impl<'a> Names<'a> {
    fn field(&self, e: &Expr) -> Option<&FieldInfo> {
        if let Expr::Path(p) = e {
            let i = p.path.get_ident()?.to_string();
            return self.fields.iter().find(|f| f.name == i);
        }
        None
    }
}

impl<'a> VisitMut for Names<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                if m.method == "load" {
                    if let Some(f) = self.field(&m.receiver) {
                        let i = format_ident!("{}", f.name);
                        *e = parse_quote!(acc.#i.data);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(f) = self.field(&m.receiver) {
                let i = format_ident!("{}", f.name);
                if m.method == "key" && !f.opt {
                    *e = parse_quote!(acc.#i.key);
                    return;
                }
                if m.method == "non_zero_key" {
                    *e = parse_quote!(vx_non_zero_key(&acc.#i));
                    return;
                }
            }
        }
        if let Some(f) = self.field(e) {
            let i = format_ident!("{}", f.name);
            *e = if f.kind == Kind::Data && !f.opt {
                parse_quote!(acc.#i.data)
            } else {
                parse_quote!(acc.#i)
            };
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn split_top(ts: proc_macro2::TokenStream, sep: char) -> Vec<proc_macro2::TokenStream> {
    // generic arguments do not occur at top level except in `size_of::<X>()`, which has no comma
    let mut out = vec![];
    let mut cur = vec![];
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == sep {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

fn seed(e: &Expr, n: &mut Names) -> Res<Expr> {
    // b"..." literals, keys and numbers
    let mut x = e.clone();
    loop {
        let y = match &x {
            Expr::Reference(r) => (*r.expr).clone(),
            Expr::Paren(r) => (*r.expr).clone(),
            Expr::MethodCall(m) if ["as_ref", "to_bytes", "to_le_bytes", "as_slice"].contains(&m.method.to_string().as_str()) => (*m.receiver).clone(),
            _ => break,
        };
        x = y;
    }
    if let Expr::Lit(l) = &x {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let mut v = b.value();
            v.resize(32, 0);
            let hi = u128::from_be_bytes(v[..16].try_into().unwrap());
            let lo = u128::from_be_bytes(v[16..].try_into().unwrap());
            return Ok(parse_quote!(VxSeed::Lit(Pubkey { hi: #hi, lo: #lo })));
        }
    }
    let s = x.to_token_stream().to_string();
    n.visit_expr_mut(&mut x);
    if crate::pattern::norm(&s).ends_with(".key()") {
        return Ok(parse_quote!(VxSeed::Key(#x)));
    }
    Ok(parse_quote!(VxSeed::Num(vx_u64(#x))))
}

/// The function with the checks.
pub fn admit(file: &str, s: &syn::ItemStruct) -> Res<Found> {
    let mut fields = vec![];
    for f in &s.fields {
        let (opt, kind, _) = classify(&f.ty)?;
        fields.push(FieldInfo {
            name: f.ident.as_ref().unwrap().to_string(),
            opt,
            kind,
        });
    }
    let mut n = Names { fields: &fields };
    let mut stmts: Vec<syn::Stmt> = vec![];
    // the checks of the field types
    for (f, sf) in fields.iter().zip(&s.fields) {
        let i = format_ident!("{}", f.name);
        let attrs: String = sf.attrs.iter().map(|a| crate::pattern::norm(&a.to_token_stream().to_string())).collect();
        let fresh = attrs.contains("(init,") || attrs.contains("(zero)") || attrs.contains("(zero,");
        let (m, neg): (syn::Ident, bool) = match f.kind {
            Kind::Signer => (format_ident!("is_signer"), true),
            Kind::Program => (format_ident!("program_ok"), true),
            Kind::Data if fresh => (format_ident!("fresh"), true),
            Kind::Data => (format_ident!("typed"), true),
            Kind::Info => continue,
        };
        let _ = neg;
        if f.opt {
            stmts.push(parse_quote!(if let Some(vx_o) = &acc.#i { if !vx_o.#m { return Err(vx_err_unspecified()); } }));
        } else {
            stmts.push(parse_quote!(if !acc.#i.#m { return Err(vx_err_unspecified()); }));
        }
    }
    for (f, sf) in fields.iter().zip(&s.fields) {
        let i = format_ident!("{}", f.name);
        for a in &sf.attrs {
            if !a.path().is_ident("account") {
                continue;
            }
            let syn::Meta::List(l) = &a.meta else { continue };
            for part in split_top(l.tokens.clone(), ',') {
                let txt = part.to_string();
                let (key, val) = match txt.find('=') {
                    // `==` inside the value comes after the first `=`
                    Some(_) => {
                        let mut it = part.clone().into_iter();
                        let mut k = String::new();
                        for t in it.by_ref() {
                            if t.to_string() == "=" {
                                break;
                            }
                            k.push_str(&t.to_string());
                        }
                        (k, it.collect::<proc_macro2::TokenStream>())
                    }
                    None => (crate::pattern::norm(&txt), Default::default()),
                };
                let val_e = || -> Res<Expr> {
                    let v = split_top(val.clone(), '@').into_iter().next().unwrap_or_default();
                    syn::parse2(v).map_err(|e| format!("{}: {}: {e}", s.ident, val))
                };
                match key.as_str() {
                    "mut" | "init" | "payer" | "space" | "bump" | "close" | "zero" | "realloc" | "realloc::payer" | "realloc::zero" => {}
                    "has_one" => {
                        let t: syn::Ident = syn::parse2(split_top(val.clone(), '@').remove(0)).map_err(|e| e.to_string())?;
                        stmts.push(parse_quote!(if acc.#i.data.#t != acc.#t.key { return Err(vx_err_unspecified()); }));
                    }
                    "constraint" => {
                        let mut e = val_e()?;
                        n.visit_expr_mut(&mut e);
                        stmts.push(parse_quote!(if !(#e) { return Err(vx_err_unspecified()); }));
                    }
                    "token::mint" | "token::authority" | "associated_token::mint" | "associated_token::authority" => {
                        let e = val_e()?;
                        let mut v = e.clone();
                        if n.field(&e).is_some() {
                            v = parse_quote!(acc.#e.key);
                        } else {
                            n.visit_expr_mut(&mut v);
                        }
                        let m = if key.ends_with("mint") { format_ident!("mint") } else { format_ident!("owner") };
                        if f.opt {
                            stmts.push(parse_quote!(if let Some(vx_o) = &acc.#i { if vx_o.data.#m != #v { return Err(vx_err_unspecified()); } }));
                        } else {
                            stmts.push(parse_quote!(if acc.#i.data.#m != #v { return Err(vx_err_unspecified()); }));
                        }
                    }
                    "seeds" => {
                        let e = val_e()?;
                        let Expr::Array(arr) = &e else { return Err(format!("seeds of {}", f.name)) };
                        let mut v = vec![];
                        for x in &arr.elems {
                            v.push(seed(x, &mut n)?);
                        }
                        let g = format_ident!("vx_pda{}", v.len());
                        stmts.push(parse_quote!(if acc.#i.key != #g(#(#v),*) { return Err(vx_err_unspecified()); }));
                    }
                    k => return Err(format!("{}: account attribute {k}", s.ident)),
                }
            }
        }
    }
    let name = &s.ident;
    let f: syn::ItemFn = parse_quote!(pub fn admit(acc: &#name) -> Result<()> { #(#stmts)* Ok(()) });
    Ok(Found {
        file: file.into(),
        sig: f.sig,
        block: *f.block,
        self_ty: None,
        self_name: Some(name.to_string()),
        trait_name: Some("Accounts".into()),
        line: s.ident.span().start().line,
    })
}

/// In a handler, `ctx.accounts.f.x` reads the contents of a typed account `f`.
pub fn ctx_fields(sig: &syn::Signature, block: &mut syn::Block, repo: &crate::source::Repo) {
    for i in &sig.inputs {
        let syn::FnArg::Typed(p) = i else { continue };
        let (n, a) = args(&p.ty);
        if n != "Context" || a.len() != 1 {
            continue;
        }
        let (x, _) = args(&a[0]);
        let Some(syn::Item::Struct(s)) = repo.find_item("", &x) else { continue };
        let mut f = std::collections::BTreeSet::new();
        for sf in &s.fields {
            let (w, v) = args(&sf.ty);
            let w = if w == "Box" { args(&v[0]).0 } else { w };
            if w == "Account" {
                f.insert(sf.ident.as_ref().unwrap().to_string());
            }
        }
        let base = format!("{}.accounts.", crate::pattern::norm(&p.pat.to_token_stream().to_string()));
        C { f, base }.visit_block_mut(block);
    }
    struct C {
        f: std::collections::BTreeSet<String>,
        base: String,
    }
    impl C {
        fn is(&self, e: &Expr) -> bool {
            let s = crate::pattern::norm(&e.to_token_stream().to_string());
            s.strip_prefix(&self.base).map(|r| self.f.contains(r)).unwrap_or(false)
        }
    }
    impl VisitMut for C {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Field(f) if self.is(&f.base) => {
                    let b = &f.base;
                    f.base = Box::new(parse_quote!(#b.data));
                    return;
                }
                Expr::MethodCall(m) if self.is(&m.receiver) => {
                    let n = m.method.to_string();
                    if !["key", "as_ref", "to_account_info", "clone", "load", "load_mut"].contains(&n.as_str()) {
                        let b = &m.receiver;
                        m.receiver = Box::new(parse_quote!(#b.data));
                    }
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Reference(r) if r.mutability.is_some() && self.is(&r.expr) => {
                    let b = &r.expr;
                    r.expr = Box::new(parse_quote!(#b.data));
                    return;
                }
                _ => {}
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
}
