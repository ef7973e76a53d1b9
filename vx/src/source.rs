//! Loading of the repository sources and lookup of functions and items by name.
use crate::Res;
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Found {
    pub file: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<syn::Type>,
    pub self_name: Option<String>,
    pub trait_name: Option<String>,
    pub line: usize,
}

pub struct Repo {
    pub files: BTreeMap<String, syn::File>,
    pub fns: Vec<Found>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = crate::pattern::norm(&a.to_token_stream().to_string());
        s.contains("cfg(test)") || s == "#[test]"
    })
}

pub fn type_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => None,
    }
}

fn collect(file: &str, items: &[syn::Item], out: &mut Vec<Found>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(Found {
                file: file.into(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                self_ty: None,
                self_name: None,
                trait_name: None,
                line: f.sig.ident.span().start().line,
            }),
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let sn = type_name(&im.self_ty);
                let tn = im
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| crate::pattern::norm(&p.to_token_stream().to_string()));
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        out.push(Found {
                            file: file.into(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            self_ty: Some((*im.self_ty).clone()),
                            self_name: sn.clone(),
                            trait_name: tn.clone(),
                            line: f.sig.ident.span().start().line,
                        });
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(file, its, out);
                }
            }
            _ => {}
        }
    }
}

impl Repo {
    pub fn load(src: &str) -> Res<Repo> {
        let mut files = BTreeMap::new();
        let mut stack = vec![String::new()];
        while let Some(d) = stack.pop() {
            let p = format!("{src}/{d}");
            for e in std::fs::read_dir(&p).map_err(|e| format!("{p}: {e}"))? {
                let e = e.map_err(|e| e.to_string())?;
                let n = e.file_name().to_string_lossy().to_string();
                let rel = if d.is_empty() { n.clone() } else { format!("{d}/{n}") };
                if e.path().is_dir() {
                    stack.push(rel);
                } else if n.ends_with(".rs") {
                    let t = std::fs::read_to_string(e.path()).map_err(|e| e.to_string())?;
                    let ast = syn::parse_file(&t).map_err(|e| format!("{rel}: {e}"))?;
                    files.insert(rel, ast);
                }
            }
        }
        let mut fns = vec![];
        for (f, a) in &files {
            collect(f, &a.items, &mut fns);
            for i in &a.items {
                if let syn::Item::Struct(s) = i {
                    if crate::accts::is_accounts(s) {
                        // a struct that cannot be translated is only an error if a template asks for it
                        if let Ok(x) = crate::accts::admit(f, s) {
                            fns.push(x);
                        }
                    }
                }
            }
        }
        Ok(Repo { files, fns })
    }

    /// `path` is `f`, `Type::f` or `Trait@Type::f`.  If the function moved to another file it is
    /// still found, provided the name is unique.
    pub fn find(&self, file: &str, path: &str) -> Option<&Found> {
        let (tr, rest) = match path.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), b),
            None => (None, path),
        };
        let (ty, name) = match rest.rsplit_once("::") {
            Some((a, b)) => (Some(a.to_string()), b),
            None => (None, rest),
        };
        let c: Vec<&Found> = self
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && f.self_name == ty
                    && (tr.is_none() || f.trait_name == tr)
            })
            .collect();
        let here: Vec<&&Found> = c.iter().filter(|f| f.file == file).collect();
        if here.len() == 1 {
            return Some(here[0]);
        }
        if here.is_empty() && c.len() == 1 {
            return Some(c[0]);
        }
        None
    }

    /// Expansion of a macro defined in the repository with a single arm of comma-separated
    /// `$x:kind` parameters.
    pub fn expand(&self, m: &syn::Macro) -> Option<proc_macro2::TokenStream> {
        use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
        let name = m.path.segments.last()?.ident.to_string();
        if ["require", "error_msg", "error_msg_typed", "error_msg_typed_impl"].contains(&name.as_str()) {
            return None;
        }
        let mut def = None;
        for f in self.files.values() {
            for i in &f.items {
                if let syn::Item::Macro(d) = i {
                    if d.ident.as_ref().map(|x| x == &name).unwrap_or(false) {
                        def = Some(d.mac.tokens.clone());
                    }
                }
            }
        }
        let t: Vec<TokenTree> = def?.into_iter().collect();
        let groups: Vec<&Group> = t
            .iter()
            .filter_map(|x| if let TokenTree::Group(g) = x { Some(g) } else { None })
            .collect();
        if groups.len() != 2 {
            return None;
        }
        let p: Vec<TokenTree> = groups[0].stream().into_iter().collect();
        let mut names = vec![];
        let mut k = 0;
        while k < p.len() {
            if p[k].to_string() == "$" && k + 3 < p.len() {
                names.push(p[k + 1].to_string());
                k += 4;
            } else if p[k].to_string() == "," {
                k += 1;
            } else {
                return None;
            }
        }
        let mut argv: Vec<TokenStream> = vec![];
        let mut cur: Vec<TokenTree> = vec![];
        for x in m.tokens.clone() {
            if x.to_string() == "," {
                argv.push(cur.drain(..).collect());
            } else {
                cur.push(x);
            }
        }
        if !cur.is_empty() {
            argv.push(cur.into_iter().collect());
        }
        if argv.len() != names.len() {
            return None;
        }
        fn subst(ts: TokenStream, names: &[String], argv: &[TokenStream]) -> TokenStream {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut o = vec![];
            let mut k = 0;
            while k < v.len() {
                if v[k].to_string() == "$" && k + 1 < v.len() {
                    if let Some(ix) = names.iter().position(|n| *n == v[k + 1].to_string()) {
                        o.extend(argv[ix].clone());
                        k += 2;
                        continue;
                    }
                }
                match &v[k] {
                    TokenTree::Group(g) => {
                        let inner = subst(g.stream(), names, argv);
                        o.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
                    }
                    x => o.push(x.clone()),
                }
                k += 1;
            }
            o.into_iter().collect()
        }
        let _ = Delimiter::Brace;
        Some(subst(groups[1].stream(), &names, &argv))
    }

    pub fn find_item(&self, file: &str, name: &str) -> Option<&syn::Item> {
        fn look<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
            for i in items {
                let ok = match i {
                    syn::Item::Struct(s) => s.ident == name,
                    syn::Item::Enum(s) => s.ident == name,
                    syn::Item::Const(s) => s.ident == name,
                    syn::Item::Type(s) => s.ident == name,
                    _ => false,
                };
                if ok {
                    return Some(i);
                }
            }
            None
        }
        if let Some(f) = self.files.get(file) {
            if let Some(i) = look(&f.items, name) {
                return Some(i);
            }
        }
        let all: Vec<&syn::Item> = self
            .files
            .values()
            .filter_map(|f| look(&f.items, name))
            .collect();
        if all.len() == 1 {
            Some(all[0])
        } else {
            None
        }
    }
}
