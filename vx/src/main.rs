//! vx: mechanical extraction of Rust functions from /repo into Verus input.
//!
//!   vx <template> <repo-src-dir> <contracts-dir> <out.rs> <report.json> [--vacuity]
//!
//! A template is Verus text with `//@` directives; each `//@fn` directive is replaced by the
//! current text of that function in the repository, rewritten by the documented rules and with the
//! contract and loop invariants of the template inserted.  See /verif/DESIGN.md for the rules.

mod accts;
mod desugar;
mod inline;
mod pattern;
mod print;
mod source;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

use pattern::Rule;
use quote::ToTokens;
use source::Repo;
use syn::visit_mut::VisitMut;

pub type Res<T> = std::result::Result<T, String>;

#[derive(Clone, Default)]
pub struct Rules {
    pub expr: Vec<Rule>,
    pub ty: Vec<Rule>,
    pub noinline: BTreeSet<String>,
    pub inline: BTreeSet<String>,
}

#[derive(Clone, Default, Debug)]
struct FnBlock {
    file: String,
    path: String,
    opts: BTreeMap<String, String>,
    contract: String,
    invs: BTreeMap<usize, String>,
    loopstart: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    start: String,
    end: String,
    hints: Vec<Hint>,
    rw: Vec<(String, String)>,
    ty: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
struct Hint {
    before: bool,
    pat: String,
    nth: usize,
    text: String,
}

#[derive(Default)]
pub struct Report {
    pub fns: Vec<String>,
    pub dropped: BTreeSet<String>,
    pub lost: Vec<String>,
    pub inlined: Vec<String>,
    pub items: Vec<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jarr<'a>(v: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", v.map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

/// Reads a template, expanding `//@include` and `//@uselemmas`.
/// A file is included once.
fn read_template(dir: &str, name: &str) -> Res<String> {
    read_template_in(dir, name, &mut Vec::new())
}

fn read_template_in(dir: &str, name: &str, seen: &mut Vec<String>) -> Res<String> {
    if seen.iter().any(|s| s == name) {
        return Ok(String::new());
    }
    seen.push(name.to_string());
    let p = format!("{}/{}", dir, name);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    let mut o = String::new();
    for l in t.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            o.push_str(&read_template_in(dir, r.trim(), seen)?);
        } else if let Some(r) = l.trim().strip_prefix("//@uselemmas ") {
            // the lemmas are proved in another template; only their statements are used here
            for x in read_template_in(dir, r.trim(), seen)?.lines() {
                if x.starts_with("pub proof fn ") {
                    let _ = write!(o, "#[verifier::external_body] /*proved in {}*/ ", r.trim());
                }
                o.push_str(x);
                o.push('\n');
            }
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    Ok(o)
}

fn parse_opts(words: &[&str]) -> BTreeMap<String, String> {
    words
        .iter()
        .map(|w| match w.split_once('=') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (w.to_string(), String::new()),
        })
        .collect()
}

/// Parses the body of a `//@fn` block (lines after the directive up to `//@endfn`).
fn parse_fn_block(head: &str, lines: &[&str]) -> Res<FnBlock> {
    let w: Vec<&str> = head.split_whitespace().collect();
    if w.len() < 2 {
        return Err(format!("bad //@fn directive: {head}"));
    }
    let mut b = FnBlock {
        file: w[0].to_string(),
        path: w[1].to_string(),
        opts: parse_opts(&w[2..]),
        ..Default::default()
    };
    enum Sec {
        Contract,
        Inv(usize),
        LoopStart(usize),
        LoopEnd(usize),
        Start,
        End,
        Hint,
    }
    let mut sec = Sec::Contract;
    for l in lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            let num = || rest.parse::<usize>().map_err(|_| format!("bad index in {t}"));
            match k {
                "inv" => sec = Sec::Inv(num()?),
                "loopstart" => sec = Sec::LoopStart(num()?),
                "loopend" => sec = Sec::LoopEnd(num()?),
                "start" => sec = Sec::Start,
                "end" => sec = Sec::End,
                "before" | "after" => {
                    let (nth, pat) = match rest.split_once('|') {
                        Some((n, p)) if n.trim() == "*" => (usize::MAX, p.trim()),
                        Some((n, p)) => (n.trim().parse::<usize>().unwrap_or(0), p.trim()),
                        None => (0, rest),
                    };
                    b.hints.push(Hint {
                        before: k == "before",
                        pat: pat.to_string(),
                        nth,
                        text: String::new(),
                    });
                    sec = Sec::Hint;
                }
                "rw" | "type" => {
                    let (a, c) = rest
                        .split_once("=>")
                        .ok_or_else(|| format!("bad rule {t}"))?;
                    let pr = (a.trim().to_string(), c.trim().to_string());
                    if k == "rw" {
                        b.rw.push(pr)
                    } else {
                        b.ty.push(pr)
                    }
                }
                _ => return Err(format!("unknown directive in fn block: {t}")),
            }
            continue;
        }
        let dst = match &sec {
            Sec::Contract => &mut b.contract,
            Sec::Inv(k) => b.invs.entry(*k).or_default(),
            Sec::LoopStart(k) => b.loopstart.entry(*k).or_default(),
            Sec::LoopEnd(k) => b.loopend.entry(*k).or_default(),
            Sec::Start => &mut b.start,
            Sec::End => &mut b.end,
            Sec::Hint => &mut b.hints.last_mut().unwrap().text,
        };
        dst.push_str(l);
        dst.push('\n');
    }
    Ok(b)
}

fn find_block(dir: &str, tmpl: &str, path: &str) -> Res<FnBlock> {
    let t = read_template(dir, tmpl)?;
    let lines: Vec<&str> = t.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        if let Some(h) = lines[i].trim().strip_prefix("//@fn ") {
            let mut j = i + 1;
            while j < lines.len() && lines[j].trim() != "//@endfn" {
                j += 1;
            }
            let b = parse_fn_block(h, &lines[i + 1..j])?;
            if b.path == path {
                return Ok(b);
            }
            i = j;
        }
        i += 1;
    }
    Err(format!("no contract for {path} in {tmpl}"))
}

struct Ctx<'a> {
    repo: &'a Repo,
    rules: Rules,
    known: BTreeSet<String>,
    vacuity: bool,
}

/// Collects loops in pre-order and inserts hole statements.
struct LoopHoles<'a> {
    n: usize,
    b: &'a FnBlock,
    holes: &'a mut Vec<(String, bool)>,
}

fn hole_stmt(i: usize) -> syn::Stmt {
    syn::parse_str(&format!("vx_hole!({i});")).unwrap()
}

impl<'a> LoopHoles<'a> {
    fn deco(&mut self, body: &mut syn::Block) {
        let k = self.n;
        self.n += 1;
        syn::visit_mut::visit_block_mut(self, body);
        if let Some(t) = self.b.loopend.get(&k) {
            self.holes.push((t.clone(), false));
            body.stmts.push(hole_stmt(self.holes.len() - 1));
        }
        if let Some(t) = self.b.loopstart.get(&k) {
            self.holes.push((t.clone(), false));
            body.stmts.insert(0, hole_stmt(self.holes.len() - 1));
        }
        let t = self.b.invs.get(&k).cloned().unwrap_or_default();
        self.holes.push((t, true));
        body.stmts.insert(0, hole_stmt(self.holes.len() - 1));
    }
}

impl<'a> VisitMut for LoopHoles<'a> {
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        self.visit_expr_mut(&mut e.cond);
        self.deco(&mut e.body);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        self.deco(&mut e.body);
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut syn::ExprForLoop) {
        self.visit_expr_mut(&mut e.expr);
        self.deco(&mut e.body);
    }
}

struct HintIns<'a> {
    b: &'a FnBlock,
    holes: &'a mut Vec<(String, bool)>,
    seen: Vec<usize>,
    done: Vec<bool>,
}

impl<'a> VisitMut for HintIns<'a> {
    fn visit_block_mut(&mut self, bl: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = vec![];
        let stmts = std::mem::take(&mut bl.stmts);
        for mut s in stmts {
            let mut pre = vec![];
            let mut post = vec![];
            for (i, h) in self.b.hints.iter().enumerate() {
                if self.done[i] {
                    continue;
                }
                if pattern::stmt_matches(&h.pat, &s) {
                    let n = self.seen[i];
                    self.seen[i] += 1;
                    if n == h.nth || h.nth == usize::MAX {
                        self.done[i] = h.nth != usize::MAX;
                        self.holes.push((h.text.clone(), false));
                        let hs = hole_stmt(self.holes.len() - 1);
                        if h.before {
                            pre.push(hs)
                        } else {
                            post.push(hs)
                        }
                    }
                }
            }
            syn::visit_mut::visit_stmt_mut(self, &mut s);
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        bl.stmts = out;
    }
}

fn known_fns(text: &str) -> BTreeSet<String> {
    let mut k = BTreeSet::new();
    let mut prev = "";
    for w in text.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '@' || c == ':' || c == '/')) {
        if w.is_empty() {
            continue;
        }
        if prev == "fn" || prev == "assume_specification" {
            k.insert(w.to_string());
        }
        prev = w;
    }
    for l in text.lines() {
        let t = l.trim();
        for p in ["//@fn ", "//@usefn "] {
            if let Some(r) = t.strip_prefix(p) {
                if let Some(n) = r.split_whitespace().nth(1) {
                    let n = n.rsplit("::").next().unwrap();
                    k.insert(n.to_string());
                }
                for w in r.split_whitespace() {
                    if let Some(a) = w.strip_prefix("as=") {
                        k.insert(a.to_string());
                    }
                }
            }
        }
    }
    k
}

fn emit_fn(cx: &Ctx, b: &FnBlock, external: bool, rep: &mut Report) -> Res<String> {
    let found = cx
        .repo
        .find(&b.file, &b.path)
        .ok_or_else(|| format!("lost anchor: {} {}", b.file, b.path))?;
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    if let Some(t) = b.opts.get("selfty") {
        // a method of a foreign type becomes a function
        let t: syn::Type = syn::parse_str(&t.replace('~', " ")).map_err(|e| e.to_string())?;
        if matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
            sig.inputs[0] = syn::parse_quote!(vx_self: #t);
        }
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
                if i == "self" {
                    *i = quote::format_ident!("vx_self");
                }
            }
        }
        S.visit_block_mut(&mut block);
    }
    let mut rules = cx.rules.clone();
    for (a, c) in &b.rw {
        rules.expr.insert(0, Rule::parse(a, c)?);
    }
    for (a, c) in &b.ty {
        rules.ty.insert(0, Rule::parse(a, c)?);
    }
    let abort = b.opts.get("mode").map(|m| m == "abort").unwrap_or(false);

    if !external {
        desugar::local_macros(&mut block, cx.repo)?;
        desugar::macros(&mut block, &mut rep.dropped, abort)?;
        accts::ctx_fields(&found.sig, &mut block, cx.repo);
        let mut inl = inline::Inliner::new(
            cx.repo,
            &cx.known,
            &rules,
            found.self_name.clone(),
            b.file.clone(),
            abort,
        );
        inl.run_fn(&mut block, &mut rep.dropped)?;
        for i in inl.inlined {
            rep.inlined.push(format!("{} into {}", i, b.path));
        }
        desugar::structure(&mut block, &rules, abort, &found.self_ty)?;
    }
    desugar::types_sig(&mut sig, &rules, &found.self_ty);
    desugar::types_block(&mut block, &rules, &found.self_ty);

    // holes
    let mut holes: Vec<(String, bool)> = vec![];
    let mut body = String::new();
    if !external {
        let mut hi = HintIns {
            b,
            holes: &mut holes,
            seen: vec![0; b.hints.len()],
            done: vec![false; b.hints.len()],
        };
        hi.visit_block_mut(&mut block);
        for (i, d) in hi.done.clone().iter().enumerate() {
            if !d && b.hints[i].nth != usize::MAX {
                rep.lost
                    .push(format!("{}: hint anchor `{}`", b.path, b.hints[i].pat));
            }
        }
        let mut lh = LoopHoles {
            n: 0,
            b,
            holes: &mut holes,
        };
        lh.visit_block_mut(&mut block);
        let nloops = lh.n;
        for k in b.invs.keys() {
            if *k >= nloops {
                rep.lost.push(format!("{}: loop {}", b.path, k));
            }
        }
        if nloops > b.invs.len() {
            rep.lost
                .push(format!("{}: {} loops, {} with invariants", b.path, nloops, b.invs.len()));
        }
        if !b.start.trim().is_empty() {
            holes.push((b.start.clone(), false));
            block.stmts.insert(0, hole_stmt(holes.len() - 1));
        }
        let endtext = if cx.vacuity {
            Some("proof { assert(false); }".to_string())
        } else if !b.end.trim().is_empty() {
            Some(b.end.clone())
        } else {
            None
        };
        if let Some(t) = endtext {
            holes.push((t, false));
            let hs = hole_stmt(holes.len() - 1);
            let at = match block.stmts.last() {
                Some(syn::Stmt::Expr(_, None)) => block.stmts.len() - 1,
                _ => block.stmts.len(),
            };
            block.stmts.insert(at, hs);
        }
        body = print::print(block.to_token_stream());
        for (i, (t, inv)) in holes.iter().enumerate() {
            body = print::fill_hole(&body, i, t, *inv);
        }
    }

    // signature
    let name = b
        .opts
        .get("as")
        .cloned()
        .unwrap_or_else(|| sig.ident.to_string());
    let mut s = String::new();
    if external {
        let _ = writeln!(s, "#[verifier::external_body] /*proved in {}*/", b.opts.get("vx_home").map_or("?", |x| x));
    }
    if let Some(r) = b.opts.get("rlimit") {
        let _ = writeln!(s, "#[verifier::rlimit({r})]");
    }
    if b.opts.contains_key("spinoff") {
        s.push_str("#[verifier::spinoff_prover]\n");
    }
    if b.opts.contains_key("nonlinear") {
        s.push_str("#[verifier::integer_ring]\n");
    }
    if b.opts.contains_key("nodecreases") {
        s.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if b.opts.contains_key("loop_isolation_off") {
        s.push_str("#[verifier::loop_isolation(false)]\n");
    }
    let params = sig.generics.params.clone();
    let gen = if params.is_empty() {
        String::new()
    } else {
        format!("<{}>", print::flat(params.to_token_stream()))
    };
    let gen = match b.opts.get("generics") {
        Some(g) => {
            sig.generics.where_clause = None;
            format!("<{}>", g.replace('~', " "))
        }
        None => gen,
    };
    let inputs = print::flat(sig.inputs.to_token_stream());
    let extra = b
        .opts
        .get("addparam")
        .map(|p| p.replace('~', " "))
        .unwrap_or_default();
    let inputs = if extra.is_empty() {
        inputs
    } else {
        format!("{}, {}", inputs.trim_end_matches(|c| c == ',' || c == ' '), extra)
    };
    let ret = b.opts.get("ret").cloned().unwrap_or_else(|| "r".into());
    let out = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", ret, print::flat(t.to_token_stream())),
    };
    let wh = sig
        .generics
        .where_clause
        .as_ref()
        .map(|w| print::flat(w.to_token_stream()))
        .unwrap_or_default();
    let _ = write!(s, "pub fn {name}{gen}({inputs}){out} {wh}\n{}", b.contract);
    if external {
        s.push_str("{ unimplemented!() }\n");
    } else {
        s.push_str(&body);
        s.push('\n');
    }
    Ok(s)
}

fn emit_item(cx: &Ctx, spec: &str, rep: &mut Report) -> Res<String> {
    let w: Vec<&str> = spec.split_whitespace().collect();
    if w.len() < 2 {
        return Err(format!("bad //@item {spec}"));
    }
    let opts = parse_opts(&w[2..]);
    let it = cx
        .repo
        .find_item(w[0], w[1])
        .ok_or_else(|| format!("lost anchor: item {} {}", w[0], w[1]))?;
    let id = format!("{} {}", w[0], w[1]);
    if rep.items.contains(&id) {
        return Ok(String::new()); // included by more than one file
    }
    rep.items.push(id);
    desugar::item(it, &cx.rules, &opts)
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        return Err("usage: vx template src contracts out report [--vacuity]".into());
    }
    let (tmpl, src, dir, out, report) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let text = read_template(dir, tmpl)?;
    let repo = Repo::load(src)?;
    let mut cx = Ctx {
        repo: &repo,
        rules: Rules::default(),
        known: known_fns(&text),
        vacuity,
    };
    let mut rep = Report::default();
    let mut o = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut errs = vec![];
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match k {
                "rw" => {
                    let (p, q) = rest.split_once("=>").ok_or("bad //@rw")?;
                    cx.rules.expr.push(Rule::parse(p.trim(), q.trim())?);
                }
                "type" => {
                    let (p, q) = rest.split_once("=>").ok_or("bad //@type")?;
                    cx.rules.ty.push(Rule::parse(p.trim(), q.trim())?);
                }
                "noinline" => {
                    for w in rest.split_whitespace() {
                        cx.rules.noinline.insert(w.to_string());
                    }
                }
                "inline" => {
                    for w in rest.split_whitespace() {
                        cx.rules.inline.insert(w.to_string());
                    }
                }
                "item" => match emit_item(&cx, rest, &mut rep) {
                    Ok(s) => {
                        o.push_str(&s);
                        o.push('\n');
                    }
                    Err(e) => errs.push(e),
                },
                "usefn" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let mut b = find_block(dir, w[0], w[1])?;
                    b.opts.insert("vx_home".to_string(), w[0].to_string());
                    for x in parse_opts(&w[2..]) {
                        b.opts.insert(x.0, x.1);
                    }
                    match emit_fn(&cx, &b, true, &mut rep) {
                        Ok(s) => {
                            o.push_str(&s);
                        }
                        Err(e) => errs.push(e),
                    }
                }
                "fn" => {
                    let mut j = i + 1;
                    while j < lines.len() && lines[j].trim() != "//@endfn" {
                        j += 1;
                    }
                    let b = parse_fn_block(rest, &lines[i + 1..j])?;
                    let start = o.lines().count() + 1;
                    match emit_fn(&cx, &b, false, &mut rep) {
                        Ok(s) => {
                            o.push_str(&s);
                            let end = o.lines().count();
                            let f = repo.find(&b.file, &b.path).unwrap();
                            rep.fns.push(format!(
                                "{{\"path\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{}}}",
                                jstr(&b.path),
                                jstr(&b.file),
                                f.line,
                                start,
                                end
                            ));
                        }
                        Err(e) => errs.push(e),
                    }
                    i = j;
                }
                _ => return Err(format!("unknown directive {t}")),
            }
        } else {
            o.push_str(l);
            o.push('\n');
        }
        i += 1;
    }
    std::fs::write(out, o).map_err(|e| e.to_string())?;
    let r = format!(
        "{{\"template\":{},\"functions\":[{}],\"items\":{},\"inlined\":{},\"dropped\":{},\"lost_hints\":{},\"errors\":{}}}\n",
        jstr(tmpl),
        rep.fns.join(","),
        jarr(rep.items.iter()),
        jarr(rep.inlined.iter()),
        jarr(rep.dropped.iter()),
        jarr(rep.lost.iter()),
        jarr(errs.iter())
    );
    std::fs::write(report, r).map_err(|e| e.to_string())?;
    if errs.is_empty() {
        Ok(())
    } else {
        Err(errs.join("\n"))
    }
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}
