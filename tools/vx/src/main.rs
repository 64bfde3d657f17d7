//! vx: mechanical extractor.  Reads the real Rust sources of /repo and a
//! contract file (/verif/specs/*.spec) and writes one Verus crate containing
//! the functions verbatim, with the contracts attached and the edits E1..E16
//! documented in /verif/DESIGN.md.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

mod edits;
mod html;
use edits::*;

#[derive(Default, Clone, Debug)]
struct FnSpec {
    key: String,
    flags: BTreeSet<String>,
    contract: String,
    head: String,
    ret: Option<String>,
    loops: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    sig: Option<String>,
    implextra: String,
    tcontract: Option<String>,
    nloops: Option<usize>,
    nclosures: Option<usize>,
}

static TRUST: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

#[derive(Debug, Clone)]
enum Dir {
    Source(String),
    Type(String, BTreeSet<String>),
    Const(String),
    Fn(FnSpec),
    AutoFns,
    Raw(String),
    Include(String),
    Skip(String),
    FnHead(String),
    LoopInv(String),
    AutoPar(String),
    LitGen,
}

fn parse_spec(text: &str) -> Vec<Dir> {
    let mut out = vec![];
    let mut cur: Option<FnSpec> = None;
    let mut sect: String = String::new();
    let mut raw: Option<String> = None;
    for line in text.lines() {
        if let Some(r) = raw.as_mut() {
            if line.trim() == "@endraw" {
                out.push(Dir::Raw(raw.take().unwrap()));
            } else {
                r.push_str(line);
                r.push('\n');
            }
            continue;
        }
        let t = line.trim();
        if t.starts_with("//#") { continue; }
        if t.starts_with('@') && !t.starts_with("@@") {
            if let Some(c) = cur.take() { out.push(Dir::Fn(c)); }
            let mut w = t.split_whitespace();
            let d = w.next().unwrap();
            let rest: Vec<String> = w.map(|x| x.to_string()).collect();
            match d {
                "@source" => out.push(Dir::Source(rest[0].clone())),
                "@include" => out.push(Dir::Include(rest[0].clone())),
                "@type" => out.push(Dir::Type(rest[0].clone(), rest[1..].iter().cloned().collect())),
                "@const" => out.push(Dir::Const(rest[0].clone())),
                "@skip" => out.push(Dir::Skip(rest.join(" "))),
                "@fnhead" => out.push(Dir::FnHead(rest.join(" "))),
                "@loopinv" => out.push(Dir::LoopInv(rest.join(" "))),
                "@autopar" => out.push(Dir::AutoPar(rest.join(" "))),
                "@litgen" => out.push(Dir::LitGen),
                "@slices" => edits::SLICES.store(true, std::sync::atomic::Ordering::Relaxed),
                // @trust KEY: decided in another unit, only its contract is used in this one
                "@trust" => TRUST.lock().unwrap().push(rest.join(" ")),
                "@autofns" => out.push(Dir::AutoFns),
                "@raw" => raw = Some(String::new()),
                "@fn" => {
                    // key may contain spaces inside <>: join until balanced
                    let (key, flags) = split_key(&rest.join(" "));
                    cur = Some(FnSpec { key, flags, ..Default::default() });
                    sect = "contract".into();
                }
                _ => panic!("bad directive {t}"),
            }
            continue;
        }
        if let Some(c) = cur.as_mut() {
            if let Some(r) = t.strip_prefix("@@") {
                let mut w = r.split_whitespace();
                let d = w.next().unwrap();
                match d {
                    "loop" | "closure" => sect = format!("{} {}", d, w.next().unwrap()),
                    "head" => sect = "head".into(),
                    "impl" => sect = "impl".into(),
                    "stub" => { sect = "stub".into(); c.tcontract = Some(String::new()); }
                    "contract" => sect = "contract".into(),
                    "ret" => { c.ret = Some(w.collect::<Vec<_>>().join(" ")); }
                    "sig" => { c.sig = Some(r[3..].trim().to_string()); }
                    "loops" => { c.nloops = Some(w.next().unwrap().parse().unwrap()); }
                    "closures" => { c.nclosures = Some(w.next().unwrap().parse().unwrap()); }
                    _ => panic!("bad section {t}"),
                }
                continue;
            }
            let dst = match sect.as_str() {
                "contract" => &mut c.contract,
                "head" => &mut c.head,
                "impl" => &mut c.implextra,
                "stub" => c.tcontract.as_mut().unwrap(),
                s if s.starts_with("loop ") => c.loops.entry(s[5..].parse().unwrap()).or_default(),
                s if s.starts_with("closure ") => c.closures.entry(s[8..].parse().unwrap()).or_default(),
                _ => unreachable!(),
            };
            dst.push_str(line);
            dst.push('\n');
        }
    }
    if let Some(c) = cur.take() { out.push(Dir::Fn(c)); }
    out
}

fn split_key(s: &str) -> (String, BTreeSet<String>) {
    let mut depth = 0;
    let mut idx = s.len();
    for (i, ch) in s.char_indices() {
        match ch {
            '<' => depth += 1,
            '>' => depth -= 1,
            ' ' if depth == 0 => { idx = i; break; }
            _ => {}
        }
    }
    let key = s[..idx].replace(' ', "");
    let flags = s[idx..].split_whitespace().map(|x| x.to_string()).collect();
    (key, flags)
}

/// A function found in a source file.
struct Found<'f> {
    key: String,
    sig: &'f syn::Signature,
    block: Option<&'f syn::Block>,
    imp: Option<&'f syn::ItemImpl>,
    nested_in: Option<String>,
    /// default method of a trait, looked at in a type that takes it over (E33)
    taken: bool,
}

fn tnorm(t: &impl quote::ToTokens) -> String {
    let s = quote::quote!(#t).to_string();
    let mut s = s.replace(' ', "");
    // drop lifetimes in keys
    for lt in ["<'_>", "<'a>", "<'static>", "'a,", "'b,", "'_,", "&'a", "&'b", "<'b>"] {
        let rep = if lt.starts_with('&') { "&" } else { "" };
        s = s.replace(lt, rep);
    }
    s
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = tnorm(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            format!("{}<{}>", ty, tnorm(last))
        }
        None => ty,
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("test"))
        || attrs.iter().any(|a| a.path().is_ident("test"))
}

fn collect<'f>(items: &'f [syn::Item], out: &mut Vec<Found<'f>>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) && !is_off(&f.attrs) => {
                push_fn(f.sig.ident.to_string(), &f.sig, Some(&f.block), None, None, out)
            }
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                let k = impl_key(i);
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        push_fn(format!("{}::{}", k, f.sig.ident), &f.sig, Some(&f.block), Some(i), None, out);
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content { collect(its, out) }
            }
            syn::Item::Trait(t) if !is_test(&t.attrs) => {
                for i in items.iter().filter_map(|x| match x { syn::Item::Impl(i) if !is_test(&i.attrs) && i.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().unwrap().ident == t.ident) => Some(i), _ => None }) {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            let own = i.items.iter().any(|y| matches!(y, syn::ImplItem::Fn(g) if g.sig.ident == f.sig.ident));
                            if let (Some(b), false) = (&f.default, own) {
                                out.push(Found { key: format!("{}::{}", impl_key(i), f.sig.ident), sig: &f.sig, block: Some(b), imp: Some(i), nested_in: None, taken: true });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
/// items compiled only with the (off by default) timekeeper feature
fn is_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(feature=\"timekeeper\")")
    })
}
fn push_fn<'f>(key: String, sig: &'f syn::Signature, block: Option<&'f syn::Block>, imp: Option<&'f syn::ItemImpl>, nested_in: Option<String>, out: &mut Vec<Found<'f>>) {
    if let Some(b) = block {
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
                push_fn(format!("{}::{}", key, f.sig.ident), &f.sig, Some(&f.block), None, Some(key.clone()), out);
            }
        }
    }
    out.push(Found { key, sig, block, imp, nested_in, taken: false });
}

pub struct Src { pub text: String, pub line_off: Vec<usize>, pub path: String, /// positions moved by the expansion of local macros (E29)
    pub alias: HashMap<(usize, usize), (usize, usize)> }
impl Src {
    fn new(path: &str, text: String) -> Self {
        let mut line_off = vec![0];
        for (i, c) in text.bytes().enumerate() { if c == b'\n' { line_off.push(i + 1) } }
        Src { text, line_off, path: path.into(), alias: HashMap::new() }
    }
    pub fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        // columns are in chars
        let l = self.line_off[lc.line - 1];
        let mut o = l;
        for (n, ch) in self.text[l..].chars().enumerate() {
            if n == lc.column { break; }
            o += ch.len_utf8();
        }
        o
    }
    pub fn range(&self, sp: proc_macro2::Span) -> (usize, usize) { (self.off(sp.start()), self.off(sp.end())) }
    pub fn slice(&self, sp: proc_macro2::Span) -> &str { let (a, b) = self.range(sp); &self.text[a..b] }
}

/// E29: a `macro_rules!` inside a function with the single arm `($x:expr) => { .. }` is expanded where it is used;
/// lines stay where they are, and the positions of closures in its body are remembered
fn expand_local_macros(text: String) -> (String, HashMap<(usize, usize), (usize, usize)>) {
    let mut cs: Vec<(char, Option<(usize, usize)>)> = vec![];
    let (mut l, mut c) = (1, 1);
    for ch in text.chars() { cs.push((ch, Some((l, c)))); if ch == '\n' { l += 1; c = 1 } else { c += 1 } }
    let mut moved = false;
    let starts = |cs: &[(char, Option<(usize, usize)>)], i: usize, w: &str| w.chars().enumerate().all(|(k, x)| cs.get(i + k).map_or(false, |y| y.0 == x));
    let close = |cs: &[(char, Option<(usize, usize)>)], open: usize| -> Option<usize> {
        let (o, z) = match cs[open].0 { '{' => ('{', '}'), '(' => ('(', ')'), _ => return None };
        let mut d = 0;
        for k in open..cs.len() { if cs[k].0 == o { d += 1 } else if cs[k].0 == z { d -= 1; if d == 0 { return Some(k) } } }
        None
    };
    let mut i = 0;
    while i < cs.len() {
        if !starts(&cs, i, "        macro_rules! ") { i += 1; continue; }
        let def = (|| {
            let mut k = i + "        macro_rules! ".len();
            let mut name = String::new();
            while cs.get(k)?.0.is_alphanumeric() || cs[k].0 == '_' { name.push(cs[k].0); k += 1; }
            while cs.get(k)?.0.is_whitespace() { k += 1; }
            let end = close(&cs, k)?;
            k += 1;
            while cs.get(k)?.0.is_whitespace() { k += 1; }
            if !starts(&cs, k, "($") { return None; }
            k += 1;
            let mut par = String::new();
            while cs.get(k)?.0 != ':' { par.push(cs[k].0); k += 1; }
            if !starts(&cs, k, ":expr) => {") { return None; }
            k += ":expr) => ".len();
            let bend = close(&cs, k)?;
            let rest: String = cs[bend + 1..end].iter().map(|x| x.0).collect();
            if !rest.trim().trim_start_matches(';').trim().is_empty() { return None; }
            Some((name, par, k + 1, bend, end))
        })();
        let Some((name, par, b0, b1, end)) = def else { i += 1; continue };
        let body: Vec<(char, Option<(usize, usize)>)> = cs[b0..b1].iter().map(|x| if x.0 == '\n' { (' ', None) } else { *x }).collect();
        for k in i..=end { if cs[k].0 != '\n' { cs[k] = (' ', None); } }
        let inv = format!("{name}!(");
        let mut k = end + 1;
        while k < cs.len() && !starts(&cs, k, &format!("macro_rules! {name}")) {
            if starts(&cs, k, &inv) {
                let open = k + inv.len() - 1;
                let Some(e) = close(&cs, open) else { break };
                let arg: Vec<(char, Option<(usize, usize)>)> = cs[open + 1..e].iter().map(|x| (x.0, None)).collect();
                let mut out = vec![];
                let mut m = 0;
                while m < body.len() {
                    if starts(&body, m, &par) { out.extend(arg.iter().cloned()); m += par.len(); } else { out.push(body[m]); m += 1; }
                }
                let n = out.len();
                cs.splice(k..=e, out);
                k += n;
                moved = true;
            } else { k += 1; }
        }
        i = end + 1;
    }
    if !moved { return (text, HashMap::new()); }
    let mut alias = HashMap::new();
    let (mut l, mut c) = (1, 1);
    let mut out = String::new();
    for (ch, o) in &cs {
        out.push(*ch);
        if let Some(o) = o { if *o != (l, c) { alias.insert((l, c), *o); } }
        if *ch == '\n' { l += 1; c = 1 } else { c += 1 }
    }
    (out, alias)
}

#[derive(Clone, Debug)]
struct Emitted { name: String, key: String, kind: String, file: String, line: usize, gen_start: usize, gen_end: usize, loops: usize, closures: usize, note: String, params: Vec<String>, calls: Vec<String>, heads: Vec<String> }

/// what a body calls and the headers of its loops (compared with the committed baseline by run.py)
#[derive(Default)]
struct Shape { calls: BTreeSet<String>, heads: Vec<String> }
impl<'a> Visit<'a> for Shape {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { self.calls.insert(p.path.segments.last().unwrap().ident.to_string()); }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        // functions passed as values
        let id = p.path.segments.last().unwrap().ident.to_string();
        if p.path.segments.len() > 1 { self.calls.insert(id); }
        syn::visit::visit_expr_path(self, p)
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c)
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { self.calls.insert(format!("{}!", m.path.segments.last().unwrap().ident)); }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.heads.push(format!("while {}", tnorm(&e.cond))); syn::visit::visit_expr_while(self, e) }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.heads.push("loop".into()); syn::visit::visit_expr_loop(self, e) }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.heads.push(format!("for {} in {}", tnorm(&e.pat), tnorm(&e.expr))); syn::visit::visit_expr_for_loop(self, e) }
}
fn opt_(a: &[String], k: &str) -> Option<String> { a.iter().find_map(|x| x.strip_prefix(k).map(|y| y.to_string())) }
fn word_sub(s: &str, map: &[(String, String)]) -> String {
    if map.is_empty() { return s.to_string(); }
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') { j += 1; }
            let w: String = cs[i..j].iter().collect();
            let field = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
            match map.iter().find(|(a, _)| *a == w) { Some((_, b)) if !field => out.push_str(b), _ => out.push_str(&w) }
            i = j;
        } else { out.push(cs[i]); i += 1; }
    }
    out
}

/// `a ;; b ;; c`
fn three(t: &str) -> Option<(String, String, String)> {
    let v: Vec<&str> = t.splitn(3, ";;").map(|x| x.trim()).collect();
    if v.len() == 3 { Some((v[0].into(), v[1].into(), v[2].into())) } else { None }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    // vx SPEC REPO MIR OUT.rs OUT.json [demote=fn,fn]
    let spec_path = &a[1];
    let repo = &a[2];
    let mir = &a[3];
    let out_rs = &a[4];
    let out_json = &a[5];
    let demote: BTreeSet<String> = opt_(&a, "demote=").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let only: Option<BTreeSet<String>> = opt_(&a, "only=").filter(|s| !s.is_empty()).map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect());
    let opt = |k: &str| a.iter().find_map(|x| x.strip_prefix(k).map(|y| y.to_string()));
    let probe = opt("probe=").is_some();
    let mut base_params: HashMap<String, Vec<String>> = HashMap::new();
    if let Some(b) = opt("base=") {
        for l in std::fs::read_to_string(b).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split('\t').collect();
            if w.len() > 2 { base_params.insert(format!("{}\t{}", w[0], w[1]), w[2].split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()); }
        }
    }
    let spec_text = std::fs::read_to_string(spec_path).unwrap();
    let base = std::path::Path::new(spec_path).parent().unwrap().to_path_buf();
    let dirs = expand(parse_spec(&spec_text), &base);
    let closure_types = load_mir(mir, repo);
    let mut g = Gen { out: String::new(), emitted: vec![], problems: vec![], closure_types, demote, only, done: BTreeSet::new(), fnhead: String::new(), ctors: BTreeSet::new(), probe, base_params, loopinv: None, autopar: None, litgen: false, all_lits: BTreeSet::new(), plain_lits: BTreeSet::new() };
    g.out.push_str("#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code, unused_assignments, mismatched_lifetime_syntaxes)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut cur: Option<(Src, syn::File)> = None;
    let mut i = 0;
    while i < dirs.len() {
        match &dirs[i] {
            Dir::Source(p) => {
                let full = format!("{}/{}", repo, p);
                match std::fs::read_to_string(&full) {
                    Ok(t) => { let (t, alias) = expand_local_macros(t); match syn::parse_file(&t) {
                        Ok(f) => { let mut src = Src::new(p, t); src.alias = alias; cur = Some((src, f)) }
                        Err(e) => { g.problems.push(format!("parse {p}: {e}")); cur = None; }
                    } },
                    Err(e) => { g.problems.push(format!("read {p}: {e}")); cur = None; }
                }
                // all fn specs for this source
                let mut specs: Vec<FnSpec> = vec![];
                let mut auto = false;
                let mut skips: BTreeSet<String> = BTreeSet::new();
                let mut j = i + 1;
                while j < dirs.len() {
                    match &dirs[j] { Dir::Source(_) => break, Dir::Fn(f) => specs.push(f.clone()), Dir::AutoFns => auto = true, Dir::Skip(s) => { skips.insert(s.clone()); }, _ => {} }
                    j += 1;
                }
                if let Some((src, file)) = &cur {
                    // in-file directives in order: types/consts/raw first
                    for d in &dirs[i + 1..j] {
                        match d {
                            Dir::Type(n, fl) => g.emit_type(src, file, n, fl),
                            Dir::Const(n) => g.emit_const(src, file, n),
                            Dir::Raw(t) => g.emit_raw(t),
                            Dir::FnHead(t) => g.fnhead = format!("{t}\n"),
                            Dir::LoopInv(t) => g.loopinv = three(t),
                            Dir::AutoPar(t) => g.autopar = three(t),
                            _ => {}
                        }
                    }
                    let mut found = vec![];
                    collect(&file.items, &mut found);
                    g.emit_file(src, &found, &specs, auto, &skips);
                } else {
                    for d in &dirs[i + 1..j] { if let Dir::Raw(t) = d { g.emit_raw(t) } }
                }
                i = j;
                continue;
            }
            Dir::Raw(t) => g.emit_raw(t),
            Dir::FnHead(t) => g.fnhead = format!("{t}\n"),
            Dir::LoopInv(t) => g.loopinv = three(t),
            Dir::AutoPar(t) => g.autopar = three(t),
            Dir::LitGen => g.litgen = true,
            _ => {}
        }
        i += 1;
    }
    if g.litgen { let t = html::module(&g.all_lits, &g.plain_lits); g.out.push_str(&t); }
    g.out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(out_rs, &g.out).unwrap();
    let mut js = String::from("{\n \"functions\": [\n");
    for (k, e) in g.emitted.iter().enumerate() {
        let _ = write!(js, "  {{\"name\": {:?}, \"key\": {:?}, \"kind\": {:?}, \"file\": {:?}, \"line\": {}, \"gen_start\": {}, \"gen_end\": {}, \"loops\": {}, \"closures\": {}, \"note\": {:?}, \"params\": {:?}, \"calls\": {:?}, \"heads\": {:?}}}{}\n",
            e.name, e.key, e.kind, e.file, e.line, e.gen_start, e.gen_end, e.loops, e.closures, e.note, e.params, e.calls, e.heads, if k + 1 < g.emitted.len() { "," } else { "" });
    }
    js.push_str(" ],\n \"problems\": [");
    for (k, p) in g.problems.iter().enumerate() { let _ = write!(js, "{}{:?}", if k > 0 { ", " } else { "" }, p); }
    js.push_str("]\n}\n");
    std::fs::write(out_json, js).unwrap();
}

fn expand(d: Vec<Dir>, base: &std::path::Path) -> Vec<Dir> {
    let mut out = vec![];
    for x in d {
        match x {
            Dir::Include(p) => {
                let full = base.join(&p);
                let t = std::fs::read_to_string(&full).unwrap_or_else(|e| panic!("{}: {e}", full.display()));
                if p.ends_with(".rs") { out.push(Dir::Raw(t)); } else { out.extend(expand(parse_spec(&t), base)); }
            }
            o => out.push(o),
        }
    }
    out
}

struct Gen {
    out: String,
    emitted: Vec<Emitted>,
    problems: Vec<String>,
    closure_types: HashMap<(String, usize, usize), ClosureTy>,
    demote: BTreeSet<String>,
    only: Option<BTreeSet<String>>,
    done: BTreeSet<String>,
    fnhead: String,
    ctors: BTreeSet<String>,
    probe: bool,
    base_params: HashMap<String, Vec<String>>,
    loopinv: Option<(String, String, String)>,
    autopar: Option<(String, String, String)>,
    litgen: bool,
    all_lits: BTreeSet<String>,
    plain_lits: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct ClosureTy { pub args: Vec<String>, pub ret: String }

fn short_ty(t: &str) -> Option<String> {
    if t.contains("{closure") || t.contains("impl ") || t.contains("{") || t.contains("dyn ") { return None; }
    // strip paths a::b::C -> C
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') { j += 1; }
            let w: String = cs[i..j].iter().collect();
            if j + 1 < cs.len() && cs[j] == ':' && cs[j + 1] == ':' {
                // path prefix: drop (keep nom::Err distinct)
                if w == "nom" { out.push_str("nom::"); }
                i = j + 2;
                continue;
            }
            out.push_str(&w);
            i = j;
        } else { out.push(cs[i]); i += 1; }
    }
    Some(out)
}

fn load_mir(path: &str, repo: &str) -> HashMap<(String, usize, usize), ClosureTy> {
    let mut m = HashMap::new();
    // one dump per crate, separated by commas
    let t: String = path.split(',').filter_map(|p| std::fs::read_to_string(p).ok()).collect();
    for line in t.lines() {
        if !line.starts_with("fn ") || !line.contains("{closure@") { continue; }
        // position
        let Some(p0) = line.find("(_1: ") else { continue };
        let rest = &line[p0 + 5..];
        let r = rest.trim_start_matches('&').trim_start_matches("mut ");
        let Some(r) = r.strip_prefix("{closure@") else { continue };
        let Some(e) = r.find('}') else { continue };
        let pos = &r[..e];
        let first = pos.split(": ").next().unwrap();
        let mut w = first.rsplitn(3, ':');
        let col: usize = match w.next().and_then(|x| x.parse().ok()) { Some(x) => x, None => continue };
        let ln: usize = match w.next().and_then(|x| x.parse().ok()) { Some(x) => x, None => continue };
        let file = w.next().unwrap_or("").to_string();
        let file = file.strip_prefix(&format!("{repo}/")).unwrap_or(&file).to_string();
        // remaining args
        let body = &r[e + 1..];
        let Some(arrow) = split_sig(body) else { continue };
        let (args_s, ret_s) = arrow;
        let mut args = vec![];
        let mut ok = true;
        for a in split_top(&args_s) {
            let a = a.trim();
            if a.is_empty() { continue; }
            let Some(c) = a.find(": ") else { ok = false; break };
            match short_ty(&a[c + 2..]) { Some(t) => args.push(t), None => { ok = false; break } }
        }
        if !ok { continue; }
        let Some(ret) = short_ty(ret_s.trim()) else { continue };
        m.insert((file, ln, col), ClosureTy { args: args.iter().map(|a| edits::unslice(a)).collect(), ret: edits::unslice(&ret) });
    }
    m
}
/// body = ", _2: T, _3: U) -> R {"
fn split_sig(b: &str) -> Option<(String, String)> {
    let mut d = 0i32;
    let bs: Vec<char> = b.chars().collect();
    for (i, c) in bs.iter().enumerate() {
        match c {
            '(' | '[' | '<' => d += 1,
            '>' if i > 0 && bs[i - 1] == '-' => {}
            ']' | '>' => d -= 1,
            ')' => {
                if d == 0 {
                    let args: String = bs[..i].iter().collect();
                    let rest: String = bs[i + 1..].iter().collect();
                    let rest = rest.trim();
                    let ret = rest.strip_prefix("->").map(|x| x.trim()).unwrap_or("()");
                    let ret = ret.strip_suffix('{').unwrap_or(ret).trim();
                    let ret = if ret.is_empty() { "()" } else { ret };
                    return Some((args.trim_start_matches(',').to_string(), ret.to_string()));
                }
                d -= 1
            }
            _ => {}
        }
    }
    None
}
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0i32;
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        match c {
            '(' | '[' | '<' | '{' => d += 1,
            '>' if i > 0 && cs[i - 1] == '-' => {}
            ')' | ']' | '>' | '}' => d -= 1,
            ',' if d == 0 => { out.push(std::mem::take(&mut cur)); continue; }
            _ => {}
        }
        cur.push(*c);
    }
    out.push(cur);
    out
}

impl Gen {
    fn line(&self) -> usize { self.out.bytes().filter(|b| *b == b'\n').count() + 1 }

    fn emit_raw(&mut self, t: &str) { self.out.push_str(t); self.out.push('\n'); }

    fn emit_const(&mut self, src: &Src, file: &syn::File, name: &str) {
        // Type::NAME
        let (ty, nm) = name.rsplit_once("::").unwrap();
        for it in &file.items {
            if let syn::Item::Impl(i) = it {
                if i.trait_.is_none() && impl_key(i) == ty {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if c.ident == nm {
                                let (_, w) = i.generics.split_for_impl_text(src);
                                let _ = w;
                                let gen = src.slice(i.generics.span());
                                let gen = if i.generics.params.is_empty() { "" } else { gen };
                                // a lifetime parameter of the impl plays no part in a const: 'static (Verus has no consts in generic impls)
                                let lts: Vec<_> = i.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
                                if lts.len() == i.generics.params.len() && lts.len() == 1 {
                                    let _ = write!(self.out, "impl {} {{ pub const {}: {} = {}; }}\n", src.slice(i.self_ty.span()).replace(&lts[0], "'static"), nm, src.slice(c.ty.span()), src.slice(c.expr.span()));
                                    return;
                                }
                                let _ = write!(self.out, "impl{} {} {{ pub const {}: {} = {}; }}\n", gen, src.slice(i.self_ty.span()), nm, src.slice(c.ty.span()), src.slice(c.expr.span()));
                                return;
                            }
                        }
                    }
                }
            }
        }
        self.problems.push(format!("const {name} not found in {}", src.path));
    }

    fn emit_type(&mut self, src: &Src, file: &syn::File, name: &str, flags: &BTreeSet<String>) {
        fn find<'x>(items: &'x [syn::Item], name: &str) -> Option<&'x syn::Item> {
            items.iter().find(|it| match it {
                syn::Item::Struct(s) => s.ident == name,
                syn::Item::Enum(s) => s.ident == name,
                syn::Item::Type(s) => s.ident == name,
                _ => false,
            }).or_else(|| items.iter().find_map(|it| match it {
                syn::Item::Mod(m) if !is_test(&m.attrs) => m.content.as_ref().and_then(|(_, its)| find(its, name)),
                _ => None,
            }))
        }
        let Some(it) = find(&file.items, name) else { self.problems.push(format!("type {name} not found in {}", src.path)); return };
        let mut derives: Vec<&str> = vec![];
        if flags.contains("copy") { derives.push("Clone"); derives.push("Copy"); }
        if flags.contains("clone") { derives.push("Clone"); }
        if flags.contains("eq") { derives.extend(["PartialEq", "Eq", "Structural"]); }
        if flags.contains("default") { derives.push("Default"); }
        if !derives.is_empty() { let _ = write!(self.out, "#[derive({})]\n", derives.join(", ")); }
        let has = |attrs: &[syn::Attribute], w: &str| attrs.iter().any(|a| a.path().is_ident("derive") && {
            let s = quote::quote!(#a).to_string();
            s.split(|c: char| !c.is_alphanumeric()).any(|x| x == w)
        });
        match it {
            syn::Item::Struct(s) => {
                let gen = if s.generics.params.is_empty() { String::new() } else { src.slice(s.generics.span()).to_string() };
                let gen = lt_span(&gen);
                let gargs = gen_args(&s.generics);
                match &s.fields {
                    syn::Fields::Named(n) => {
                        let fs: Vec<(String, String)> = n.named.iter().filter(|f| !f.attrs.iter().any(|a| a.path().is_ident("cfg"))).map(|f| (f.ident.as_ref().unwrap().to_string(), src.slice(f.ty.span()).to_string())).collect();
                        let _ = write!(self.out, "pub struct {}{} {{ {} }}\n", name, gen, fs.iter().map(|(a, b)| format!("pub {a}: {b}")).collect::<Vec<_>>().join(", "));
                        if flags.contains("ctor") {
                            if !has(&s.attrs, "Constructor") { self.problems.push(format!("{name}: derive(Constructor) is gone")); }
                            let _ = write!(self.out, "impl{gen} {name}{gargs} {{ pub fn new({}) -> (r: Self) ensures {} {{ {name} {{ {} }} }} }}\n",
                                fs.iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join(", "),
                                fs.iter().map(|(a, _)| format!("r.{a} == {a}")).collect::<Vec<_>>().join(", "),
                                fs.iter().map(|(a, _)| a.clone()).collect::<Vec<_>>().join(", "));
                        }
                    }
                    syn::Fields::Unnamed(n) => {
                        let fs: Vec<String> = n.unnamed.iter().map(|f| src.slice(f.ty.span()).to_string()).collect();
                        let _ = write!(self.out, "pub struct {}{}({});\n", name, gen, fs.iter().map(|b| format!("pub {b}")).collect::<Vec<_>>().join(", "));
                        if flags.contains("ctor") {
                            if !has(&s.attrs, "Constructor") { self.problems.push(format!("{name}: derive(Constructor) is gone")); }
                            let _ = write!(self.out, "impl{gen} {name}{gargs} {{ pub fn new({}) -> (r: Self) ensures {} {{ {name}({}) }} }}\n",
                                fs.iter().enumerate().map(|(i, b)| format!("x{i}: {b}")).collect::<Vec<_>>().join(", "),
                                (0..fs.len()).map(|i| format!("r.{i} == x{i}")).collect::<Vec<_>>().join(", "),
                                (0..fs.len()).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", "));
                        }
                    }
                    syn::Fields::Unit => { let _ = write!(self.out, "pub struct {name}{gen};\n"); }
                }
            }
            syn::Item::Enum(s) => {
                let gen = if s.generics.params.is_empty() { String::new() } else { src.slice(s.generics.span()).to_string() };
                let gen = lt_span(&gen);
                let gargs = gen_args(&s.generics);
                let mut vs = vec![];
                for v in &s.variants {
                    let f = match &v.fields {
                        syn::Fields::Unit => String::new(),
                        syn::Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|f| src.slice(f.ty.span()).to_string()).collect::<Vec<_>>().join(", ")),
                        syn::Fields::Named(n) => format!(" {{ {} }}", n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), src.slice(f.ty.span()))).collect::<Vec<_>>().join(", ")),
                    };
                    vs.push(format!("{}{}", v.ident, f));
                }
                let _ = write!(self.out, "pub enum {}{} {{ {} }}\n", name, gen, vs.join(", "));
                for v in &s.variants {
                    if let syn::Fields::Unnamed(n) = &v.fields {
                        let ps: Vec<String> = n.unnamed.iter().enumerate().map(|(i, f)| format!("x{i}: {}", src.slice(f.ty.span()))).collect();
                        let xs: Vec<String> = (0..ps.len()).map(|i| format!("x{i}")).collect();
                        let _ = write!(self.out, "pub fn {name}__{}__ctor{gen}({}) -> (r: {name}{gargs}) ensures r == {name}{}::{}({}) {{ {name}::{}({}) }}\n", v.ident, ps.join(", "), if gargs.is_empty() { String::new() } else { format!("::{gargs}") }, v.ident, xs.join(", "), v.ident, xs.join(", "));
                        self.ctors.insert(format!("{name}::{}", v.ident));
                    }
                }
                if flags.contains("from") {
                    if !has(&s.attrs, "From") { self.problems.push(format!("{name}: derive(From) is gone")); }
                    for v in &s.variants {
                        if let syn::Fields::Unnamed(n) = &v.fields {
                            if n.unnamed.len() == 1 {
                                let ty = src.slice(n.unnamed[0].ty.span());
                                let _ = write!(self.out, "impl{gen} From__<{ty}> for {name}{gargs} {{ open spec fn from_req(x: {ty}) -> bool {{ true }} open spec fn from_ens(x: {ty}, r: Self) -> bool {{ r == {name}::{}(x) }} fn from__(x: {ty}) -> (r: Self) {{ {name}::{}(x) }} }}\n", v.ident, v.ident);
                            }
                        }
                    }
                }
            }
            syn::Item::Type(t) => {
                let gen = if t.generics.params.is_empty() { "" } else { src.slice(t.generics.span()) };
                let _ = write!(self.out, "pub type {}{} = {};\n", name, gen, src.slice(t.ty.span()));
            }
            _ => {}
        }
        self.emit_out(it, src, name, flags);
    }

    /// `out`: Out (all parts are ok in the same window); `el`: the ElementLike marker
    fn emit_out(&mut self, it: &syn::Item, src: &Src, name: &str, flags: &BTreeSet<String>) {
        let (g, body, mono) = match it {
            syn::Item::Struct(s) => {
                let n = s.fields.len();
                let names: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())).collect();
                let _ = n;
                let b = if names.is_empty() { "true".into() } else { names.iter().map(|x| format!("self.{x}.ok(c, lo, hi)")).collect::<Vec<_>>().join(" && ") };
                let m = names.iter().map(|x| format!("self.{x}.mono(c, lo, hi, lo2, hi2);")).collect::<Vec<_>>().join(" ");
                (&s.generics, b, m)
            }
            syn::Item::Enum(e) => {
                let mut b = String::new();
                let mut m = String::new();
                for v in &e.variants {
                    match &v.fields {
                        syn::Fields::Unit => { let _ = write!(b, "{name}::{} => true, ", v.ident); let _ = write!(m, "{name}::{} => {{}}, ", v.ident); }
                        syn::Fields::Unnamed(u) => {
                            let xs: Vec<String> = (0..u.unnamed.len()).map(|i| format!("x{i}")).collect();
                            let _ = write!(b, "{name}::{}({}) => {}, ", v.ident, xs.join(", "), xs.iter().map(|x| format!("{x}.ok(c, lo, hi)")).collect::<Vec<_>>().join(" && "));
                            let _ = write!(m, "{name}::{}({}) => {{ {} }}, ", v.ident, xs.join(", "), xs.iter().map(|x| format!("{x}.mono(c, lo, hi, lo2, hi2);")).collect::<Vec<_>>().join(" "));
                        }
                        syn::Fields::Named(u) => {
                            let xs: Vec<String> = u.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                            let _ = write!(b, "{name}::{} {{ {} }} => {}, ", v.ident, xs.join(", "), xs.iter().map(|x| format!("{x}.ok(c, lo, hi)")).collect::<Vec<_>>().join(" && "));
                            let _ = write!(m, "{name}::{} {{ {} }} => {{ {} }}, ", v.ident, xs.join(", "), xs.iter().map(|x| format!("{x}.mono(c, lo, hi, lo2, hi2);")).collect::<Vec<_>>().join(" "));
                        }
                    }
                }
                (&e.generics, format!("match self {{ {b} }}"), format!("match self {{ {m} }}"))
            }
            _ => return,
        };
        let gen = if g.params.is_empty() { String::new() } else { src.slice(g.span()).trim().to_string() };
        let ga = gen_args(g);
        if flags.contains("out") {
            let _ = write!(self.out, "impl{gen} Out for {name}{ga} {{ open spec fn loc() -> bool {{ false }} open spec fn ord() -> bool {{ true }} open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool {{ {body} }}\n    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {{ {mono} }} }}\n");
        }
        if flags.contains("same") { self.emit_same(it, src, name); }
        if flags.contains("el") { let _ = write!(self.out, "impl{gen} ElementLike for {name}{ga} {{}}\n"); }
    }

    /// `same`: the equations of `same` (every part the same) and, where PartialEq is derived, of `==` (every part `==`)
    fn emit_same(&mut self, it: &syn::Item, src: &Src, name: &str) {
        let (g, attrs, body) = match it {
            syn::Item::Struct(s) => {
                let names: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())).collect();
                (&s.generics, &s.attrs, if names.is_empty() { "true".into() } else { names.iter().map(|x| format!("REL(x.{x}, y.{x})")).collect::<Vec<_>>().join(" && ") })
            }
            syn::Item::Enum(e) => {
                let mut b = String::new();
                for v in &e.variants {
                    let (xs, ys, n): (String, String, Vec<(String, String)>) = match &v.fields {
                        syn::Fields::Unit => (String::new(), String::new(), vec![]),
                        syn::Fields::Unnamed(u) => { let n: Vec<(String, String)> = (0..u.unnamed.len()).map(|i| (format!("x{i}"), format!("y{i}"))).collect(); (format!("({})", n.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(", ")), format!("({})", n.iter().map(|a| a.1.clone()).collect::<Vec<_>>().join(", ")), n) }
                        syn::Fields::Named(u) => { let n: Vec<(String, String)> = u.named.iter().map(|f| { let i = f.ident.as_ref().unwrap(); (format!("x_{i}"), format!("y_{i}")) }).collect(); (format!(" {{ {} }}", n.iter().map(|a| format!("{}: {}", &a.0[2..], a.0)).collect::<Vec<_>>().join(", ")), format!(" {{ {} }}", n.iter().map(|a| format!("{}: {}", &a.1[2..], a.1)).collect::<Vec<_>>().join(", ")), n) }
                    };
                    let c = if n.is_empty() { "true".into() } else { n.iter().map(|(a, b)| format!("REL({a}, {b})")).collect::<Vec<_>>().join(" && ") };
                    let _ = write!(b, "({name}::{}{xs}, {name}::{}{ys}) => {c}, ", v.ident, v.ident);
                }
                let b = if e.variants.len() > 1 { format!("{b}_ => false") } else { b };
                (&e.generics, &e.attrs, format!("match (x, y) {{ {b} }}"))
            }
            _ => return,
        };
        let gen = if g.params.is_empty() { String::new() } else { src.slice(g.span()).trim().to_string() };
        let ga = gen_args(g);
        let wh = g.where_clause.as_ref().map(|w| src.slice(w.span()).to_string()).unwrap_or_default();
        let _ = write!(self.out, "pub mod sm_{name} {{ use super::*; pub broadcast axiom fn sa{gen}(x: {name}{ga}, y: {name}{ga}) {wh} ensures #[trigger] same(x, y) == ({}); }}\n", body.replace("REL(", "same("));
        let derived = attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == "PartialEq"));
        if derived { let _ = write!(self.out, "impl{gen} PartialEqSpecImpl for {name}{ga} {wh} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}{ga}) -> bool {{ peq(*self, *o) }} }}\nimpl{gen} PartialEq for {name}{ga} {wh} {{ #[verifier::external_body] fn eq(&self, o: &{name}{ga}) -> (r: bool) {{ unimplemented!() }} }}\n"); }
        if derived { let _ = write!(self.out, "pub mod pe_{name} {{ use super::*; pub broadcast axiom fn peq_{gen}(x: {name}{ga}, y: {name}{ga}) {wh} ensures #[trigger] peq(x, y) == ({}); }}\n", body.replace("REL(", "peq(")); }
    }

    fn emit_file(&mut self, src: &Src, found: &[Found], specs: &[FnSpec], auto: bool, skips: &BTreeSet<String>) {
        let by: HashMap<&str, &FnSpec> = specs.iter().map(|s| (s.key.as_str(), s)).collect();
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        for f in found {
            let sp = by.get(f.key.as_str()).copied();
            if sp.is_some() { seen.insert(&f.key); }
            let inherit_root = f.key.split("::").next().unwrap_or("");
            let sp_owned;
            let spec = match sp {
                Some(s) => s,
                None => {
                    if !auto && f.nested_in.as_ref().map_or(true, |n| !by.contains_key(n.as_str())) { continue; }
                    if f.imp.is_some() { continue; }
                    if skips.contains(&f.key) || skips.contains(inherit_root) { continue; }
                    sp_owned = FnSpec { key: f.key.clone(), ..Default::default() };
                    &sp_owned
                }
            };
            if spec.flags.contains("skip") { continue; }
            self.emit_fn(src, f, spec, found);
        }
        for s in specs { if !seen.contains(s.key.as_str()) && !s.flags.contains("optional") { self.problems.push(format!("lost anchor: {} not found in {}", s.key, src.path)); } }
    }

    fn emit_fn(&mut self, src: &Src, f: &Found, spec: &FnSpec, found: &[Found]) {
        let sig = f.sig;
        let mut name = sig.ident.to_string();
        if f.imp.map_or(false, |i| i.trait_.is_some()) && (name == "from" || name == "try_from") { name.push_str("__"); }
        if f.nested_in.is_some() {
            // hoisted: outer path joined (types sanitised)
            name = sanitize(&f.key);
        }
        // nested fns of this fn and of enclosing ones -> rename map
        let mut rename: HashMap<String, String> = HashMap::new();
        for g in found {
            if let Some(n) = &g.nested_in {
                if *n == f.key || Some(n) == f.nested_in.as_ref() || f.key.starts_with(&format!("{}::", n)) {
                    rename.insert(g.sig.ident.to_string(), sanitize(&g.key));
                }
            }
        }
        let inherent = spec.flags.contains("inherent");
        let mut info = analyze_sig(src, sig, f.imp);
        // @@sig `I = Vec<..>`: the generic iterator parameter I is looked at as the type the core hands over (E32)
        if let Some((g, t)) = spec.sig.as_ref().and_then(|s| s.trim().split_once('=')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())) {
            for p in info.ps.iter_mut() { if p.2.trim() == g { p.2 = t.clone(); } }
            if info.generics.trim_start_matches('<').trim_start().starts_with(&format!("{g}:")) { info.generics = String::new(); }
        }
        let params: Vec<String> = sig.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(t) => Some(tnorm(&t.pat)), _ => None }).collect();
        let mut shape = Shape::default();
        if let Some(b) = f.block { shape.visit_block(b); }
        let calls: Vec<String> = shape.calls.iter().cloned().collect();
        // parameters renamed since the contracts were written: rename them in the contract too
        let mut spec_owned = spec.clone();
        if let Some(bp) = self.base_params.get(&format!("{}\t{}", src.path, f.key)) {
            if bp.len() == params.len() && *bp != params {
                let map: Vec<(String, String)> = bp.iter().zip(&params).filter(|(a, b)| a != b).map(|(a, b)| (a.trim_start_matches("mut").to_string(), b.trim_start_matches("mut").to_string())).collect();
                let ren = |t: &str| word_sub(t, &map);
                spec_owned.contract = ren(&spec_owned.contract);
                spec_owned.head = ren(&spec_owned.head);
                spec_owned.implextra = ren(&spec_owned.implextra);
                spec_owned.tcontract = spec_owned.tcontract.as_ref().map(|t| ren(t));
                for v in spec_owned.loops.values_mut() { *v = ren(v); }
                for v in spec_owned.closures.values_mut() { *v = ren(v); }
            }
        }
        let spec = &spec_owned;
        // standing contract of functions that take a parameter of the given type
        let par = self.autopar.as_ref().and_then(|(ty, c, fo)| info.ps.iter().find(|x| x.2.replace(' ', "").contains(ty.as_str())).map(|x| (x.1.clone(), c.clone(), fo.clone())));
        let (mut par_used, no_contract) = (false, String::new());
        let mut contract = if spec.contract.trim().is_empty() && !spec.flags.contains("nocontract") { default_contract(&info) } else { spec.contract.clone() };
        if let (Some((p, c, _)), true, true) = (&par, contract.trim().is_empty(), info.ret.is_some()) { par_used = true; contract = word_sub(c, &[("PAR".to_string(), p.clone())]).replace(" ensures ", "\n    ensures "); }
        let ret_named = match &info.ret { Some(t) => format!(" -> (ret: {})", spec.ret.clone().unwrap_or_else(|| t.clone())), None => String::new() };
        let (impl_open, impl_close) = match f.imp {
            None => (String::new(), String::new()),
            Some(i) => {
                let gen = if i.generics.params.is_empty() { String::new() } else { src.slice(i.generics.span()).to_string() };
                let gen = lt_span(&gen);
                let tr = match &i.trait_ { Some((_, p, _)) if !inherent => format!("{} for ", { let t = src.slice(p.span()).to_string(); if t.starts_with("From<") { t.replacen("From<", "From__<", 1) } else if t.starts_with("TryFrom<") { t.replacen("TryFrom<", "TryFrom__<", 1) } else { t } }), _ => String::new() };
                let wh = i.generics.where_clause.as_ref().map(|w| src.slice(w.span()).to_string()).unwrap_or_default();
                let wh = if inherent { String::new() } else { wh };
                (format!("impl{} {}{} {} {{\n", gen, tr, src.slice(i.self_ty.span()), wh), "}\n".to_string())
            }
        };
        let inherent_open = match f.imp {
            None => String::new(),
            Some(i) => {
                let gen = if i.generics.params.is_empty() { String::new() } else { lt_span(src.slice(i.generics.span())) };
                let wh = i.generics.where_clause.as_ref().map(|w| src.slice(w.span()).to_string()).unwrap_or_default();
                let wh = if inherent { String::new() } else { wh };
                format!("impl{} {} {} {{\n", gen, src.slice(i.self_ty.span()), wh)
            }
        };
        let sigs = |nm: &str, vis: &str, muted: bool| -> String {
            let r = format!("{vis}fn {nm}{}({}){}{}", info.generics, info.params(muted), ret_named, info.where_);
            // conversions are the local trait Into__ (E7)
            if spec.flags.contains("into") { r.replace(": Into<", ": Into__<") } else { r }
        };
        let is_trait = f.imp.map_or(false, |i| i.trait_.is_some()) && !inherent;
        let vis = if is_trait { "" } else { "pub " };
        // ---- stub
        let trusted = spec.flags.contains("trusted") || TRUST.lock().unwrap().contains(&f.key);
        let line = sig.ident.span().start().line;
        let stub_body = info.stub_body.clone();
        let start = self.line();
        let mut attrs = String::from("#[verifier::external_body]\n");
        for fl in &spec.flags { if let Some(x) = fl.strip_prefix("when_used_as_spec=") { let _ = write!(attrs, "#[verifier::when_used_as_spec({x})]\n"); } }
        let _ = write!(self.out, "//@@ STUB {}\n{}{}{}\n{}\n{{ {} }}\n{}", f.key, format!("{}{}", impl_open, if f.imp.is_some() { spec.implextra.as_str() } else { "" }), attrs, sigs(&name, vis, true), spec.tcontract.as_ref().unwrap_or(if is_trait && par_used { &no_contract } else { &contract }), stub_body, impl_close);
        let e = self.line();
        let in_only = self.only.as_ref().map_or(true, |o| o.contains(&f.key));
        // verified in another unit: only its contract is used here
        if spec.flags.contains("stub") {
            self.emitted.push(Emitted { name: name.clone(), key: f.key.clone(), kind: "stub".into(), file: src.path.clone(), line, gen_start: start, gen_end: e, loops: 0, closures: 0, note: String::new(), params, calls, heads: shape.heads });
            return;
        }
        let demoted = self.demote.contains(&f.key) || !in_only;
        self.emitted.push(Emitted { name: name.clone(), key: f.key.clone(), kind: if trusted { "trusted".into() } else { "stub".into() }, file: src.path.clone(), line, gen_start: start, gen_end: e, loops: 0, closures: 0, note: String::new(), params: params.clone(), calls: calls.clone(), heads: shape.heads.clone() });
        if trusted || demoted {
            if !trusted && in_only { self.emitted.push(Emitted { name: format!("{name}__impl"), key: f.key.clone(), kind: "demoted".into(), file: src.path.clone(), line, gen_start: start, gen_end: e, loops: 0, closures: 0, note: "demoted".into(), params: params.clone(), calls: calls.clone(), heads: shape.heads.clone() }); }
            return;
        }
        // ---- verified copy
        let Some(block) = f.block else { return };
        let mut cts;
        let cts = match (f.taken, spec.sig.as_ref().and_then(|s| s.trim().split_once('='))) {
            (true, Some((a, b))) => {
                let m = [(a.trim().to_string(), b.trim().to_string())];
                cts = self.closure_types.clone();
                for t in cts.values_mut() { for x in t.args.iter_mut() { *x = word_sub(x, &m); } t.ret = word_sub(&t.ret, &m); }
                &cts
            }
            _ => &self.closure_types,
        };
        let mut ed = BodyEd::new(src, cts, &rename, &spec.closures, &spec.loops);
        ed.ctors = self.ctors.clone();
        ed.outs = self.out.contains("trait Out:");
        ed.enumr = self.out.contains("fn enumerate__");
        ed.twins = ["split_once", "as_ref", "split", "extend", "all", "join", "flat_map", "concat", "drain", "flatten", "replacen"].iter().filter(|t| (self.out.contains(&format!("fn {t}__(")) || self.out.contains(&format!("fn {t}__<")))).map(|t| t.to_string()).collect();
        ed.desugar = spec.flags.contains("desugar") || self.loopinv.is_some();
        if let (Some((a, b, c)), Some((p, _, _))) = (&self.loopinv, &par) { let m = [("PAR".to_string(), p.clone())]; ed.loopinv = Some((word_sub(a, &m), word_sub(b, &m), word_sub(c, &m))); }
        ed.mut_self = info.lets.contains("self__");
        ed.ret = info.ret.clone();
        ed.strs = info.ps.iter().filter(|p| { let t = p.2.replace(' ', ""); t == "&'staticstr" || t == "&str" }).map(|p| p.1.clone()).collect();
        ed.inner_ret = info.inner_ret.clone();
        ed.visit_block(block);
        let body = ed.finish(block);
        self.all_lits.extend(ed.all_lits.iter().cloned());
        let nl = ed.nloops;
        let nc = ed.nclosures;
        let note = ed.notes.join("; ");
        if let Some(n) = spec.nloops { if n != nl { self.problems.push(format!("lost anchor: {} has {} loops, contract written for {}", f.key, nl, n)); } }
        if let Some(n) = spec.nclosures { if n != nc { self.problems.push(format!("lost anchor: {} has {} closures, contract written for {}", f.key, nc, n)); } }
        let mut iname = format!("{name}__impl");
        if f.imp.is_some() && self.done.contains(&format!("{}{}", inherent_open, iname)) || is_trait { iname = format!("{}__impl", sanitize(&f.key)); }
        self.done.insert(format!("{}{}", inherent_open, iname));
        let start = self.line();
        let rl = spec.flags.iter().find_map(|x| x.strip_prefix("rlimit=")).map(|x| format!("#[verifier::rlimit({x})]\n")).unwrap_or_default();
        let sp = if spec.flags.contains("spinoff") { "#[verifier::spinoff_prover]\n" } else { "" };
        let (hides, head): (Vec<&str>, Vec<&str>) = spec.head.lines().partition(|l| l.trim_start().starts_with("hide("));
        let mut spec_head = format!("{}\n{}{}{}\n", hides.join("\n"), info.lets, self.fnhead, head.join("\n"));
        if !spec.flags.contains("nolits") {
            if self.litgen {
                self.plain_lits.insert(String::new());
                spec_head.push_str("proof { lits__::s_(); }\n");
                for v in &ed.all_lits { if let Some(n) = html::safe_name(v) { spec_head.push_str(&format!("proof {{ lits__::{n}(); }}\n")); self.plain_lits.insert(v.clone()); } }
            }
            if self.litgen { for l in &ed.lits { if let Ok(v) = syn::parse_str::<syn::LitStr>(l) { let v = v.value(); if let Some(n) = html::safe_name(&v) { spec_head.push_str(&format!("proof {{ lits__::{n}(); }}\n")); self.plain_lits.insert(v); } } } }
            for l in &ed.lits { spec_head.push_str(&format!("proof {{ reveal_strlit({l}); lit_facts({l}); }}\n")); }
        }
        let body = if spec_head.trim().is_empty() { body } else { format!("{{\n{}\n{}", spec_head, &body[1..]) };
        let contract = if self.probe { probe_contract(&contract) } else { contract };
// an impl for every type: the verified copy is a method of a trait of its own
        let blanket = f.imp.is_some_and(|i| { let t = src.slice(i.self_ty.span()).to_string(); i.generics.type_params().any(|p| p.ident == t) });
        let (inherent_open, vis2, contract2) = if blanket {
            let i = f.imp.unwrap();
            let t = src.slice(i.self_ty.span()).to_string();
            let sup: String = i.generics.type_params().filter(|p| p.ident == t).flat_map(|p| p.bounds.iter()).map(|b| format!(" + {}", src.slice(b.span()))).collect();
            (format!("pub trait {iname}__tr: Sized{sup} {{\n{}\n{contract};\n}}\n{}", sigs(&iname, "", true), inherent_open.replacen(&format!("> {} ", src.slice(f.imp.unwrap().self_ty.span())), &format!("> {iname}__tr for {} ", src.slice(f.imp.unwrap().self_ty.span())), 1)), "", String::new())
        } else { (inherent_open, "pub ", contract) };
                let _ = write!(self.out, "//@@ IMPL {}\n{}#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n{}{}{}\n{}\n{}\n{}", f.key, inherent_open, rl, sp, sigs(&iname, vis2, false), contract2, body, if f.imp.is_some() { "}\n" } else { "" });
        let e = self.line();
        self.emitted.push(Emitted { name: iname, key: f.key.clone(), kind: "impl".into(), file: src.path.clone(), line, gen_start: start, gen_end: e, loops: nl, closures: nc, note, params, calls, heads: shape.heads });
    }
}

/// vacuity probe: additionally claim `false`
fn probe_contract(c: &str) -> String {
    let t = c.trim_end();
    let has = t.lines().any(|l| l.trim_start().starts_with("ensures"));
    let sep = if t.is_empty() || t.ends_with(',') { "" } else { "," };
    if has { format!("{t}{sep} false,\n") } else { format!("{t}{sep}\n ensures false,\n") }
}

pub fn sanitize(k: &str) -> String {
    let mut s = String::new();
    for c in k.replace("::", "__").chars() { if c.is_alphanumeric() || c == '_' { s.push(c) } else { s.push('_') } }
    s
}

/// the span of syn::Generics excludes nothing we need, but make sure it is `<...>`
fn lt_span(s: &str) -> String { s.trim().to_string() }

fn gen_args(g: &syn::Generics) -> String {
    if g.params.is_empty() { return String::new(); }
    let v: Vec<String> = g.params.iter().map(|p| match p {
        syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
        syn::GenericParam::Type(t) => t.ident.to_string(),
        syn::GenericParam::Const(c) => c.ident.to_string(),
    }).collect();
    format!("<{}>", v.join(", "))
}
trait GenText { fn split_for_impl_text(&self, s: &Src) -> ((), ()); }
impl GenText for syn::Generics { fn split_for_impl_text(&self, _s: &Src) -> ((), ()) { ((), ()) } }
