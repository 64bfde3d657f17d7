use super::{ClosureTy, Src};
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct SigInfo {
    pub generics: String,
    pub where_: String,
    pub ps: Vec<(bool, String, String, bool)>, // (is_self, pat, ty, mut)
    pub ret: Option<String>,
    /// for `impl Fn(Span) -> IResult<T>` returns: the closure's result type
    pub inner_ret: Option<String>,
    pub stub_body: String,
    /// bindings inserted at the head of the verified copy
    pub lets: String,
}
impl SigInfo {
    pub fn params(&self, stub: bool) -> String {
        self.ps.iter().map(|(is_self, p, t, m)| {
            if *is_self { if stub { p.clone() } else { p.clone() } }
            else { format!("{}{}: {}", if *m && !stub { "mut " } else { "" }, p, t) }
        }).collect::<Vec<_>>().join(", ")
    }
}

/// E27 (units with @slices): `&[T]` in types is written `&Vec<T>`, the local sequence type
pub static SLICES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn unslice(t: &str) -> String {
    if !SLICES.load(std::sync::atomic::Ordering::Relaxed) { return t.to_string(); }
    let (mut o, mut rest) = (String::new(), t);
    while let Some(k) = rest.find('[') {
        let Some(e) = rest[k..].find(']') else { break };
        o.push_str(&rest[..k]);
        let inner = &rest[k + 1..k + e];
        if inner.contains(';') { o.push_str(&rest[k..k + e + 1]) } else { o.push_str(&format!("Vec<{inner}>")) }
        rest = &rest[k + e + 1..];
    }
    o + rest
}
fn fnmut(s: &str) -> String { let s = if s.starts_with("fn(") { format!("impl Fn{}", &s[2..]) } else { s.to_string() }; unslice(&s.replace("impl FnMut(", "impl Fn(")) }

pub fn analyze_sig(src: &Src, sig: &syn::Signature, _imp: Option<&syn::ItemImpl>) -> SigInfo {
    let mut ps = vec![];
    let mut lets = String::new();
    for (k, a) in sig.inputs.iter().enumerate() {
        match a {
            // E20: `mut self` -> `self` with a mutable copy (Verus has no `mut self`)
            syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() => { lets.push_str("let mut self__ = self; "); ps.push((true, "self".to_string(), String::new(), true)) }
            syn::FnArg::Receiver(r) => ps.push((true, src.slice(r.span()).to_string(), String::new(), false)),
            syn::FnArg::Typed(t) => {
                let ty = fnmut(src.slice(t.ty.span()));
                let (p, m) = match &*t.pat {
                    syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some() && !ty.starts_with("impl Fn")),
                    syn::Pat::Wild(_) => (format!("arg__{k}"), false),
                    p => { lets.push_str(&format!("let {} = arg__{k}; ", src.slice(p.span()))); (format!("arg__{k}"), false) }
                };
                ps.push((false, p, ty, m));
            }
        }
    }
    let ret = match &sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some(fnmut(src.slice(t.span()))) };
    let mut generics = if sig.generics.params.is_empty() { String::new() } else {
        let v: Vec<String> = sig.generics.params.iter().map(|p| match p {
            syn::GenericParam::Type(t) => {
                let s = src.slice(t.span()).to_string();
                if s.contains("Fn") || s.contains(":") && !s.trim_end().ends_with(':') { s } else { s }
            }
            p => src.slice(p.span()).to_string(),
        }).collect();
        format!("<{}>", v.join(", "))
    };
    // E16: ghost bound on plain type parameters of parser combinators
    let is_comb = ret.as_ref().map_or(false, |r| r.contains("IResult")) ;
    if is_comb {
        for p in sig.generics.type_params() {
            if p.bounds.is_empty() { generics = generics.replace(&format!("{}", p.ident), &format!("{}: Out", p.ident)); }
        }
    }
    let where_ = sig.generics.where_clause.as_ref().map(|w| {
        let s = src.slice(w.span()).trim().trim_end_matches(',').to_string();
        format!("\n{}", s)
    }).unwrap_or_default();
    let mut inner_ret = None;
    let mut stub_body = "unimplemented!()".to_string();
    if let Some(r) = &ret {
        if let Some(k) = r.find("impl Fn(") {
            if k == 0 {
                if let Some(a) = r.find("-> ") {
                    let t = r[a + 3..].trim().to_string();
                    let args = &r[8..r[..a].rfind(')').unwrap()];
                    inner_ret = Some(t.clone());
                    stub_body = format!("move |_s: {}| -> {} {{ unimplemented!() }}", args, t);
                }
            }
        }
    }
    SigInfo { generics, where_, ps, ret, inner_ret, stub_body, lets }
}

pub fn default_contract(i: &SigInfo) -> String {
    let mut req = vec![];
    for (is_self, p, t, _) in &i.ps {
        if *is_self { continue; }
        let t = t.replace(' ', "");
        if t == "&'staticstr" { req.push(format!("lit_ok({p})")); }
        if t.starts_with("implFn(Span") && t.contains("->IResult") { req.push(format!("pok({p})")); }
        if (t == "Span" || t == "Span<'a>" || t == "Span<'_>") && i.ret.as_ref().map_or(false, |r| r.starts_with("IResult")) { req.push(format!("{p}.pre()")); }
    }
    let mut ens = vec![];
    if let Some(r) = &i.ret {
        if r.starts_with("IResult") {
            if let Some((_, p, _, _)) = i.ps.iter().find(|x| x.2.starts_with("Span")) { ens.push(format!("post({p}, ret)")); }
        } else if i.inner_ret.as_ref().map_or(false, |t| t.starts_with("IResult")) {
            ens.push("pok(ret)".to_string());
        }
    }
    let mut s = String::new();
    if !req.is_empty() { s.push_str(&format!("    requires {},\n", req.join(", "))); }
    if !ens.is_empty() { s.push_str(&format!("    ensures {},\n", ens.join(", "))); }
    s
}

pub struct BodyEd<'s> {
    pub src: &'s Src,
    pub edits: Vec<(usize, usize, String)>,
    pub ct: &'s HashMap<(String, usize, usize), ClosureTy>,
    pub rename: &'s HashMap<String, String>,
    pub closure_specs: &'s BTreeMap<usize, String>,
    pub loop_specs: &'s BTreeMap<usize, String>,
    pub nloops: usize,
    pub nclosures: usize,
    pub notes: Vec<String>,
    pub ret: Option<String>,
    pub inner_ret: Option<String>,
    pub lits: std::collections::BTreeSet<String>,
    pub strs: std::collections::BTreeSet<String>,
    pub ctors: std::collections::BTreeSet<String>,
    pub mut_self: bool,
    pub desugar: bool,
    /// invariants of loops without their own: (iterator loops, other loops, snapshot expression)
    pub loopinv: Option<(String, String, String)>,
    pub enumr: bool,
    /// std methods for which the prelude has a counterpart `name__`
    pub twins: Vec<String>,
    pub all_lits: std::collections::BTreeSet<String>,
    pub outs: bool,
}

impl<'s> BodyEd<'s> {
    pub fn new(src: &'s Src, ct: &'s HashMap<(String, usize, usize), ClosureTy>, rename: &'s HashMap<String, String>, cs: &'s BTreeMap<usize, String>, ls: &'s BTreeMap<usize, String>) -> Self {
        BodyEd { src, edits: vec![], ct, rename, closure_specs: cs, loop_specs: ls, nloops: 0, nclosures: 0, notes: vec![], ret: None, inner_ret: None, lits: Default::default(), strs: Default::default(), ctors: Default::default(), mut_self: false, desugar: false, loopinv: None, enumr: false, twins: vec![], all_lits: Default::default(), outs: true }
    }
    fn ins(&mut self, at: usize, s: impl Into<String>) { self.edits.push((at, at, s.into())); }
    fn rep(&mut self, r: (usize, usize), s: impl Into<String>) { self.edits.push((r.0, r.1, s.into())); }

    pub fn finish(&mut self, b: &syn::Block) -> String {
        let (s, e) = self.src.range(b.span());
        apply(&self.src.text, s, e, self.edits.clone())
    }

    /// a loop without invariants of its own gets the standing ones, and a snapshot of the state before it
    fn snap(&mut self, k: usize, sp: proc_macro2::Span) -> Option<String> {
        let (_, inv, ex) = self.loopinv.clone()?;
        let (a, b) = self.src.range(sp);
        self.ins(a, format!("{{ let ghost snap__{k} = {ex}; "));
        self.ins(b, " }");
        if self.loop_specs.contains_key(&k) { return None; }
        Some(inv.replace("__K", &format!("__{k}")))
    }
    /// edits made inside `e` by the visitor, applied to its text
    fn sub_text(&mut self, e: &syn::Expr) -> String {
        let keep = std::mem::take(&mut self.edits);
        self.visit_expr(e);
        let mine = std::mem::replace(&mut self.edits, keep);
        let (s, z) = self.src.range(e.span());
        apply(&self.src.text, s, z, mine)
    }
    /// E21: format!/write!/writeln! spelled out piece by piece, matches! as the match it stands for
    fn expand_macro(&mut self, m: &syn::Macro, whole: Option<proc_macro2::Span>) -> bool {
        use syn::parse::Parser;
        let name = m.path.segments.last().unwrap().ident.to_string();
        let no_err = whole.is_some();
        let range = self.src.range(whole.unwrap_or(m.span()));
        if name == "matches" {
            let p = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                let e: syn::Expr = i.parse()?; i.parse::<syn::Token![,]>()?;
                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse::<syn::Expr>()?) } else { None };
                let _ = i.parse::<Option<syn::Token![,]>>()?;
                Ok((e, p, g))
            };
            let Ok((e, p, g)) = p.parse2(m.tokens.clone()) else { return false };
            let et = self.sub_text(&e);
            let pt = { let keep = std::mem::take(&mut self.edits); self.visit_pat(&p); let mine = std::mem::replace(&mut self.edits, keep); let (s, z) = self.src.range(p.span()); apply(&self.src.text, s, z, mine) };
            let gt = g.as_ref().map(|g| format!(" if {}", self.sub_text(g))).unwrap_or_default();
            self.rep(range, format!("(match {et} {{ {pt}{gt} => true, _ => false }})"));
            return true;
        }
        // E25: log records are dropped
        if ["trace", "debug", "info", "warn", "error"].contains(&name.as_str()) { self.rep(range, "()"); return true; }
        // E26: `println!("{}", x)` is a call that prints x
        if name == "println" {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            let Ok(args) = p.parse2(m.tokens.clone()) else { return false };
            if args.len() != 2 || !matches!(&args[0], syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) if l.value() == "{}") { return false; }
            let x = self.sub_text(&args[1]);
            self.rep(range, format!("println__(&({x}))"));
            return true;
        }
        // E27: with the sequence type of the specification, `vec![..]` is converted to it
        if name == "vec" && SLICES.load(std::sync::atomic::Ordering::Relaxed) {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            let Ok(args) = p.parse2(m.tokens.clone()) else { return false };
            let xs: Vec<String> = args.iter().map(|a| self.sub_text(a)).collect();
            self.rep(range, format!("into_vec__(vec![{}])", xs.join(", ")));
            return true;
        }
        if !["format", "write", "writeln"].contains(&name.as_str()) { return false; }
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let Ok(args) = p.parse2(m.tokens.clone()) else { return false };
        let mut args: Vec<syn::Expr> = args.into_iter().collect();
        let dst = if name == "format" { None } else { if args.is_empty() { return false; } let d = args.remove(0); Some(self.sub_text(&d)) };
        let mut lit = if args.is_empty() { if name == "writeln" { String::new() } else { return false } } else {
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = args.remove(0) else { return false };
            l.value()
        };
        if name == "writeln" { lit.push('\n'); }
        // pieces: Ok(text) or Err((argument, format))
        let mut pieces: Vec<Result<String, (String, String)>> = vec![];
        let mut cur = String::new();
        let mut next = 0;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut named: HashMap<String, String> = HashMap::new();
        let mut pos = vec![];
        for a in &args {
            if let syn::Expr::Assign(x) = a { let n = self.src.slice(x.left.span()).to_string(); let k = pos.len(); let t = self.sub_text(&x.right); named.insert(n, format!("a{k}__")); pos.push(t); }
            else { let t = self.sub_text(a); pos.push(t); }
        }
        while i < cs.len() {
            if (cs[i] == '{' || cs[i] == '}') && i + 1 < cs.len() && cs[i + 1] == cs[i] { cur.push(cs[i]); i += 2; continue; }
            if cs[i] == '{' {
                let e = match cs[i..].iter().position(|c| *c == '}') { Some(e) => i + e, None => return false };
                let body: String = cs[i + 1..e].iter().collect();
                let (n, f) = match body.split_once(':') { Some((n, f)) => (n.trim().to_string(), f.trim().to_string()), None => (body.trim().to_string(), String::new()) };
                let a = if n.is_empty() { next += 1; if next > pos.len() { return false } format!("a{}__", next - 1) }
                    else if let Ok(k) = n.parse::<usize>() { if k >= pos.len() { return false } format!("a{k}__") }
                    else if let Some(x) = named.get(&n) { x.clone() } else { n };
                if !cur.is_empty() { pieces.push(Ok(std::mem::take(&mut cur))); }
                pieces.push(Err((a, f)));
                i = e + 1;
                continue;
            }
            cur.push(cs[i]); i += 1;
        }
        if !cur.is_empty() { pieces.push(Ok(cur)); }
        let mut out = String::from("({ ");
        for (k, t) in pos.iter().enumerate() { out.push_str(&format!("let a{k}__ = &({t}); ")); }
        let (sink, pre) = match &dst { Some(d) => (d.clone(), "w"), None => { out.push_str("let mut w__ = String::new(); "); ("&mut w__".to_string(), "fmt") } };
        for p in &pieces {
            match p {
                Ok(t) => { let l = format!("{t:?}"); if t.is_ascii() { if dst.is_some() { self.all_lits.insert(t.clone()); } else { self.lits.insert(l.clone()); } } out.push_str(&format!("{pre}_lit__({sink}, {l}); ")); }
                Err((a, f)) => {
                    let fun = match f.as_str() { "" => "disp", "x" => "lhex", "X" => "uhex", "?" => "debug", _ => return false };
                    out.push_str(&format!("{pre}_{fun}__({sink}, {a}); "));
                }
            }
        }
        // E23: `write!(..)?` loses its error exit (the results below never fail; nothing is claimed of an error)
        out.push_str(if dst.is_none() { "w__ })" } else if no_err { "})" } else { "w_end__() })" });
        self.rep(range, out);
        true
    }

    /// E19: a tuple-variant constructor used as a function value
    fn ctor_args<'x>(&mut self, args: impl Iterator<Item = &'x syn::Expr>) -> Vec<&'x syn::Expr> {
        let mut rest = vec![];
        for a in args {
            if let syn::Expr::Path(p) = a {
                let t = self.src.slice(p.span()).replace(' ', "");
                if t == "Some" || self.ctors.contains(&t) {
                    let r = self.src.range(p.span());
                    self.rep(r, format!("{}__ctor", t.replace("::", "__")));
                    continue;
                }
            }
            rest.push(a);
        }
        rest
    }
    fn pure(&self, e: &syn::Expr) -> bool {
        use syn::Expr::*;
        match e {
            Lit(_) | Path(_) => true,
            Paren(p) => self.pure(&p.expr),
            Unary(u) => self.pure(&u.expr),
            Binary(b) => self.pure(&b.left) && self.pure(&b.right),
            Field(f) => self.pure(&f.base),
            Tuple(t) => t.elems.iter().all(|x| self.pure(x)),
            Reference(r) => self.pure(&r.expr),
            MethodCall(m) => {
                const OK: &[&str] = &["remaining_len", "is_empty", "is_some", "is_none", "start_offset", "depth", "region", "is_ascii_whitespace"];
                OK.contains(&m.method.to_string().as_str()) && self.pure(&m.receiver) && m.args.iter().all(|x| self.pure(x))
            }
            Call(c) => {
                // enum / tuple-struct constructors only: path ending in an uppercase identifier
                if let Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    last.chars().next().map_or(false, |x| x.is_uppercase()) && c.args.iter().all(|x| self.pure(x))
                } else { false }
            }
            Block(b) => b.block.stmts.len() == 1 && match &b.block.stmts[0] { syn::Stmt::Expr(e, None) => self.pure(e), _ => false },
            _ => false,
        }
    }
}

impl<'s, 'ast> Visit<'ast> for BodyEd<'s> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            // E4/E5: nested items are hoisted / `use` dropped
            // E31: a constant declared in a body becomes a local with the same initialiser
            syn::Stmt::Item(syn::Item::Const(c)) => { let r = self.src.range(c.const_token.span()); self.rep(r, "let"); self.visit_expr(&c.expr); }
            syn::Stmt::Item(i) => { let r = self.src.range(i.span()); self.rep(r, ""); }
            // E28: statements of the timekeeper feature (off by default) are dropped
            syn::Stmt::Local(syn::Local { attrs, .. }) if crate::is_off(attrs) => { let r = self.src.range(s.span()); self.rep(r, ""); }
            syn::Stmt::Expr(syn::Expr::If(syn::ExprIf { attrs, .. }), _) if crate::is_off(attrs) => { let r = self.src.range(s.span()); self.rep(r, ""); }
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        if l.value().is_ascii() && !l.value().is_empty() { self.lits.insert(self.src.slice(l.span()).to_string()); }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { let r = self.src.range(a.span()); self.rep(r, ""); }

    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        // E18: conversions go through the local traits From__/TryFrom__/Into__ (same impls, with contracts)
        if p.segments.len() > 1 {
            let l = p.segments.last().unwrap();
            if (l.ident == "from" || l.ident == "try_from") && l.arguments.is_empty() {
                let r = self.src.range(l.ident.span());
                self.ins(r.1, "__");
            }
        }
        // E27: `std::iter::once` of the local sequence type
        if SLICES.load(std::sync::atomic::Ordering::Relaxed) && p.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::") == "std::iter::once" {
            let r = self.src.range(p.span());
            self.rep(r, "once__");
            return;
        }
        if p.segments.len() == 1 && p.leading_colon.is_none() {
            if self.mut_self && p.segments[0].ident == "self" {
                let r = self.src.range(p.segments[0].ident.span());
                self.rep(r, "self__");
                return;
            }
            if let Some(n) = self.rename.get(&p.segments[0].ident.to_string()) {
                let r = self.src.range(p.segments[0].ident.span());
                self.rep(r, n.clone());
            }
        } else if p.segments.len() > 1 {
            // E7: drop module qualification of lowercase module segments (single flat namespace)
            let first = p.segments[0].ident.to_string();
            if first == "Err" {
                let r = self.src.range(p.segments[0].ident.span());
                self.ins(r.0, "nom::");
            }
            // E22: std::cmp::max/min and core::mem::take go to root functions of the same meaning
            let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if (first == "std" || first == "core") && full.len() == 3 && (full[1] == "cmp" && (full[2] == "max" || full[2] == "min")) {
                let r = self.src.range(p.span());
                self.rep(r, format!("{}__", full[2]));
                return;
            }
            if ["std", "nom", "core", "Self", "self"].contains(&first.as_str()) && !(first == "std" && ["path", "fs", "io"].contains(&full[1].as_str())) || (first == "io" && full.len() == 2 && full[1] == "Result") {
                // keep
            } else {
                let lows: Vec<_> = p.segments.iter().take_while(|s| s.ident.to_string().chars().next().unwrap().is_lowercase()).collect();
                let n = lows.len().min(p.segments.len() - 1);
                if n > 0 {
                    let a = self.src.range(p.segments[0].span()).0;
                    let b = self.src.range(p.segments[n].span()).0;
                    self.rep((a, b), "");
                    let last = p.segments.last().unwrap();
                    visit::visit_path_segment(self, last);
                    return;
                }
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if (last == "context" || last == "from_ctx") && c.args.len() == 2 {
                self.visit_expr(&c.func);
                for a in &c.args { if !matches!(a, syn::Expr::Lit(_)) { self.visit_expr(a); } }
                return;
            }
        }
        // E11: alt((a, b, ..)) -> altN(a, b, ..)
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.is_ident("alt") && c.args.len() == 1 {
                if let syn::Expr::Tuple(t) = &c.args[0] {
                    let r = self.src.range(p.span());
                    self.rep(r, format!("alt{}", t.elems.len()));
                    let (a, b) = self.src.range(t.span());
                    self.rep((a, a + 1), "");
                    self.rep((b - 1, b), "");
                    for e in &t.elems { self.visit_expr(e); }
                    return;
                }
            }
            // E17: numeric turbofish-free literals `take(1usize)` stay as they are
        }
        self.visit_expr(&c.func);
        for a in self.ctor_args(c.args.iter()) { self.visit_expr(a); }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        // E17: `p.len()` on a string-slice parameter -> str_len(p) (vstd gives str::len no meaning)
        if m.method == "len" && m.args.is_empty() {
            if let syn::Expr::Path(p) = &*m.receiver {
                if p.path.get_ident().map_or(false, |i| self.strs.contains(&i.to_string())) {
                    let r = self.src.range(m.span());
                    let t = self.src.slice(p.span()).to_string();
                    self.rep(r, format!("str_len({t})"));
                    return;
                }
            }
        }
        // E24: `.enumerate()` on a std iterator -> the local iterator with a contract
        if m.method == "enumerate" && m.args.is_empty() && self.enumr { let r = self.src.range(m.method.span()); self.ins(r.1, "__"); }
        if self.twins.iter().any(|t| m.method == t.as_str()) { let r = self.src.range(m.method.span()); self.ins(r.1, "__"); }
        if m.method == "into" && m.args.is_empty() { let r = self.src.range(m.method.span()); self.ins(r.1, "__"); }
        self.visit_expr(&m.receiver);
        if let Some(t) = &m.turbofish { self.visit_angle_bracketed_generic_arguments(t); }
        for a in self.ctor_args(m.args.iter()) { self.visit_expr(a); }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if !self.expand_macro(&m.mac, None) { visit::visit_expr_macro(self, m); }
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        if !self.expand_macro(&m.mac, None) { visit::visit_stmt_macro(self, m); }
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        if let syn::Expr::Macro(m) = &*t.expr {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if (n == "write" || n == "writeln") && self.expand_macro(&m.mac, Some(t.span())) { return; }
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let k = self.nloops; self.nloops += 1;
        self.visit_expr(&w.cond);
        let at = self.src.range(w.body.span()).0;
        let sp = self.snap(k, w.span());
        if let Some(s) = self.loop_specs.get(&k).cloned().or(sp) { self.ins(at, format!("\n{}\n", s)); }
        self.visit_block(&w.body);
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let k = self.nloops; self.nloops += 1;
        let at = self.src.range(w.body.span()).0;
        let sp = self.snap(k, w.span());
        if let Some(s) = self.loop_specs.get(&k).cloned().or(sp) { self.ins(at, format!("\n{}\n", s)); }
        self.visit_block(&w.body);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let k = self.nloops; self.nloops += 1;
        let es = self.src.slice(w.expr.span()).to_string();
        let memiter = es.starts_with("memchr");
        let pat = self.src.slice(w.pat.span()).to_string();
        if memiter {
            // E10: Rust's own desugaring of `for`
            let (a, _) = self.src.range(w.span());
            let (ea, eb) = self.src.range(w.expr.span());
            self.rep((a, ea), format!("let mut it__{k} = "));
            self.visit_expr(&w.expr);
            let inv = self.loop_specs.get(&k).cloned().unwrap_or_default();
            let (ba, _) = self.src.range(w.body.span());
            self.rep((eb, ba), format!("; let ghost it0__{k} = it__{k};\nloop\n    invariant it__{k}.wf(), it__{k}.same_source(it0__{k}),\n{inv}\n    decreases it__{k}.left(),\n"));
            self.ins(ba + 1, format!("\n    let {pat} = match it__{k}.next() {{ Some(p) => p, None => break }};"));
            self.visit_block(&w.body);
            return;
        }
        if self.desugar && !matches!(&*w.expr, syn::Expr::Range(_)) && !matches!(&*w.expr, syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(_))) {
            // E10: Rust's own desugaring of `for` (over something that is an iterator itself)
            let (a, _) = self.src.range(w.span());
            let (ea, eb) = self.src.range(w.expr.span());
            self.rep((a, ea), format!("let mut it__{k} = for_iter__("));
            self.visit_expr(&w.expr);
            let auto = match (&self.loopinv, self.loop_specs.get(&k)) { (Some((inv, _, _)), None) => Some(inv.replace("__K", &format!("__{k}"))), _ => None };
            let gs = match &self.loopinv { Some((_, _, ex)) => format!(" let ghost snap__{k} = {ex};"), None => String::new() };
            let inv = self.loop_specs.get(&k).cloned().or(auto).unwrap_or_default();
            let (ba, _) = self.src.range(w.body.span());
            self.rep((eb, ba), format!("); let ghost it0__{k} = it__{k};{gs}\nloop\n{inv}\n"));
            self.ins(ba + 1, format!("\n    let {pat} = match it__{k}.next() {{ Some(p__) => p__, None => break }};"));
            self.visit_pat(&w.pat);
            self.visit_block(&w.body);
            return;
        }
        let (ea, _) = self.src.range(w.expr.span());
        self.ins(ea, format!("it__{k}: "));
        self.visit_expr(&w.expr);
        let at = self.src.range(w.body.span()).0;
        let sp = self.snap(k, w.span());
        if let Some(s) = self.loop_specs.get(&k).cloned().or(sp) { self.ins(at, format!("\n{}\n", s)); }
        self.visit_block(&w.body);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.nclosures; self.nclosures += 1;
        let st = c.span().start();
        // rustc reports the closure at `move` or `|`
        let at = self.src.alias.get(&(st.line, st.column + 1)).cloned().unwrap_or((st.line, st.column + 1));
        let ty = self.ct.get(&(self.src.path.clone(), at.0, at.1)).cloned();
        let spec = self.closure_specs.get(&k).cloned();
        let Some(ty) = ty else {
            self.notes.push(format!("closure {k} at {}:{} has no type from rustc", st.line, st.column + 1));
            visit::visit_expr_closure(self, c);
            return;
        };
        let pipe1 = self.src.range(c.or1_token.span()).1;
        let pipe2 = self.src.range(c.or2_token.span()).0;
        let mut params = vec![];
        let mut lets = String::new();
        let mut span_arg = None;
        let mut oks = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let pat = match p { syn::Pat::Type(t) => &*t.pat, p => p };
            let t = ty.args.get(i).cloned().unwrap_or("_".into());
            let explicit = match p { syn::Pat::Type(t) => Some(self.src.slice(t.ty.span()).to_string()), _ => None };
            let tt = explicit.unwrap_or(t.clone());
            let name = match pat {
                syn::Pat::Ident(id) if id.subpat.is_none() => {
                    if id.mutability.is_some() { lets.push_str(&format!("let mut {0} = {0}; ", id.ident)); }
                    id.ident.to_string()
                }
                syn::Pat::Wild(_) => format!("p__{i}"),
                _ => { lets.push_str(&format!("let {} = p__{i}; ", self.src.slice(pat.span()))); format!("p__{i}") }
            };
            if t.starts_with("Span") { span_arg = Some(name.clone()); }
            oks.push((name.clone(), t.clone()));
            params.push(format!("{name}: {tt}"));
        }
        self.rep((pipe1, pipe2), params.join(", "));
        let mut rett = ty.ret.clone();
        // IResult appears expanded in MIR
        if let Some(x) = rett.strip_prefix("Result<(Span<'_>, ").and_then(|x| x.strip_suffix("), nom::Err<LangParserError<'_>>>")) { rett = format!("IResult<'_, {x}>"); }
        let is_parser = rett.starts_with("IResult") && span_arg.is_some() && ty.args.len() == 1;
        if is_parser { if let Some(r) = &self.inner_ret { if r.starts_with("IResult") && self.nclosures == 1 { rett = r.clone(); } } }
        let mut ann = String::new();
        match spec {
            Some(s) => ann.push_str(&s),
            None => {
                if is_parser {
                    let s = span_arg.unwrap();
                    ann.push_str(&format!("requires {s}.pre() ensures post({s}, r__)"));
                } else if lets.is_empty() && self.pure(&c.body) && !rett.starts_with('&') {
                    let mut b = self.src.slice(c.body.span()).to_string();
                    for w in ["remaining_len", "is_empty", "start_offset", "depth", "region", "is_some", "is_none"] {
                        b = b.replace(&format!(".{w}("), &format!(".{}{w}(", if w.starts_with("is_s") || w.starts_with("is_n") { "" } else { "sp_" }));
                    }
                    for (a, z) in self.rename.iter() { b = b.replace(&format!("{a}("), &format!("{z}(")); }
                    ann.push_str(&format!("ensures r__ == ({b})"));
                } else if oks.len() == 1 && self.outs {
                    let (n, _) = &oks[0];
                    let by_ref = oks[0].1.starts_with('&');
                    if !by_ref && rett != "bool" {
                        ann.push_str(&format!("ensures forall|c__: Seq<u8>, lo__: int, hi__: int| {n}.ok(c__, lo__, hi__) ==> #[trigger] r__.ok(c__, lo__, hi__)"));
                    }
                }
            }
        }
        let (ba, bb) = self.src.range(c.body.span());
        let after = self.src.range(c.or2_token.span()).1;
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let retc = format!(" -> (r__: {}) {} ", rett, ann);
        // replace any explicit return type
        if is_block {
            self.rep((after, ba), retc);
            if !lets.is_empty() { self.ins(ba + 1, format!(" {lets}")); }
        } else {
            self.rep((after, ba), format!("{retc} {{ {lets}"));
        }
        self.visit_expr(&c.body);
        if !is_block { self.ins(bb, " }"); }
    }
}

/// text[s..e] with the edits applied
fn apply(text: &str, s: usize, e: usize, mut ed: Vec<(usize, usize, String)>) -> String {
    // stable order: position, insertions in recorded order
    let mut idx: Vec<usize> = (0..ed.len()).collect();
    idx.sort_by_key(|i| (ed[*i].0, if ed[*i].0 == ed[*i].1 { 0 } else { 1 }, *i));
    let ed2: Vec<_> = idx.into_iter().map(|i| std::mem::take(&mut ed[i])).collect();
    let mut out = String::new();
    let mut p = s;
    for (a, z, t) in ed2 {
        if a < p { continue; } // inside a deleted region
        out.push_str(&text[p..a]);
        out.push_str(&t);
        p = z;
    }
    out.push_str(&text[p..e]);
    out
}
