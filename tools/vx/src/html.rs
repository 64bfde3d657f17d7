//! literals of the HTML writer as transitions of the tag scanner in specs/html.rs.
//! The right hand sides computed here are not trusted: Verus proves each lemma from the scanner's definition.
use std::fmt::Write as _;

#[derive(Clone, PartialEq)]
struct Nm { sym: bool, cs: Vec<char> }
impl Nm {
    fn spec(&self) -> String {
        if !self.sym { return format!("seq![{}]", self.cs.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", ")); }
        format!("n{}", self.cs.iter().map(|c| format!(".push({c:?})")).collect::<String>())
    }
}
#[derive(Clone, PartialEq)]
enum B { False, True, Sym }
#[derive(Clone, PartialEq)]
enum M { Text, Lt, Name(Nm), CName(Nm), In(B), Val, Bang, Bang2, Com(u8, bool) }
struct S { m: M, drops: usize, voids: usize, pushed: Vec<Nm>, conds: Vec<String>, symgt: bool }
impl S {
    fn base(&self) -> String {
        let mut b = "s.stack".to_string();
        if self.symgt { b = format!("(if b {{ {b}.drop_last() }} else {{ {b} }})"); }
        for _ in 0..self.drops { b.push_str(".drop_last()"); }
        b
    }
    fn pop(&mut self, name: Option<Nm>) {
        if let Some(p) = self.pushed.pop() {
            if let Some(n) = name { if n != p { self.conds.push(format!("{} == {}", p.spec(), n.spec())); } }
        } else {
            let b = self.base();
            if let Some(n) = name { self.conds.push(format!("{b}.len() > 0 && {b}.last() == {}", n.spec())); }
            self.drops += 1;
        }
    }
    fn step(&mut self, c: char) -> bool {
        let sp = c == ' ' || c == '\n';
        let m = match self.m.clone() {
            M::Text => match c { '<' => M::Lt, '>' => return false, _ => M::Text },
            M::Lt => match c { '/' => M::CName(Nm { sym: false, cs: vec![] }), '!' => M::Bang, '<' | '>' | ' ' | '\n' | '"' => return false, c => M::Name(Nm { sym: false, cs: vec![c] }) },
            M::Name(mut n) => {
                if c == '<' || c == '"' { return false }
                if sp || c == '/' { self.pushed.push(n); M::In(if c == '/' { B::True } else { B::False }) }
                else if c == '>' { self.pushed.push(n); M::Text }
                else { n.cs.push(c); M::Name(n) }
            }
            M::CName(mut n) => match c {
                '>' => { self.pop(Some(n)); M::Text }
                '<' | '"' | '/' | ' ' | '\n' => return false,
                c => { n.cs.push(c); M::CName(n) }
            },
            M::In(b) => match c {
                '<' => return false,
                '"' => M::Val,
                '/' => M::In(B::True),
                '>' => { match b { B::True => self.pop(None), B::False => {}, B::Sym => { if self.pushed.is_empty() && self.drops == 0 { self.symgt = true } else { return false } } } M::Text }
                _ => M::In(B::False),
            },
            M::Val => if c == '"' { M::In(B::False) } else { M::Val },
            M::Bang => if c == '-' { M::Bang2 } else { return false },
            M::Bang2 => if c == '-' { M::Com(0, false) } else { return false },
            M::Com(d, sym) => {
                if c == '-' { if sym { M::Com(9, false) } else { M::Com(if d == 0 { 1 } else { 2 }, false) } }
                else if c == '>' { if sym || d == 9 { return false } if d == 2 { M::Text } else { M::Com(0, false) } }
                else { M::Com(0, false) }
            }
        };
        self.m = m;
        true
    }
    fn stack(&self) -> String { let mut st = self.base(); for p in &self.pushed { st = format!("{st}.push({})", p.spec()); } st }
    fn spec(&self) -> String {
        let st = self.stack();
        let m = match &self.m {
            M::Text => "Mode::Text".into(), M::Lt => "Mode::Lt".into(), M::Val => "Mode::Val".into(), M::Bang => "Mode::Bang".into(), M::Bang2 => "Mode::Bang2".into(),
            M::Name(n) => format!("Mode::Name({})", n.spec()), M::CName(n) => format!("Mode::CName({})", n.spec()),
            M::In(b) => format!("Mode::In({})", match b { B::True => "true", B::False => "false", B::Sym => "b" }),
            M::Com(d, sym) => if *sym { "Mode::Com(d)".into() } else { format!("Mode::Com({d})") },
        };
        let mut ok = "s.ok".to_string();
        for c in &self.conds { ok = format!("{ok} && {c}"); }
        format!("(St {{ ok: {ok}, stack: {st}, mode: {m} }})")
    }
}
pub fn safe_name(l: &str) -> Option<String> {
    if !l.is_ascii() || l.chars().any(|c| "<>\"".contains(c)) { return None; }
    Some(format!("s_{}", l.bytes().map(|b| format!("{b:02x}")).collect::<String>()))
}
pub fn module(lits: &std::collections::BTreeSet<String>, plain: &std::collections::BTreeSet<String>) -> String {
    let mut out = String::from("pub mod lits__ {\nuse super::*;\nuse vstd::prelude::*;\n");
    let mut names = vec![];
    for l in plain { if let Some(n) = safe_name(l) { let _ = write!(out, "pub proof fn {n}() ensures safe({l:?}@), {l:?}@.len() == {} {{ reveal_strlit({l:?}); }}\n", l.len()); } }
    for (k, l) in lits.iter().enumerate() {
        let q = format!("{l:?}");
        let (mut arms, mut hints) = (String::new(), String::new());
        for (pat, m) in [("Mode::Text", M::Text), ("Mode::Name(n)", M::Name(Nm { sym: true, cs: vec![] })), ("Mode::CName(n)", M::CName(Nm { sym: true, cs: vec![] })), ("Mode::In(b)", M::In(B::Sym)), ("Mode::Val", M::Val), ("Mode::Com(d)", M::Com(0, true))] {
            let mut s = S { m, drops: 0, voids: 0, pushed: vec![], conds: vec![], symgt: false };
            let _ = s.voids;
            let mut h = String::new();
            let mut go = true;
            for (i, c) in l.chars().enumerate() {
                let was = s.m.clone();
                if !s.step(c) { go = false; break; }
                match (&was, &s.m) {
                    (M::Name(n), M::Name(_)) | (M::CName(n), M::CName(_)) => { let _ = n; }
                    (M::Name(n), _) if !n.sym => { let _ = write!(h, " assert(run(s, w.take({i})).mode->Name_0 =~= {});", n.spec()); }
                    (M::CName(n), _) if !n.sym => { let _ = write!(h, " assert(run(s, w.take({i})).mode->CName_0 =~= {});", n.spec()); }
                    _ => {}
                }
            }
            if go && s.m != M::Com(9, false) {
                match &s.m { M::Name(n) if !n.sym => { let _ = write!(h, " assert(run(s, w).mode->Name_0 =~= {});", n.spec()); } M::CName(n) if !n.sym => { let _ = write!(h, " assert(run(s, w).mode->CName_0 =~= {});", n.spec()); } _ => {} }
                let _ = write!(arms, "        {pat} => run(s, {q}@) == {},\n", s.spec());
                let _ = write!(hints, " match s.mode {{ {pat} => {{{h} assert(run(s, w).stack =~= {}); }} _ => {{}} }}", s.stack());
            }
        }
        let n = l.chars().count();
        let steps: String = (1..=n).map(|i| format!(" run_take(s, w, {i});")).collect();
        let _ = write!(out, "pub broadcast proof fn l{k}(s: St)\n    ensures #![trigger run(s, {q}@)] match s.mode {{\n{arms}        _ => true }}\n{{ reveal_strlit({q}); let w = {q}@; run_none(s, w);{steps} assert(w.take({n}) =~= w);{hints} }}\n");
        names.push(format!("l{k}"));
    }
    let _ = write!(out, "pub broadcast group all {{ {} }}\n}}\n", names.join(", "));
    out
}
