// ---- HTML: what a browser's tag scanner does with the characters written so far ----------------
pub enum Mode { Text, Lt, Name(Seq<char>), CName(Seq<char>), In(bool), Val, Bang, Bang2, Com(nat), Bad }
/// open elements, where in the markup we are, and whether every closing tag matched
pub struct St { pub ok: bool, pub stack: Seq<Seq<char>>, pub mode: Mode }
pub open spec fn st(s: St, m: Mode) -> St { St { mode: m, ..s } }
pub open spec fn bad(s: St) -> St { St { ok: false, stack: s.stack, mode: Mode::Bad } }
pub open spec fn push(s: St, n: Seq<char>, m: Mode) -> St { St { ok: s.ok, stack: s.stack.push(n), mode: m } }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\n' }
pub open spec fn step(s: St, c: char) -> St {
    match s.mode {
        Mode::Text => if c == '<' { st(s, Mode::Lt) } else if c == '>' { bad(s) } else { s },
        Mode::Lt => if c == '/' { st(s, Mode::CName(seq![])) } else if c == '!' { st(s, Mode::Bang) } else if c == '<' || c == '>' || c == '"' || blank(c) { bad(s) } else { st(s, Mode::Name(seq![c])) },
        Mode::Name(n) => if c == '<' || c == '"' { bad(s) } else if blank(c) { push(s, n, Mode::In(false)) } else if c == '/' { push(s, n, Mode::In(true)) } else if c == '>' { push(s, n, Mode::Text) } else { st(s, Mode::Name(n.push(c))) },
        Mode::CName(n) => if c == '>' { St { ok: s.ok && s.stack.len() > 0 && s.stack.last() == n, stack: s.stack.drop_last(), mode: Mode::Text } } else if c == '<' || c == '"' || c == '/' || blank(c) { bad(s) } else { st(s, Mode::CName(n.push(c))) },
        Mode::In(b) => if c == '<' { bad(s) } else if c == '"' { st(s, Mode::Val) } else if c == '/' { st(s, Mode::In(true)) } else if c == '>' { St { ok: s.ok, stack: if b { s.stack.drop_last() } else { s.stack }, mode: Mode::Text } } else { st(s, Mode::In(false)) },
        Mode::Val => if c == '"' { st(s, Mode::In(false)) } else { s },
        Mode::Bang => if c == '-' { st(s, Mode::Bang2) } else { bad(s) },
        Mode::Bang2 => if c == '-' { st(s, Mode::Com(0)) } else { bad(s) },
        Mode::Com(d) => if c == '-' { st(s, Mode::Com(if d >= 1 { 2 } else { 1 })) } else if c == '>' && d == 2 { st(s, Mode::Text) } else { st(s, Mode::Com(0)) },
        Mode::Bad => s,
    }
}
pub open spec fn run(s: St, t: Seq<char>) -> St decreases t.len() { if t.len() == 0 { s } else { step(run(s, t.drop_last()), t.last()) } }
pub open spec fn st0() -> St { St { ok: true, stack: seq![], mode: Mode::Text } }
/// an opening tag without attributes so far, seen as one inside the tag
pub open spec fn canon(s: St) -> St { match s.mode { Mode::Name(n) => push(s, n, Mode::In(false)), Mode::In(b) => st(s, Mode::In(false)), Mode::Com(d) => st(s, Mode::Com(0)), _ => s } }
/// text with its markup characters escaped
pub open spec fn special(c: char) -> bool { c == '<' || c == '>' || c == '"' }
pub open spec fn safe(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> !special(#[trigger] t[i]) }
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> !special(#[trigger] t[i]) && !blank(t[i]) && t[i] != '/' }
/// markup that leaves the scanner as it was
pub open spec fn closed(t: Seq<char>) -> bool { forall|s: St| #![trigger run(s, t)] s.mode is Text ==> run(s, t) == s }
pub proof fn run_none(s: St, w: Seq<char>) ensures run(s, w.take(0)) == s { }
pub proof fn run_take(s: St, w: Seq<char>, i: int) requires 0 < i <= w.len() ensures run(s, w.take(i)) == step(run(s, w.take(i - 1)), w[i - 1])
{ assert(w.take(i).drop_last() =~= w.take(i - 1)); }
pub mod htmllem {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn run_add(s: St, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] run(s, a + b) == run(run(s, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); run_add(s, a, b.drop_last()); }
}
pub broadcast proof fn run_safe(s: St, t: Seq<char>)
    requires safe(t)
    ensures #![trigger run(s, t)]
        s.mode is Text ==> run(s, t) == s, s.mode is Val ==> run(s, t) == s,
        s.mode is In ==> run(s, t).mode is In && canon(run(s, t)) == canon(s),
        s.mode is Com ==> run(s, t).mode is Com && canon(run(s, t)) == canon(s),
    decreases t.len()
{ if t.len() > 0 { assert(!special(t[t.len() - 1])); assert(safe(t.drop_last())); run_safe(s, t.drop_last()); } }
pub broadcast proof fn run_plain(s: St, t: Seq<char>)
    requires plain(t)
    ensures #![trigger run(s, t)]
        s.mode is Name ==> run(s, t) == st(s, Mode::Name(s.mode->Name_0 + t)),
        s.mode is CName ==> run(s, t) == st(s, Mode::CName(s.mode->CName_0 + t)),
    decreases t.len()
{
    if t.len() > 0 {
        let c = t[t.len() - 1]; let u = t.drop_last();
        assert(!special(c) && !blank(c) && c != '/'); assert(plain(u)); run_plain(s, u);
        if s.mode is Name { let n = s.mode->Name_0; assert((n + u).push(c) =~= n + t); }
        if s.mode is CName { let n = s.mode->CName_0; assert((n + u).push(c) =~= n + t); }
    } else {
        if s.mode is Name { let n = s.mode->Name_0; assert(n + t =~= n); }
        if s.mode is CName { let n = s.mode->CName_0; assert(n + t =~= n); }
    }
}
pub broadcast proof fn dec_plain(n: nat)
    ensures #![trigger dec(n)] plain(dec(n)), safe(dec(n))
    decreases n
{ if n >= 10 { dec_plain(n / 10); } }
pub broadcast proof fn push_drop(s: Seq<Seq<char>>, x: Seq<char>) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn safe_add2(a: Seq<char>, b: Seq<char>) ensures safe(a) && safe(b) ==> safe(#[trigger] (a + b)) { safe_add(a, b); }
pub broadcast proof fn safe_add(a: Seq<char>, b: Seq<char>)
    ensures #![trigger safe(a + b)] safe(a) && safe(b) ==> safe(a + b)
{
    if safe(a) && safe(b) { assert forall|i: int| 0 <= i < (a + b).len() implies !special(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
}
}
