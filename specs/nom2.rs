// ---- Span vocabulary (the struct itself is extracted from span.rs) --
impl<'a> Span<'a> {
    /// bounds only
    pub open spec fn wf(self) -> bool {
        &&& self.start <= self.end <= self.inner@.len()
        &&& self.inner@.len() <= 0x3fff_ffff_ffff_ffff
        &&& valid_utf8(self.inner@)
    }
    /// bounds and both ends on a character boundary
    pub open spec fn pre(self) -> bool {
        self.wf() && is_char_boundary(self.inner@, self.start as int) && is_char_boundary(self.inner@, self.end as int)
    }
    /// bounds, and the end on a character boundary
    pub open spec fn mid(self) -> bool { self.wf() && is_char_boundary(self.inner@, self.end as int) }
    pub open spec fn c(self) -> Seq<u8> { self.inner@ }
    pub open spec fn rem(self) -> Seq<u8> { self.inner@.subrange(self.start as int, self.end as int) }
    pub open spec fn adv(self, n: int) -> Span<'a> { Span { inner: self.inner, start: (self.start + n) as usize, end: self.end, depth: self.depth } }
    pub open spec fn cut(self, n: int) -> Span<'a> { Span { inner: self.inner, start: self.start, end: (self.start + n) as usize, depth: self.depth } }
    pub open spec fn has(self, p: Seq<u8>) -> bool { self.start + p.len() <= self.end && occ(self.inner@, p, self.start as int) }
}
/// s1 is what is left of s
pub open spec fn sub<'a>(s1: Span<'a>, s: Span<'a>) -> bool {
    s1.inner == s.inner && s.start <= s1.start <= s1.end <= s.end && s1.depth == s.depth
}
impl<'a> Out for Span<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool {
        self.inner@ == c && self.pre() && lo <= self.start && self.end <= hi
    }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
pub type IR<'a, O> = Result<(Span<'a>, O), nom::Err<Error<'a>>>;
pub open spec fn post<'a, T: Out>(s: Span<'a>, r: IR<'a, T>) -> bool {
    match r { Ok((s1, o)) => sub(s1, s) && s1.pre() && o.ok(s.inner@, s.start as int, s1.start as int), Err(_) => true }
}
/// bounds-level postcondition
pub open spec fn wpost<'a, T>(s: Span<'a>, r: IR<'a, T>) -> bool {
    match r { Ok((s1, o)) => sub(s1, s) && s1.end == s.end && s1.wf(), Err(_) => true }
}
pub open spec fn fails<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F, s: Span<'a>) -> bool {
    exists|e: nom::Err<Error<'a>>| f.ensures((s,), Err(e))
}
/// a parser that keeps the parser contract
pub open spec fn pok<'a, T: Out, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> bool {
    (forall|s: Span<'a>| s.pre() ==> #[trigger] f.requires((s,)))
    && (forall|s: Span<'a>, r: IR<'a, T>| s.pre() && #[trigger] f.ensures((s,), r) ==> post(s, r))
}
/// a parser that may be applied at any byte offset
pub open spec fn wok<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> bool {
    (forall|s: Span<'a>| s.wf() ==> #[trigger] f.requires((s,)))
    && (forall|s: Span<'a>, r: IR<'a, T>| s.wf() && #[trigger] f.ensures((s,), r) ==> wpost(s, r))
}
/// a parser that may be applied at any byte offset and whose successes keep the parser contract
pub open spec fn wpok<'a, T: Out, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> bool {
    (forall|s: Span<'a>| s.mid() ==> #[trigger] f.requires((s,)))
    && (forall|s: Span<'a>, r: IR<'a, T>| s.mid() && #[trigger] f.ensures((s,), r) ==> post(s, r) && (r is Ok ==> s.pre()))
}
/// a bytewise parser that only fails on a character boundary
pub open spec fn bdfail<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> bool {
    forall|s: Span<'a>, e: nom::Err<Error<'a>>| s.wf() && #[trigger] f.ensures((s,), Err(e)) ==> s.start == s.end || s.c()[s.start as int] < 128 || (s.start > 0 && s.c()[s.start as int - 1] < 128)
}

pub mod lem2 {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn lemma_has<'a>(s: Span<'a>, p: &str)
    requires s.wf(), lit_ok(p), #[trigger] s.has(lit(p))
    ensures is_char_boundary(s.inner@, s.start as int), is_char_boundary(s.inner@, s.start + lit(p).len()),
        s.c()[s.start as int] == lit(p)[0], s.c()[s.start + lit(p).len() - 1] == lit(p).last()
{
    let n = lit(p).len() as int;
    assert(s.c().subrange(s.start as int, s.start + n)[0] == lit(p)[0]);
    assert(s.c().subrange(s.start as int, s.start + n)[n - 1] == lit(p)[n - 1]);
    lemma_sub_ascii(s.c(), s.start as int, s.start + n);
}
}
pub use lem2::*;
broadcast use {lem::g_lem, vstd::std_specs::vec::axiom_vec_index_decreases};
/// a parser that only succeeds in front of an ASCII byte
pub open spec fn ascii_head<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> bool {
    forall|s: Span<'a>, s1: Span<'a>, o: T| s.wf() && #[trigger] f.ensures((s,), Ok((s1, o))) ==> s.start < s.end && s.c()[s.start as int] < 128
}
// ---- nom (external crate): contracts assumed ------------------------
pub mod nom {
    pub use crate::{ToUsize};
    pub enum Needed { Unknown, Size(usize) }
    pub enum Err<E> { Error(E) }
    pub mod character { use vstd::prelude::*; 
        #[verifier::external_body] pub fn is_space(b: u8) -> (r: bool) ensures r == (b == 32 || b == 9) { unimplemented!() } }
    pub mod error { pub enum ErrorKind { Eof, MapRes, Verify, Tag, TakeWhile1 } }
}
pub use nom::error::ErrorKind;
impl nom::Needed { #[verifier::external_body] pub fn new(n: usize) -> nom::Needed { unimplemented!() } }
#[verifier::external_body]
pub struct LangParserError<'a> { x: &'a u8 }
pub type Error<'a> = LangParserError<'a>;
impl<'a> LangParserError<'a> {
    #[verifier::external_body] pub fn from_ctx(input: &Span<'a>, ctx: &'static str) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn from_error_kind(input: Span<'a>, kind: ErrorKind) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn from_external_error<E>(input: Span<'a>, kind: ErrorKind, e: E) -> Self { unimplemented!() }
}
pub trait ToUsize { spec fn us(self) -> usize; fn to_usize(&self) -> (r: usize) ensures r == self.us(); }
impl ToUsize for usize { open spec fn us(self) -> usize { self } #[verifier::external_body] fn to_usize(&self) -> (r: usize) { *self } }


#[verifier::external_body]
pub fn context<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(ctx: &'static str, f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> (x is Ok ==> f.ensures((s,), x)) && (x is Err ==> fails(f, s)),
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }

#[verifier::external_body]
pub fn not<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, ()>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, ()>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s1 == s && fails(f, s),
            Err(_) => exists|y: IR<'a, T>| #[trigger] f.ensures((s,), y) && y is Ok },
{ move |s: Span<'a>| -> IR<'a, ()> { unimplemented!() } }

#[verifier::external_body]
pub fn peek<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s1 == s && exists|s2: Span<'a>| f.ensures((s,), Ok((s2, o))),
            Err(_) => fails(f, s) },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }

#[verifier::external_body]
pub fn opt<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Option<T>>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Option<T>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, Some(o))) => f.ensures((s,), Ok((s1, o))),
            Ok((s1, None)) => s1 == s && fails(f, s),
            Err(_) => fails(f, s) },
{ move |s: Span<'a>| -> IR<'a, Option<T>> { unimplemented!() } }

#[verifier::external_body]
pub fn map<'a, T, U, F: Fn(Span<'a>) -> IR<'a, T>, H: Fn(T) -> U>(f: F, h: H) -> (g: impl Fn(Span<'a>) -> IR<'a, U>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: T| #[trigger] f.ensures((s,), Ok((s1, o))) ==> h.requires((o,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, U>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => exists|o: T| #[trigger] f.ensures((s,), Ok((s1, o))) && h.ensures((o,), u),
            Err(_) => fails(f, s) },
{ move |s: Span<'a>| -> IR<'a, U> { unimplemented!() } }

#[verifier::external_body]
pub fn map_res<'a, T, U, E, F: Fn(Span<'a>) -> IR<'a, T>, H: Fn(T) -> Result<U, E>>(f: F, h: H) -> (g: impl Fn(Span<'a>) -> IR<'a, U>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: T| #[trigger] f.ensures((s,), Ok((s1, o))) ==> h.requires((o,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, U>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => exists|o: T| #[trigger] f.ensures((s,), Ok((s1, o))) && h.ensures((o,), Ok(u)),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, U> { unimplemented!() } }

#[verifier::external_body]
pub fn map_opt<'a, T, U, F: Fn(Span<'a>) -> IR<'a, T>, H: Fn(T) -> Option<U>>(f: F, h: H) -> (g: impl Fn(Span<'a>) -> IR<'a, U>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: T| #[trigger] f.ensures((s,), Ok((s1, o))) ==> h.requires((o,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, U>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => exists|o: T| #[trigger] f.ensures((s,), Ok((s1, o))) && h.ensures((o,), Some(u)),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, U> { unimplemented!() } }

#[verifier::external_body]
pub fn verify<'a, T, F: Fn(Span<'a>) -> IR<'a, T>, H: Fn(&T) -> bool>(f: F, h: H) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: T| #[trigger] f.ensures((s,), Ok((s1, o))) ==> h.requires((&o,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => f.ensures((s,), x) && h.ensures((&o,), true),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }

#[verifier::external_body]
pub fn map_parser<'a, U, F: Fn(Span<'a>) -> IR<'a, Span<'a>>, H: Fn(Span<'a>) -> IR<'a, U>>(f: F, h: H) -> (g: impl Fn(Span<'a>) -> IR<'a, U>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: Span<'a>| #[trigger] f.ensures((s,), Ok((s1, o))) ==> h.requires((o,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, U>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => exists|o: Span<'a>, s2: Span<'a>| #[trigger] f.ensures((s,), Ok((s1, o))) && #[trigger] h.ensures((o,), Ok((s2, u))),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, U> { unimplemented!() } }

#[verifier::external_body]
pub fn value<'a, T, U, F: Fn(Span<'a>) -> IR<'a, T>>(v: U, f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, U>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, U>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => u == v && exists|o: T| f.ensures((s,), Ok((s1, o))),
            Err(_) => fails(f, s) },
{ move |s: Span<'a>| -> IR<'a, U> { unimplemented!() } }

#[verifier::external_body]
pub fn recognize<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Span<'a>>)
    ensures
        forall|s: Span<'a>| (f.requires((s,)) && forall|s1: Span<'a>, o: T| #[trigger] f.ensures((s,), Ok((s1, o))) ==> sub(s1, s)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Span<'a>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, u)) => u == s.cut(s1.start - s.start) && exists|o: T| f.ensures((s,), Ok((s1, o))),
            Err(_) => fails(f, s) },
{ move |s: Span<'a>| -> IR<'a, Span<'a>> { unimplemented!() } }

#[verifier::external_body]
pub fn all_consuming<'a, T, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| f.requires((s,)) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s1.start == s1.end && f.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }

#[verifier::external_body]
pub fn pair<'a, T1, T2, F1: Fn(Span<'a>) -> IR<'a, T1>, F2: Fn(Span<'a>) -> IR<'a, T2>>(f1: F1, f2: F2) -> (g: impl Fn(Span<'a>) -> IR<'a, (T1, T2)>)
    ensures
        forall|s: Span<'a>| (f1.requires((s,)) && forall|s1: Span<'a>, o: T1| #[trigger] f1.ensures((s,), Ok((s1, o))) ==> f2.requires((s1,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, (T1, T2)>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s2, o)) => exists|s1: Span<'a>| #[trigger] f1.ensures((s,), Ok((s1, o.0))) && f2.ensures((s1,), Ok((s2, o.1))),
            Err(_) => fails(f1, s) || exists|s1: Span<'a>, o1: T1| #[trigger] f1.ensures((s,), Ok((s1, o1))) && fails(f2, s1) },
{ move |s: Span<'a>| -> IR<'a, (T1, T2)> { unimplemented!() } }

#[verifier::external_body]
pub fn preceded<'a, T1, T2, F1: Fn(Span<'a>) -> IR<'a, T1>, F2: Fn(Span<'a>) -> IR<'a, T2>>(f1: F1, f2: F2) -> (g: impl Fn(Span<'a>) -> IR<'a, T2>)
    ensures
        forall|s: Span<'a>| (f1.requires((s,)) && forall|s1: Span<'a>, o: T1| #[trigger] f1.ensures((s,), Ok((s1, o))) ==> f2.requires((s1,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T2>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s2, o)) => exists|s1: Span<'a>, o1: T1| #[trigger] f1.ensures((s,), Ok((s1, o1))) && f2.ensures((s1,), Ok((s2, o))),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T2> { unimplemented!() } }

#[verifier::external_body]
pub fn terminated<'a, T1, T2, F1: Fn(Span<'a>) -> IR<'a, T1>, F2: Fn(Span<'a>) -> IR<'a, T2>>(f1: F1, f2: F2) -> (g: impl Fn(Span<'a>) -> IR<'a, T1>)
    ensures
        forall|s: Span<'a>| (f1.requires((s,)) && forall|s1: Span<'a>, o: T1| #[trigger] f1.ensures((s,), Ok((s1, o))) ==> f2.requires((s1,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T1>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s2, o)) => exists|s1: Span<'a>, o2: T2| #[trigger] f1.ensures((s,), Ok((s1, o))) && #[trigger] f2.ensures((s1,), Ok((s2, o2))),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T1> { unimplemented!() } }

#[verifier::external_body]
pub fn delimited<'a, T1, T2, T3, F1: Fn(Span<'a>) -> IR<'a, T1>, F2: Fn(Span<'a>) -> IR<'a, T2>, F3: Fn(Span<'a>) -> IR<'a, T3>>(f1: F1, f2: F2, f3: F3) -> (g: impl Fn(Span<'a>) -> IR<'a, T2>)
    ensures
        forall|s: Span<'a>| (f1.requires((s,))
            && (forall|s1: Span<'a>, o: T1| #[trigger] f1.ensures((s,), Ok((s1, o))) ==> f2.requires((s1,)))
            && (forall|s1: Span<'a>, s2: Span<'a>, o: T1, o2: T2| #[trigger] f1.ensures((s,), Ok((s1, o))) && #[trigger] f2.ensures((s1,), Ok((s2, o2))) ==> f3.requires((s2,))))
            ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T2>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s3, o)) => exists|s1: Span<'a>, s2: Span<'a>, o1: T1, o3: T3| #[trigger] f1.ensures((s,), Ok((s1, o1))) && #[trigger] f2.ensures((s1,), Ok((s2, o))) && #[trigger] f3.ensures((s2,), Ok((s3, o3))),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T2> { unimplemented!() } }

#[verifier::external_body]
pub fn separated_pair<'a, T1, T2, T3, F1: Fn(Span<'a>) -> IR<'a, T1>, F2: Fn(Span<'a>) -> IR<'a, T2>, F3: Fn(Span<'a>) -> IR<'a, T3>>(f1: F1, f2: F2, f3: F3) -> (g: impl Fn(Span<'a>) -> IR<'a, (T1, T3)>)
    ensures
        forall|s: Span<'a>| (f1.requires((s,))
            && (forall|s1: Span<'a>, o: T1| #[trigger] f1.ensures((s,), Ok((s1, o))) ==> f2.requires((s1,)))
            && (forall|s1: Span<'a>, s2: Span<'a>, o: T1, o2: T2| #[trigger] f1.ensures((s,), Ok((s1, o))) && #[trigger] f2.ensures((s1,), Ok((s2, o2))) ==> f3.requires((s2,))))
            ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, (T1, T3)>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s3, o)) => exists|s1: Span<'a>, s2: Span<'a>, o2: T2| #[trigger] f1.ensures((s,), Ok((s1, o.0))) && #[trigger] f2.ensures((s1,), Ok((s2, o2))) && #[trigger] f3.ensures((s2,), Ok((s3, o.1))),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, (T1, T3)> { unimplemented!() } }

// repetition: the contract is the induction over the chain of applications
#[verifier::external_body]
pub fn many0<'a, T: Out, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Vec<T>>)
    ensures
        forall|s: Span<'a>| (pok(f) && s.pre() || wok(f) && s.wf()) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Vec<T>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, v)) => {
                &&& fails(f, s1)
                &&& pok(f) && s.pre() ==> post(s, x)
                &&& wok(f) && s.wf() ==> sub(s1, s) && s1.end == s.end && s1.wf()
            },
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, Vec<T>> { unimplemented!() } }

#[verifier::external_body]
pub fn many1<'a, T: Out, F: Fn(Span<'a>) -> IR<'a, T>>(f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Vec<T>>)
    ensures
        forall|s: Span<'a>| (pok(f) && s.pre() || wok(f) && s.wf()) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Vec<T>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, v)) => {
                &&& fails(f, s1)
                &&& v@.len() > 0
                &&& pok(f) && s.pre() ==> post(s, x)
                &&& wok(f) && s.wf() ==> sub(s1, s) && s1.end == s.end && s1.wf()
            },
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, Vec<T>> { unimplemented!() } }

#[verifier::external_body]
pub fn separated_list1<'a, T1: Out, T: Out, F1: Fn(Span<'a>) -> IR<'a, T1>, F: Fn(Span<'a>) -> IR<'a, T>>(sep: F1, f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Vec<T>>)
    ensures
        forall|s: Span<'a>| (pok(sep) && pok(f) && s.pre()) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Vec<T>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, v)) => {
                &&& v@.len() > 0
                &&& pok(sep) && pok(f) && s.pre() ==> post(s, x)
            },
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, Vec<T>> { unimplemented!() } }
#[verifier::external_body]
pub fn separated_list0<'a, T1: Out, T: Out, F1: Fn(Span<'a>) -> IR<'a, T1>, F: Fn(Span<'a>) -> IR<'a, T>>(sep: F1, f: F) -> (g: impl Fn(Span<'a>) -> IR<'a, Vec<T>>)
    ensures
        forall|s: Span<'a>| (pok(sep) && pok(f) && s.pre()) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Vec<T>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, v)) => pok(sep) && pok(f) && s.pre() ==> post(s, x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, Vec<T>> { unimplemented!() } }

// ---- nom leaf parsers over Span -------------------------------------
#[verifier::external_body]
pub fn tag<'a>(p: &'static str) -> (g: impl Fn(Span<'a>) -> IR<'a, Span<'a>>)
    ensures
        forall|s: Span<'a>| s.wf() ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Span<'a>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s.has(lit(p)) && s1 == s.adv(lit(p).len() as int) && o == s.cut(lit(p).len() as int),
            Err(_) => !s.has(lit(p)) },
{ move |s: Span<'a>| -> IR<'a, Span<'a>> { unimplemented!() } }

#[verifier::external_body]
pub fn char<'a>(ch: char) -> (g: impl Fn(Span<'a>) -> IR<'a, char>)
    ensures
        forall|s: Span<'a>| s.wf() ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, char>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => o == ch && s.start < s.end && s.c()[s.start as int] == ch as u32 && s1 == s.adv(1),
            Err(_) => s.start == s.end || s.c()[s.start as int] != ch as u32 },
{ move |s: Span<'a>| -> IR<'a, char> { unimplemented!() } }

#[verifier::external_body]
pub fn one_of<'a>(p: &'static str) -> (g: impl Fn(Span<'a>) -> IR<'a, char>)
    ensures
        forall|s: Span<'a>| s.wf() ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, char>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s.start < s.end && s1 == s.adv(1) && (is_ascii_chars(p@) ==> s.c()[s.start as int] < 128 && p@.contains(o) && o as u32 == s.c()[s.start as int]),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, char> { unimplemented!() } }

#[verifier::external_body]
pub fn anychar<'a>(s: Span<'a>) -> (x: IR<'a, char>)
    requires s.wf()
    ensures match x { Ok((s1, o)) => s.start < s.end && s1 == s.adv(1), Err(_) => s.start == s.end }
{ unimplemented!() }

#[verifier::external_body]
pub fn take<'a, C: ToUsize>(n: C) -> (g: impl Fn(Span<'a>) -> IR<'a, Span<'a>>)
    ensures
        forall|s: Span<'a>| s.wf() ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Span<'a>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s.start + n.us() <= s.end && s1 == s.adv(n.us() as int) && o == s.cut(n.us() as int),
            Err(_) => s.start + n.us() > s.end },
{ move |s: Span<'a>| -> IR<'a, Span<'a>> { unimplemented!() } }

/// o is the longest prefix of s whose bytes satisfy p
pub open spec fn split_at<'a>(s: Span<'a>, s1: Span<'a>, o: Span<'a>, p: spec_fn(u8) -> bool) -> bool {
    &&& s.start <= s1.start <= s.end
    &&& s1 == s.adv(s1.start - s.start) && o == s.cut(s1.start - s.start)
    &&& forall|k: int| s.start <= k < s1.start ==> p(#[trigger] s.c()[k])
    &&& s1.start < s.end ==> !p(s.c()[s1.start as int])
}
#[verifier::external_body]
pub fn take_while1<'a, P: Fn(u8) -> bool>(p: P) -> (g: impl Fn(Span<'a>) -> IR<'a, Span<'a>>)
    ensures
        forall|s: Span<'a>| s.wf() && (forall|b: u8| #[trigger] p.requires((b,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, Span<'a>>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok((s1, o)) => s.start < s1.start <= s.end && s1 == s.adv(s1.start - s.start) && o == s.cut(s1.start - s.start)
                && (forall|k: int| s.start <= k < s1.start ==> p.ensures((#[trigger] s.c()[k],), true))
                && (s1.start < s.end ==> p.ensures((s.c()[s1.start as int],), false)),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, Span<'a>> { unimplemented!() } }

pub open spec fn is_sp(b: u8) -> bool { b == 32 || b == 9 }
pub open spec fn is_dig(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn prefix_of<'a>(s: Span<'a>, x: IR<'a, Span<'a>>, p: spec_fn(u8) -> bool, least: int) -> bool {
    match x { Ok((s1, o)) => split_at(s, s1, o, p) && s1.start - s.start >= least,
              Err(_) => least > 0 && (s.start == s.end || !p(s.c()[s.start as int])) }
}
#[verifier::external_body]
pub fn space0<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf() ensures prefix_of(s, x, |b: u8| is_sp(b), 0) { unimplemented!() }
#[verifier::external_body]
pub fn space1<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf() ensures prefix_of(s, x, |b: u8| is_sp(b), 1) { unimplemented!() }
#[verifier::external_body]
pub fn digit1<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf() ensures prefix_of(s, x, |b: u8| is_dig(b), 1) { unimplemented!() }

pub open spec fn at_lf<'a>(s: Span<'a>) -> bool { s.start < s.end && s.c()[s.start as int] == 10 }
pub open spec fn at_crlf<'a>(s: Span<'a>) -> bool { s.start + 1 < s.end && s.c()[s.start as int] == 13 && s.c()[s.start + 1] == 10 }
#[verifier::external_body]
pub fn line_ending<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf()
    ensures match x {
        Ok((s1, o)) => (at_lf(s) && s1 == s.adv(1) && o == s.cut(1)) || (at_crlf(s) && s1 == s.adv(2) && o == s.cut(2)),
        Err(_) => !at_lf(s) && !at_crlf(s) }
{ unimplemented!() }
#[verifier::external_body]
pub fn crlf<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf()
    ensures match x {
        Ok((s1, o)) => at_crlf(s) && s1 == s.adv(2) && o == s.cut(2),
        Err(_) => !at_crlf(s) }
{ unimplemented!() }
pub open spec fn is_eolb(b: u8) -> bool { b == 10 || b == 13 }
#[verifier::external_body]
pub fn not_line_ending<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf()
    ensures match x {
        Ok((s1, o)) => split_at(s, s1, o, |b: u8| !is_eolb(b)) && (s1.start == s.end || at_lf(s1) || at_crlf(s1)),
        Err(_) => exists|k: int| s.start <= k < s.end && #[trigger] s.c()[k] == 13 && !(k + 1 < s.end && s.c()[k + 1] == 10) }
{ unimplemented!() }
#[verifier::external_body]
pub fn rest<'a>(s: Span<'a>) -> (x: IR<'a, Span<'a>>) requires s.wf() ensures x == Ok::<(Span<'a>, Span<'a>), nom::Err<Error<'a>>>((s.adv(s.end - s.start), s)) { unimplemented!() }
#[verifier::external_body]
pub fn rest_len<'a>(s: Span<'a>) -> (x: IR<'a, usize>) requires s.wf() ensures x == Ok::<(Span<'a>, usize), nom::Err<Error<'a>>>((s, (s.end - s.start) as usize)) { unimplemented!() }

// ---- memchr (external crate) ----------------------------------------
pub open spec fn none_in(b: Seq<u8>, n: Set<u8>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> !n.contains(#[trigger] b[k]) }
#[verifier::external_body]
pub struct MemIter<'a> { x: &'a [u8] }
impl<'a> MemIter<'a> {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    pub uninterp spec fn needles(self) -> Set<u8>;
    pub uninterp spec fn cur(self) -> int;
    pub open spec fn wf(self) -> bool { 0 <= self.cur() <= self.bytes().len() }
    pub open spec fn left(self) -> int { self.bytes().len() - self.cur() }
    pub open spec fn same_source(self, o: MemIter<'a>) -> bool { self.bytes() == o.bytes() && self.needles() == o.needles() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).same_source(*old(self)), old(self).cur() <= final(self).cur(),
            match r {
                Some(p) => final(self).cur() == p + 1 && old(self).cur() <= p < final(self).bytes().len()
                    && final(self).needles().contains(final(self).bytes()[p as int])
                    && none_in(final(self).bytes(), final(self).needles(), old(self).cur(), p as int),
                None => none_in(final(self).bytes(), final(self).needles(), old(self).cur(), final(self).bytes().len() as int) }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn memchr_iter<'a>(c: u8, b: &'a [u8]) -> (r: MemIter<'a>)
    ensures r.bytes() == b@, r.needles() == set![c], r.cur() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn memchr2_iter<'a>(c: u8, d: u8, b: &'a [u8]) -> (r: MemIter<'a>)
    ensures r.bytes() == b@, r.needles() == set![c, d], r.cur() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn memchr3_iter<'a>(c: u8, d: u8, e: u8, b: &'a [u8]) -> (r: MemIter<'a>)
    ensures r.bytes() == b@, r.needles() == set![c, d, e], r.cur() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn memchr(c: u8, b: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(p) => p < b@.len() && b@[p as int] == c && (forall|k: int| 0 <= k < p ==> #[trigger] b@[k] != c),
                      None => forall|k: int| 0 <= k < b@.len() ==> #[trigger] b@[k] != c }
{ unimplemented!() }
#[verifier::external_body]
pub fn memrchr(c: u8, b: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(p) => p < b@.len() && b@[p as int] == c && (forall|k: int| p < k < b@.len() ==> #[trigger] b@[k] != c),
                      None => forall|k: int| 0 <= k < b@.len() ==> #[trigger] b@[k] != c }
{ unimplemented!() }

// ---- std ------------------------------------------------------------
pub assume_specification [std::str::from_utf8_unchecked] (v: &[u8]) -> (r: &str)
   requires valid_utf8(v@)
   ensures encode_utf8(r@) == v@;
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn is_ws_ref(b: &u8) -> bool { is_ws(*b) }
#[verifier::when_used_as_spec(is_ws_ref)]
pub assume_specification [u8::is_ascii_whitespace] (b: &u8) -> (r: bool)
   ensures r == is_ws(*b);
pub assume_specification<T, U, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
   where U: std::marker::Destruct,
   requires o matches Some(x) ==> f.requires((x,)),
   ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub proof fn lit_facts(p: &str)
    requires is_ascii_chars(p@)
    ensures lit(p).len() == p@.len(), forall|k: int| 0 <= k < p@.len() ==> #[trigger] lit(p)[k] == p@[k] as u8 && lit(p)[k] < 128
{
    is_ascii_chars_encode_utf8(p@);
}
#[verifier::external_body]
pub fn str_len(p: &str) -> (r: usize) ensures r == lit(p).len() { p.len() }

// ---- conversions (std From/Into/TryFrom, contracted) ------------------
pub trait From__<T>: Sized {
    spec fn from_req(x: T) -> bool;
    spec fn from_ens(x: T, r: Self) -> bool;
    fn from__(x: T) -> (r: Self) requires Self::from_req(x) ensures Self::from_ens(x, r);
}
pub trait Into__<T>: Sized {
    spec fn into_req(self) -> bool;
    spec fn into_ens(self, r: T) -> bool;
    fn into__(self) -> (r: T) requires self.into_req() ensures self.into_ens(r);
}
impl<S, T: From__<S>> Into__<T> for S {
    open spec fn into_req(self) -> bool { T::from_req(self) }
    open spec fn into_ens(self, r: T) -> bool { T::from_ens(self, r) }
    fn into__(self) -> (r: T) { T::from__(self) }
}
pub trait TryFrom__<T>: Sized {
    type Error;
    spec fn try_req(x: T) -> bool;
    spec fn try_ens(x: T, r: Result<Self, Self::Error>) -> bool;
    fn try_from__(x: T) -> (r: Result<Self, Self::Error>) requires Self::try_req(x) ensures Self::try_ens(x, r);
}
// ---- std::borrow::Cow (only the str instance is used) -----------------
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub trait Bytes_ { spec fn bytes(&self) -> Seq<u8>; }
impl<'a> Bytes_ for Cow<'a, str> {
    open spec fn bytes(&self) -> Seq<u8> { match *self { Cow::Borrowed(s) => encode_utf8(s@), Cow::Owned(s) => encode_utf8(s@) } }
}
impl<'a> From__<&'a str> for Cow<'a, str> {
    open spec fn from_req(x: &'a str) -> bool { true }
    open spec fn from_ens(x: &'a str, r: Self) -> bool { r == Cow::<'a, str>::Borrowed(x) }
    fn from__(x: &'a str) -> (r: Self) { Cow::Borrowed(x) }
}
impl<'a> From__<String> for Cow<'a, str> {
    open spec fn from_req(x: String) -> bool { true }
    open spec fn from_ens(x: String, r: Self) -> bool { r == Cow::<'a, str>::Owned(x) }
    fn from__(x: String) -> (r: Self) { Cow::Owned(x) }
}
/// b is, byte for byte, a stretch of c between two character boundaries
pub open spec fn verbatim(b: Seq<u8>, c: Seq<u8>, lo: int, hi: int) -> bool {
    valid_utf8(c) && exists|i: int, j: int| lo <= i <= j <= hi && 0 <= i && j <= c.len() && is_char_boundary(c, i) && is_char_boundary(c, j) && b == #[trigger] c.subrange(i, j)
}
impl<'a> Out for Cow<'a, str> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { false } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { f_text() ==> self.bytes().len() == 0 || verbatim(self.bytes(), c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
pub fn Some__ctor<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
