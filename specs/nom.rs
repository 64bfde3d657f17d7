// ===================================================================
// Prelude: ghost vocabulary, dependency contracts (nom, memchr, std)
// ===================================================================
global size_of usize == 8;
use vstd::utf8::*;
use vstd::std_specs::iter::*;

pub mod lem {
use vstd::prelude::*;
use vstd::utf8::*;
// ---- UTF-8 boundary lemmas (proved) --------------------------------
pub open spec fn bd(b: Seq<u8>, i: int) -> bool { is_char_boundary(b, i) }

pub broadcast proof fn lemma_nocont_bd(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), !is_continuation_byte(b[i])
    ensures #[trigger] is_char_boundary(b, i), b[i] < 128 ==> is_char_boundary(b, i + 1)
    decreases b.len()
{
    let n = length_of_first_scalar(b);
    let t = pop_first_scalar(b);
    if i == 0 {
        if b[0] < 128 { assert(n == 1); assert(is_char_boundary(t, 0)); assert(is_char_boundary(b, 1)); }
    } else if i < n {
        assert(false);
    } else {
        assert(b[i] == t[i - n]);
        lemma_nocont_bd(t, i - n);
        assert(is_char_boundary(b, i));
        if b[i] < 128 { assert(is_char_boundary(t, i - n + 1)); assert(is_char_boundary(b, i + 1)); }
    }
}
pub broadcast proof fn lemma_ascii_bd(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128
    ensures #[trigger] is_char_boundary(b, i), is_char_boundary(b, i + 1)
{
    let x = b[i];
    assert(!is_continuation_byte(x)) by { assert(x < 128 ==> (x & 0xC0u8) != 0x80u8) by(bit_vector); }
    lemma_nocont_bd(b, i);
}
pub broadcast proof fn lemma_end_bd(b: Seq<u8>)
    requires valid_utf8(b)
    ensures #[trigger] is_char_boundary(b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 { let t = pop_first_scalar(b); lemma_end_bd(t); }
}
pub broadcast proof fn lemma_start_bd(b: Seq<u8>)
    requires valid_utf8(b)
    ensures #[trigger] is_char_boundary(b, 0)
{
}
/// the byte after an ASCII byte is a boundary
pub broadcast proof fn lemma_after_ascii_bd(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 < i <= b.len(), b[i - 1] < 128
    ensures #[trigger] is_char_boundary(b, i)
{
    lemma_ascii_bd(b, i - 1);
}
pub proof fn lemma_bd_sub(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), is_char_boundary(b, i), is_char_boundary(b, j), 0 <= i <= j <= b.len()
    ensures valid_utf8(b.subrange(i, j))
    decreases b.len()
{
    if i == 0 {
        valid_utf8_split(b, j);
    } else {
        valid_utf8_split(b, i);
        let n = length_of_first_scalar(b);
        let t = pop_first_scalar(b);
        assert(is_char_boundary(t, i - n));
        assert(is_char_boundary(t, j - n));
        lemma_bd_sub(t, i - n, j - n);
        assert(t.subrange(i - n, j - n) =~= b.subrange(i, j));
    }
}
pub broadcast proof fn lemma_bd_sub_b(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), is_char_boundary(b, i), is_char_boundary(b, j), 0 <= i <= j <= b.len()
    ensures #[trigger] valid_utf8(b.subrange(i, j))
{ lemma_bd_sub(b, i, j); }

// ---- literals -------------------------------------------------------
pub open spec fn lit(p: &str) -> Seq<u8> { encode_utf8(p@) }
/// a pattern literal: non-empty and plain ASCII
pub open spec fn lit_ok(p: &str) -> bool {
    lit(p).len() > 0 && lit(p).len() < 0x1000 && forall|k: int| 0 <= k < lit(p).len() ==> #[trigger] lit(p)[k] < 128
}
/// the pattern occurs at position i of c
pub open spec fn occ(c: Seq<u8>, p: Seq<u8>, i: int) -> bool {
    0 <= i && i + p.len() <= c.len() && c.subrange(i, i + p.len()) == p
}
pub broadcast proof fn lemma_occ_ix(c: Seq<u8>, p: Seq<u8>, i: int, k: int)
    requires occ(c, p, i), 0 <= k < p.len()
    ensures #![trigger occ(c, p, i), p[k]] c[i + k] == p[k]
{ assert(c.subrange(i, i + p.len())[k] == c[i + k]); }

// ---- Out: what a parser output may be, given the bytes and the window it was parsed from
pub trait Out: Sized {
    /// whether the elements of a sequence of these follow each other
    spec fn ord() -> bool;
    /// an element with a region of its own: the two of a pair follow each other
    spec fn loc() -> bool;
    spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool;
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
        requires self.ok(c, lo, hi), lo2 <= lo, hi <= hi2
        ensures self.ok(c, lo2, hi2);
}
pub broadcast proof fn ok_mono<T: Out>(x: T, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires #[trigger] x.ok(c, lo, hi), lo2 <= lo, hi <= hi2
    ensures #[trigger] x.ok(c, lo2, hi2)
{ x.mono(c, lo, hi, lo2, hi2) }

macro_rules! triv_out { ($($t:ty),*) => { verus!{ $( impl Out for $t {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
} )* } } }
triv_out!{(), bool, char, u8, u32, usize}
impl<T: Out> Out for Option<T> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { T::ord() } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { match self { Some(x) => x.ok(c, lo, hi), None => true } }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { if let Some(x) = self { x.mono(c, lo, hi, lo2, hi2) } }
}
impl<A: Out, B: Out> Out for (A, B) {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { A::ord() || B::ord() } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { if A::loc() && B::loc() { two_ok(self.0, self.1, c, lo, hi) } else { self.0.ok(c, lo, hi) && self.1.ok(c, lo, hi) } }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { if A::loc() && B::loc() { let m = choose|m: int| lo <= m <= hi && #[trigger] self.0.ok(c, lo, m) && self.1.ok(c, m, hi); self.0.mono(c, lo, m, lo2, m); self.1.mono(c, m, hi, m, hi2); } else { self.0.mono(c, lo, hi, lo2, hi2); self.1.mono(c, lo, hi, lo2, hi2) } }
}
/// one element after the other
pub open spec fn two_ok<A: Out, B: Out>(a: A, b: B, c: Seq<u8>, lo: int, hi: int) -> bool { exists|m: int| lo <= m <= hi && #[trigger] a.ok(c, lo, m) && b.ok(c, m, hi) }
impl<A: Out, B: Out, C: Out> Out for (A, B, C) {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { A::ord() || B::ord() || C::ord() } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { self.0.ok(c, lo, hi) && self.1.ok(c, lo, hi) && self.2.ok(c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { self.0.mono(c, lo, hi, lo2, hi2); self.1.mono(c, lo, hi, lo2, hi2); self.2.mono(c, lo, hi, lo2, hi2) }
}
/// elements sit, in order and without overlap, inside [lo, hi] (types without an order of their own, such as texts: inside [lo, hi])
pub open spec fn seq_ok<T: Out>(v: Seq<T>, c: Seq<u8>, lo: int, hi: int) -> bool
    decreases v.len()
{
    lo <= hi && if T::ord() { v.len() == 0 || exists|m: int| lo <= m <= hi && seq_ok(v.drop_last(), c, lo, m) && #[trigger] v.last().ok(c, m, hi) }
    else { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].ok(c, lo, hi) }
}
pub proof fn seq_mono<T: Out>(v: Seq<T>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires seq_ok(v, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures seq_ok(v, c, lo2, hi2)
    decreases v.len()
{
    if !T::ord() { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i].ok(c, lo2, hi2) by { v[i].mono(c, lo, hi, lo2, hi2); } }
    else if v.len() > 0 {
        let m = choose|m: int| lo <= m <= hi && seq_ok(v.drop_last(), c, lo, m) && #[trigger] v.last().ok(c, m, hi);
        seq_mono(v.drop_last(), c, lo, m, lo2, m);
        v.last().mono(c, m, hi, m, hi2);
        assert(seq_ok(v.drop_last(), c, lo2, m));
    }
}
pub proof fn seq_push<T: Out>(v: Seq<T>, x: T, c: Seq<u8>, lo: int, m: int, hi: int)
    requires seq_ok(v, c, lo, m), x.ok(c, m, hi), m <= hi
    ensures seq_ok(v.push(x), c, lo, hi)
{
    assert(v.push(x).drop_last() =~= v);
    assert(v.push(x).last() == x);
    if !T::ord() {
        x.mono(c, m, hi, lo, hi);
        seq_mono(v, c, lo, m, lo, hi);
        assert forall|i: int| 0 <= i < v.push(x).len() implies #[trigger] v.push(x)[i].ok(c, lo, hi) by { if i < v.len() { assert(v[i].ok(c, lo, hi)); } }
    }
}
/// without an order: both from the same window
pub broadcast proof fn seq_push_u<T: Out>(v: Seq<T>, x: T, c: Seq<u8>, lo: int, hi: int)
    requires !T::ord(), #[trigger] seq_ok(v, c, lo, hi), x.ok(c, lo, hi)
    ensures #[trigger] seq_ok(v.push(x), c, lo, hi)
{
    assert forall|i: int| 0 <= i < v.push(x).len() implies #[trigger] v.push(x)[i].ok(c, lo, hi) by { if i < v.len() { assert(v[i].ok(c, lo, hi)); } }
}
pub broadcast proof fn seq_push_b<T: Out>(v: Seq<T>, x: T, c: Seq<u8>, lo: int, m: int, hi: int)
    requires #[trigger] seq_ok(v, c, lo, m), x.ok(c, m, hi), m <= hi
    ensures #[trigger] seq_ok(v.push(x), c, lo, hi)
{ seq_push(v, x, c, lo, m, hi) }
pub proof fn seq_cat<T: Out>(a: Seq<T>, b: Seq<T>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires seq_ok(a, c, lo, m), seq_ok(b, c, m, hi), lo <= m <= hi
    ensures seq_ok(a + b, c, lo, hi)
    decreases b.len()
{
    seq_mono(a, c, lo, m, lo, hi);
    seq_mono(b, c, m, hi, lo, hi);
    if !T::ord() { assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i].ok(c, lo, hi) by { if i < a.len() { assert(a[i].ok(c, lo, hi)); } else { assert(b[i - a.len()].ok(c, lo, hi)); } } }
    else if b.len() == 0 { assert(a + b =~= a); } else {
        let k = choose|k: int| m <= k <= hi && seq_ok(b.drop_last(), c, m, k) && #[trigger] b.last().ok(c, k, hi);
        seq_cat(a, b.drop_last(), c, lo, m, k);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn seq_cons<T: Out>(x: T, v: Seq<T>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires seq_ok(v, c, m, hi), x.ok(c, lo, m), lo <= m
    ensures seq_ok(seq![x] + v, c, lo, hi)
{
    let w = seq![x];
    assert(w.drop_last() =~= Seq::<T>::empty());
    assert(w.last() == x);
    assert(seq_ok(w.drop_last(), c, lo, lo));
    seq_cat(w, v, c, lo, m, hi);
}
pub proof fn seq_elem<T: Out>(v: Seq<T>, c: Seq<u8>, lo: int, hi: int, i: int)
    requires seq_ok(v, c, lo, hi), 0 <= i < v.len()
    ensures v[i].ok(c, lo, hi)
    decreases v.len()
{
    if T::ord() {
    let m = choose|m: int| lo <= m <= hi && seq_ok(v.drop_last(), c, lo, m) && #[trigger] v.last().ok(c, m, hi);
    if i == v.len() - 1 { v.last().mono(c, m, hi, lo, hi); }
    else { seq_elem(v.drop_last(), c, lo, m, i); v.drop_last()[i].mono(c, lo, m, lo, hi); }
    }
}
/// membership view of seq_ok, usable without induction
pub broadcast proof fn seq_elem_b<T: Out>(v: Seq<T>, c: Seq<u8>, lo: int, hi: int, i: int)
    requires #[trigger] seq_ok(v, c, lo, hi), 0 <= i < v.len()
    ensures (#[trigger] v[i]).ok(c, lo, hi)
{ seq_elem(v, c, lo, hi, i) }
impl<T: Out> Out for Vec<T> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { T::ord() } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { seq_ok(self@, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { seq_mono(self@, c, lo, hi, lo2, hi2) }
}
pub broadcast proof fn lemma_sub_ascii(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i < j <= b.len(), b.subrange(i, j)[j - i - 1] < 128, b.subrange(i, j)[0] < 128
    ensures #![trigger b.subrange(i, j)] is_char_boundary(b, j), is_char_boundary(b, i), b[i] == b.subrange(i, j)[0]
{ lemma_after_ascii_bd(b, j); lemma_ascii_bd(b, i); }
pub broadcast group g_lem { lemma_sub_ascii,  lemma_ascii_bd, lemma_end_bd, lemma_start_bd, lemma_after_ascii_bd, lemma_bd_sub_b, lemma_occ_ix, ok_mono, seq_elem_b, seq_push_b, seq_push_u }
}
pub use lem::*;
