//# block elements and their parsers
@raw
impl Out for NaiveDate {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Clone for Cow<'a, str> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct SpanBytes<'a> { x: Span<'a> }
impl<'a> Span<'a> {
    /// nom::InputIter for Span (derived from the bytes of the span)
    pub fn iter_elements(&self) -> (r: SpanBytes<'a>) requires self.wf() ensures r.sp() == *self { SpanBytes { x: *self } }
}
impl<'a> SpanBytes<'a> {
    pub closed spec fn sp(self) -> Span<'a> { self.x }
    #[verifier::external_body]
    pub fn all<F: Fn(u8) -> bool>(self, f: F) -> (r: bool)
        requires forall|b: u8| f.requires((b,))
        ensures r ==> forall|k: int| self.sp().start <= k < self.sp().end ==> f.ensures((#[trigger] self.sp().c()[k],), true)
    { unimplemented!() }
}
pub fn min__(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
/// slicing a str from a byte index on (std): panics unless the index is a character boundary
pub uninterp spec fn str_index<I: std::slice::SliceIndex<str>>(s: Seq<char>, i: I) -> &'static I::Output;
pub assume_specification<I> [<str as std::ops::Index<I>>::index] (s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
  where I: std::slice::SliceIndex<str>
  ensures r == str_index::<I>(s@, i);
pub assume_specification<I> [<String as std::ops::Index<I>>::index] (s: &String, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
  where I: std::slice::SliceIndex<str>
  ensures r == str_index::<I>(s@, i);
impl<'a> Cow<'a, str> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { unimplemented!() }
    /// std's str::trim_start_matches with a predicate
    #[verifier::external_body]
    pub fn trim_start_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| f.requires((c,)),
        ensures exists|s: Seq<char>, k: int| #![trigger encode_utf8(s), s.skip(k)] encode_utf8(s) == self.bytes() && 0 <= k <= s.len() && r@ == s.skip(k)
            && (forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s[i],), true)) && (k < s.len() ==> f.ensures((s[k],), false)),
    { unimplemented!() }
}
/// the parts one after the other
pub open spec fn flat<U>(parts: Seq<Vec<U>>) -> Seq<U> decreases parts.len() { if parts.len() == 0 { seq![] } else { flat(parts.drop_last()) + parts.last()@ } }
pub trait FlatMap_<T>: Sized {
    #[verifier::prophetic] spec fn items(self) -> Seq<T>;
    /// Iterator::flat_map with a function that makes vectors
    fn flat_map__<U, F: Fn(T) -> Vec<U>>(self, f: F) -> (r: std::vec::IntoIter<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
        ensures exists|parts: Seq<Vec<U>>| parts.len() == self.items().len() && (forall|i: int| 0 <= i < parts.len() ==> f.ensures((self.items()[i],), #[trigger] parts[i])) && vstd::std_specs::iter::IteratorSpec::remaining(&r) == #[trigger] flat(parts);
}
impl<T> FlatMap_<T> for std::vec::IntoIter<T> {
    #[verifier::prophetic] open spec fn items(self) -> Seq<T> { vstd::std_specs::iter::IteratorSpec::remaining(&self) }
    #[verifier::external_body] fn flat_map__<U, F: Fn(T) -> Vec<U>>(self, f: F) -> (r: std::vec::IntoIter<U>) { unimplemented!() }
}
pub trait Concat_<T>: Sized {
    spec fn parts_(&self) -> Seq<Vec<T>>;
    fn concat__(&self) -> (r: Vec<T>) ensures r@ == flat(self.parts_());
}
impl<'a> Concat_<Cow<'a, str>> for Vec<Vec<Cow<'a, str>>> {
    open spec fn parts_(&self) -> Seq<Vec<Cow<'a, str>>> { self@ }
    #[verifier::external_body] fn concat__(&self) -> (r: Vec<Cow<'a, str>>) { unimplemented!() }
}
pub mod lem4 {
use super::*;
use vstd::prelude::*;
pub broadcast axiom fn ix_req(s: &str, i: &std::ops::RangeFrom<usize>)
  ensures #[trigger] <str as vstd::std_specs::core::IndexSpec<std::ops::RangeFrom<usize>>>::index_req(s, i) == (i.start <= encode_utf8(s@).len() && is_char_boundary(encode_utf8(s@), i.start as int));
pub broadcast axiom fn ix_req_s(s: &String, i: &std::ops::RangeFrom<usize>)
  ensures #[trigger] <String as vstd::std_specs::core::IndexSpec<std::ops::RangeFrom<usize>>>::index_req(s, i) == (i.start <= encode_utf8(s@).len() && is_char_boundary(encode_utf8(s@), i.start as int));
pub broadcast axiom fn ix_from(s: Seq<char>, i: std::ops::RangeFrom<usize>)
  requires i.start <= encode_utf8(s).len() && is_char_boundary(encode_utf8(s), i.start as int)
  ensures encode_utf8((#[trigger] str_index::<std::ops::RangeFrom<usize>>(s, i))@) == encode_utf8(s).subrange(i.start as int, encode_utf8(s).len() as int);
/// leading blanks are one byte each
pub proof fn blanks(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] == ' ' || s[i] == '\t'
    ensures encode_utf8(s).len() == k + encode_utf8(s.skip(k)).len(), forall|i: int| 0 <= i < k ==> #[trigger] encode_utf8(s)[i] < 128
    decreases k
{
    if k == 0 { assert(s.skip(0) =~= s); } else {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] == ' ' || t[i] == '\t' by { assert(t[i] == s[i + 1]); }
        blanks(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
        let c = s[0] as u32;
        assert(encode_utf8(s) == vstd::utf8::encode_scalar(c) + encode_utf8(t));
        assert((c & 0x7f) == c) by(bit_vector) requires c == 32 || c == 9;
        assert(vstd::utf8::encode_scalar(c) =~= seq![c as u8]);
        assert forall|i: int| 0 <= i < k implies #[trigger] encode_utf8(s)[i] < 128 by { if i > 0 { assert(encode_utf8(s)[i] == encode_utf8(t)[i - 1]); } }
    }
}
pub broadcast proof fn b_blanks(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] == ' ' || s[i] == '\t'
    ensures #![trigger encode_utf8(s), s.skip(k)] encode_utf8(s).len() == k + encode_utf8(s.skip(k)).len(), forall|i: int| 0 <= i < k ==> #[trigger] encode_utf8(s)[i] < 128
{ blanks(s, k) }
pub broadcast proof fn b_valid(s: Seq<char>) ensures #[trigger] valid_utf8(encode_utf8(s)) { vstd::utf8::encode_utf8_valid_utf8(s); }
/// a text without some of its leading blanks is still a text of the document
pub broadcast proof fn suffix(b: Seq<u8>, n: int, c: Seq<u8>, lo: int, hi: int)
    requires verbatim(b, c, lo, hi), 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] b[i] < 128
    ensures #![trigger verbatim(b, c, lo, hi), b.subrange(n, b.len() as int)] verbatim(b.subrange(n, b.len() as int), c, lo, hi)
{
    let (i, j) = choose|i: int, j: int| lo <= i <= j <= hi && 0 <= i && j <= c.len() && is_char_boundary(c, i) && is_char_boundary(c, j) && b == #[trigger] c.subrange(i, j);
    if n > 0 { assert(c[i + n - 1] == b[n - 1]); lemma_after_ascii_bd(c, i + n); }
    assert(b.subrange(n, b.len() as int) =~= c.subrange(i + n, j));
}
/// two sequences put together; U without an order of its own: from the same window
pub broadcast proof fn flat2_ok<U: Out>(a: Vec<U>, b: Vec<U>, parts: Seq<Vec<U>>, c: Seq<u8>, lo: int, hi: int)
    requires !U::ord(), #[trigger] seq_ok(a@, c, lo, hi), #[trigger] seq_ok(b@, c, lo, hi), parts.len() == 2, parts[0] == a, parts[1] == b
    ensures seq_ok(#[trigger] flat(parts), c, lo, hi)
{
    let p = parts.drop_last();
    assert(p.drop_last().len() == 0);
    assert(flat(p.drop_last()) =~= seq![]);
    assert(flat(p) =~= a@);
    let w = a@ + b@;
    assert(flat(parts) =~= w);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i].ok(c, lo, hi) by { if i < a@.len() { assert(a@[i].ok(c, lo, hi)); } else { assert(b@[i - a@.len()].ok(c, lo, hi)); } }
}
/// a function that keeps every element ok keeps a sequence ok
pub broadcast proof fn map_ok<T: Out, U: Out>(s: Seq<T>, r: Seq<U>, c: Seq<u8>, lo: int, hi: int)
    requires T::ord() == U::ord(), #[trigger] seq_ok(s, c, lo, hi), s.len() == r.len(), forall|i: int, a: int, b: int| 0 <= i < s.len() && s[i].ok(c, a, b) ==> #[trigger] r[i].ok(c, a, b)
    ensures #[trigger] seq_ok(r, c, lo, hi)
    decreases s.len()
{
    if !T::ord() { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i].ok(c, lo, hi) by { assert(s[i].ok(c, lo, hi)); } }
    else if s.len() > 0 {
        let k = choose|k: int| lo <= k <= hi && seq_ok(s.drop_last(), c, lo, k) && #[trigger] s.last().ok(c, k, hi);
        let r2 = r.drop_last();
        assert forall|i: int, a: int, b: int| 0 <= i < s.drop_last().len() && s.drop_last()[i].ok(c, a, b) implies #[trigger] r2[i].ok(c, a, b) by { assert(r[i].ok(c, a, b)); }
        map_ok(s.drop_last(), r2, c, lo, k);
        assert(s[s.len() - 1].ok(c, k, hi));
        assert(r[r.len() - 1].ok(c, k, hi));
        assert(r2 == r.drop_last());
        assert(r.last().ok(c, k, hi));
    }
}
pub broadcast proof fn flat_ok<T: Out, U: Out>(s: Seq<T>, parts: Seq<Vec<U>>, c: Seq<u8>, lo: int, hi: int)
    requires T::ord() == U::ord(), seq_ok(s, c, lo, hi), lo <= hi, s.len() == parts.len(), forall|i: int, a: int, b: int| 0 <= i < s.len() && s[i].ok(c, a, b) ==> #[trigger] parts[i].ok(c, a, b)
    ensures #![trigger seq_ok(s, c, lo, hi), flat(parts)] seq_ok(flat(parts), c, lo, hi)
    decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        let k = if T::ord() { choose|k: int| lo <= k <= hi && seq_ok(s.drop_last(), c, lo, k) && #[trigger] s.last().ok(c, k, hi) } else { hi };
        let p2 = parts.drop_last();
        assert forall|i: int, a: int, b: int| 0 <= i < s.drop_last().len() && s.drop_last()[i].ok(c, a, b) implies #[trigger] p2[i].ok(c, a, b) by { assert(s[i].ok(c, a, b)); assert(parts[i].ok(c, a, b)); }
        if !T::ord() { assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i].ok(c, lo, hi) by { assert(s[i].ok(c, lo, hi)); } }
        flat_ok(s.drop_last(), p2, c, lo, k);
        if T::ord() {
            assert(s[n].ok(c, k, hi)); assert(parts[n].ok(c, k, hi));
            seq_cat(flat(p2), parts.last()@, c, lo, k, hi);
        } else {
            assert(s[n].ok(c, lo, hi)); assert(parts[n].ok(c, lo, hi));
            let w = flat(p2) + parts.last()@;
            assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i].ok(c, lo, hi) by { if i < flat(p2).len() { assert(flat(p2)[i].ok(c, lo, hi)); } else { assert(parts[n]@[i - flat(p2).len()].ok(c, lo, hi)); } }
        }
    }
}
}
@endraw
@fnhead broadcast use lem2::lemma_has;
@source vimwiki-core/src/lang/elements/blocks/dividers.rs
@type Divider out el copy
@source vimwiki-core/src/lang/elements/blocks/headers.rs
@type Header ctor out el
@const Header::MIN_LEVEL
@const Header::MAX_LEVEL
@source vimwiki-core/src/lang/elements/blocks/placeholders.rs
@type Placeholder out el
@source vimwiki-core/src/lang/elements/blocks/blockquotes.rs
@type Blockquote ctor out el
@source vimwiki-core/src/lang/elements/blocks/math.rs
@type MathBlock ctor out el
@source vimwiki-core/src/lang/elements/blocks/code.rs
@type CodeBlock ctor out el
@source vimwiki-core/src/lang/parsers/span.rs
@fn Span::is_only_whitespace stub
    requires self.wf(),
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/dividers.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/headers.rs
@autofns
@fn header::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 2
    ensures true
@fn header_tail
    ensures pok(ret),
@@closures 6
@@closure 0
    requires input.pre() ensures post(input, r__)
@@closure 1
    requires end.wf() ensures r__ && end.start < end.end ==> end.c()[end.start as int] == 61
@@closure 2
    ensures r__ == (b == 61)
@@closure 3
    requires start.wf(), start.start < start.end
@@closure 4
    requires end.wf(), end.start < end.end
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/placeholders.rs
@autofns
@fn placeholder_title::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.wf()
@fn placeholder_template::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.wf()
@fn placeholder_other::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.wf()
@fn placeholder_date::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.pre()
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@autofns
@fn indented_blockquote_line
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    ensures r__ == (s.sp_remaining_len() >= 4)
@@closure 1
    requires s.wf()
@fn arrow_blockquote::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem4::flat_ok, lem4::flat2_ok;
    proof { reveal_strlit(""); assert(""@ =~= seq![]); assert(encode_utf8(""@).len() == 0); }
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@autofns
@fn math_block::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem4::ix_req, lem4::ix_req_s, lem4::ix_from, lem4::b_blanks, lem4::b_valid, lem4::suffix, lem4::map_ok;
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@type MaybeLang
@type Metadata
@autofns
@fn code_block_start spinoff rlimit=60
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem3::props_from;
@@closure 0
    requires s.wf()
@fn code_block::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem4::ix_req, lem4::ix_req_s, lem4::ix_from, lem4::b_blanks, lem4::b_valid, lem4::suffix, lem4::map_ok;
@source vimwiki-core/src/lang/elements/blocks/paragraphs.rs
@type Paragraph ctor out el
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@type DefinitionListValue ctor out el
@type DefinitionBundle ctor out el
@type TermAndDefinitions ctor
@type DefinitionList ctor out el
@raw
pub type Term<'a> = DefinitionListValue<'a>;
pub type Definition<'a> = DefinitionListValue<'a>;
impl<'a> ElementLike for TermAndDefinitions<'a> {}
impl<'a> Out for TermAndDefinitions<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { (self.term, self.definitions).ok(c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { (self.term, self.definitions).mono(c, lo, hi, lo2, hi2); }
}
impl<'a> DefinitionList<'a> {
    // derive(Default)
    pub fn default() -> (r: Self) ensures r.items@.len() == 0 { DefinitionList { items: Vec::new() } }
}
impl<'a> DefinitionBundle<'a> {
    // derive(derive_more::AsMut)
    pub fn as_mut(&mut self) -> (r: &mut Vec<Located<Definition<'a>>>) ensures *r == old(self).definitions, final(self).definitions == *final(r) { &mut self.definitions }
}
/// std::cmp::max
pub fn max__(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub open spec fn r_fit<T: ElementLike>(x: Located<T>) -> bool { x.region.offset + x.region.len <= usize::MAX }
/// a term and its definitions become one element that spans them
pub open spec fn td_of<'a>(p: (Located<Term<'a>>, Located<DefinitionBundle<'a>>), x: Located<TermAndDefinitions<'a>>) -> bool {
    x.inner.term == p.0 && x.inner.definitions == p.1 && r_lo(x) == r_lo(p.0) && r_hi(x) == (if r_hi(p.0) > r_hi(p.1) { r_hi(p.0) } else { r_hi(p.1) })
}
pub mod lem5 {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn td_ok<'a>(p: (Located<Term<'a>>, Located<DefinitionBundle<'a>>), x: Located<TermAndDefinitions<'a>>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] td_of(p, x), #[trigger] p.ok(c, lo, hi)
    ensures x.ok(c, lo, hi)
{
    let (a, b) = (r_lo(x), r_hi(x));
    if f_nest() {
        let m = choose|m: int| lo <= m <= hi && #[trigger] p.0.ok(c, lo, m) && p.1.ok(c, m, hi);
        assert(p.0.ok(c, a, r_hi(p.0)) && p.1.ok(c, r_hi(p.0), b));
        assert(two_ok(x.inner.term, x.inner.definitions, c, a, b));
    }
}
pub proof fn seq_ins<T: Out>(d: T, v: Seq<T>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires d.ok(c, lo, m), seq_ok(v, c, m, hi), lo <= m <= hi
    ensures seq_ok(v.insert(0, d), c, lo, hi)
    decreases v.len()
{
    let w = v.insert(0, d);
    if !T::ord() { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i].ok(c, lo, hi) by { if i == 0 { d.mono(c, lo, m, lo, hi); } else { assert(w[i] == v[i - 1]); v[i - 1].mono(c, m, hi, lo, hi); } } }
    else if v.len() == 0 { assert(w.drop_last() =~= seq![]); assert(w.last() == d); d.mono(c, lo, m, lo, hi); assert(seq_ok(w.drop_last(), c, lo, lo)); }
    else {
        let k = choose|k: int| m <= k <= hi && seq_ok(v.drop_last(), c, m, k) && #[trigger] v.last().ok(c, k, hi);
        seq_ins(d, v.drop_last(), c, lo, m, k);
        assert(w.drop_last() =~= v.drop_last().insert(0, d));
        assert(w.last() == v.last());
    }
}
/// a definition put before those of a bundle
pub open spec fn ins_of<'a>(d: Located<Definition<'a>>, b: Located<DefinitionBundle<'a>>, x: Located<DefinitionBundle<'a>>) -> bool {
    x.inner.definitions@ == b.inner.definitions@.insert(0, d) && r_lo(x) == r_lo(d) && r_hi(x) == r_hi(b)
}
pub broadcast proof fn ins_ok<'a>(t: Located<Term<'a>>, d: Located<Definition<'a>>, b: Located<DefinitionBundle<'a>>, x: Located<DefinitionBundle<'a>>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires t.ok(c, lo, m), #[trigger] d.ok(c, lo, m), #[trigger] b.ok(c, m, hi), f_nest() ==> r_hi(t) <= r_lo(d) && r_hi(d) <= m, ins_of(d, b, x), lo <= m <= hi
    ensures #[trigger] (t, x).ok(c, lo, hi)
{
    if f_nest() {
        let (a, z) = (r_lo(x), r_hi(x));
        assert(d.ok(c, a, r_hi(d)));
        b.inner.definitions.mono(c, r_lo(b), r_hi(b), r_hi(d), z);
        seq_ins(d, b.inner.definitions@, c, a, r_hi(d), z);
        assert(x.ok(c, a, hi));
        assert(t.ok(c, lo, a));
        assert(two_ok(t, x, c, lo, hi));
    } else {
        seq_ins(d, b.inner.definitions@, c, lo, m, hi);
        t.mono(c, lo, m, lo, hi);
    }
}
pub broadcast proof fn td_seq<'a>(s: Seq<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>, r: Seq<Located<TermAndDefinitions<'a>>>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] seq_ok(s, c, lo, hi), s.len() == r.len(), forall|k: int| 0 <= k < s.len() ==> td_of(s[k], #[trigger] r[k])
    ensures #[trigger] seq_ok(r, c, lo, hi)
{
    assert forall|i: int, a: int, b: int| 0 <= i < s.len() && s[i].ok(c, a, b) implies #[trigger] r[i].ok(c, a, b) by { td_ok(s[i], r[i], c, a, b); }
    lem4::map_ok(s, r, c, lo, hi);
}
pub broadcast proof fn td_fit<'a>(v: Vec<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] v.ok(c, lo, hi), c.len() <= usize::MAX
    ensures forall|k: int| 0 <= k < v@.len() ==> r_fit((#[trigger] v@[k]).0) && r_fit(v@[k].1)
{
    assert forall|k: int| 0 <= k < v@.len() implies r_fit((#[trigger] v@[k]).0) && r_fit(v@[k].1) by { seq_elem(v@, c, lo, hi, k); }
}
}
@endraw
@fn DefinitionList<FromIterator<(Located<Term>,Located<DefinitionBundle>)>>::from_iter inherent
    requires forall|k: int| 0 <= k < iter@.len() ==> r_fit((#[trigger] iter@[k]).0) && r_fit(iter@[k].1),
    ensures forall|c: Seq<u8>, lo: int, hi: int| iter.ok(c, lo, hi) ==> #[trigger] ret.ok(c, lo, hi),
@@sig I = Vec<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
@@head
    broadcast use lem5::td_seq;
    let ghost s = iter@;
@@loop 0
    invariant dl.items@.len() == it__0.index(), it__0.seq() == s, forall|k: int| 0 <= k < dl.items@.len() ==> td_of(s[k], #[trigger] dl.items@[k]),
        forall|k: int| 0 <= k < s.len() ==> r_fit((#[trigger] s[k]).0) && r_fit(s[k].1),
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@type ListItemSuffix copy
@type UnorderedListItemType clone
@type OrderedListItemType copy
@type ListItemType from clone
@type ListItemTodoStatus copy
@type ListItemAttributes copy
@type ListItem ctor el
@fn ListItemSuffix<Default>::default inherent
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@type ListItemContents ctor el
@type List ctor el
@source vimwiki-core/src/lang/elements/blocks/tables.rs
@type CellPos ctor copy
@type CellSpan copy
@type ColumnAlign copy
@type Cell out el
@type Table el
@source vimwiki-core/src/lang/elements/blocks/mod.rs
@type BlockElement from el
@source vimwiki-core/src/lang/elements/mod.rs
@type Page ctor out
@raw
impl Out for ListItemSuffix { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for OrderedListItemType { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for ListItemTodoStatus { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for ListItemAttributes { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for CellPos { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for CellSpan { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl Out for ColumnAlign { open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true } proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {} }
impl<'a> Out for UnorderedListItemType<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Out for ListItemType<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
/// every cell is ok (cells are looked up by position, they have no order here)
impl<'a> Out for HashMap<CellPos, Located<Cell<'a>>> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { forall|p: (CellPos, Located<Cell<'a>>)| #[trigger] self@.contains(p) ==> p.1.ok(c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { assert forall|p: (CellPos, Located<Cell<'a>>)| #[trigger] self@.contains(p) implies p.1.ok(c, lo2, hi2) by { p.1.mono(c, lo, hi, lo2, hi2); } }
}
impl<'a> Out for Table<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { self.cells.ok(c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { self.cells.mono(c, lo, hi, lo2, hi2); }
}
/// a list: its items, at every level, are ordered and lie within their parent
pub open spec fn list_ok<'a>(x: List<'a>, c: Seq<u8>, lo: int, hi: int) -> bool decreases x { r_ord(x.items@) && forall|i: int| 0 <= i < x.items@.len() ==> r_in(#[trigger] x.items[i], c, lo, hi) && item_ok(x.items[i].inner, c, n_lo(x.items[i], lo), n_hi(x.items[i], hi)) }
pub open spec fn item_ok<'a>(x: ListItem<'a>, c: Seq<u8>, lo: int, hi: int) -> bool decreases x { cts_ok(x.contents, c, lo, hi) }
pub open spec fn cts_ok<'a>(x: ListItemContents<'a>, c: Seq<u8>, lo: int, hi: int) -> bool decreases x { r_ord(x.0@) && forall|i: int| 0 <= i < x.0@.len() ==> r_in(#[trigger] x.0[i], c, lo, hi) && blk_ok(x.0[i].inner, c, n_lo(x.0[i], lo), n_hi(x.0[i], hi)) }
pub open spec fn blk_ok<'a>(x: BlockElement<'a>, c: Seq<u8>, lo: int, hi: int) -> bool decreases x {
    match x {
        BlockElement::List(b) => list_ok(b, c, lo, hi),
        BlockElement::Blockquote(b) => b.ok(c, lo, hi),
        BlockElement::CodeBlock(b) => b.ok(c, lo, hi),
        BlockElement::DefinitionList(b) => b.ok(c, lo, hi),
        BlockElement::Divider(b) => b.ok(c, lo, hi),
        BlockElement::Header(b) => b.ok(c, lo, hi),
        BlockElement::MathBlock(b) => b.ok(c, lo, hi),
        BlockElement::Paragraph(b) => b.ok(c, lo, hi),
        BlockElement::Placeholder(b) => b.ok(c, lo, hi),
        BlockElement::Table(b) => b.ok(c, lo, hi),
    }
}
pub proof fn list_mono<'a>(x: List<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires list_ok(x, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures list_ok(x, c, lo2, hi2)
    decreases x
{
    if !f_nest() { assert forall|i: int| 0 <= i < x.items@.len() implies r_in(#[trigger] x.items[i], c, lo2, hi2) && item_ok(x.items[i].inner, c, lo2, hi2) by { assert(r_in(x.items[i], c, lo, hi)); item_mono(x.items[i].inner, c, lo, hi, lo2, hi2); } }
}
pub proof fn item_mono<'a>(x: ListItem<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires item_ok(x, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures item_ok(x, c, lo2, hi2)
    decreases x
{
    cts_mono(x.contents, c, lo, hi, lo2, hi2);
}
pub proof fn cts_mono<'a>(x: ListItemContents<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires cts_ok(x, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures cts_ok(x, c, lo2, hi2)
    decreases x
{
    if !f_nest() { assert forall|i: int| 0 <= i < x.0@.len() implies r_in(#[trigger] x.0[i], c, lo2, hi2) && blk_ok(x.0[i].inner, c, lo2, hi2) by { assert(r_in(x.0[i], c, lo, hi)); blk_mono(x.0[i].inner, c, lo, hi, lo2, hi2); } }
}
pub proof fn blk_mono<'a>(x: BlockElement<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires blk_ok(x, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures blk_ok(x, c, lo2, hi2)
    decreases x
{
    match x {
        BlockElement::List(b) => { list_mono(b, c, lo, hi, lo2, hi2); }
        BlockElement::Blockquote(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::CodeBlock(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::DefinitionList(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::Divider(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::Header(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::MathBlock(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::Paragraph(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::Placeholder(b) => { b.mono(c, lo, hi, lo2, hi2); }
        BlockElement::Table(b) => { b.mono(c, lo, hi, lo2, hi2); }
    }
}
impl<'a> Out for List<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { list_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { list_mono(self, c, lo, hi, lo2, hi2); }
}
impl<'a> Out for ListItem<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { item_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { item_mono(self, c, lo, hi, lo2, hi2); }
}
impl<'a> Out for ListItemContents<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { cts_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { cts_mono(self, c, lo, hi, lo2, hi2); }
}
impl<'a> Out for BlockElement<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { blk_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { blk_mono(self, c, lo, hi, lo2, hi2); }
}
pub mod lem6 {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn list_from<'a>(x: List<'a>, c: Seq<u8>, lo: int, hi: int)
    requires x.items.ok(c, lo, hi)
    ensures #[trigger] list_ok(x, c, lo, hi)
{
    seq_ok_ord(x.items@, c, lo, hi);
    assert forall|i: int| 0 <= i < x.items@.len() implies r_in(#[trigger] x.items[i], c, lo, hi) && item_ok(x.items[i].inner, c, n_lo(x.items[i], lo), n_hi(x.items[i], hi)) by { assert(x.items@[i].inner.ok(c, n_lo(x.items@[i], lo), n_hi(x.items@[i], hi))); }
}
pub broadcast proof fn cts_from<'a>(x: ListItemContents<'a>, c: Seq<u8>, lo: int, hi: int)
    requires x.0.ok(c, lo, hi)
    ensures #[trigger] cts_ok(x, c, lo, hi)
{
    seq_ok_ord(x.0@, c, lo, hi);
    assert forall|i: int| 0 <= i < x.0@.len() implies r_in(#[trigger] x.0[i], c, lo, hi) && blk_ok(x.0[i].inner, c, n_lo(x.0[i], lo), n_hi(x.0[i], hi)) by { assert(x.0@[i].inner.ok(c, n_lo(x.0@[i], lo), n_hi(x.0@[i], hi))); }
}
}
@endraw
@source vimwiki-core/src/lang/elements/utils/mod.rs
@fn Located<T>::take_with_region
    ensures ret.inner == self.inner, ret.region == region,
@fn Located<T>::as_mut_inner
    ensures *ret == old(self).inner, final(self).inner == *final(ret), final(self).region == old(self).region,
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@autofns
@fn definition_list
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem5::td_fit;
@fn term_and_definitions
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem5::ins_ok;
@@closure 0
    ensures true
@fn term_line
    requires input.pre(),
    ensures post(input, ret), match ret { Ok((s1, (t, Some(d)))) => f_nest() ==> r_hi(t) <= r_lo(d) && r_hi(d) <= s1.start, _ => true },
@@closure 0
    requires span.wf() ensures true
@fn definition_line::inner
    requires input.pre(),
    ensures post(input, ret),
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
@autofns
@fn paragraph::inner
    requires input.pre(),
    ensures post(input, ret),
@source vimwiki-core/src/lang/elements/blocks/tables.rs
@fn ColumnAlign<Default>::default inherent
@fn Table::new stub
    ensures forall|p: (CellPos, Located<Cell<'a>>)| #[trigger] ret.cells@.contains(p) ==> cells@.contains(p),
@@sig I = HashMap<CellPos, Located<Cell<'a>>>
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@raw
impl<T: ElementLike> std::ops::Deref for Located<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.inner { &self.inner } }
impl<T: ElementLike> std::ops::DerefMut for Located<T> { fn deref_mut(&mut self) -> (r: &mut T) ensures *r == old(self).inner, final(self).inner == *final(r), final(self).region == old(self).region { &mut self.inner } }
pub mod lem7 {
use super::*;
use vstd::prelude::*;
pub open spec fn numbered<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn same_cells<'a>(v: Vec<Located<Cell<'a>>>, r: Vec<(CellPos, Located<Cell<'a>>)>) -> bool { r@.len() == v@.len() && forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).1 == v@[k] }
pub broadcast axiom fn ax_cells<'a>(s: Seq<(CellPos, Located<Cell<'a>>)>, r: HashMap<CellPos, Located<Cell<'a>>>)
    requires #[trigger] <HashMap<CellPos, Located<Cell<'a>>> as vstd::std_specs::iter::FromIteratorSpec<(CellPos, Located<Cell<'a>>)>>::from_iter_ensures(s, r)
    ensures forall|p: (CellPos, Located<Cell<'a>>)| #[trigger] r@.contains(p) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == p;
pub broadcast proof fn table_cells<'a>(d: Vec<Located<Cell<'a>>>, v: Vec<Vec<Located<Cell<'a>>>>, parts: Seq<Vec<(CellPos, Located<Cell<'a>>)>>, r: HashMap<CellPos, Located<Cell<'a>>>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires #[trigger] <HashMap<CellPos, Located<Cell<'a>>> as vstd::std_specs::iter::FromIteratorSpec<(CellPos, Located<Cell<'a>>)>>::from_iter_ensures(flat(parts), r),
        #[trigger] d.ok(c, lo, m), #[trigger] v.ok(c, m, hi), lo <= m <= hi, parts.len() == v@.len() + 1,
        forall|i: int| 0 <= i < parts.len() ==> same_cells(v@.insert(0, d)[i], #[trigger] parts[i])
    ensures r.ok(c, lo, hi)
{
    lem5::seq_ins(d, v@, c, lo, m, hi);
    cells_from(v@.insert(0, d), parts, r, c, lo, hi);
}
pub broadcast proof fn cells_from<'a>(rows: Seq<Vec<Located<Cell<'a>>>>, parts: Seq<Vec<(CellPos, Located<Cell<'a>>)>>, r: HashMap<CellPos, Located<Cell<'a>>>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] <HashMap<CellPos, Located<Cell<'a>>> as vstd::std_specs::iter::FromIteratorSpec<(CellPos, Located<Cell<'a>>)>>::from_iter_ensures(flat(parts), r), #[trigger] seq_ok(rows, c, lo, hi), lo <= hi,
        parts.len() == rows.len(), forall|i: int| 0 <= i < parts.len() ==> same_cells(rows[i], #[trigger] parts[i])
    ensures r.ok(c, lo, hi)
{
    let s = flat(parts);
    ax_cells(s, r);
    assert forall|i: int, a: int, b: int| 0 <= i < rows.len() && rows[i].ok(c, a, b) implies #[trigger] parts[i].ok(c, a, b) by {
        let (v, w) = (rows[i], parts[i]);
        assert forall|k: int, a2: int, b2: int| 0 <= k < v@.len() && v@[k].ok(c, a2, b2) implies #[trigger] w@[k].ok(c, a2, b2) by { assert(w@[k].1 == v@[k]); }
        lem4::map_ok(v@, w@, c, a, b);
    }
    lem4::flat_ok(rows, parts, c, lo, hi);
    assert forall|p: (CellPos, Located<Cell<'a>>)| #[trigger] r@.contains(p) implies p.1.ok(c, lo, hi) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == p;
        seq_elem(s, c, lo, hi, i);
    }
}
}
pub trait Enum_<T>: Sized {
    #[verifier::prophetic] spec fn of(self) -> Seq<T>;
    /// Iterator::enumerate
    fn enumerate__(self) -> (r: std::vec::IntoIter<(usize, T)>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == lem7::numbered(self.of());
}
impl<T> Enum_<T> for std::vec::IntoIter<T> {
    #[verifier::prophetic] open spec fn of(self) -> Seq<T> { vstd::std_specs::iter::IteratorSpec::remaining(&self) }
    #[verifier::external_body] fn enumerate__(self) -> (r: std::vec::IntoIter<(usize, T)>) { unimplemented!() }
}
/// walking the rows of a table: that it stops, does not panic and visits every row is decided in unit tables
pub struct Rows<'a, 'b> { x: &'a Table<'b> }
pub struct Row<'a, 'b> { x: &'a Table<'b> }
impl<'a, 'b> Rows<'a, 'b> { #[verifier::external_body] pub fn all<F: Fn(Row<'a, 'b>) -> bool>(self, f: F) -> (r: bool) requires forall|x: Row<'a, 'b>| f.requires((x,)) { unimplemented!() } }
impl<'a, 'b> Row<'a, 'b> { #[verifier::external_body] pub fn is_divider_row(&self) -> (r: bool) { unimplemented!() } }
impl<'b> Table<'b> { #[verifier::external_body] pub fn rows<'a>(&'a self) -> (r: Rows<'a, 'b>) { unimplemented!() } }
@endraw
@autofns
@fn table::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem7::table_cells;
@@closure 1
    ensures lem7::same_cells(p__0.1, r__)
@@closure 2
    ensures r__.1 == p__0.1
@fn cell::inner
    requires input.pre(),
    ensures post(input, ret),
@raw
impl<'a> From__<BlockElement<'a>> for BlockElement<'a> {
    open spec fn from_req(x: BlockElement<'a>) -> bool { true }
    open spec fn from_ens(x: BlockElement<'a>, r: Self) -> bool { r == x }
    fn from__(x: BlockElement<'a>) -> (r: Self) { x }
}
pub open spec fn same_item<'a>(a: Located<ListItem<'a>>, b: Located<ListItem<'a>>) -> bool { b.region == a.region && b.inner.contents == a.inner.contents }
/// only the types of the items differ
pub open spec fn same_items<'a>(a: List<'a>, b: List<'a>) -> bool { a.items@.len() == b.items@.len() && forall|i: int| 0 <= i < a.items@.len() ==> same_item(a.items@[i], #[trigger] b.items@[i]) }
pub open spec fn pushed<'a>(v: Seq<Located<ListItem<'a>>>, x: Located<ListItem<'a>>, r: Seq<Located<ListItem<'a>>>) -> bool { r.len() == v.len() + 1 && r.drop_last() =~= v && same_item(x, r.last()) }
impl<'a> List<'a> {
    // derive(Clone), through ToOwned
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait Fold_ { spec fn count(self) -> int; }
impl<T> Fold_ for (usize, T) { open spec fn count(self) -> int { self.0 as int } }
/// one step of the fold: a step is taken at most once per byte
pub open spec fn fold_step<T: Out, R: Out + Fold_, G: Fn(R, T) -> R>(g: G) -> bool {
    &&& forall|a: R, o: T| a.count() <= 0x3fff_ffff_ffff_ffff ==> #[trigger] g.requires((a, o))
    &&& forall|a: R, o: T, r: R| #[trigger] g.ensures((a, o), r) ==> r.count() <= a.count() + 1 && forall|c: Seq<u8>, lo: int, k: int, hi: int| #[trigger] a.ok(c, lo, k) && #[trigger] o.ok(c, k, hi) && lo <= k <= hi ==> r.ok(c, lo, hi)
}
pub open spec fn folded<R: Out>(init: R, acc: R, c: Seq<u8>, a: int, b: int) -> bool { forall|lo: int| init.ok(c, lo, a) && lo <= a ==> #[trigger] acc.ok(c, lo, b) }
#[verifier::external_body]
pub fn fold_many0<'a, T: Out, R: Out + Fold_, F: Fn(Span<'a>) -> IR<'a, T>, G: Fn(R, T) -> R>(f: F, init: R, g: G) -> (q: impl Fn(Span<'a>) -> IR<'a, R>)
    ensures
        forall|s: Span<'a>| pok(f) && s.pre() && init.count() <= 1 && fold_step(g) ==> #[trigger] q.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, R>| #[trigger] q.ensures((s,), x) ==> match x {
            Ok((s1, acc)) => {
                &&& fails(f, s1)
                &&& pok(f) && s.pre() && init.count() <= 1 && fold_step(g) ==> post(s, Ok::<(Span<'a>, ()), nom::Err<LangParserError<'a>>>((s1, ()))) && folded(init, acc, s.c(), s.start as int, s1.start as int)
            },
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, R> { unimplemented!() } }
/// char::from(u8)
pub fn from__(b: u8) -> (c: char) ensures c as u32 == b as u32 { b as char }
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r ==> 'a' <= *c <= 'z';
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r ==> 'A' <= *c <= 'Z';
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r ==> (*c as u32) < 128;
impl<'a> core::iter::FromIterator<Located<BlockElement<'a>>> for ListItemContents<'a> { #[verifier::external_body] fn from_iter<I: IntoIterator<Item = Located<BlockElement<'a>>>>(i: I) -> (r: Self) { unimplemented!() } }
pub mod lem8 {
use super::*;
use vstd::prelude::*;
pub broadcast axiom fn ax_contents<'a>(s: Seq<Located<BlockElement<'a>>>, r: ListItemContents<'a>)
    requires #[trigger] <ListItemContents<'a> as vstd::std_specs::iter::FromIteratorSpec<Located<BlockElement<'a>>>>::from_iter_ensures(s, r)
    ensures r.0@ == s;
pub broadcast proof fn contents_ok<'a>(d: Located<BlockElement<'a>>, v: Vec<Located<BlockElement<'a>>>, r: ListItemContents<'a>, c: Seq<u8>, lo: int, m: int, hi: int)
    requires #[trigger] <ListItemContents<'a> as vstd::std_specs::iter::FromIteratorSpec<Located<BlockElement<'a>>>>::from_iter_ensures(v@.insert(0, d), r),
        #[trigger] d.ok(c, lo, m), #[trigger] v.ok(c, m, hi), lo <= m <= hi
    ensures r.ok(c, lo, hi)
{
    ax_contents(v@.insert(0, d), r);
    lem5::seq_ins(d, v@, c, lo, m, hi);
    lem6::cts_from(r, c, lo, hi);
}
pub broadcast proof fn norm_ok<'a>(a: List<'a>, b: List<'a>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] same_items(a, b), list_ok(a, c, lo, hi)
    ensures #[trigger] list_ok(b, c, lo, hi)
{
    assert forall|i: int| 0 <= i < b.items@.len() implies r_in(#[trigger] b.items[i], c, lo, hi) && item_ok(b.items[i].inner, c, n_lo(b.items[i], lo), n_hi(b.items[i], hi)) by {
        let (x, y) = (a.items[i], b.items[i]);
        assert(same_item(a.items@[i], b.items@[i]));
        assert(r_in(x, c, lo, hi) && item_ok(x.inner, c, n_lo(x, lo), n_hi(x, hi)));
    }
    if f_nest() { assert forall|i: int, j: int| 0 <= i < j < b.items@.len() implies r_hi(#[trigger] b.items@[i]) <= r_lo(#[trigger] b.items@[j]) by {
        assert(same_item(a.items@[i], b.items@[i]) && same_item(a.items@[j], b.items@[j]));
        assert(r_hi(a.items@[i]) <= r_lo(a.items@[j]));
    } }
}
pub broadcast proof fn fold_items<'a>(n: usize, v: Vec<Located<ListItem<'a>>>, item: Located<ListItem<'a>>, r: (usize, Vec<Located<ListItem<'a>>>), c: Seq<u8>, lo: int, a: int, b: int)
    requires #[trigger] folded((n, v), r, c, a, b), #[trigger] item.ok(c, lo, a), v@.len() == 1, v@[0] == item, lo <= a
    ensures r.1.ok(c, lo, b)
{
    assert(v@ =~= Seq::<Located<ListItem<'a>>>::empty().push(item));
    seq_push(Seq::<Located<ListItem<'a>>>::empty(), item, c, lo, lo, a);
    assert((n, v).ok(c, lo, a));
    assert(r.ok(c, lo, b));
}
pub broadcast proof fn push_ok<'a>(v: Seq<Located<ListItem<'a>>>, x: Located<ListItem<'a>>, r: Seq<Located<ListItem<'a>>>, c: Seq<u8>, lo: int, k: int, hi: int)
    requires #[trigger] pushed(v, x, r), #[trigger] seq_ok(v, c, lo, k), #[trigger] x.ok(c, k, hi), lo <= k <= hi
    ensures seq_ok(r, c, lo, hi)
{
    let y = r.last();
    assert(y.ok(c, k, hi));
    seq_push(v, y, c, lo, k, hi);
    assert(r =~= v.push(y));
}
}
@endraw
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@fn ListItemContents<FromIterator<Located<BlockElement>>>::from_iter inherent
    ensures ret.0@ == iter@,
@@sig I = Vec<Located<BlockElement<'a>>>
@fn List::normalize stub
    ensures same_items(*old(self), *ret), *final(self) == *final(ret),
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@autofns
@fn list::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem6::list_from, lem8::norm_ok, lem8::push_ok, lem8::fold_items;
@@closure 2
    requires p__0.0 <= 0x3fff_ffff_ffff_ffff ensures r__.0 == p__0.0 + 1, pushed(p__0.1@, item, r__.1@)
@fn list_item::inner
    requires input.pre(),
    ensures post(input, ret),
@fn list_item_tail
    ensures pok(ret),
@@head
    broadcast use lem8::contents_ok;
@@closure 0
    requires input.pre() ensures post(input, r__)
@@closure 1
    ensures r__ == c
@@closure 3
    ensures r__ == c
@fn ordered_list_item_type_lower_alphabet
@@closure 0
    ensures r__ ==> b < 128
@fn ordered_list_item_type_upper_alphabet
@@closure 0
    ensures r__ ==> b < 128
@fn indentation_level
    ensures pok(ret),
@@closure 0
    requires input.pre() ensures post(input, r__)
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs
@autofns
@raw
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}
pub trait Drain_<T>: Sized {
    spec fn all_(self) -> Seq<T>;
    /// Vec::drain(..)
    fn drain__(&mut self, r: std::ops::RangeFull) -> (x: std::vec::IntoIter<T>) ensures vstd::std_specs::iter::IteratorSpec::remaining(&x) == old(self).all_();
}
impl<T> Drain_<T> for Vec<T> {
    open spec fn all_(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn drain__(&mut self, r: std::ops::RangeFull) -> (x: std::vec::IntoIter<T>) { unimplemented!() }
}
pub trait Flatten_<T>: Sized {
    #[verifier::prophetic] spec fn opts(self) -> Seq<Option<T>>;
    /// Iterator::flatten of options
    fn flatten__(self) -> (x: std::vec::IntoIter<T>) ensures vstd::std_specs::iter::IteratorSpec::remaining(&x) == somes(self.opts());
}
impl<T> Flatten_<T> for std::vec::IntoIter<Option<T>> {
    #[verifier::prophetic] open spec fn opts(self) -> Seq<Option<T>> { vstd::std_specs::iter::IteratorSpec::remaining(&self) }
    #[verifier::external_body] fn flatten__(self) -> (x: std::vec::IntoIter<T>) { unimplemented!() }
}
pub mod lem9 {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn somes_ok<T: Out>(s: Seq<Option<T>>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] seq_ok(s, c, lo, hi), T::ord()
    ensures #[trigger] seq_ok(somes(s), c, lo, hi)
    decreases s.len()
{
    if s.len() > 0 {
        let k = choose|k: int| lo <= k <= hi && seq_ok(s.drop_last(), c, lo, k) && #[trigger] s.last().ok(c, k, hi);
        somes_ok(s.drop_last(), c, lo, k);
        match s.last() {
            Some(x) => { assert(x.ok(c, k, hi)); seq_push(somes(s.drop_last()), x, c, lo, k, hi); }
            None => { seq_mono(somes(s.drop_last()), c, lo, k, lo, hi); }
        }
    }
}
}
@endraw
@source vimwiki-core/src/lang/parsers/vimwiki/mod.rs
@autofns
@fn page::inner
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem9::somes_ok;
@fn page::inner::maybe_block_element
    requires input.pre(),
    ensures post(input, ret),
