@include spanfns.spec
@source vimwiki-core/src/lang/parsers/mod.rs
@type IResult
@type Captured
@raw
/// the captured span starts and ends inside the window and holds an output that is ok
impl<'a, T: Out> Out for Captured<'a, T> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { self.input.ok(c, lo, hi) && self.inner.ok(c, self.input.start as int, self.input.end as int) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
@endraw
@fn Captured<T>::new
    ensures ret.inner == inner, ret.input == input,
@fn Captured<T>::into_inner
    ensures ret == self.inner,
@fn Captured<T>::input
    ensures ret == self.input,
@source vimwiki-core/src/lang/elements/utils/region.rs
@type Region copy
@fn Region::new_at_depth
    ensures ret == (Region { offset, len, depth }),
@fn Region::new
    ensures ret == (Region { offset, len, depth: 0 }),
@fn Region::offset
    ensures ret == self.offset,
@fn Region::len
    ensures ret == self.len,
@fn Region::depth
    ensures ret == self.depth,
@fn Region<From<Span>>::from
    ensures ret == (Region { offset: span.start, len: span.sp_remaining_len(), depth: span.depth }),
@@stub
@@impl
    open spec fn from_req(span: Span<'a>) -> bool { true }
    open spec fn from_ens(span: Span<'a>, ret: Self) -> bool { ret == (Region { offset: span.start, len: span.sp_remaining_len(), depth: span.depth }) }
@source vimwiki-core/src/lang/elements/utils/mod.rs
@type Located
@raw
pub trait ElementLike {}
impl<T: ElementLike> Located<T> {
    // derive(derive_more::Constructor): new(inner, region)
    pub fn new(inner: T, region: Region) -> (r: Self) ensures r.inner == inner, r.region == region { Located { inner, region } }
}
impl<T: ElementLike + Out> Out for Located<T> {
    open spec fn loc() -> bool { f_nest() } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool {
        let a = self.region.offset as int; let b = self.region.offset + self.region.len;
        (f_nest() ==> lo <= a && b <= hi) && b <= c.len() && is_char_boundary(c, a) && is_char_boundary(c, b) && (if f_nest() { self.inner.ok(c, a, b) } else { self.inner.ok(c, lo, hi) })
    }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { if !f_nest() { self.inner.mono(c, lo, hi, lo2, hi2); } }
}
@endraw
@fn Located<T>::map
    requires f.requires((self.inner,)),
    ensures ret.region == self.region, f.ensures((self.inner,), ret.inner),
@fn Located<T>::into_inner
    ensures ret == self.inner,
@fn Located<T>::region
    ensures ret == self.region,
@source vimwiki-core/src/lang/parsers/utils/character.rs
@autofns
@fn end_of_line_or_input
    requires input.wf(),
    ensures match ret { Ok((s1, _)) => sub(s1, input) && s1.end == input.end && s1.wf() && (input.pre() ==> s1.pre()) && ((input.start == input.end && s1 == input) || (at_lf(input) && s1 == input.adv(1)) || (at_crlf(input) && s1 == input.adv(2))), Err(_) => input.start < input.end && !at_lf(input) && !at_crlf(input) },
@fn end_of_line_or_input::inner
    requires input.wf(),
    ensures match ret { Ok((s1, _)) => sub(s1, input) && s1.end == input.end && s1.wf() && (input.pre() ==> s1.pre()) && ((input.start == input.end && s1 == input) || (at_lf(input) && s1 == input.adv(1)) || (at_crlf(input) && s1 == input.adv(2))), Err(_) => input.start < input.end && !at_lf(input) && !at_crlf(input) },
@source vimwiki-core/src/lang/parsers/utils/line.rs
@autofns
@source vimwiki-core/src/lang/parsers/utils/whitespace.rs
@autofns
@raw
/// s1 is s without its trailing spaces and tabs
pub open spec fn no_trailing<'a>(s1: Span<'a>, s: Span<'a>) -> bool {
    &&& s1.inner == s.inner && s1.start == s.start && s1.depth == s.depth && s.start <= s1.end <= s.end
    &&& forall|k: int| s1.end <= k < s.end ==> is_sp(#[trigger] s.c()[k])
    &&& s1.end > s1.start ==> !is_sp(s.c()[s1.end - 1])
}
pub open spec fn trailing<'a>(s: Span<'a>, n: int) -> bool {
    &&& 0 <= n <= s.end - s.start
    &&& forall|k: int| s.end - n <= k < s.end ==> is_sp(#[trigger] s.c()[k])
    &&& n < s.end - s.start ==> !is_sp(s.c()[s.end - n - 1])
}
@endraw
@fn single_multispace
    requires input.wf(),
    ensures match ret { Ok((s1, _)) => sub(s1, input) && s1.end == input.end && s1.wf() && input.start < input.end && input.c()[input.start as int] < 128 && (input.pre() ==> s1.pre()), Err(_) => true },
@fn count_trailing_whitespace
    requires input.wf(),
    ensures match ret { Ok((s1, n)) => s1 == input && trailing(input, n as int), Err(_) => false },
@fn count_trailing_whitespace::inner
    requires input.wf(),
    ensures match ret { Ok((s1, n)) => s1 == input && trailing(input, n as int), Err(_) => false },
@@loops 1
@@loop 0
    invariant cnt == it__0.index@, it__0.seq().len() == input.end - input.start,
        forall|k: int| 0 <= k < it__0.seq().len() ==> *#[trigger] it__0.seq()[k] == input.c()[input.end - 1 - k],
        forall|k: int| input.end - cnt <= k < input.end ==> is_sp(#[trigger] input.c()[k]),
@fn trim_trailing_whitespace
    requires input.wf(),
    ensures match ret { Ok((s1, _)) => no_trailing(s1, input) && (input.pre() ==> s1.pre()), Err(_) => false },
@fn trim_trailing_whitespace::inner
    requires input.wf(),
    ensures match ret { Ok((s1, _)) => no_trailing(s1, input) && (input.pre() ==> s1.pre()), Err(_) => false },
@source vimwiki-core/src/lang/parsers/utils/bytes.rs
@autofns
@fn take_line_while
    requires pok(parser), ascii_head(parser),
    ensures pok(ret),
@fn take_line_while::single_char
    requires pok(parser), ascii_head(parser),
    ensures pok(ret),
@fn take_line_while1
    requires pok(parser), ascii_head(parser),
    ensures pok(ret), forall|s: Span<'a>, s1: Span<'a>, o: Span<'a>| #[trigger] ret.ensures((s,), Ok((s1, o))) ==> o.sp_remaining_len() > 0,
@fn take_end
    ensures
        forall|s: Span<'a>| s.wf() ==> #[trigger] ret.requires((s,)),
        forall|s: Span<'a>, x: IResult<'a, Span<'a>>| s.wf() && #[trigger] ret.ensures((s,), x) ==> match x {
            Ok((s1, o)) => count.us() <= s.end - s.start && s1 == s.cut(s.end - s.start - count.us()) && o == s.adv(s.end - s.start - count.us()),
            Err(_) => count.us() > s.end - s.start },
@@closure 0
    requires input.wf()
    ensures match r__ {
            Ok((s1, o)) => cnt <= input.end - input.start && s1 == input.cut(input.end - input.start - cnt) && o == input.adv(input.end - input.start - cnt),
            Err(_) => cnt > input.end - input.start }
@fn take_line_until_one_of_three
    requires lit_ok(pattern1), lit_ok(pattern2), lit_ok(pattern3),
    ensures pok(ret),
@@closures 3
@@closure 1
    requires pos < bytes@.len(), bytes@[pos as int] == 10
    ensures r__ <= pos, r__ < bytes@.len(), bytes@[r__ as int] == 10 || bytes@[r__ as int] == 13
@@closure 2
    requires input.wf()
    ensures r__ == input.end - input.start

@include anchor.rs
@raw
#[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
pub struct URIReferenceError {}
#[verifier::external] impl core::fmt::Debug for URIReferenceError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl<'a> TryFrom__<Span<'a>> for URIReference<'a> {
    type Error = URIReferenceError;
    open spec fn try_req(x: Span<'a>) -> bool { x.wf() }
    open spec fn try_ens(x: Span<'a>, r: Result<Self, URIReferenceError>) -> bool { true }
    #[verifier::external_body] fn try_from__(x: Span<'a>) -> (r: Result<Self, Self::Error>) { unimplemented!() }
}
impl<'a> TryFrom__<&'a str> for URIReference<'a> {
    type Error = URIReferenceError;
    open spec fn try_req(x: &'a str) -> bool { true }
    open spec fn try_ens(x: &'a str, r: Result<Self, URIReferenceError>) -> bool { frag_ref(x@) ==> r is Ok }
    #[verifier::external_body] fn try_from__(x: &'a str) -> (r: Result<Self, Self::Error>) { unimplemented!() }
}
impl<'a> Out for URIReference<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
@endraw
@source vimwiki-core/src/lang/parsers/utils/convert.rs
@autofns
@fn cow_str
    requires input.pre(),
    ensures match ret { Ok((s1, o)) => s1 == input && o.bytes() == input.rem(), Err(_) => false },
@fn capture
    requires pok(parser),
    ensures pok(ret), wpok(parser) ==> wpok(ret),
@@closures 1
@@closure 0
    requires input.pre() || (wpok(parser) && input.mid()) ensures post(input, r__), wpok(parser) && r__ is Ok ==> input.pre()
@fn locate
    requires pok(parser),
    ensures pok(ret), wpok(parser) ==> wpok(ret),
@@closures 1
@@closure 0
    requires input.pre() || (wpok(parser) && input.mid()) ensures post(input, r__), wpok(parser) && r__ is Ok ==> input.pre()
