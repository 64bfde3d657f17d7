@include nom.rs
@source vimwiki-core/src/lang/parsers/span.rs
@type Span copy
@include nom2.rs
@include alt.rs
@fnhead broadcast use lem2::lemma_has;
@raw
use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
// nom traits implemented by span.rs
pub trait AsBytes { fn as_bytes(&self) -> &[u8]; }
pub trait InputLength { fn input_len(&self) -> usize; }
impl AsBytes for [u8] { #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { self } }
impl InputLength for [u8] { #[verifier::external_body] fn input_len(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
pub trait Slice<R>: Sized {
    spec fn slice_req(&self, range: R) -> bool;
    spec fn slice_res(&self, range: R) -> Self;
    fn slice(&self, range: R) -> (ret: Self) requires self.slice_req(range) ensures ret == self.slice_res(range);
}
impl<'a> Span<'a> {
    pub open spec fn sp_depth(&self) -> u16 { self.depth }
    pub open spec fn sp_start_offset(&self) -> usize { self.start }
    pub open spec fn sp_end_offset(&self) -> usize { self.end }
    pub open spec fn sp_remaining_len(&self) -> usize { if self.start <= self.end { (self.end - self.start) as usize } else { 0 } }
    pub open spec fn sp_is_empty(&self) -> bool { self.sp_remaining_len() == 0 }
}
@endraw
@fn Span::new
    ensures ret == (Span { inner, start, end, depth }),
@fn Span::backtrack_start_by
    ensures ret == (Span { inner: self.inner, start: if offset > self.start { 0 } else { (self.start - offset) as usize }, end: self.end, depth: self.depth }),
@fn Span::advance_start_by
    requires self.start + start <= usize::MAX,
    ensures ret == (Span { inner: self.inner, start: if self.start + start > self.end { self.end } else { (self.start + start) as usize }, end: self.end, depth: self.depth }),
@fn Span::advance_end_by
    requires self.start + end <= usize::MAX,
    ensures ret == (Span { inner: self.inner, start: self.start, end: (self.start + end) as usize, depth: self.depth }),
@fn Span::with_length
    requires self.wf(),
    ensures ret == (Span { inner: self.inner, start: self.start, end: if len < self.end - self.start { (self.start + len) as usize } else { self.end }, depth: self.depth }),
@fn Span::depth
    ensures ret == self.depth,
@fn Span::with_depth
    ensures ret == (Span { inner: self.inner, start: self.start, end: self.end, depth }),
@fn Span::with_deeper_depth trusted
    ensures ret.inner == self.inner, ret.start == self.start, ret.end == self.end, ret.depth == self.depth + 1,
@fn Span::with_shallower_depth
    ensures ret == (Span { inner: self.inner, start: self.start, end: self.end, depth: if self.depth > 0 { (self.depth - 1) as u16 } else { 0 } }),
@fn Span::trim_start
    requires self.wf(),
    ensures ret.inner == self.inner, ret.end == self.end, ret.depth == self.depth, self.start <= ret.start <= ret.end,
        forall|k: int| self.start <= k < ret.start ==> is_ws(#[trigger] self.c()[k]),
        ret.start < ret.end ==> !is_ws(self.c()[ret.start as int]),
        self.pre() ==> ret.pre(),
@@loops 1
@@loop 0
    invariant self.start <= start <= end, forall|k: int| self.start <= k < start ==> is_ws(#[trigger] self.c()[k]),
        self.pre() ==> is_char_boundary(self.inner@, start as int),
    decreases end - start,
@fn Span::as_inner
    ensures ret@ == self.inner@,
@fn Span::as_unsafe_inner_str
    requires self.wf(),
    ensures encode_utf8(ret@) == self.inner@,
@fn Span::start_offset
    ensures ret == self.start,
@fn Span::end_offset
    ensures ret == self.end,
@fn Span::as_consumed
    requires self.wf(),
    ensures ret@ == self.inner@.subrange(0, self.start as int),
@fn Span::as_unsafe_consumed_str
    requires self.pre(),
    ensures encode_utf8(ret@) == self.inner@.subrange(0, self.start as int),
@fn Span::consumed_len
    ensures ret == self.start,
@fn Span::as_remaining
    requires self.wf(),
    ensures ret@ == self.rem(),
@fn Span::as_unsafe_remaining_str
    requires self.pre(),
    ensures encode_utf8(ret@) == self.rem(),
@fn Span::map_remaining_into
    requires self.wf(), forall|x: &'a [u8]| x@ == self.rem() ==> #[trigger] f.requires((x,)),
    ensures exists|x: &'a [u8]| x@ == self.rem() && #[trigger] f.ensures((x,), ret),
@fn Span::map_remaining_unsafe_str_into
    requires self.pre(), forall|x: &'a str| encode_utf8(x@) == self.rem() ==> #[trigger] f.requires((x,)),
    ensures exists|x: &'a str| encode_utf8(x@) == self.rem() && #[trigger] f.ensures((x,), ret),
@fn Span::remaining_len
    ensures ret == self.sp_remaining_len(),
@fn Span::is_empty
    ensures ret == (self.sp_remaining_len() == 0),

@fn Span<AsBytes>::as_bytes inherent
    requires self.wf(),
    ensures ret@ == self.rem(),
@fn Span<InputLength>::input_len inherent
    requires self.wf(),
    ensures ret == self.end - self.start,
@fn Span<InputTake>::take inherent
    requires self.wf(), count <= self.end - self.start,
    ensures ret == self.cut(count as int),
@fn Span<InputTake>::take_split inherent
    requires self.wf(), count <= self.end - self.start,
    ensures ret == (self.adv(count as int), self.cut(count as int)),
@fn Span<Offset>::offset inherent
    requires self.start <= second.start,
    ensures ret == second.start - self.start,
@fn Span<Slice<Range<usize>>>::slice
    requires self.slice_req(range),
    ensures ret == self.slice_res(range),
@@stub
@@impl
    open spec fn slice_req(&self, range: Range<usize>) -> bool { self.wf() && range.start <= range.end <= self.end - self.start }
    open spec fn slice_res(&self, range: Range<usize>) -> Self { Span { inner: self.inner, start: (self.start + range.start) as usize, end: (self.start + range.end) as usize, depth: self.depth } }
@fn Span<Slice<RangeTo<usize>>>::slice
    requires self.slice_req(range),
    ensures ret == self.slice_res(range),
@@stub
@@impl
    open spec fn slice_req(&self, range: RangeTo<usize>) -> bool { self.wf() && range.end <= self.end - self.start }
    open spec fn slice_res(&self, range: RangeTo<usize>) -> Self { self.cut(range.end as int) }
@fn Span<Slice<RangeFrom<usize>>>::slice
    requires self.slice_req(range),
    ensures ret == self.slice_res(range),
@@stub
@@impl
    open spec fn slice_req(&self, range: RangeFrom<usize>) -> bool { self.wf() && range.start <= self.end - self.start }
    open spec fn slice_res(&self, range: RangeFrom<usize>) -> Self { self.adv(range.start as int) }
@fn Span<Slice<RangeFull>>::slice
    ensures ret == *self,
@@stub
@@impl
    open spec fn slice_req(&self, range: RangeFull) -> bool { true }
    open spec fn slice_res(&self, range: RangeFull) -> Self { *self }
@fn Span<From<&[u8]>>::from inherent
    ensures ret == (Span { inner, start: 0, end: inner@.len() as usize, depth: 0 }),
@fn Cow<str><From<Span>>::from
    requires span.pre(),
    ensures ret.bytes() == span.rem(),
@@stub
@@impl
    open spec fn from_req(span: Span<'a>) -> bool { span.pre() }
    open spec fn from_ens(span: Span<'a>, ret: Cow<'a, str>) -> bool { ret.bytes() == span.rem() }

