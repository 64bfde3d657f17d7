//# positions reported for a span (unit of P04)
@include spanfns.spec
@source vimwiki-core/src/lang/parsers/mod.rs
@type IResult
@type Captured
@source vimwiki-core/src/lang/elements/utils/region.rs
@type Region copy
@source vimwiki-core/src/lang/elements/utils/mod.rs
@type Located
@raw
pub open spec fn f_nest() -> bool { false }
pub open spec fn f_text() -> bool { false }
/// occurrences of c in b[lo..hi)
pub open spec fn cnt(b: Seq<u8>, c: u8, lo: int, hi: int) -> int
    decreases hi - lo
{ if lo >= hi { 0 } else { cnt(b, c, lo, hi - 1) + (if b[hi - 1] == c { 1int } else { 0int }) } }
pub proof fn cnt_bound(b: Seq<u8>, c: u8, lo: int, hi: int)
    requires lo <= hi
    ensures 0 <= cnt(b, c, lo, hi) <= hi - lo
    decreases hi - lo
{ if lo < hi { cnt_bound(b, c, lo, hi - 1); } }
/// code points that start in b[lo..hi)
pub open spec fn chars_in(b: Seq<u8>, lo: int, hi: int) -> int
    decreases hi - lo
{ if lo >= hi { 0 } else { chars_in(b, lo, hi - 1) + (if is_continuation_byte(b[hi - 1]) { 0int } else { 1int }) } }
pub proof fn chars_bound(b: Seq<u8>, lo: int, hi: int)
    requires lo <= hi
    ensures 0 <= chars_in(b, lo, hi) <= hi - lo
    decreases hi - lo
{ if lo < hi { chars_bound(b, lo, hi - 1); } }
pub proof fn chars_shift(b: Seq<u8>, i: int, j: int, k: int)
    requires 0 <= i <= k <= j <= b.len()
    ensures chars_in(b.subrange(i, j), 0, k - i) == chars_in(b, i, k)
    decreases k - i
{ if i < k { chars_shift(b, i, j, k - 1); assert(b.subrange(i, j)[k - i - 1] == b[k - 1]); } }
/// the 1-based line of offset i: one more than the newlines before it
pub open spec fn line_of(b: Seq<u8>, i: int) -> int { 1 + cnt(b, 10u8, 0, i) }
/// s is the start of the line that holds offset i
pub open spec fn is_line_start(b: Seq<u8>, s: int, i: int) -> bool {
    0 <= s <= i && (s == 0 || b[s - 1] == 10) && forall|k: int| s <= k < i ==> #[trigger] b[k] != 10
}
/// the 1-based column of offset i: one more than the code points before it on its line
pub open spec fn is_col(b: Seq<u8>, i: int, r: int) -> bool {
    exists|s: int| is_line_start(b, s, i) && r == 1 + #[trigger] chars_in(b, s, i)
}
pub open spec fn last_byte(s: Span) -> int { if s.start < s.end { s.end - 1 } else { s.start as int } }
pub open spec fn blank(b: Seq<u8>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> #[trigger] b[k] == 32 || b[k] == 9 }

// iterator adapters over memchr positions and counting of code points (external)
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct MemTakeWhile<'a, F> { x: &'a [u8], f: F }
impl<'a, F> MemTakeWhile<'a, F> {
    pub uninterp spec fn it(self) -> MemIter<'a>;
    pub uninterp spec fn f(self) -> F;
}
impl<'a, F: Fn(&usize) -> bool> MemTakeWhile<'a, F> {
    /// a position of the needle the predicate accepts
    pub open spec fn hit(self, p: int) -> bool { self.it().needles().contains(self.it().bytes()[p]) }
    pub open spec fn acc(self, p: int, v: bool) -> bool { self.f().ensures((&(p as usize),), v) }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires self.it().wf(), self.it().bytes().len() <= usize::MAX, forall|p: usize| self.f().requires((&p,))
        ensures exists|stop: int| #![trigger self.hit(stop)] self.it().cur() <= stop <= self.it().bytes().len()
            && (stop < self.it().bytes().len() ==> self.hit(stop) && self.acc(stop, false))
            && (forall|p: int| #![trigger self.it().bytes()[p]] #![trigger self.acc(p, true)] self.it().cur() <= p < stop && self.hit(p) ==> self.acc(p, true))
            && r == hits(self.it().bytes(), self.it().needles(), self.it().cur(), stop)
    { unimplemented!() }
}
pub open spec fn hits(b: Seq<u8>, n: Set<u8>, lo: int, hi: int) -> int
    decreases hi - lo
{ if lo >= hi { 0 } else { hits(b, n, lo, hi - 1) + (if n.contains(b[hi - 1]) { 1int } else { 0int }) } }
pub proof fn hits_cnt(b: Seq<u8>, c: u8, lo: int, hi: int)
    ensures hits(b, set![c], lo, hi) == cnt(b, c, lo, hi)
    decreases hi - lo
{ if lo < hi { hits_cnt(b, c, lo, hi - 1); } }
pub proof fn cnt_flat(b: Seq<u8>, c: u8, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi, forall|k: int| mid <= k < hi ==> b[k] != c
    ensures cnt(b, c, lo, hi) == cnt(b, c, lo, mid)
    decreases hi - mid
{ if mid < hi { cnt_flat(b, c, lo, mid, hi - 1); } }
impl<'a> MemIter<'a> {
    #[verifier::external_body]
    pub fn take_while<F: Fn(&usize) -> bool>(self, f: F) -> (r: MemTakeWhile<'a, F>)
        ensures r.it() == self, r.f() == f
    { unimplemented!() }
}
#[verifier::external_body]
pub fn num_chars(b: &[u8]) -> (r: usize) ensures r == chars_in(b@, 0, b@.len() as int) { unimplemented!() }
@endraw
@source vimwiki-core/src/lang/parsers/span.rs
@type SpanIterator
@fn Span::at_end
    requires self.wf(),
    ensures ret.inner == self.inner, ret.end == self.end, ret.depth == self.depth, ret.start == last_byte(*self),
@fn Span::is_only_whitespace
    requires self.wf(),
    ensures ret == blank(self.c(), self.start as int, self.end as int),
@@head
    proof { assert forall|k: int| self.start <= k < self.end implies #[trigger] self.c()[k] == self.rem()[k - self.start] by {} }
@@loop 0
    it__0.cur() == cnt, cnt <= len, it__0.bytes() == self.rem(), it__0.needles() == set![32u8, 9u8],
    forall|k: int| 0 <= k < cnt ==> #[trigger] self.rem()[k] == 32 || self.rem()[k] == 9,
    cnt < len ==> self.rem()[cnt as int] == self.c()[self.start + cnt],
@fn Span::line_and_column
    requires self.wf(),
    ensures ret.0 == line_of(self.c(), self.start as int), is_col(self.c(), self.start as int, ret.1 as int),
@fn Span::end_line_and_column
    requires self.wf(),
    ensures ret.0 == line_of(self.c(), last_byte(*self)), is_col(self.c(), last_byte(*self), ret.1 as int),
@fn Span::line
    requires self.wf(),
    ensures ret == line_of(self.c(), self.start as int),
@@closure 0
 ensures r__ == (*pos < self.start)
@@head
    proof {
        assert forall|stop: int| #![trigger hits(self.inner@, set![10u8], 0, stop)] 0 <= stop <= self.inner@.len() && (stop < self.inner@.len() ==> self.inner@[stop] == 10 && stop >= self.start)
            && (forall|p: int| 0 <= p < stop && #[trigger] self.inner@[p] == 10 ==> p < self.start)
            implies hits(self.inner@, set![10u8], 0, stop) == cnt(self.inner@, 10, 0, self.start as int) by {
            hits_cnt(self.inner@, 10, 0, stop);
            if stop > self.start { cnt_flat(self.inner@, 10, 0, self.start as int, stop); }
        }
        cnt_bound(self.inner@, 10, 0, self.start as int);
    }
@fn Span::end_line
    requires self.wf(),
    ensures ret == line_of(self.c(), last_byte(*self)),
@fn Span::column
    requires self.wf(),
    ensures is_col(self.c(), self.start as int, ret as int),
@@closure 0
 requires pos < usize::MAX ensures r__ == pos + 1
@@head
    proof {
        let b = self.c(); let i = self.start as int;
        assert forall|k: int| 0 <= k < i implies #[trigger] b[k] == b.subrange(0, i)[k] by {}
        assert forall|s: int| 0 <= s <= i implies #[trigger] chars_in(b.subrange(s, i), 0, i - s) == chars_in(b, s, i) && chars_in(b, s, i) <= i - s by { chars_shift(b, s, i, i); chars_bound(b, s, i); }
    }
@fn Span::end_column
    requires self.wf(),
    ensures is_col(self.c(), last_byte(*self), ret as int),
@fn Span<IntoIterator>::into_iter inherent
@@ret SpanIterator<'a>
    ensures ret.span == self,
@fn SpanIterator<Iterator>::next inherent
@@ret Option<&'a u8>
    requires old(self).span.wf(),
    ensures final(self).span.wf(), final(self).span.inner == old(self).span.inner, final(self).span.end == old(self).span.end,
        match ret {
            Some(x) => old(self).span.start < old(self).span.end && final(self).span.start == old(self).span.start + 1 && *x == old(self).span.c()[old(self).span.start as int],
            None => old(self).span.start == old(self).span.end && final(self).span.start == old(self).span.start,
        },
@fn SpanIterator<DoubleEndedIterator>::next_back inherent
@@ret Option<&'a u8>
    requires old(self).span.wf(),
    ensures final(self).span.wf(), final(self).span.inner == old(self).span.inner, final(self).span.start == old(self).span.start,
        match ret {
            Some(x) => old(self).span.start < old(self).span.end && final(self).span.end == old(self).span.end - 1 && *x == old(self).span.c()[old(self).span.end - 1],
            None => old(self).span.start == old(self).span.end && final(self).span.end == old(self).span.end,
        },
