//# regions as half-open ranges (unit of P05)
@raw
global size_of usize == 8;
use std::ops::{Range, RangeInclusive, RangeTo, RangeToInclusive};
pub trait From__<T>: Sized {
    spec fn from_ens(x: T, r: Self) -> bool;
    fn from__(x: T) -> (r: Self) ensures Self::from_ens(x, r);
}
pub open spec fn lo_of(r: Region) -> int { r.offset as int }
pub open spec fn hi_of(r: Region) -> int { r.offset + r.len }
/// the positions a region covers
pub open spec fn covers(r: Region, p: int) -> bool { lo_of(r) <= p < hi_of(r) }
/// r covers exactly the addressable positions between lo and hi (hi excluded)
pub open spec fn exactly(r: Region, lo: int, hi: int) -> bool {
    r.offset == lo && r.depth == 0 && forall|p: int| 0 <= p < usize::MAX ==> (#[trigger] covers(r, p) <==> lo <= p < hi)
}
/// std: start and end of an inclusive range
pub uninterp spec fn ri_start<Idx>(r: RangeInclusive<Idx>) -> Idx;
pub uninterp spec fn ri_end<Idx>(r: RangeInclusive<Idx>) -> Idx;
pub assume_specification<Idx> [RangeInclusive::<Idx>::into_inner] (r: RangeInclusive<Idx>) -> (x: (Idx, Idx))
    ensures x == (ri_start(r), ri_end(r));
@endraw
@source vimwiki-core/src/lang/parsers/span.rs
@type Span copy
@fn Span::start_offset
    ensures ret == self.start,
@fn Span::depth
    ensures ret == self.depth,
@fn Span::remaining_len
    ensures ret == (if self.start <= self.end { self.end - self.start } else { 0 }),
@source vimwiki-core/src/lang/elements/utils/region.rs
@type Region copy eq
@fn Region::new_at_depth
    ensures ret == (Region { offset, len, depth }),
@fn Region::new
    ensures ret == (Region { offset, len, depth: 0 }),
@fn Region::with_depth
    ensures ret == (Region { offset: self.offset, len: self.len, depth }),
@fn Region::contains
    ensures ret == covers(*self, offset as int),
@fn Region::offset
    ensures ret == self.offset,
@fn Region::len
    ensures ret == self.len,
@fn Region::depth
    ensures ret == self.depth,
@fn Region::is_empty
    ensures ret <==> forall|p: int| !covers(*self, p),
@@head
    proof { assert(self.len > 0 ==> covers(*self, self.offset as int)); }
@fn Region<From<Span>>::from
    ensures ret.offset == span.start, ret.depth == span.depth, forall|p: int| covers(ret, p) <==> span.start <= p < span.end,
@@stub
@@impl
    open spec fn from_ens(span: Span<'a>, ret: Self) -> bool { true }
@fn Region<From<Range<usize>>>::from
    ensures exactly(ret, range.start as int, range.end as int),
@@stub
@@impl
    open spec fn from_ens(range: Range<usize>, ret: Self) -> bool { exactly(ret, range.start as int, range.end as int) }
@fn Region<From<RangeInclusive<usize>>>::from
    ensures exactly(ret, ri_start(range) as int, ri_end(range) + 1),
@@stub
@@impl
    open spec fn from_ens(range: RangeInclusive<usize>, ret: Self) -> bool { exactly(ret, ri_start(range) as int, ri_end(range) + 1) }
@fn Region<From<RangeTo<usize>>>::from
    ensures exactly(ret, 0, range.end as int),
@@stub
@@impl
    open spec fn from_ens(range: RangeTo<usize>, ret: Self) -> bool { exactly(ret, 0, range.end as int) }
@fn Region<From<RangeToInclusive<usize>>>::from
    ensures exactly(ret, 0, range.end + 1),
@@stub
@@impl
    open spec fn from_ens(range: RangeToInclusive<usize>, ret: Self) -> bool { exactly(ret, 0, range.end + 1) }
@fn Region<From<(usize,usize)>>::from
    ensures ret == (Region { offset: coords.0, len: coords.1, depth: 0 }),
@@stub
@@impl
    open spec fn from_ens(coords: (usize, usize), ret: Self) -> bool { ret == (Region { offset: coords.0, len: coords.1, depth: 0 }) }
@source vimwiki-core/src/lang/elements/utils/mod.rs
@type Located ctor
@raw
pub trait ElementLike {}
impl<T: ElementLike> ElementLike for &T {}
impl<T: ElementLike> ElementLike for Option<T> {}
@endraw
@fn Located<T>::map
    requires f.requires((self.inner,)),
    ensures ret.region == self.region, f.ensures((self.inner,), ret.inner),
@fn Located<T>::take_with_region
    ensures ret.region == region, ret.inner == self.inner,
@fn Located<T>::as_ref
    ensures *ret.inner == self.inner, ret.region == self.region,
@fn Located<T>::as_inner
    ensures *ret == self.inner,
@fn Located<T>::into_inner
    ensures ret == self.inner,
@fn Located<T>::region
    ensures ret == self.region,
@fn Located<T>::depth
    ensures ret == self.region.depth,
@fn Located<Option<T>>::transpose
    ensures match ret { Some(x) => self.inner == Some(x.inner) && x.region == self.region, None => self.inner is None },
@@closure 0
 ensures r__.inner == inner && r__.region == region
