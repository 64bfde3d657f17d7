@slices
@include copies.rs
@fnhead broadcast use {cax::s_ref, cax::s_box, cax::p_box, cax::s_vec, cax::p_vec, cax::s_opt, cax::p_opt, cax::s_cow, cax::p_cow, cax::s_usize, cax::s_u32, cax::s_bool, cax::s_date, cax::p_usize, cax::p_u32, cax::p_bool, cax::p_date, cax::p_uri, cax::p_map, cax::s_pair, cax::s_made, sm_Located::sa, s_reg::s}; reveal(refs); reveal(prefs); reveal(allsame); reveal(allpeq);
@source vimwiki-core/src/lang/elements/utils/region.rs
@type Region copy eq
@raw
pub trait ElementLike {}
impl<'a, T: ElementLike> ElementLike for &'a T {}
impl<T: ElementLike> ElementLike for Option<T> {}
pub mod s_reg { use super::*; pub broadcast axiom fn s(x: Region, y: Region) ensures #[trigger] same(x, y) == (x == y); }
@endraw
@source vimwiki-core/src/lang/elements/utils/mod.rs
@type Located ctor same
@raw
pub trait StrictEq: Sized { fn strict_eq(&self, other: &Self) -> (r: bool) ensures r == same(*self, *other); }
@endraw
@source vimwiki-core/src/utils.rs
@fn Vec<T><StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@closure 0
    ensures r__ == same(*p__0.0, *p__0.1)
@source vimwiki-core/src/lang/elements/utils/mod.rs
@fn Located<T>::map
    requires f.requires((self.inner,))
    ensures ret.region == self.region, f.ensures((self.inner,), ret.inner),
@fn Located<T>::as_ref
    ensures *ret.inner == self.inner, ret.region == self.region,
@fn Located<T>::into_inner
    ensures ret == self.inner,
@fn Located<T>::region
    ensures ret == self.region,
@fn Located<T><StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@skip Located<T><StrictEq<T>>::strict_eq
