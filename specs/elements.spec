//# element types of the inline level, taken from the sources; `out`: Out is generated (every part ok)
@source vimwiki-core/src/lang/elements/blocks/inline/code.rs
@type CodeInline ctor out el
@source vimwiki-core/src/lang/elements/blocks/inline/math.rs
@type MathInline ctor out el
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@type Tag ctor out el
@type Tags ctor out el
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@type LineComment ctor out el
@type MultiLineComment ctor out el
@type Comment from out el
@source vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@type Anchor ctor el
@fn Anchor::to_encoded_uri_fragment stub
    ensures frag_ref(ret@),
@fn Anchor::from_uri_fragment stub
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@type Description from el
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@type LinkData ctor el
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@type Link el
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@fn Description<From<LinkData>>::from
    ensures ret == Description::TransclusionLink(Box::new(link_data)),
@@stub
    
@@impl
    open spec fn from_req(link_data: LinkData<'a>) -> bool { true }
    open spec fn from_ens(link_data: LinkData<'a>, ret: Self) -> bool { ret == Description::TransclusionLink(Box::new(link_data)) }
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@fn LinkData<From<URIReference>>::from
    ensures ret == (LinkData { uri_ref, description: None, properties: None }),
@@stub
    
@@impl
    open spec fn from_req(uri_ref: URIReference<'a>) -> bool { true }
    open spec fn from_ens(uri_ref: URIReference<'a>, ret: Self) -> bool { ret == (LinkData { uri_ref, description: None, properties: None }) }
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@fn Link::into_data
    ensures ret == link_data_of(self),
@fn Link::new_raw_link into
    requires <U as Into__<URIReference<'a>>>::into_req(uri_ref),
    ensures link_data_of(ret).description is None, link_data_of(ret).properties is None, ret is Raw,
@fn Link::new_indexed_interwiki_link into
    requires <U as Into__<URIReference<'a>>>::into_req(uri_ref), <D as Into__<Option<Description<'a>>>>::into_req(description),
    ensures <D as Into__<Option<Description<'a>>>>::into_ens(description, link_data_of(ret).description), link_data_of(ret).properties is None, ret is IndexedInterWiki, ret->IndexedInterWiki_index == index,
@fn Link::new_named_interwiki_link into
    requires <S as Into__<Cow<'a, str>>>::into_req(name), <U as Into__<URIReference<'a>>>::into_req(uri_ref), <D as Into__<Option<Description<'a>>>>::into_req(description),
    ensures <D as Into__<Option<Description<'a>>>>::into_ens(description, link_data_of(ret).description), link_data_of(ret).properties is None, ret is NamedInterWiki, <S as Into__<Cow<'a, str>>>::into_ens(name, ret->NamedInterWiki_name),
@fn Link::new_diary_link into
    requires <A as Into__<Option<Anchor<'a>>>>::into_req(anchor), <D as Into__<Option<Description<'a>>>>::into_req(description),
    ensures <D as Into__<Option<Description<'a>>>>::into_ens(description, link_data_of(ret).description), link_data_of(ret).properties is None, ret is Diary, ret->Diary_date == date,
@raw
pub open spec fn link_data_of<'a>(l: Link<'a>) -> LinkData<'a> {
    match l { Link::Wiki { data } => data, Link::IndexedInterWiki { data, .. } => data, Link::NamedInterWiki { data, .. } => data, Link::Diary { data, .. } => data, Link::Raw { data } => data, Link::Transclusion { data } => data }
}
/// a text of the document
pub open spec fn doc_text<'a>(t: Cow<'a, str>, c: Seq<u8>) -> bool { t.ok(c, 0, c.len() as int) }
/// the texts of a description or of the data of a link, at whatever depth, are texts of the document
pub open spec fn desc_ok<'a>(d: Description<'a>, c: Seq<u8>) -> bool
    decreases d
{ match d { Description::Text(t) => doc_text(t, c), Description::TransclusionLink(l) => data_ok(*l, c) } }
pub open spec fn props_ok<'a>(m: HashMap<Cow<'a, str>, Cow<'a, str>>, c: Seq<u8>) -> bool { forall|p: (Cow<'a, str>, Cow<'a, str>)| #[trigger] m@.contains(p) ==> doc_text(p.0, c) && doc_text(p.1, c) }
pub open spec fn data_ok<'a>(l: LinkData<'a>, c: Seq<u8>) -> bool
    decreases l
{ (match l.description { Some(x) => desc_ok(x, c), None => true }) && (match l.properties { Some(p) => props_ok(p, c), None => true }) }
impl<'a> Out for HashMap<Cow<'a, str>, Cow<'a, str>> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { props_ok(self, c) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Out for Description<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { desc_ok(self, c) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Out for LinkData<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { data_ok(self, c) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Out for Link<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { link_data_of(self).ok(c, lo, hi) && match self { Link::NamedInterWiki { name, .. } => doc_text(name, c), _ => true } }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
impl<'a> Out for Anchor<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { true }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) {}
}
@endraw
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@type Text ctor out el
@type Keyword out el
@type DecoratedTextContent from el
@type DecoratedText el
@source vimwiki-core/src/lang/elements/blocks/inline/mod.rs
@type InlineElement from out el
@type InlineElementContainer ctor out el
@raw
pub open spec fn r_lo<T: ElementLike>(x: Located<T>) -> int { x.region.offset as int }
pub open spec fn r_hi<T: ElementLike>(x: Located<T>) -> int { x.region.offset + x.region.len }
/// the window the content of x has to come from
pub open spec fn n_lo<T: ElementLike>(x: Located<T>, lo: int) -> int { if f_nest() { r_lo(x) } else { lo } }
pub open spec fn n_hi<T: ElementLike>(x: Located<T>, hi: int) -> int { if f_nest() { r_hi(x) } else { hi } }
/// region x lies in [lo, hi] on character boundaries
pub open spec fn r_in<T: ElementLike>(x: Located<T>, c: Seq<u8>, lo: int, hi: int) -> bool {
    (f_nest() ==> lo <= r_lo(x) && r_hi(x) <= hi) && r_hi(x) <= c.len() && is_char_boundary(c, r_lo(x)) && is_char_boundary(c, r_hi(x))
}
/// regions follow each other without overlap
pub open spec fn r_ord<T: ElementLike>(v: Seq<Located<T>>) -> bool {
    f_nest() ==> forall|i: int, j: int| 0 <= i < j < v.len() ==> r_hi(#[trigger] v[i]) <= r_lo(#[trigger] v[j])
}
pub open spec fn dt_items<'a>(d: DecoratedText<'a>) -> Vec<Located<DecoratedTextContent<'a>>> {
    match d { DecoratedText::Bold(v) => v, DecoratedText::Italic(v) => v, DecoratedText::Strikeout(v) => v, DecoratedText::Superscript(v) => v, DecoratedText::Subscript(v) => v }
}
/// DecoratedText: its contents, at every level, are ordered and lie within their parent
pub open spec fn dt_ok<'a>(d: DecoratedText<'a>, c: Seq<u8>, lo: int, hi: int) -> bool
    decreases d
{
    match d {
        DecoratedText::Bold(v) => r_ord(v@) && forall|i: int| 0 <= i < v@.len() ==> r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)),
        DecoratedText::Italic(v) => r_ord(v@) && forall|i: int| 0 <= i < v@.len() ==> r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)),
        DecoratedText::Strikeout(v) => r_ord(v@) && forall|i: int| 0 <= i < v@.len() ==> r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)),
        DecoratedText::Superscript(v) => r_ord(v@) && forall|i: int| 0 <= i < v@.len() ==> r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)),
        DecoratedText::Subscript(v) => r_ord(v@) && forall|i: int| 0 <= i < v@.len() ==> r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)),
    }
}
pub open spec fn dtc_ok<'a>(d: DecoratedTextContent<'a>, c: Seq<u8>, lo: int, hi: int) -> bool
    decreases d
{
    match d {
        DecoratedTextContent::Text(t) => t.ok(c, lo, hi),
        DecoratedTextContent::DecoratedText(t) => dt_ok(t, c, lo, hi),
        DecoratedTextContent::Keyword(_) => true,
        DecoratedTextContent::Link(l) => l.ok(c, lo, hi),
    }
}
pub proof fn dt_mono<'a>(d: DecoratedText<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires dt_ok(d, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures dt_ok(d, c, lo2, hi2)
    decreases d
{
    if !f_nest() { match d {
        DecoratedText::Bold(v) => { assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo2, hi2) && dtc_ok(v[i].inner, c, lo2, hi2) by { assert(r_in(v[i], c, lo, hi)); dtc_mono(v[i].inner, c, lo, hi, lo2, hi2); } }
        DecoratedText::Italic(v) => { assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo2, hi2) && dtc_ok(v[i].inner, c, lo2, hi2) by { assert(r_in(v[i], c, lo, hi)); dtc_mono(v[i].inner, c, lo, hi, lo2, hi2); } }
        DecoratedText::Strikeout(v) => { assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo2, hi2) && dtc_ok(v[i].inner, c, lo2, hi2) by { assert(r_in(v[i], c, lo, hi)); dtc_mono(v[i].inner, c, lo, hi, lo2, hi2); } }
        DecoratedText::Superscript(v) => { assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo2, hi2) && dtc_ok(v[i].inner, c, lo2, hi2) by { assert(r_in(v[i], c, lo, hi)); dtc_mono(v[i].inner, c, lo, hi, lo2, hi2); } }
        DecoratedText::Subscript(v) => { assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo2, hi2) && dtc_ok(v[i].inner, c, lo2, hi2) by { assert(r_in(v[i], c, lo, hi)); dtc_mono(v[i].inner, c, lo, hi, lo2, hi2); } }
    } }
}
pub proof fn dtc_mono<'a>(d: DecoratedTextContent<'a>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires dtc_ok(d, c, lo, hi), lo2 <= lo, hi <= hi2
    ensures dtc_ok(d, c, lo2, hi2)
    decreases d
{
    match d {
        DecoratedTextContent::Text(t) => { t.mono(c, lo, hi, lo2, hi2); }
        DecoratedTextContent::DecoratedText(t) => { dt_mono(t, c, lo, hi, lo2, hi2); }
        DecoratedTextContent::Keyword(_) => {}
        DecoratedTextContent::Link(l) => { l.mono(c, lo, hi, lo2, hi2); }
    }
}
impl<'a> Out for DecoratedTextContent<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { dtc_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { dtc_mono(self, c, lo, hi, lo2, hi2); }
}
impl<'a> Out for DecoratedText<'a> {
    open spec fn loc() -> bool { false } open spec fn ord() -> bool { true } open spec fn ok(self, c: Seq<u8>, lo: int, hi: int) -> bool { dt_ok(self, c, lo, hi) }
    proof fn mono(self, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int) { dt_mono(self, c, lo, hi, lo2, hi2); }
}
/// the inductive order of seq_ok, as a statement about every pair
pub proof fn seq_ok_ord<T: ElementLike + Out>(v: Seq<Located<T>>, c: Seq<u8>, lo: int, hi: int)
    requires seq_ok(v, c, lo, hi)
    ensures r_ord(v), forall|i: int| 0 <= i < v.len() ==> r_in(#[trigger] v[i], c, lo, hi) && v[i].inner.ok(c, n_lo(v[i], lo), n_hi(v[i], hi))
    decreases v.len()
{
    if v.len() > 0 {
        let m = choose|m: int| lo <= m <= hi && seq_ok(v.drop_last(), c, lo, m) && #[trigger] v.last().ok(c, m, hi);
        seq_ok_ord(v.drop_last(), c, lo, m);
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < v.len() implies r_in(#[trigger] v[i], c, lo, hi) && v[i].inner.ok(c, n_lo(v[i], lo), n_hi(v[i], hi)) by {
            if i < v.len() - 1 { assert(v[i] == w[i]); if !f_nest() { v[i].inner.mono(c, lo, m, lo, hi); } } else if !f_nest() { v[i].inner.mono(c, m, hi, lo, hi); }
        }
        if f_nest() { assert forall|i: int, j: int| 0 <= i < j < v.len() implies r_hi(#[trigger] v[i]) <= r_lo(#[trigger] v[j]) by {
            assert(v[i] == w[i]);
            assert(r_in(w[i], c, lo, m));
            if j < v.len() - 1 { assert(v[j] == w[j]); }
        } }
    }
}
pub mod lem3 {
use super::*;
use vstd::prelude::*;
pub broadcast proof fn to_doc<'a>(t: Cow<'a, str>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] t.ok(c, lo, hi)
    ensures doc_text(t, c)
{ }
pub broadcast axiom fn ax_collect<'a>(s: Seq<(Cow<'a, str>, Cow<'a, str>)>, r: HashMap<Cow<'a, str>, Cow<'a, str>>)
    requires #[trigger] <HashMap<Cow<'a, str>, Cow<'a, str>> as vstd::std_specs::iter::FromIteratorSpec<(Cow<'a, str>, Cow<'a, str>)>>::from_iter_ensures(s, r)
    ensures forall|p: (Cow<'a, str>, Cow<'a, str>)| #[trigger] r@.contains(p) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == p;
pub broadcast proof fn props_from<'a>(s: Seq<(Cow<'a, str>, Cow<'a, str>)>, r: HashMap<Cow<'a, str>, Cow<'a, str>>, c: Seq<u8>, lo: int, hi: int)
    requires #[trigger] <HashMap<Cow<'a, str>, Cow<'a, str>> as vstd::std_specs::iter::FromIteratorSpec<(Cow<'a, str>, Cow<'a, str>)>>::from_iter_ensures(s, r), #[trigger] seq_ok(s, c, lo, hi)
    ensures props_ok(r, c)
{
    ax_collect(s, r);
    assert forall|p: (Cow<'a, str>, Cow<'a, str>)| #[trigger] r@.contains(p) implies doc_text(p.0, c) && doc_text(p.1, c) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == p;
        seq_elem(s, c, lo, hi, i);
    }
}
pub broadcast proof fn dt_from_items<'a>(d: DecoratedText<'a>, c: Seq<u8>, lo: int, hi: int)
    requires dt_items(d).ok(c, lo, hi)
    ensures #[trigger] dt_ok(d, c, lo, hi)
{
    let v = dt_items(d);
    seq_ok_ord(v@, c, lo, hi);
    assert forall|i: int| 0 <= i < v@.len() implies r_in(#[trigger] v[i], c, lo, hi) && dtc_ok(v[i].inner, c, n_lo(v[i], lo), n_hi(v[i], hi)) by {
        assert(v@[i].inner.ok(c, n_lo(v@[i], lo), n_hi(v@[i], hi)));
    }
}
}
@endraw
