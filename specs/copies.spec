//# copies, strict comparison and children of elements (unit of P14); generated once, then kept by hand
@include copies0.spec
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@type Text same ctor el
@type Keyword copy same el
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@fn Text::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Text::sa};
@fn Text::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Text::sa};
@fn Text<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Text::sa, pe_Text::peq_};
@fn Text::as_str
    ensures ret@ == text(self.0),
@source vimwiki-core/src/lang/elements/blocks/inline/code.rs
@type CodeInline same ctor el
@fn CodeInline::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_CodeInline::sa};
@fn CodeInline::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_CodeInline::sa};
@fn CodeInline<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_CodeInline::sa, pe_CodeInline::peq_};
@fn CodeInline::as_str
    ensures ret@ == text(self.0),
@source vimwiki-core/src/lang/elements/blocks/inline/math.rs
@type MathInline same ctor el
@fn MathInline::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_MathInline::sa};
@fn MathInline::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_MathInline::sa};
@fn MathInline<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_MathInline::sa, pe_MathInline::peq_};
@fn MathInline::as_str
    ensures ret@ == text(self.0),
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@type Tag same ctor el
@fn Tag::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Tag::sa};
@fn Tag::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Tag::sa};
@fn Tag<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Tag::sa, pe_Tag::peq_};
@fn Tag::as_str
    ensures ret@ == text(self.0),
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@type LineComment same ctor el
@fn LineComment::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_LineComment::sa};
@fn LineComment::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_LineComment::sa};
@fn LineComment<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_LineComment::sa, pe_LineComment::peq_};
@fn LineComment::as_str
    ensures ret@ == text(self.0),
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@fn Keyword<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Keyword::sa, pe_Keyword::peq_};
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@type Tags same ctor el
@fn Tags::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Tags::sa};
@fn Tags::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Tags::sa};
@fn Tags<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Tags::sa, pe_Tags::peq_, sm_Tag::sa, pe_Tag::peq_};
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@type MultiLineComment same ctor el
@type Comment same from el
@fn MultiLineComment::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_MultiLineComment::sa};
@@closure 0
    ensures same(*x, r__)
@fn MultiLineComment::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_MultiLineComment::sa};
@@closure 0
    ensures same(x, r__)
@fn MultiLineComment<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_MultiLineComment::sa, pe_MultiLineComment::peq_};
@fn Comment::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Comment::sa};
@fn Comment::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Comment::sa};
@fn Comment<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Comment::sa, pe_Comment::peq_, sm_LineComment::sa, pe_LineComment::peq_, sm_MultiLineComment::sa, pe_MultiLineComment::peq_};
@source vimwiki-core/src/lang/elements/blocks/dividers.rs
@type Divider copy same el
@fn Divider<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Divider::sa, pe_Divider::peq_};
@source vimwiki-core/src/lang/elements/blocks/blockquotes.rs
@type Blockquote same ctor el
@raw
impl<'a> IntoIterator for Blockquote<'a> { type Item = Cow<'a, str>;
    open spec fn gives(self, s: Seq<Cow<'a, str>>) -> bool { s == self.lines@ }
    fn into_iter(self) -> (r: VIt<Cow<'a, str>>) { self.lines.into_iter() } }
impl<'b, 'a> IntoIterator for &'b Blockquote<'a> { type Item = &'b Cow<'a, str>;
    open spec fn gives(self, s: Seq<&'b Cow<'a, str>>) -> bool { refs(self.lines@, s) }
    fn into_iter(self) -> (r: VIt<&'b Cow<'a, str>>) { (&self.lines).into_iter() } }
@endraw
@fn Blockquote::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Blockquote::sa};
@@closure 0
    ensures same(*x, r__)
@fn Blockquote::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Blockquote::sa};
@@closure 0
    ensures same(x, r__)
@fn Blockquote<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Blockquote::sa, pe_Blockquote::peq_};
@fn Blockquote<FromIterator<Cow<str>>>::from_iter
    ensures exists|s: Seq<Cow<str>>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<Cow<'a, str>>, r: Self) -> bool { r.lines@ == s }
@source vimwiki-core/src/lang/elements/blocks/code.rs
@type CodeBlock same ctor el
@fn CodeBlock::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_CodeBlock::sa};
@@closure 0
    ensures same(*x, r__)
@@closure 1
    ensures same((*p__0.0, *p__0.1), r__)
@@closure 2
    ensures same(*x, r__)
@fn CodeBlock::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_CodeBlock::sa};
@@closure 0
    ensures same(x, r__)
@@closure 1
    ensures same(p__0, r__)
@@closure 2
    ensures same(x, r__)
@fn CodeBlock<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_CodeBlock::sa, pe_CodeBlock::peq_};
@source vimwiki-core/src/lang/elements/blocks/math.rs
@type MathBlock same ctor el
@fn MathBlock::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_MathBlock::sa};
@@closure 0
    ensures same(*x, r__)
@@closure 1
    ensures same(*x, r__)
@fn MathBlock::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_MathBlock::sa};
@@closure 0
    ensures same(x, r__)
@@closure 1
    ensures same(x, r__)
@fn MathBlock<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_MathBlock::sa, pe_MathBlock::peq_};
@source vimwiki-core/src/lang/elements/blocks/placeholders.rs
@type Placeholder same el
@fn Placeholder::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Placeholder::sa};
@fn Placeholder::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Placeholder::sa};
@fn Placeholder<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Placeholder::sa, pe_Placeholder::peq_};
@source vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@type Anchor same ctor el
@raw
impl<'a> IntoIterator for Anchor<'a> { type Item = Cow<'a, str>;
    open spec fn gives(self, s: Seq<Cow<'a, str>>) -> bool { s == self.0@ }
    fn into_iter(self) -> (r: VIt<Cow<'a, str>>) { self.0.into_iter() } }
impl<'b, 'a> IntoIterator for &'b Anchor<'a> { type Item = &'b Cow<'a, str>;
    open spec fn gives(self, s: Seq<&'b Cow<'a, str>>) -> bool { refs(self.0@, s) }
    fn into_iter(self) -> (r: VIt<&'b Cow<'a, str>>) { (&self.0).into_iter() } }
@endraw
@fn Anchor::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Anchor::sa};
@@closure 0
    ensures same(*x, r__)
@fn Anchor::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Anchor::sa};
@@closure 0
    ensures same(x, r__)
@fn Anchor<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Anchor::sa, pe_Anchor::peq_};
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@type LinkData same el
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@type Description same from el
@fn Description<From<LinkData>>::from
    ensures ret == Description::TransclusionLink(Box::new(link_data)),
@@stub
    
@@impl
    open spec fn from_req(link_data: LinkData<'a>) -> bool { true }
    open spec fn from_ens(link_data: LinkData<'a>, ret: Self) -> bool { ret == Description::TransclusionLink(Box::new(link_data)) }
@fn Description::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Description::sa};
@fn Description::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Description::sa};
@fn Description<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    proof { lemma_desc(*self, *other); }
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@raw
pub proof fn lemma_desc<'a>(x: Description<'a>, y: Description<'a>) ensures peq(x, y) == same(x, y) decreases x
{
    broadcast use {sm_Description::sa, pe_Description::peq_, cax::s_box, cax::p_box, cax::s_cow, cax::p_cow};
    match (x, y) { (Description::TransclusionLink(a), Description::TransclusionLink(b)) => { lemma_data(*a, *b); } _ => {} }
}
pub proof fn lemma_data<'a>(x: LinkData<'a>, y: LinkData<'a>) ensures peq(x, y) == same(x, y) decreases x
{
    broadcast use {sm_LinkData::sa, pe_LinkData::peq_, cax::s_opt, cax::p_opt, cax::p_uri, cax::p_map};
    match (x.description, y.description) { (Some(a), Some(b)) => { lemma_desc(a, b); } _ => {} }
}
@endraw
@fn LinkData::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_LinkData::sa};
@@closure 0
    ensures same(*properties, r__)
@@closure 1
    ensures same((*p__0.0, *p__0.1), r__)
@fn LinkData::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_LinkData::sa};
@@closure 0
    ensures same(properties, r__)
@@closure 1
    ensures same(p__0, r__)
@fn LinkData<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    proof { lemma_data(*self, *other); }
@fn uri_ref_to_borrowed nolits
    ensures same(*uri_ref, ret),
@@closure 0
    ensures same(*x, r__)
@@closure 1
    ensures same(*x, r__)
@@closure 2
    ensures same(*x, r__)
@@closure 3
    ensures same(*x, r__)
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@type Link same el
@fn Link::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Link::sa};
@fn Link::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Link::sa};
@fn Link<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Link::sa};
@source vimwiki-core/src/lang/elements/blocks/inline/mod.rs
@type InlineElement same from el
@type InlineElementContainer same ctor el
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@type DecoratedTextContent same from el
@type DecoratedText same el
@raw
pub open spec fn parts<'a>(d: DecoratedText<'a>) -> Seq<Located<DecoratedTextContent<'a>>> { match d { DecoratedText::Bold(x) => x@, DecoratedText::Italic(x) => x@, DecoratedText::Strikeout(x) => x@, DecoratedText::Superscript(x) => x@, DecoratedText::Subscript(x) => x@ } }
pub open spec fn as_in<'a>(c: DecoratedTextContent<'a>) -> InlineElement<'a> { match c { DecoratedTextContent::Text(x) => InlineElement::Text(x), DecoratedTextContent::DecoratedText(x) => InlineElement::DecoratedText(x), DecoratedTextContent::Keyword(x) => InlineElement::Keyword(x), DecoratedTextContent::Link(x) => InlineElement::Link(x) } }
/// the elements wrapped by a constructor, their regions kept
pub open spec fn relift<A, B>(s: Seq<Located<A>>, g: spec_fn(A) -> B) -> Seq<Located<B>> { Seq::new(s.len(), |i: int| Located { inner: g(s[i].inner), region: s[i].region }) }
pub open spec fn kd_dec<'a>(d: DecoratedText<'a>) -> Seq<Located<InlineElement<'a>>> { relift(parts(d), |c: DecoratedTextContent<'a>| as_in(c)) }
pub open spec fn kd_in<'a>(e: InlineElement<'a>) -> Seq<Located<InlineElement<'a>>> { match e { InlineElement::DecoratedText(d) => kd_dec(d), _ => seq![] } }
@endraw
@fn DecoratedTextContent::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_DecoratedTextContent::sa, sm_Keyword::sa};
@fn DecoratedTextContent::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_DecoratedTextContent::sa, sm_Keyword::sa};
@fn DecoratedTextContent<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_DecoratedTextContent::sa};
@fn DecoratedTextContent::to_inline_element
    ensures same(as_in(*self), ret),
@@head
    broadcast use {sm_InlineElement::sa, sm_Keyword::sa};
@fn DecoratedTextContent::into_inline_element
    ensures ret == as_in(self),
@fn DecoratedTextContent<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ =~= kd_in(as_in(self)),
@fn DecoratedText::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_DecoratedText::sa};
@@closure 0
    ensures same(*x, r__)
@@closure 1
    ensures same(*x, r__)
@@closure 2
    ensures same(*x, r__)
@@closure 3
    ensures same(*x, r__)
@@closure 4
    ensures same(*x, r__)
@fn DecoratedText::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_DecoratedText::sa};
@@closure 0
    ensures same(x, r__)
@@closure 1
    ensures same(x, r__)
@@closure 2
    ensures same(x, r__)
@@closure 3
    ensures same(x, r__)
@@closure 4
    ensures same(x, r__)
@fn DecoratedText<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_DecoratedText::sa};
@fn DecoratedText::as_contents_slice
    ensures ret@ == parts(*self),
@fn DecoratedText<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ =~= kd_dec(self),
@@closure 0
    ensures r__.inner == as_in(x.inner), r__.region == x.region
@@closure 1
    ensures r__.inner == as_in(x.inner), r__.region == x.region
@@closure 2
    ensures r__.inner == as_in(x.inner), r__.region == x.region
@@closure 3
    ensures r__.inner == as_in(x.inner), r__.region == x.region
@@closure 4
    ensures r__.inner == as_in(x.inner), r__.region == x.region
@source vimwiki-core/src/lang/elements/blocks/inline/mod.rs
@fn InlineElement::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_InlineElement::sa, sm_Keyword::sa};
@fn InlineElement::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_InlineElement::sa, sm_Keyword::sa};
@fn InlineElement<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_InlineElement::sa};
@fn InlineElement<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ =~= kd_in(self),
@raw
impl<'a> IntoIterator for InlineElementContainer<'a> { type Item = Located<InlineElement<'a>>;
    open spec fn gives(self, s: Seq<Located<InlineElement<'a>>>) -> bool { s == self.elements@ }
    fn into_iter(self) -> (r: VIt<Located<InlineElement<'a>>>) { self.elements.into_iter() } }
impl<'b, 'a> IntoIterator for &'b InlineElementContainer<'a> { type Item = &'b Located<InlineElement<'a>>;
    open spec fn gives(self, s: Seq<&'b Located<InlineElement<'a>>>) -> bool { refs(self.elements@, s) }
    fn into_iter(self) -> (r: VIt<&'b Located<InlineElement<'a>>>) { (&self.elements).into_iter() } }
@endraw
@fn InlineElementContainer::iter
@@ret VIt<&Located<InlineElement<'a>>>
    ensures refs(self.elements@, ret@),
@fn InlineElementContainer::len
    ensures ret == self.elements@.len(),
@fn InlineElementContainer::is_empty
    ensures ret == (self.elements@.len() == 0),
@fn InlineElementContainer::get
    ensures match ret { Some(x) => idx < self.elements@.len() && *x == self.elements@[idx as int], None => idx >= self.elements@.len() },
@fn InlineElementContainer::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_InlineElementContainer::sa};
@@closure 0
    ensures same(*x, r__)
@fn InlineElementContainer::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_InlineElementContainer::sa};
@@closure 0
    ensures same(x, r__)
@fn InlineElementContainer<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_InlineElementContainer::sa};
@fn InlineElementContainer<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ == self.elements@,
@fn InlineElementContainer<FromIterator<Located<InlineElement>>>::from_iter
    ensures exists|s: Seq<Located<InlineElement>>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<Located<InlineElement<'a>>>, r: Self) -> bool { r.elements@ == s }
@fn InlineElementContainer<FromIterator<InlineElementContainer>>::from_iter
    ensures exists|s: Seq<InlineElementContainer>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<InlineElementContainer<'a>>, r: Self) -> bool { r.elements@ == flat(s, |c: InlineElementContainer<'a>| c.elements@) }
@@closure 0
    ensures r__@ == c.elements@
@source vimwiki-core/src/lang/elements/blocks/headers.rs
@type Header same ctor el
@fn Header::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Header::sa};
@fn Header::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Header::sa};
@fn Header<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Header::sa};
@fn Header<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ == self.content.elements@,
@source vimwiki-core/src/lang/elements/blocks/paragraphs.rs
@type Paragraph same ctor el
@raw
impl<'a> IntoIterator for Paragraph<'a> { type Item = InlineElementContainer<'a>;
    open spec fn gives(self, s: Seq<InlineElementContainer<'a>>) -> bool { s == self.lines@ }
    fn into_iter(self) -> (r: VIt<InlineElementContainer<'a>>) { self.lines.into_iter() } }
impl<'b, 'a> IntoIterator for &'b Paragraph<'a> { type Item = &'b InlineElementContainer<'a>;
    open spec fn gives(self, s: Seq<&'b InlineElementContainer<'a>>) -> bool { refs(self.lines@, s) }
    fn into_iter(self) -> (r: VIt<&'b InlineElementContainer<'a>>) { (&self.lines).into_iter() } }
@endraw
@raw
pub open spec fn kd_par<'a>(p: Paragraph<'a>) -> Seq<Located<InlineElement<'a>>> { flat(p.lines@, |c: InlineElementContainer<'a>| c.elements@) }
@endraw
@fn Paragraph::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Paragraph::sa};
@@closure 0
    ensures same(*x, r__)
@fn Paragraph::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Paragraph::sa};
@@closure 0
    ensures same(x, r__)
@fn Paragraph<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Paragraph::sa};
@fn Paragraph<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ =~= kd_par(self),
@@closure 0
    ensures r__@ == x.elements@
@fn Paragraph<FromIterator<InlineElementContainer>>::from_iter
    ensures exists|s: Seq<InlineElementContainer>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<InlineElementContainer<'a>>, r: Self) -> bool { r.lines@ == s }
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@type DefinitionListValue same ctor el
@type Term
@type Definition
@type DefinitionBundle same ctor el
@type TermAndDefinitions same ctor el
@type DefinitionList same ctor el
@raw
impl<'a> IntoIterator for DefinitionBundle<'a> { type Item = Located<DefinitionListValue<'a>>;
    open spec fn gives(self, s: Seq<Located<DefinitionListValue<'a>>>) -> bool { s == self.definitions@ }
    fn into_iter(self) -> (r: VIt<Located<DefinitionListValue<'a>>>) { self.definitions.into_iter() } }
impl<'b, 'a> IntoIterator for &'b DefinitionBundle<'a> { type Item = &'b Located<DefinitionListValue<'a>>;
    open spec fn gives(self, s: Seq<&'b Located<DefinitionListValue<'a>>>) -> bool { refs(self.definitions@, s) }
    fn into_iter(self) -> (r: VIt<&'b Located<DefinitionListValue<'a>>>) { (&self.definitions).into_iter() } }
@endraw
@raw
impl<'a> IntoIterator for DefinitionList<'a> { type Item = Located<TermAndDefinitions<'a>>;
    open spec fn gives(self, s: Seq<Located<TermAndDefinitions<'a>>>) -> bool { s == self.items@ }
    fn into_iter(self) -> (r: VIt<Located<TermAndDefinitions<'a>>>) { self.items.into_iter() } }
impl<'b, 'a> IntoIterator for &'b DefinitionList<'a> { type Item = &'b Located<TermAndDefinitions<'a>>;
    open spec fn gives(self, s: Seq<&'b Located<TermAndDefinitions<'a>>>) -> bool { refs(self.items@, s) }
    fn into_iter(self) -> (r: VIt<&'b Located<TermAndDefinitions<'a>>>) { (&self.items).into_iter() } }
@endraw
@fn DefinitionListValue::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_DefinitionListValue::sa};
@fn DefinitionListValue::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_DefinitionListValue::sa};
@fn DefinitionListValue<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_DefinitionListValue::sa};
@fn DefinitionListValue<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ == self.0.elements@,
@fn DefinitionBundle::iter
@@ret VIt<&Located<DefinitionListValue<'a>>>
    ensures refs(self.definitions@, ret@),
@fn DefinitionBundle::len
    ensures ret == self.definitions@.len(),
@fn DefinitionBundle::into_definitions
    ensures ret@ == self.definitions@,
@fn DefinitionBundle::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_DefinitionBundle::sa};
@@closure 0
    ensures same(*x, r__)
@fn DefinitionBundle::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_DefinitionBundle::sa};
@@closure 0
    ensures same(x, r__)
@fn DefinitionBundle<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_DefinitionBundle::sa};
@fn DefinitionBundle<IntoChildren>::into_children inherent
@@ret Vec<Located<DefinitionListValue<'a>>>
    ensures ret@ == self.definitions@,
@fn TermAndDefinitions::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_TermAndDefinitions::sa};
@fn TermAndDefinitions::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_TermAndDefinitions::sa};
@fn TermAndDefinitions<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_TermAndDefinitions::sa};
@source vimwiki-core/src/lang/elements/mod.rs
@type InlineBlockElement same el
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@raw
pub open spec fn kd_tad<'a>(t: TermAndDefinitions<'a>) -> Seq<Located<InlineBlockElement<'a>>> { seq![Located { inner: InlineBlockElement::Term(t.term.inner), region: t.term.region }] + relift(t.definitions.inner.definitions@, |d: DefinitionListValue<'a>| InlineBlockElement::Definition(d)) }
pub open spec fn kd_dl<'a>(l: DefinitionList<'a>) -> Seq<Located<InlineBlockElement<'a>>> { flat(l.items@, |t: Located<TermAndDefinitions<'a>>| kd_tad(t.inner)) }
@endraw
@fn TermAndDefinitions<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineBlockElement<'a>>>
    ensures ret@ =~= kd_tad(self),
@@closure 0
    ensures r__.inner == InlineBlockElement::Definition(x.inner), r__.region == x.region
@fn DefinitionList::iter
@@ret VIt<&Located<TermAndDefinitions<'a>>>
    ensures refs(self.items@, ret@),
@fn DefinitionList::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_DefinitionList::sa};
@@closure 0
    ensures same(*x, r__)
@fn DefinitionList::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_DefinitionList::sa};
@@closure 0
    ensures same(x, r__)
@fn DefinitionList<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_DefinitionList::sa};
@@closure 0
    ensures r__ == same(*p__0.0, *p__0.1)
@fn DefinitionList<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineBlockElement<'a>>>
    ensures ret@ =~= kd_dl(self),
@@closure 0
    ensures r__@ == kd_tad(x.inner)
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@type ListItemSuffix copy same el
@type UnorderedListItemType same el
@type OrderedListItemType copy same el
@type ListItemType same from el
@type ListItemTodoStatus copy same el
@type ListItemAttributes copy same el
@source vimwiki-core/src/lang/elements/blocks/mod.rs
@type BlockElement same from el
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@type ListItemContents same ctor el
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@type ListItem same ctor el
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@type List same ctor el
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@fn ListItemSuffix<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItemSuffix::sa, pe_ListItemSuffix::peq_};
@fn OrderedListItemType<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_OrderedListItemType::sa, pe_OrderedListItemType::peq_};
@fn ListItemTodoStatus<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItemTodoStatus::sa, pe_ListItemTodoStatus::peq_};
@fn ListItemAttributes<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItemAttributes::sa, pe_ListItemAttributes::peq_, sm_ListItemTodoStatus::sa, pe_ListItemTodoStatus::peq_};
@fn UnorderedListItemType::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_UnorderedListItemType::sa};
@fn UnorderedListItemType::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_UnorderedListItemType::sa};
@fn UnorderedListItemType<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_UnorderedListItemType::sa, pe_UnorderedListItemType::peq_};
@fn ListItemType::as_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_ListItemType::sa, sm_OrderedListItemType::sa};
@fn ListItemType::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_ListItemType::sa, sm_OrderedListItemType::sa};
@fn ListItemType<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItemType::sa};
@fn ListItem::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_ListItem::sa, sm_ListItemSuffix::sa, sm_ListItemAttributes::sa, sm_ListItemTodoStatus::sa};
@fn ListItem::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_ListItem::sa, sm_ListItemSuffix::sa, sm_ListItemAttributes::sa, sm_ListItemTodoStatus::sa};
@fn ListItem<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItem::sa};
@source vimwiki-core/src/lang/elements/mod.rs
@type Element same from el
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@raw
pub open spec fn kd_lic<'a>(l: ListItemContents<'a>) -> Seq<Located<Element<'a>>> { relift(l.0@, |b: BlockElement<'a>| Element::Block(b)) }
pub open spec fn kd_list<'a>(l: List<'a>) -> Seq<Located<InlineBlockElement<'a>>> { relift(l.items@, |b: ListItem<'a>| InlineBlockElement::ListItem(b)) }
@endraw
@fn ListItem<IntoChildren>::into_children inherent
@@ret Vec<Located<Element<'a>>>
    ensures ret@ =~= kd_lic(self.contents),
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@raw
impl<'a> IntoIterator for List<'a> { type Item = Located<ListItem<'a>>;
    open spec fn gives(self, s: Seq<Located<ListItem<'a>>>) -> bool { s == self.items@ }
    fn into_iter(self) -> (r: VIt<Located<ListItem<'a>>>) { self.items.into_iter() } }
impl<'b, 'a> IntoIterator for &'b List<'a> { type Item = &'b Located<ListItem<'a>>;
    open spec fn gives(self, s: Seq<&'b Located<ListItem<'a>>>) -> bool { refs(self.items@, s) }
    fn into_iter(self) -> (r: VIt<&'b Located<ListItem<'a>>>) { (&self.items).into_iter() } }
@endraw
@raw
impl<'a> IntoIterator for ListItemContents<'a> { type Item = Located<BlockElement<'a>>;
    open spec fn gives(self, s: Seq<Located<BlockElement<'a>>>) -> bool { s == self.0@ }
    fn into_iter(self) -> (r: VIt<Located<BlockElement<'a>>>) { self.0.into_iter() } }
impl<'b, 'a> IntoIterator for &'b ListItemContents<'a> { type Item = &'b Located<BlockElement<'a>>;
    open spec fn gives(self, s: Seq<&'b Located<BlockElement<'a>>>) -> bool { refs(self.0@, s) }
    fn into_iter(self) -> (r: VIt<&'b Located<BlockElement<'a>>>) { (&self.0).into_iter() } }
@endraw
@fn List::iter
@@ret VIt<&Located<ListItem<'a>>>
    ensures refs(self.items@, ret@),
@fn List::len
    ensures ret == self.items@.len(),
@fn List::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_List::sa};
@@closure 0
    ensures same(*x, r__)
@fn List::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_List::sa};
@@closure 0
    ensures same(x, r__)
@fn List<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_List::sa};
@fn List<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineBlockElement<'a>>>
    ensures ret@ =~= kd_list(self),
@@closure 0
    ensures r__.inner == InlineBlockElement::ListItem(x.inner), r__.region == x.region
@fn List<FromIterator<Located<ListItem>>>::from_iter
    ensures exists|s: Seq<Located<ListItem>>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<Located<ListItem<'a>>>, r: Self) -> bool { r.items@ == s }
@raw
impl<'a> ListItemContents<'a> { pub fn iter(&self) -> (r: VIt<&Located<BlockElement<'a>>>) ensures refs(self.0@, r@) { self.0.iter() } }
@endraw
@fn ListItemContents::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_ListItemContents::sa};
@@closure 0
    ensures same(*x, r__)
@fn ListItemContents::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_ListItemContents::sa};
@@closure 0
    ensures same(x, r__)
@fn ListItemContents<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ListItemContents::sa};
@fn ListItemContents<IntoChildren>::into_children inherent
@@ret Vec<Located<Element<'a>>>
    ensures ret@ =~= kd_lic(self),
@@closure 0
    ensures r__.inner == Element::Block(x.inner), r__.region == x.region
@fn ListItemContents<FromIterator<Located<BlockElement>>>::from_iter
    ensures exists|s: Seq<Located<BlockElement>>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<Located<BlockElement<'a>>>, r: Self) -> bool { r.0@ == s }
@source vimwiki-core/src/lang/elements/blocks/tables.rs
@type CellPos copy eq
@type CellSpan copy same el
@type ColumnAlign copy same el
@type Cell same el
@type Table el
@raw
pub mod s_pos { use super::*; pub broadcast axiom fn s(x: CellPos, y: CellPos) ensures #[trigger] same(x, y) == (x == y); }
/// strict comparison of tables is by cells and alignment; the row and column counts follow from the cells
pub mod sm_Table { use super::*; pub broadcast axiom fn sa<'a>(x: Table<'a>, y: Table<'a>) ensures #[trigger] same(x, y) == (same(x.cells, y.cells) && same(x.centered, y.centered)); }
pub open spec fn kd_cell<'a>(c: Cell<'a>) -> Seq<Located<InlineElement<'a>>> { match c { Cell::Content(x) => x.elements@, _ => seq![] } }
pub open spec fn kd_table<'a>(t: Table<'a>, r: Seq<Located<InlineElement<'a>>>) -> bool { exists|s: Seq<(CellPos, Located<Cell<'a>>)>| #[trigger] listed(t.cells, s) && r == flat(s, |e: (CellPos, Located<Cell<'a>>)| kd_cell(e.1.inner)) }
@endraw
@fn CellSpan<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_CellSpan::sa, pe_CellSpan::peq_};
@fn ColumnAlign<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_ColumnAlign::sa, pe_ColumnAlign::peq_};
@fn Cell::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Cell::sa, sm_CellSpan::sa, sm_ColumnAlign::sa};
@fn Cell::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Cell::sa, sm_CellSpan::sa, sm_ColumnAlign::sa};
@fn Cell<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Cell::sa, sm_CellSpan::sa, sm_ColumnAlign::sa, pe_CellSpan::peq_, pe_ColumnAlign::peq_};
@fn Cell<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures ret@ =~= kd_cell(self),
@fn Table::to_borrowed
    ensures same(*self, ret), ret.row_cnt == self.row_cnt, ret.col_cnt == self.col_cnt,
@@head
    broadcast use {sm_Table::sa, s_pos::s};
@@closure 0
    ensures same((*p__0.0, *p__0.1), r__)
@fn Table::into_owned
    ensures same(self, ret), ret.row_cnt == self.row_cnt, ret.col_cnt == self.col_cnt,
@@head
    broadcast use {sm_Table::sa, s_pos::s};
@@closure 0
    ensures same(p__0, r__)
@fn Table<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Table::sa, cax::s_look, cax::s_size};
@@closure 0
    ensures r__ == (look(other.cells, *p__0.0) is Some && same(*p__0.1, look(other.cells, *p__0.0)->0))
@@closure 1
    ensures r__ == same(*v, *v2)
@fn Table<IntoChildren>::into_children inherent
@@ret Vec<Located<InlineElement<'a>>>
    ensures kd_table(self, ret@),
@@closure 0
    ensures r__@ == kd_cell(p__0.1.inner)
@source vimwiki-core/src/lang/elements/blocks/mod.rs
@raw
pub open spec fn kd_block<'a>(b: BlockElement<'a>, r: Seq<Located<Element<'a>>>) -> bool { match b {
    BlockElement::DefinitionList(x) => r =~= relift(kd_dl(x), |e: InlineBlockElement<'a>| Element::InlineBlock(e)),
    BlockElement::Header(x) => r =~= relift(x.content.elements@, |e: InlineElement<'a>| Element::Inline(e)),
    BlockElement::List(x) => r =~= relift(kd_list(x), |e: InlineBlockElement<'a>| Element::InlineBlock(e)),
    BlockElement::Paragraph(x) => r =~= relift(kd_par(x), |e: InlineElement<'a>| Element::Inline(e)),
    BlockElement::Table(x) => exists|s: Seq<Located<InlineElement<'a>>>| #[trigger] kd_table(x, s) && r =~= relift(s, |e: InlineElement<'a>| Element::Inline(e)),
    _ => r =~= seq![],
} }
pub open spec fn kd_ib<'a>(b: InlineBlockElement<'a>) -> Seq<Located<Element<'a>>> { match b {
    InlineBlockElement::ListItem(x) => kd_lic(x.contents),
    InlineBlockElement::Term(x) => relift(x.0.elements@, |e: InlineElement<'a>| Element::Inline(e)),
    InlineBlockElement::Definition(x) => relift(x.0.elements@, |e: InlineElement<'a>| Element::Inline(e)),
} }
@endraw
@fn BlockElement::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_BlockElement::sa, sm_Divider::sa};
@fn BlockElement::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_BlockElement::sa, sm_Divider::sa};
@fn BlockElement<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_BlockElement::sa};
@fn BlockElement<IntoChildren>::into_children inherent
@@ret Vec<Located<Element<'a>>>
    ensures kd_block(self, ret@),
@@closure 0
    ensures r__.inner == Element::InlineBlock(x.inner), r__.region == x.region
@@closure 1
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@@closure 2
    ensures r__.inner == Element::InlineBlock(x.inner), r__.region == x.region
@@closure 3
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@@closure 4
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@source vimwiki-core/src/lang/elements/mod.rs
@type Page same el
@fn InlineBlockElement<From<ListItem>>::from
    ensures ret == InlineBlockElement::ListItem(list_item),
@@stub
    
@@impl
    open spec fn from_req(list_item: ListItem<'a>) -> bool { true }
    open spec fn from_ens(list_item: ListItem<'a>, ret: Self) -> bool { ret == InlineBlockElement::ListItem(list_item) }
@fn InlineBlockElement::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_InlineBlockElement::sa};
@fn InlineBlockElement::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_InlineBlockElement::sa};
@fn InlineBlockElement<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_InlineBlockElement::sa};
@fn InlineBlockElement<IntoChildren>::into_children inherent
@@ret Vec<Located<Element<'a>>>
    ensures ret@ =~= kd_ib(self),
@@closure 0
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@@closure 1
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@fn Element::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Element::sa};
@fn Element::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Element::sa};
@fn Element<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Element::sa};
@fn Element<IntoChildren>::into_children inherent
@@ret Vec<Located<Element<'a>>>
    ensures match self { Element::Block(x) => kd_block(x, ret@), Element::Inline(x) => ret@ =~= relift(kd_in(x), |e: InlineElement<'a>| Element::Inline(e)), Element::InlineBlock(x) => ret@ =~= kd_ib(x) },
@@closure 0
    ensures r__.inner == Element::Inline(x.inner), r__.region == x.region
@fn Page::elements
    ensures ret@ == self.elements@,
@fn Page::into_elements
    ensures ret@ == self.elements@,
@fn Page::to_borrowed
    ensures same(*self, ret),
@@head
    broadcast use {sm_Page::sa};
@@closure 0
    ensures same(*x, r__)
@fn Page::into_owned
    ensures same(self, ret),
@@head
    broadcast use {sm_Page::sa};
@@closure 0
    ensures same(x, r__)
@fn Page<StrictEq>::strict_eq
    ensures ret == same(*self, *other),
@@head
    broadcast use {sm_Page::sa};
@@closure 0
    ensures r__ == same(*p__0.0, *p__0.1)
@fn Page<IntoChildren>::into_children inherent
@@ret Vec<Located<BlockElement<'a>>>
    ensures ret@ == self.elements@,
@fn Page<FromIterator<Located<BlockElement>>>::from_iter
    ensures exists|s: Seq<Located<BlockElement>>| #[trigger] iter.gives(s) && Self::built(s, ret),
@@impl
    open spec fn built(s: Seq<Located<BlockElement<'a>>>, r: Self) -> bool { r.elements@ == s }
