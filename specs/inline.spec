@fnhead broadcast use lem2::lemma_has, lem3::dt_from_items;
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/code.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/math.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/comments.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@autofns
@fn keyword
    requires input.mid(),
    ensures post(input, ret), ret is Ok ==> input.pre(),
@fn text::non_text
    requires input.mid(),
    ensures match ret { Ok((_, x)) => is_char_boundary(input.c(), input.start as int) && is_char_boundary(input.c(), x.region.offset as int), Err(_) => true },
@@closures 9
@@closure 0
    ensures r__.region == x.region
@@closure 1
    ensures r__.region == x.region
@@closure 2
    ensures r__.region == x.region
@@closure 3
    ensures r__.region == x.region
@@closure 4
    ensures r__.region == x.region
@@closure 5
    ensures r__.region == x.region
@@closure 6
    ensures r__.region == x.region
@@closure 7
    requires input.pre() ensures match r__ { Ok((_, x)) => is_char_boundary(input.c(), x.region.offset as int), Err(_) => true }
@@closure 8
    ensures r__.region == x.region
@fn text::inner
    requires input.pre(),
    ensures post(input, ret),
@@loop 0
    invariant text_input.mid(), len == text_input.start - input.start, text_input.inner == input.inner, text_input.end == input.end, input.start <= text_input.start <= input.end,
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/mod.rs
@autofns
