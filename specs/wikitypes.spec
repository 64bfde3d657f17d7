@source vimwiki-core/src/lang/output/html/config.rs
@type HtmlWikiConfig
@type HtmlRuntimeConfig
@type HtmlListConfig
@type HtmlParagraphConfig
@type HtmlLinkConfig
@type HtmlHeaderConfig
@type HtmlCodeConfig
@type HtmlCommentConfig
@type HtmlTemplateConfig
@type HtmlConfig
@raw
impl Clone for HtmlWikiConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for HtmlRuntimeConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct URI<'a> { x: &'a str }
/// the wiki of a name: the first wiki with that name
pub open spec fn has_name(w: HtmlWikiConfig, n: Seq<char>) -> bool { w.name.is_some() && w.name.unwrap()@ == n }
pub open spec fn first_named(c: HtmlConfig, n: Seq<char>, i: int) -> bool { 0 <= i < c.wikis@.len() && has_name(c.wikis@[i], n) && forall|j: int| 0 <= j < i ==> !has_name(#[trigger] c.wikis@[j], n) }
pub open spec fn named(c: HtmlConfig, n: Seq<char>) -> Option<HtmlWikiConfig> { if exists|i: int| first_named(c, n, i) { Some(c.wikis@[choose|i: int| first_named(c, n, i)]) } else { None } }
/// wiki i holds the path and no other wiki that does is deeper
pub open spec fn deepest(c: HtmlConfig, p: Seq<Comp>, i: int) -> bool {
    0 <= i < c.wikis@.len() && below(p, c.wikis@[i].path@) && forall|j: int| 0 <= j < c.wikis@.len() && below(p, (#[trigger] c.wikis@[j]).path@) ==> c.wikis@[j].path@.len() <= c.wikis@[i].path@.len()
}
pub open spec fn active(c: HtmlConfig) -> Option<HtmlWikiConfig> { if c.runtime.wiki_index.is_some() && c.runtime.wiki_index.unwrap() < c.wikis@.len() { Some(c.wikis@[c.runtime.wiki_index.unwrap() as int]) } else { None } }
pub open spec fn dir_of(s: Seq<Comp>) -> Seq<Comp> { if s.len() > 0 && s.last() != Comp::Root { s.drop_last() } else { seq![] } }
/// the output file of a page
pub open spec fn out_path(w: HtmlWikiConfig, input: Seq<Comp>, e: Seq<u8>) -> Seq<Comp> {
    with_ext(joined(w.path_html@, if is_abs(input) && below(input, w.path@) { input.skip(w.path@.len() as int) } else { rel(input) }), e)
}
/// where wikis and their output are by default
pub uninterp spec fn dflt_path() -> Seq<Comp>;
pub uninterp spec fn dflt_html() -> Seq<Comp>;
/// all but the path of a wiki made by HtmlWikiConfig::default
pub open spec fn is_tmp(w: HtmlWikiConfig) -> bool { w.path_html@ == dflt_html() && w.name.is_none() && w.css_name@ == "style.css"@ && w.ext@ == "wiki"@ && w.diary_rel_path@ == str_path("diary"@) }
pub open spec fn is_dflt(w: HtmlWikiConfig) -> bool { is_tmp(w) && w.path@ == dflt_path() }
mod dirlem {
    use super::*;
    verus! { pub broadcast proof fn b_dir(s: Seq<Comp>) ensures below(s, #[trigger] dir_of(s)) { assert(s.subrange(0, dir_of(s).len() as int) =~= dir_of(s)); } }
}
@endraw
