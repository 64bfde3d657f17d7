//# where pages are written and how links between pages are addressed (unit of P11)
@include std.rs
@include path.rs
@include foriter.rs
@include uri.rs
@fnhead broadcast use {pathax::ax_deref, pathax::ax_cow_ref, pathax::ax_path, pathax::ax_pathbuf, pathax::ax_str_path, pathax::ax_cow_b, pathax2::ax_os, pathax2::ax_str, pathax2::ax_comp, pathlem::b_kept, pathlem::b_parts, pathlem::b_comps, pathlem::b_ups, pathlem::b_join1, pathlem::b_join2, pathlem::b_below, pathlem::b_rel};
@source vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@type Anchor
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@type Description
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@raw
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
@endraw
@type LinkData
@raw
impl<'a> LinkData<'a> {
    pub open spec fn segs(&self) -> Seq<Segment<'a>> { self.uri_ref.path_().segs() }
    pub open spec fn dir(&self) -> bool { self.segs().len() > 0 && self.segs().last().text().len() == 0 }
    pub open spec fn anchor_frag(&self) -> Option<Seq<char>> { if self.uri_ref@.frag.is_some() { anchor_text(split_hash(self.uri_ref@.frag.unwrap())) } else { None } }
    pub open spec fn local_anchor(&self) -> bool { self.uri_ref.scheme_().is_none() && self.uri_ref.authority_().is_none() && self.uri_ref.query_().is_none() && self.uri_ref@.frag.is_some() && forall|i: int| 0 <= i < self.segs().len() ==> (#[trigger] self.segs()[i]).text().len() == 0 }
    pub open spec fn pathv(&self) -> Seq<Comp> { if self.uri_ref.path_().abs() { joined(seq![Comp::Root], segs_path(self.segs())) } else { segs_path(self.segs()) } }
}
pub open spec fn anchor_v(a: Anchor) -> Seq<Seq<char>> { cow_strs(a.0@) }
/// pieces of a fragment between encoded pound signs
pub uninterp spec fn split_hash(s: Seq<char>) -> Seq<Seq<char>>;
/// the fragment that holds an anchor
pub uninterp spec fn anchor_text(a: Seq<Seq<char>>) -> Option<Seq<char>>;
impl<'a> TryFrom__<Anchor<'a>> for Fragment<'a> {
    type Error = FragmentError;
    open spec fn try_ens(x: Anchor<'a>, r: Result<Self, FragmentError>) -> bool { match r { Ok(f) => Some(f.text()) == anchor_text(anchor_v(x)), Err(_) => anchor_text(anchor_v(x)).is_none() } }
    #[verifier::external_body] fn try_from__(x: Anchor<'a>) -> (r: Result<Self, FragmentError>) { unimplemented!() }
}
pub open spec fn segs_path(s: Seq<Segment>) -> Seq<Comp> { segs_from(seq![], s) }
pub open spec fn segs_from(acc: Seq<Comp>, s: Seq<Segment>) -> Seq<Comp> decreases s.len() { if s.len() == 0 { acc } else { segs_from(joined(acc, str_path(s[0].text())), s.skip(1)) } }
mod urilem {
    use super::*;
    verus! {
    /// segments hold no separator
    pub broadcast axiom fn ax_seg(s: Segment) ensures !is_abs(#[trigger] str_path(s.text())), utf8_path(str_path(s.text()));
    }
}
@endraw
@fn LinkData::to_path_buf desugar
    ensures ret@ == self.pathv(),
@@loop 0
    invariant segs_from(path@, it__0@) == segs_from(seq![], self.segs()),
    decreases it__0@.len(),
@fn LinkData::is_path_dir
    ensures ret == self.dir(),
@@closure 0
    ensures r__ == (s.text().len() == 0)
@fn LinkData::has_anchor
    ensures ret == self.uri_ref@.frag.is_some(),
@fn LinkData::is_local_anchor
    ensures ret == self.local_anchor(),
@@closure 0
    ensures r__ == (s.text().len() == 0)
@fn LinkData::is_local trusted
    ensures ret == local_scheme(self.uri_ref.scheme_()),
@fn LinkData::to_anchor trusted
    ensures ret.is_some() == self.uri_ref@.frag.is_some(), ret.is_some() ==> anchor_v(ret.unwrap()) == split_hash(self.uri_ref@.frag.unwrap()),
@raw
pub uninterp spec fn local_scheme(s: Option<&Scheme>) -> bool;
@endraw
@source vimwiki-core/src/lang/output/html/utils.rs
@fn normalize_path desugar
    ensures ret@ == norm(path@),
@@loop 0
    invariant
        it__0.plain(), norm_from(ret@, it__0.comps()) == norm(path@),
    decreases it__0@.len(),
@fn make_path_relative
    ensures ret@ == rel(path.as_spec()@),
@@closure 0
    ensures r__ == !(*c is Prefix || *c is RootDir)
@fn path_to_uri_string
    ensures ret@ == uri_str(path@),
@@closure 0
    ensures opt_str(r__) == uri_comp(c.v())
@include wikitypes.spec
@fn HtmlConfig::find_wiki_by_index stub
    ensures match ret { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() },
@fn HtmlConfig::find_wiki_by_name stub
    ensures match ret { Some(w) => named(*self, name.as_spec()@) == Some(*w), None => named(*self, name.as_spec()@).is_none() },
@@closure 0
    ensures match r__ { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() }
@fn HtmlWikiConfig::get_root_path
    ensures ret@ == self.path@,
@fn HtmlWikiConfig::path_within
    ensures match ret { Some(p) => below(path@, self.path@) && p@ == path@.skip(self.path@.len() as int), None => !below(path@, self.path@) },
@fn HtmlWikiConfig::path_to_root
    ensures match ret { Some(p) => below(path.as_spec()@, self.path@) && path.as_spec()@.len() > self.path@.len() && p@ == ups((path.as_spec()@.len() - self.path@.len() - 1) as nat),
        None => !below(path.as_spec()@, self.path@) || path.as_spec()@.len() == self.path@.len() },
@@closure 0
    ensures match r__ { Some(p) => path@.len() > 0 && p@ == ups((path@.len() - 1) as nat), None => path@.len() == 0 }
@@loop 0
    invariant rel_path@ == ups(it__0.index@ as nat)
@fn HtmlWikiConfig::make_output_path
    requires no_sep(ext@)
    ensures
        is_abs(input@) && below(input@, self.path@) ==> ret@ == with_ext(joined(self.path_html@, input@.skip(self.path@.len() as int)), str_bytes(ext@)),
        !(is_abs(input@) && below(input@, self.path@)) && self.path_html@.len() > 0 ==> ret@ == with_ext(joined(self.path_html@, rel(input@)), str_bytes(ext@)),
        self.path_html@.len() > 0 ==> ret@ == out_path(*self, input@, str_bytes(ext@)),
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@type Link
@raw
impl<'a> Link<'a> { pub open spec fn data_(&self) -> &LinkData<'a> { match self { Link::Wiki { data } => data, Link::IndexedInterWiki { data, .. } => data, Link::NamedInterWiki { data, .. } => data, Link::Diary { data, .. } => data, Link::Raw { data } => data, Link::Transclusion { data } => data } } }
@endraw
@fn Link::data
    ensures ret == self.data_(),
@source vimwiki-core/src/lang/output/html/utils.rs
@type LinkResolutionError
@raw
/// paths of a wiki that can be written in a link
pub open spec fn wiki_ok(w: HtmlWikiConfig) -> bool { w.path_html@.len() > 0 && utf8_path(w.path@) && utf8_path(w.path_html@) && utf8_path(w.diary_rel_path@) }
/// r is the reference from one output file to another, with this fragment
pub open spec fn refers(r: Result<URIReference<'static>, LinkResolutionError>, from: Seq<Comp>, to: Seq<Comp>, frag: Option<Seq<char>>) -> bool {
    match r { Ok(u) => u@ == (Uri { base: uri_enc(rel_str(link_comps(from, to))), frag }), Err(e) => e is RelativeReference }
}
pub open spec fn as_is(r: Result<URIReference<'static>, LinkResolutionError>, d: LinkData) -> bool { match r { Ok(u) => u@ == d.uri_ref@, Err(_) => false } }
pub open spec fn own_ext(p: Seq<Comp>) -> Seq<u8> { if p.len() > 0 && p.last() is Name && fext(p.last()->Name_0).is_some() { fext(p.last()->Name_0).unwrap() } else { seq![] } }
pub open spec fn page_target(w: HtmlWikiConfig, src: Seq<Comp>, d: LinkData, p: Seq<Comp>, e: Seq<u8>) -> Seq<Comp> {
    out_path(w, if d.uri_ref.path_().abs() { p } else { joined(dir_of(src), p) }, e)
}
pub open spec fn with_index(d: LinkData) -> Seq<Comp> { if d.dir() { joined(d.pathv(), str_path("index"@)) } else { d.pathv() } }
mod utf {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_name(n: Seq<u8>, e: Seq<char>) requires utf8_name(n) ensures utf8_name(#[trigger] (stem(n) + seq![46u8] + str_bytes(e))), #[trigger] str_bytes(e).len() == 0 ==> comp_of(stem(n)) is Name ==> utf8_name(comp_of(stem(n))->Name_0);
    pub broadcast proof fn b_joined(a: Seq<Comp>, b: Seq<Comp>) requires utf8_path(a), utf8_path(b) ensures utf8_path(#[trigger] joined(a, b)) {
        let j = joined(a, b);
        assert forall|i: int| 0 <= i < j.len() && (#[trigger] j[i]) is Name implies utf8_name(j[i]->Name_0) by {
            if is_abs(b) || a.len() == 0 { assert(b[i] is Name); } else if i < a.len() { assert(a[i] == j[i]); } else if b[0] == Comp::Cur { assert(b[i - a.len() + 1] == j[i]); } else { assert(b[i - a.len()] == j[i]); }
        }
    }
    pub broadcast proof fn b_skip(a: Seq<Comp>, n: int) requires utf8_path(a), 0 <= n <= a.len() ensures utf8_path(#[trigger] a.skip(n)) {
        assert forall|i: int| 0 <= i < a.skip(n).len() && (#[trigger] a.skip(n)[i]) is Name implies utf8_name(a.skip(n)[i]->Name_0) by { assert(a[i + n] == a.skip(n)[i]); }
    }
    pub broadcast proof fn b_drop(a: Seq<Comp>) requires utf8_path(a), a.len() > 0 ensures utf8_path(#[trigger] a.drop_last()) {
        assert forall|i: int| 0 <= i < a.drop_last().len() && (#[trigger] a.drop_last()[i]) is Name implies utf8_name(a.drop_last()[i]->Name_0) by { assert(a[i] == a.drop_last()[i]); }
    }
    pub broadcast proof fn b_ext(a: Seq<Comp>, e: Seq<char>) requires utf8_path(a) ensures utf8_path(#[trigger] with_ext(a, str_bytes(e))) {
        broadcast use {ax_name, b_drop};
        let w = with_ext(a, str_bytes(e));
        if a.len() > 0 && a.last() is Name {
            assert(a[a.len() - 1] is Name);
            assert forall|i: int| 0 <= i < w.len() && (#[trigger] w[i]) is Name implies utf8_name(w[i]->Name_0) by { if i < a.len() - 1 { assert(w[i] == a[i]); } else { } }
        }
    }
    pub broadcast proof fn b_out(w: HtmlWikiConfig, i: Seq<Comp>, e: Seq<char>) requires wiki_ok(w), utf8_path(i) ensures utf8_path(#[trigger] out_path(w, i, str_bytes(e))) {
        broadcast use {b_joined, b_skip, b_ext};
        assert(utf8_path(i.skip(w.path@.len() as int)) || !below(i, w.path@));
        assert(utf8_path(rel(i)));
    }
    pub broadcast proof fn b_dir(a: Seq<Comp>) requires utf8_path(a) ensures utf8_path(#[trigger] dir_of(a)) { broadcast use b_drop; }
    pub broadcast proof fn b_pathv(d: LinkData) ensures utf8_path(#[trigger] d.pathv()) {
        broadcast use {b_joined, b_segs};
        assert(utf8_path(Seq::<Comp>::empty())); assert(utf8_path(seq![Comp::Root]));
    }
    pub broadcast proof fn b_segs(acc: Seq<Comp>, s: Seq<Segment>) requires utf8_path(acc), !is_abs(acc) ensures utf8_path(#[trigger] segs_from(acc, s)), !is_abs(segs_from(acc, s)) decreases s.len() {
        broadcast use {urilem::ax_seg, b_joined};
        if s.len() > 0 { let j = joined(acc, str_path(s[0].text())); assert(!is_abs(j)) by { if acc.len() > 0 { assert(j[0] == acc[0]); } } b_segs(j, s.skip(1)); }
    }
    /// what follows the last dot of a UTF-8 name is UTF-8
    pub broadcast axiom fn ax_fext(n: Seq<u8>) requires utf8_name(n), fext(n).is_some() ensures utf8_name((#[trigger] fext(n)).unwrap());
    pub broadcast proof fn b_last(s: Seq<Comp>) requires utf8_path(s), s.len() > 0, (#[trigger] s.last()) is Name ensures utf8_name(s.last()->Name_0) { assert(s[s.len() - 1] is Name); }
    pub broadcast axiom fn ax_index() ensures utf8_path(#[trigger] str_path("index"@));
    pub broadcast axiom fn ax_date(d: NaiveDate, f: Seq<char>) ensures utf8_path(#[trigger] str_path(date_str(d, f)));
    }
}
@endraw
@fn is_directory_uri
    ensures ret == (uri_ref.path_().segs().len() > 0 && uri_ref.path_().segs().last().text().len() == 0),
@@closure 0
    ensures r__ == (s.text().len() == 0)
@fn make_diary_absolute_output_path
    requires no_sep(ext@)
    ensures config.path_html@.len() > 0 ==> ret@ == out_path(*config, joined(joined(config.path@, config.diary_rel_path@), str_path(date_str(date, "%Y-%m-%d"@))), str_bytes(ext@)),
@@head
    broadcast use {utf::b_joined};
@fn make_relative_link
    requires utf8_path(src.as_spec()@), utf8_path(target.as_spec()@),
    ensures ret.is_ok() ==> ret.unwrap()@ == (Uri { base: uri_enc(rel_str(link_comps(src.as_spec()@, target.as_spec()@))), frag: None }),
@@head
    broadcast use {utf::b_skip};
@fn resolve_link
    requires utf8_path(src@), wiki_ok(*src_wiki), forall|i: int| 0 <= i < config.wikis@.len() ==> wiki_ok(#[trigger] config.wikis@[i]),
    ensures ({
        let from = out_path(*src_wiki, src@, str_bytes("html"@));
        match *target {
            Link::Wiki { data } => if local_scheme(data.uri_ref.scheme_()) && !data.local_anchor() { refers(ret, from, page_target(*src_wiki, src@, data, with_index(data), str_bytes("html"@)), data.anchor_frag()) } else { as_is(ret, data) },
            Link::IndexedInterWiki { index, data } => if index < config.wikis@.len() { refers(ret, from, out_path(config.wikis@[index as int], with_index(data), str_bytes("html"@)), data.anchor_frag()) } else { ret.is_err() },
            Link::NamedInterWiki { name, data } => match named(*config, cow_str(name)) { Some(w) => refers(ret, from, out_path(w, with_index(data), str_bytes("html"@)), data.anchor_frag()), None => ret.is_err() },
            Link::Diary { date, data } => refers(ret, from, out_path(*src_wiki, joined(joined(src_wiki.path@, src_wiki.diary_rel_path@), str_path(date_str(date, "%Y-%m-%d"@))), str_bytes("html"@)), data.anchor_frag()),
            Link::Raw { data } => as_is(ret, data),
            Link::Transclusion { data } => if local_scheme(data.uri_ref.scheme_()) { refers(ret, from, page_target(*src_wiki, src@, data, data.pathv(), own_ext(data.pathv())), None) } else { as_is(ret, data) },
        }
    }),
@@head
    hide(out_path); hide(joined); hide(utf8_path); hide(link_comps); hide(segs_from); hide(with_ext); hide(below);
    broadcast use {utf::b_joined, utf::b_out, utf::b_dir, utf::b_pathv, utf::ax_index, utf::ax_date, utf::ax_fext, utf::b_last, pathax::ax_empty};
    proof { no_sep_html(); assert(utf8_path(dir_of(src@))); }
@@closure 0
    ensures r__ is RelativeReference
@@closure 1
    ensures frag_text(r__) == anchor_text(anchor_v(anchor))
@@closure 2
    ensures r__ is RelativeReference
@@closure 3
    ensures frag_text(r__) == anchor_text(anchor_v(anchor))
@@closure 4
    ensures r__ is MissingWikiWithName
@@closure 5
    ensures r__ is RelativeReference
@@closure 6
    ensures frag_text(r__) == anchor_text(anchor_v(anchor))
@@closure 7
    ensures r__ is RelativeReference
@@closure 8
    ensures frag_text(r__) == anchor_text(anchor_v(anchor))
@@closure 9
    ensures r__ is RelativeReference
