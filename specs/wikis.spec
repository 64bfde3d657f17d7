//# which wiki a page, name or index belongs to (unit of P12)
@include std.rs
@include path.rs
@include foriter.rs
@fnhead broadcast use {dirlem::b_dir, pathax::ax_deref, pathax::ax_cow_ref, pathax::ax_path, pathax::ax_pathbuf, pathax::ax_str_path, pathax::ax_cow_b, pathax2::ax_os, pathax2::ax_str, pathax2::ax_comp, pathlem::b_kept, pathlem::b_parts, pathlem::b_comps, pathlem::b_ups, pathlem::b_join1, pathlem::b_join2, pathlem::b_below, pathlem::b_rel};
@include wikitypes.spec
@fn HtmlConfig::find_wiki_by_index
    ensures match ret { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() },
@fn HtmlConfig::find_active_wiki
    ensures match ret { Some(w) => active(*self) == Some(*w), None => active(*self).is_none() },
@@closure 0
    ensures match r__ { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() }
@fn HtmlConfig::find_wiki_index_by_name
    ensures match ret { Some(i) => first_named(*self, name.as_spec()@, i as int), None => forall|j: int| 0 <= j < self.wikis@.len() ==> !has_name(#[trigger] self.wikis@[j], name.as_spec()@) },
@@closure 0
    ensures r__ == (if has_name(*p__0.1, name@) { Some(p__0.0) } else { None })
@fn HtmlConfig::find_wiki_by_name
    ensures match ret { Some(w) => named(*self, name.as_spec()@) == Some(*w), None => named(*self, name.as_spec()@).is_none() },
@@closure 0
    ensures match r__ { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() }
@fn HtmlConfig::find_wiki_index_by_path
    ensures match ret { Some(i) => deepest(*self, path.as_spec()@, i as int), None => forall|j: int| 0 <= j < self.wikis@.len() ==> !below(path.as_spec()@, (#[trigger] self.wikis@[j]).path@) },
@@closure 0
    ensures r__ == below(path.as_spec()@, p__0.1.path@)
@@closure 1
    ensures r__ == p__0.1.path@.len()
@@closure 2
    ensures r__ == p__0.0
@fn HtmlConfig::find_wiki_by_path
    ensures match ret { Some(w) => exists|i: int| deepest(*self, path.as_spec()@, i) && *w == self.wikis@[i], None => forall|j: int| 0 <= j < self.wikis@.len() ==> !below(path.as_spec()@, (#[trigger] self.wikis@[j]).path@) },
@@closure 0
    ensures match r__ { Some(w) => idx < self.wikis@.len() && *w == self.wikis@[idx as int], None => idx >= self.wikis@.len() }
@fn HtmlConfig::active_page
    ensures ret@ == self.runtime.page@,
@fn HtmlConfig::to_current_wiki
    ensures match active(*self) { Some(w) => ret == w, None => ret.path@ == dir_of(self.runtime.page@) && is_tmp(ret) },
@@closure 0
    ensures r__.path@ == dir_of(self.runtime.page@), is_tmp(r__)
@fn HtmlConfig::to_active_page_path_to_wiki_root
    ensures ret@ == (match active(*self) { Some(w) => if below(self.runtime.page@, w.path@) && self.runtime.page@.len() > w.path@.len() { ups((self.runtime.page@.len() - w.path@.len() - 1) as nat) } else { seq![] }, None => seq![] }),
@@closure 0
    ensures match r__ { Some(p) => below(self.runtime.page@, wiki.path@) && self.runtime.page@.len() > wiki.path@.len() && p@ == ups((self.runtime.page@.len() - wiki.path@.len() - 1) as nat), None => !(below(self.runtime.page@, wiki.path@) && self.runtime.page@.len() > wiki.path@.len()) }
@fn HtmlConfig::as_active_page_path_within_wiki
    requires match active(*self) { Some(w) => below(self.runtime.page@, w.path@), None => true }
    ensures ret@ == self.runtime.page@.skip(match active(*self) { Some(w) => w.path@.len() as int, None => dir_of(self.runtime.page@).len() as int }),
@fn HtmlConfig::map_runtime
    requires f.requires((old(self).runtime,))
    ensures f.ensures((old(self).runtime,), final(self).runtime), *final(self) == (HtmlConfig { runtime: final(self).runtime, ..*old(self) }),
@fn HtmlRuntimeConfig::to_tmp_wiki
    ensures ret.path@ == dir_of(self.page@), is_tmp(ret),
@fn HtmlWikiConfig<Default>::default
    ensures is_dflt(ret),
@fn HtmlWikiConfig::default_path trusted
    ensures ret@ == dflt_path(),
@fn HtmlWikiConfig::default_path_html trusted
    ensures ret@ == dflt_html(),
@fn HtmlWikiConfig::default_name
    ensures ret.is_none(),
@fn HtmlWikiConfig::default_css_name
    ensures ret@ == "style.css"@,
@fn HtmlWikiConfig::default_ext
    ensures ret@ == "wiki"@,
@fn HtmlWikiConfig::default_diary_rel_path
    ensures ret@ == str_path("diary"@),
@fn HtmlWikiConfig::path_within stub
    ensures match ret { Some(p) => below(path@, self.path@) && p@ == path@.skip(self.path@.len() as int), None => !below(path@, self.path@) },
@fn HtmlWikiConfig::path_to_root stub
    ensures match ret { Some(p) => below(path.as_spec()@, self.path@) && path.as_spec()@.len() > self.path@.len() && p@ == ups((path.as_spec()@.len() - self.path@.len() - 1) as nat),
        None => !below(path.as_spec()@, self.path@) || path.as_spec()@.len() == self.path@.len() },
