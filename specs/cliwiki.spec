//# configuration of the tool: wikis, options, what is loaded and written (shared by the units of P17)
@source vimwiki-core/src/lang/output/html/config.rs
@fn HtmlConfig::find_wiki_index_by_path stub
    ensures match ret { Some(i) => deepest(*self, path.as_spec()@, i as int), None => forall|j: int| 0 <= j < self.wikis@.len() ==> !below(path.as_spec()@, (#[trigger] self.wikis@[j]).path@) },
@fn HtmlConfig::find_wiki_by_path stub
    ensures match ret { Some(w) => exists|i: int| deepest(*self, path.as_spec()@, i) && *w == self.wikis@[i], None => forall|j: int| 0 <= j < self.wikis@.len() ==> !below(path.as_spec()@, (#[trigger] self.wikis@[j]).path@) },
@fn HtmlConfig::map_runtime stub
    requires f.requires((old(self).runtime,))
    ensures f.ensures((old(self).runtime,), final(self).runtime), *final(self) == (HtmlConfig { runtime: final(self).runtime, ..*old(self) }),
@fn HtmlRuntimeConfig::to_tmp_wiki stub
    ensures ret.path@ == dir_of(self.page@), is_tmp(ret),
@fn HtmlWikiConfig<Default>::default trusted
    ensures is_dflt(ret),
@fn HtmlWikiConfig::default_css_name stub
    ensures ret@ == "style.css"@,
@fn HtmlWikiConfig::default_ext stub
    ensures ret@ == "wiki"@,
@fn HtmlWikiConfig::make_output_path stub
    requires no_sep(ext@)
    ensures
        self.path_html@.len() > 0 ==> ret@ == out_path(*self, input@, str_bytes(ext@)),
