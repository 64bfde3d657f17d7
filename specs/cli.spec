//# which pages the command line tool loads and what it writes for them (unit of P17)
@slices
@include std.rs
@include path.rs
@include cli.rs
@fnhead broadcast use {dirlem::b_dir, pathax::ax_deref, pathax::ax_cow_ref, pathax::ax_path, pathax::ax_pathbuf, pathax::ax_str_path, pathax::ax_cow_b, pathax2::ax_os, pathax2::ax_str, pathax2::ax_comp, cliax::ax_str_eq1, cliax::ax_str_eq2, cliax::ax_dflt, cliax::ax_utf8, cliax::ax_utf8b};
@include wikitypes.spec
@include cliwiki.spec
@source vimwiki-cli/src/opt.rs
@type IndexOrName
@type CommonOpt
@type ConvertSubcommand
@type FormatSubcommand
@type ServeSubcommand
@type InspectSubcommand
@type Subcommand
@type Opt
@include clifmt0.spec
@source vimwiki-cli/src/opt.rs
@raw
/// an index or a name picks this wiki
pub open spec fn picks(s: IndexOrName, i: usize, n: Option<Seq<char>>) -> bool { match s { IndexOrName::Index(x) => x == i, IndexOrName::Name(x) => n == Some(x@) } }
/// the wikis to process: all of them unless some are named
pub open spec fn chosen(inc: Seq<IndexOrName>, i: usize, n: Option<Seq<char>>) -> bool { inc.len() == 0 || exists|k: int| 0 <= k < inc.len() && picks(#[trigger] inc[k], i, n) }
impl PartialEqSpecImpl<usize> for IndexOrName { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &usize) -> bool { *self is Index && self->Index_0 == *o } }
impl PartialEqSpecImpl<String> for IndexOrName { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { *self is Name && self->Name_0@ == o@ } }
impl PartialEqSpecImpl<str> for IndexOrName { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { *self is Name && self->Name_0@ == o@ } }
@endraw
@fn IndexOrName<PartialEq<usize>>::eq
    ensures ret == (*self is Index && self->Index_0 == *other),
@@stub
@fn IndexOrName<PartialEq<String>>::eq
    ensures ret == (*self is Name && self->Name_0@ == other@),
@@stub
@@head
    proof { cliax::ax_str_eq(); }
@fn IndexOrName<PartialEq<str>>::eq
    ensures ret == (*self is Name && self->Name_0@ == other@),
@@stub
@@head
    proof { cliax::ax_str_eq(); }
@fn IndexOrName<FromStr>::from_str inherent
@@ret Result<IndexOrName, std::convert::Infallible>
    ensures match parsed_as::<usize>(s@) { Ok(i) => ret == Ok::<IndexOrName, std::convert::Infallible>(IndexOrName::Index(i)), Err(_) => ret is Ok && ret->Ok_0 is Name && ret->Ok_0->Name_0@ == s@ },
@@stub
@fn IndexOrName::matches_either
    ensures ret == picks(*self, index, ref_text(name.into_v())),
@@closure 0
    ensures r__ == (*self is Name && self->Name_0@ == name@)
@fn CommonOpt::filter_by_wiki_idx_and_name
    ensures ret == chosen(self.include@, idx, ref_text(name)),
@@closure 0
    ensures r__ == picks(*f, idx, ref_text(name))
@source vimwiki-cli/src/ast.rs
@type Ast
@type Wiki
@type WikiFile
@raw
impl Default for Ast { #[verifier::external_body] fn default() -> (r: Ast) ensures r.wikis@.len() == 0 { unimplemented!() } }
impl Default for Wiki { #[verifier::external_body] fn default() -> (r: Wiki) ensures r.files@.len() == 0 { unimplemented!() } }
impl Clone for HtmlConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Cv = (HtmlConfig, Seq<Comp>, Option<usize>);
/// all that output depends on in a configuration: the settings, the page and its wiki
pub open spec fn cv(c: HtmlConfig) -> Cv { (HtmlConfig { runtime: arbitrary(), ..c }, c.runtime.page@, c.runtime.wiki_index) }
/// file of the cache for a text
pub open spec fn centry(c: Seq<Comp>, t: Seq<char>) -> Seq<Comp> { joined(c, str_path(cksum(t))) }
/// what the cache holds under a checksum is the page of the text with that checksum
pub open spec fn cache_ok(c: Seq<Comp>) -> bool { forall|t: Seq<char>, v: PageV| #[trigger] decodes(joined(c, str_path(cksum(t))), v) ==> v == parsed(t) }
/// leave to fill the cache: only the page of the text goes into the file of the text
pub open spec fn cache_perm(c: Seq<Comp>, t: Seq<char>) -> bool { may_create(centry(c, t)) && may_remove(centry(c, t)) && may_cache(centry(c, t), parsed(t)) }
pub open spec fn cache_all(c: Seq<Comp>, no_cache: bool) -> bool { cache_ok(c) && (!no_cache ==> forall|t: Seq<char>| #![trigger cksum(t)] cache_perm(c, t)) }
/// a loaded file holds the page of its text
pub open spec fn file_ok(f: WikiFile) -> bool { f.checksum@ == cksum(file_text(f.path@)) && f.data.v() == parsed(file_text(f.path@)) }
pub open spec fn files_ok(w: Wiki) -> bool { forall|j: int| 0 <= j < w.files@.len() ==> file_ok(#[trigger] w.files@[j]) }
pub open spec fn ast_ok(a: Ast) -> bool { forall|i: int| 0 <= i < a.wikis@.len() ==> files_ok(#[trigger] a.wikis@[i]) }
/// the wikis to process, with their place in the configuration
pub open spec fn sel_pred<'a>(inc: Seq<IndexOrName>) -> spec_fn((usize, &'a HtmlWikiConfig)) -> bool { |x: (usize, &'a HtmlWikiConfig)| chosen(inc, x.0, opt_text(x.1.name)) }
pub open spec fn sel<'a>(c: HtmlConfig, inc: Seq<IndexOrName>) -> Seq<(usize, &'a HtmlWikiConfig)> { enumd::<'a, HtmlWikiConfig>(c.wikis@).filter(sel_pred(inc)) }
/// wiki w holds the first n pages of the configured wiki
pub open spec fn loads(w: Wiki, x: (usize, &HtmlWikiConfig), n: int) -> bool {
    w.index == x.0 && opt_text(w.name) == opt_text(x.1.name) && w.path@ == x.1.path@ && files_ok(w)
    && w.files@.len() == n && forall|j: int| #![trigger w.files@[j]] #![trigger entries(x.1.path@, x.1.ext@)[j]] 0 <= j < n ==> w.files@[j].path@ == entries(x.1.path@, x.1.ext@)[j].at()
}
pub open spec fn loads_all(w: Wiki, x: (usize, &HtmlWikiConfig)) -> bool { loads(w, x, entries(x.1.path@, x.1.ext@).len() as int) }
/// the file name is the checksum of a page of the wikis
pub open spec fn kept_name(s: Seq<(usize, &HtmlWikiConfig)>, n: Seq<u8>) -> bool {
    exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < entries(s[i].1.path@, s[i].1.ext@).len() && n == str_bytes(cksum(file_text(#[trigger] entries(s[i].1.path@, s[i].1.ext@)[j].at())))
}
@endraw
@fn Ast::find_file_by_path
    ensures match ret {
        Some(f) => f.path@ == path.as_spec()@ && exists|i: int, j: int| 0 <= i < self.wikis@.len() && 0 <= j < self.wikis@[i].files@.len() && *f == #[trigger] self.wikis@[i].files@[j],
        None => forall|i: int, j: int| 0 <= i < self.wikis@.len() && 0 <= j < self.wikis@[i].files@.len() ==> (#[trigger] self.wikis@[i].files@[j]).path@ != path.as_spec()@ },
@@closure 0
    ensures match r__ {
        Some(f) => f.path@ == path.as_spec()@ && exists|j: int| 0 <= j < w.files@.len() && *f == #[trigger] w.files@[j],
        None => forall|j: int| 0 <= j < w.files@.len() ==> (#[trigger] w.files@[j]).path@ != path.as_spec()@ }
@@closure 1
    ensures r__ == (f.path@ == path.as_spec()@)
@fn load_wiki_file
    requires cache_all(cache@, no_cache)
    ensures match ret { Ok(f) => f.path@ == path@ && file_ok(f), Err(_) => true },
@@closure 0
    ensures match r__ { Ok(p) => decodes(reader.at(), p.v()), Err(_) => true }
@fn WikiFile::load
    requires cache_all(cache@, no_cache)
    ensures match ret { Ok(f) => f.path@ == path@ && file_ok(f), Err(_) => true },
@fn Ast::load_file
    requires cache_all(cache@, no_cache), ast_ok(*old(self))
    ensures ast_ok(*final(self)), match ret { Ok(f) => f.path@ == path@ && file_ok(*f), Err(_) => true },
@fn load_ast desugar
    requires cache_all(cache@, no_cache),
        !no_cache && !no_prune_cache ==> forall|e: DirEntry| files(cache@).contains(e) && !kept_name(sel(*config, include@), name_of(e.at())) ==> #[trigger] may_remove(e.at()),
    ensures match ret { Ok(a) => ast_ok(a) && a.wikis@.len() == sel(*config, include@).len() && forall|i: int| 0 <= i < a.wikis@.len() ==> loads_all(#[trigger] a.wikis@[i], sel(*config, include@)[i]), Err(_) => true },
@@closure 0
    ensures r__ == chosen(include@, p__0.0, opt_text(p__0.1.name))
@@closure 1
    ensures r__ == picks(*f, *idx, opt_text(wiki.name))
@@closure 2
    ensures r__ == ok_of()(e)
@@closure 3
    ensures r__ == page_pred(wiki.ext@)(*e)
@@closure 4
    ensures *r__ == w.files
@@closure 5
    ensures r__@ == f.checksum@
@@closure 6
    ensures r__ == ok_of()(e)
@@closure 7
    ensures r__ == file_pred()(*e)
@@head
    let ghost ss = sel(*config, include@);
    let ghost fs = files(cache@);
@@loop 0
    invariant
        ast.wikis@.len() <= ss.len(), it__0@ == ss.skip(ast.wikis@.len() as int), forall|i: int| #![trigger ast.wikis@[i]] #![trigger ss[i]] 0 <= i < ast.wikis@.len() ==> loads_all(ast.wikis@[i], ss[i]),
    decreases it__0@.len(),
@@loop 1
    invariant
        0 < ast.wikis@.len() <= ss.len(), it__0@ == ss.skip(ast.wikis@.len() as int), forall|i: int| 0 <= i < ast.wikis@.len() - 1 ==> loads_all(#[trigger] ast.wikis@[i], ss[i]),
        ast.wikis@.last().files@.len() <= entries(wiki.path@, wiki.ext@).len(), it__1@ == entries(wiki.path@, wiki.ext@).skip(ast.wikis@.last().files@.len() as int),
        loads(ast.wikis@.last(), (index, wiki), ast.wikis@.last().files@.len() as int),
    decreases it__1@.len(),
@@loop 2
    invariant
        it__2@.len() <= fs.len(), it__2@ == fs.skip(fs.len() - it__2@.len()),
        forall|i: int, j: int| 0 <= i < ast.wikis@.len() && 0 <= j < ast.wikis@[i].files@.len() ==> checksums@.contains((#[trigger] ast.wikis@[i].files@[j]).checksum@),
    decreases it__2@.len(),
@fn Ast::load
    requires cache_all(cache@, no_cache),
        !no_cache && !no_prune_cache ==> forall|e: DirEntry| files(cache@).contains(e) && !kept_name(sel(*config, include@), name_of(e.at())) ==> #[trigger] may_remove(e.at()),
    ensures match ret { Ok(a) => ast_ok(a) && a.wikis@.len() == sel(*config, include@).len() && forall|i: int| 0 <= i < a.wikis@.len() ==> loads_all(#[trigger] a.wikis@[i], sel(*config, include@)[i]), Err(_) => true },
@source vimwiki-cli/src/subcommand/convert.rs
@raw
/// the wiki a file belongs to: a deepest wiki holding it, or the default one
pub open spec fn wiki_of(c: HtmlConfig, p: Seq<Comp>, w: HtmlWikiConfig) -> bool {
    (exists|i: int| #[trigger] deepest(c, p, i) && w == c.wikis@[i]) || ((forall|i: int| 0 <= i < c.wikis@.len() ==> !below(p, (#[trigger] c.wikis@[i]).path@)) && is_dflt(w))
}
/// o is the output file of the page at p
pub open spec fn is_out(c: HtmlConfig, p: Seq<Comp>, o: Seq<Comp>) -> bool { exists|w: HtmlWikiConfig| wiki_of(c, p, w) && o == #[trigger] out_path(w, p, str_bytes("html"@)) }
pub open spec fn outs_ok(c: HtmlConfig) -> bool { forall|i: int| 0 <= i < c.wikis@.len() ==> (#[trigger] c.wikis@[i]).path_html@.len() > 0 }
/// leave to write the HTML of the page to its output file, or to print it
pub open spec fn file_perm(c: HtmlConfig, p: Seq<Comp>, stdout: bool) -> bool {
    let t = html_of(parsed(file_text(p)), cv(c));
    if stdout { may_print(t) } else { forall|o: Seq<Comp>| is_out(c, p, o) ==> #[trigger] may_write(o, t) }
}
pub open spec fn file_done(c: HtmlConfig, p: Seq<Comp>, stdout: bool) -> bool {
    let t = html_of(parsed(file_text(p)), cv(c));
    if stdout { printed(t) } else { exists|o: Seq<Comp>| is_out(c, p, o) && #[trigger] wrote(o, t) }
}
/// the configuration a page is converted under: the page and the wiki holding it are set
pub open spec fn page_cfg(c: HtmlConfig, p: Seq<Comp>, d: HtmlConfig) -> bool {
    d == (HtmlConfig { runtime: d.runtime, ..c }) && d.runtime.page@ == p
    && match d.runtime.wiki_index { Some(i) => deepest(c, p, i as int), None => forall|j: int| 0 <= j < c.wikis@.len() ==> !below(p, (#[trigger] c.wikis@[j]).path@) }
}
pub open spec fn page_perm(c: HtmlConfig, p: Seq<Comp>, stdout: bool) -> bool { forall|d: HtmlConfig| page_cfg(c, p, d) ==> #[trigger] file_perm(d, p, stdout) }
pub open spec fn page_done(c: HtmlConfig, p: Seq<Comp>, stdout: bool) -> bool { exists|d: HtmlConfig| page_cfg(c, p, d) && #[trigger] file_done(d, p, stdout) }
@endraw
@fn process_file
    requires ast_ok(*old(ast)), cache_all(cache@, no_cache), file_perm(config, input_path@, stdout), outs_ok(config)
    ensures ast_ok(*final(ast)), ret is Ok ==> file_done(config, input_path@, stdout),
@@head
    proof { no_sep_html(); }
@fn process_path desugar
    requires ast_ok(*old(ast)), cache_all(cache@, no_cache), outs_ok(config),
        forall|i: int| 0 <= i < entries(input_path@, ext@).len() ==> page_perm(config, (#[trigger] entries(input_path@, ext@)[i]).at(), stdout),
    ensures ast_ok(*final(ast)), ret is Ok ==> forall|i: int| 0 <= i < entries(input_path@, ext@).len() ==> page_done(config, (#[trigger] entries(input_path@, ext@)[i]).at(), stdout),
@@closure 0
    ensures r__ == ok_of()(e)
@@closure 1
    ensures r__ == page_pred(ext@)(*e)
@@closure 2
    ensures r__.page@ == page_path@, r__.wiki_index == wiki_index
@@head
    let ghost es = entries(input_path@, ext@);
@@loop 0
    invariant
        ast_ok(*ast), it__0@.len() <= es.len(), it__0@ == es.skip(es.len() - it__0@.len()),
        forall|i: int| 0 <= i < es.len() - it__0@.len() ==> page_done(config, (#[trigger] es[i]).at(), stdout),
    decreases it__0@.len(),
@raw
/// vimwiki's style sheet
pub uninterp spec fn style_text() -> Seq<char>;
pub exec static DEFAULT_STYLE_FILE: &'static str ensures DEFAULT_STYLE_FILE@ == style_text() { style__() }
#[verifier::external_body] pub const fn style__() -> (r: &'static str) ensures r@ == style_text() { "" }
pub open spec fn dir_perm(c: HtmlConfig, d: Seq<Comp>, x: Seq<char>, stdout: bool) -> bool { forall|i: int| 0 <= i < entries(d, x).len() ==> page_perm(c, (#[trigger] entries(d, x)[i]).at(), stdout) }
pub open spec fn dir_done(c: HtmlConfig, d: Seq<Comp>, x: Seq<char>, stdout: bool) -> bool { forall|i: int| 0 <= i < entries(d, x).len() ==> page_done(c, (#[trigger] entries(d, x)[i]).at(), stdout) }
pub open spec fn css_at(h: Seq<Comp>) -> Seq<Comp> { joined(h, str_path("style.css"@)) }
/// every page of the wiki, and the style sheet if asked for
pub open spec fn wiki_perm(c: HtmlConfig, w: HtmlWikiConfig, stdout: bool, css: bool) -> bool { dir_perm(c, w.path@, w.ext@, stdout) && (!stdout && css ==> may_write(css_at(w.path_html@), style_text())) }
pub open spec fn wiki_done(c: HtmlConfig, w: HtmlWikiConfig, stdout: bool, css: bool) -> bool { dir_done(c, w.path@, w.ext@, stdout) && (!stdout && css ==> wrote(css_at(w.path_html@), style_text())) }
/// every page in a path given on the command line
pub open spec fn path_perm(c: HtmlConfig, p: Seq<Comp>, stdout: bool, css: bool) -> bool { dir_perm(c, canon(p), "wiki"@, stdout) && (!stdout && css ==> may_write(css_at(dflt_html()), style_text())) }
pub open spec fn path_done(c: HtmlConfig, p: Seq<Comp>, stdout: bool, css: bool) -> bool { dir_done(c, canon(p), "wiki"@, stdout) && (!stdout && css ==> wrote(css_at(dflt_html()), style_text())) }
@endraw
@fn convert desugar
    requires ast_ok(ast), cache_all(opt.cache@, opt.no_cache), outs_ok(config),
        cmd.extra_paths@.len() == 0 ==> forall|i: int| 0 <= i < sel(config, opt.include@).len() ==> wiki_perm(config, *(#[trigger] sel(config, opt.include@)[i]).1, cmd.stdout, cmd.include_vimwiki_css),
        forall|k: int| 0 <= k < cmd.extra_paths@.len() ==> path_perm(config, (#[trigger] cmd.extra_paths@[k])@, cmd.stdout, cmd.include_vimwiki_css),
    ensures ret is Ok ==>
        (cmd.extra_paths@.len() == 0 ==> forall|i: int| 0 <= i < sel(config, opt.include@).len() ==> wiki_done(config, *(#[trigger] sel(config, opt.include@)[i]).1, cmd.stdout, cmd.include_vimwiki_css))
        && forall|k: int| 0 <= k < cmd.extra_paths@.len() ==> path_done(config, (#[trigger] cmd.extra_paths@[k])@, cmd.stdout, cmd.include_vimwiki_css),
@@closure 0
    ensures r__ == chosen(opt.include@, p__0.0, opt_text(p__0.1.name))
@@head
    let ghost ss = sel(config, opt.include@);
    let ghost ps = cmd.extra_paths@;
    let ghost out = cmd.stdout;
    let ghost css = cmd.include_vimwiki_css;
@@loop 0
    invariant
        ast_ok(ast), it__0@.len() <= ss.len(), it__0@ == ss.skip(ss.len() - it__0@.len()),
        forall|i: int| 0 <= i < ss.len() - it__0@.len() ==> wiki_done(config, *(#[trigger] ss[i]).1, out, css),
    decreases it__0@.len(),
@@loop 1
    invariant
        ast_ok(ast), it__1@.len() <= ps.len(), it__1@ == ps.skip(ps.len() - it__1@.len()),
        forall|i: int| 0 <= i < ps.len() - it__1@.len() ==> path_done(config, (#[trigger] ps[i])@, out, css),
    decreases it__1@.len(),
@source vimwiki-cli/src/utils.rs
@raw
/// the configuration a text stands for, the default one, the wikis defined in vim
pub uninterp spec fn toml_cfg(t: Seq<char>) -> HtmlConfig;
pub uninterp spec fn dflt_cfg() -> HtmlConfig;
pub uninterp spec fn vim_wikis() -> Seq<HtmlWikiConfig>;
impl Default for HtmlConfig { #[verifier::external_body] fn default() -> (r: HtmlConfig) ensures r == dflt_cfg() { unimplemented!() } }
#[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<HtmlConfig, TomlError>) ensures match r { Ok(c) => c == toml_cfg(s@), Err(_) => true } { unimplemented!() }
pub open spec fn base_cfg(opt: CommonOpt) -> HtmlConfig { match opt.config { Some(p) => toml_cfg(file_text(p@)), None => dflt_cfg() } }
/// wikis defined in vim come first, and only when there are no others or merging is asked for
pub open spec fn known_wikis(b: Seq<HtmlWikiConfig>, merge: bool, w: Seq<HtmlWikiConfig>) -> bool { w == b || ((b.len() == 0 || merge) && w == vim_wikis() + b) }
/// directory of the temporary wiki for a path given on the command line
pub open spec fn tmp_dir(p: Seq<Comp>) -> Option<Seq<Comp>> { if a_dir(canon(p)) { Some(canon(p)) } else if canon(p).len() > 0 && canon(p).last() != Comp::Root { Some(canon(p).drop_last()) } else { None } }
pub open spec fn tmp_dirs(ps: Seq<PathBuf>) -> Seq<Option<Seq<Comp>>> { ps.map_values(|p: PathBuf| tmp_dir(p@)) }
pub open spec fn wdirs(w: Seq<HtmlWikiConfig>) -> Seq<Seq<Comp>> { w.map_values(|x: HtmlWikiConfig| x.path@) }
/// w = the wikis b followed by temporary wikis for the paths
pub open spec fn with_tmp(b: Seq<HtmlWikiConfig>, ps: Seq<PathBuf>, w: Seq<HtmlWikiConfig>) -> bool {
    b.len() <= w.len() && w.take(b.len() as int) == b && wdirs(w.skip(b.len() as int)) == somes(tmp_dirs(ps)) && forall|i: int| b.len() <= i < w.len() ==> is_tmp(#[trigger] w[i])
}
mod cfglem {
    use super::*;
    verus! {
    pub broadcast proof fn b_none(b: Seq<HtmlWikiConfig>, ps: Seq<PathBuf>) ensures with_tmp(b, #[trigger] ps.take(0), #[trigger] idw(b)) { assert(b.take(b.len() as int) =~= b); assert(wdirs(b.skip(b.len() as int)) =~= somes(tmp_dirs(ps.take(0)))); }
    pub broadcast proof fn b_all(ps: Seq<PathBuf>) ensures #[trigger] ps.take(ps.len() as int) == ps { assert(ps.take(ps.len() as int) =~= ps); }
    pub broadcast proof fn b_tmp(b: Seq<HtmlWikiConfig>, ps: Seq<PathBuf>, w: Seq<HtmlWikiConfig>, k: int, x: HtmlWikiConfig)
        requires #[trigger] with_tmp(b, ps.take(k), w), 0 <= k < ps.len(), is_tmp(x), Some(x.path@) == tmp_dir(ps[k]@)
        ensures with_tmp(b, ps.take(k + 1), #[trigger] w.push(x))
    {
        let n = b.len() as int;
        assert(w.push(x).take(n) =~= w.take(n));
        assert(tmp_dirs(ps.take(k + 1)).drop_last() =~= tmp_dirs(ps.take(k)));
        assert(tmp_dirs(ps.take(k + 1)).last() == tmp_dir(ps[k]@));
        assert(wdirs(w.push(x).skip(n)) =~= wdirs(w.skip(n)).push(x.path@));
    }
    pub broadcast proof fn b_skip(b: Seq<HtmlWikiConfig>, ps: Seq<PathBuf>, w: Seq<HtmlWikiConfig>, k: int)
        requires #[trigger] with_tmp(b, ps.take(k), w), 0 <= k < ps.len(), canon(ps[k]@).len() == 0 || canon(ps[k]@).last() == Comp::Root, !a_dir(#[trigger] canon(ps[k]@))
        ensures with_tmp(b, ps.take(k + 1), w)
    {
        assert(tmp_dirs(ps.take(k + 1)).drop_last() =~= tmp_dirs(ps.take(k)));
        assert(tmp_dirs(ps.take(k + 1)).last() == tmp_dir(ps[k]@));
    }
    }
}
pub open spec fn idw(b: Seq<HtmlWikiConfig>) -> Seq<HtmlWikiConfig> { b }
@endraw
@fn load_vimwiki_list trusted
@@ret io::Result<Vec<HtmlWikiConfig>>
    ensures match ret { Ok(w) => w@ == vim_wikis(), Err(_) => true },
@fn load_html_config desugar
    ensures match ret { Ok(c) => exists|b: Seq<HtmlWikiConfig>| known_wikis(base_cfg(*opt).wikis@, opt.merge, b) && #[trigger] with_tmp(b, extra_paths@, c.wikis@) && c == (HtmlConfig { wikis: c.wikis, ..base_cfg(*opt) }), Err(_) => true },
@@head
    broadcast use {cfglem::b_none, cfglem::b_all, cfglem::b_tmp, cfglem::b_skip};
    let ghost ps = extra_paths@;
    let ghost bc = base_cfg(*opt);
    let ghost mg = opt.merge;
    proof { let v = vim_wikis() + bc.wikis@; assert(idw(bc.wikis@) == bc.wikis@); assert(idw(v) == v); assert(with_tmp(bc.wikis@, ps.take(0), bc.wikis@)); assert(with_tmp(v, ps.take(0), v)); }
@@loop 0
    invariant
        it__0@.len() <= ps.len(), it__0@ == refs::<PathBuf>(ps).skip(ps.len() - it__0@.len()), config == (HtmlConfig { wikis: config.wikis, ..bc }),
        exists|b: Seq<HtmlWikiConfig>| known_wikis(bc.wikis@, mg, b) && #[trigger] with_tmp(b, ps.take(ps.len() - it__0@.len()), config.wikis@),
    decreases it__0@.len(),
@source vimwiki-cli/src/lib.rs
@type ExitCodes
@raw
/// configuration the tool works with: the file's or the default one, wikis of vim, temporary wikis
pub uninterp spec fn fmt_cfg(p: Option<PathBuf>) -> VimwikiConfig;
/// leave to keep and prune the cache, whatever configuration is found
pub open spec fn load_perm(opt: CommonOpt, extra: Seq<PathBuf>) -> bool {
    cache_all(opt.cache@, opt.no_cache)
    && (!opt.no_cache && !opt.no_prune_cache ==> forall|c: HtmlConfig, e: DirEntry| #![trigger sel(c, opt.include@), may_remove(e.at())] loaded(opt, extra, c) && files(opt.cache@).contains(e) && !kept_name(sel(c, opt.include@), name_of(e.at())) ==> may_remove(e.at()))
}
/// leave to do what a conversion does, and the conversion done
pub open spec fn conv_perm(opt: CommonOpt, cmd: ConvertSubcommand, c: HtmlConfig) -> bool {
    outs_ok(c) && (cmd.extra_paths@.len() == 0 ==> forall|i: int| 0 <= i < sel(c, opt.include@).len() ==> wiki_perm(c, *(#[trigger] sel(c, opt.include@)[i]).1, cmd.stdout, cmd.include_vimwiki_css))
    && forall|k: int| 0 <= k < cmd.extra_paths@.len() ==> path_perm(c, (#[trigger] cmd.extra_paths@[k])@, cmd.stdout, cmd.include_vimwiki_css)
}
pub open spec fn conv_done(opt: CommonOpt, cmd: ConvertSubcommand, c: HtmlConfig) -> bool {
    (cmd.extra_paths@.len() == 0 ==> forall|i: int| 0 <= i < sel(c, opt.include@).len() ==> wiki_done(c, *(#[trigger] sel(c, opt.include@)[i]).1, cmd.stdout, cmd.include_vimwiki_css))
    && forall|k: int| 0 <= k < cmd.extra_paths@.len() ==> path_done(c, (#[trigger] cmd.extra_paths@[k])@, cmd.stdout, cmd.include_vimwiki_css)
}
pub open spec fn run_perm(o: Opt) -> bool {
    match o.subcommand {
        Subcommand::Convert(cmd) => load_perm(o.common, cmd.extra_paths@) && forall|c: HtmlConfig| #[trigger] loaded(o.common, cmd.extra_paths@, c) ==> conv_perm(o.common, cmd, c),
        Subcommand::Format(cmd) => fmt_all_perm(cmd, fmt_cfg(o.common.config)),
        Subcommand::Serve(cmd) => load_perm(o.common, cmd.extra_paths@),
        Subcommand::Inspect(cmd) => load_perm(o.common, cmd.extra_paths@),
    }
}
pub open spec fn run_done(o: Opt) -> bool {
    match o.subcommand {
        Subcommand::Convert(cmd) => exists|c: HtmlConfig| #[trigger] loaded(o.common, cmd.extra_paths@, c) && conv_done(o.common, cmd, c),
        Subcommand::Format(cmd) => fmt_all_done(cmd, fmt_cfg(o.common.config)),
        _ => true,
    }
}
pub open spec fn loaded(opt: CommonOpt, extra: Seq<PathBuf>, c: HtmlConfig) -> bool {
    exists|b: Seq<HtmlWikiConfig>| known_wikis(base_cfg(opt).wikis@, opt.merge, b) && #[trigger] with_tmp(b, extra, c.wikis@) && c == (HtmlConfig { wikis: c.wikis, ..base_cfg(opt) })
}
@endraw
@fn load_format_config trusted
    ensures match ret { Ok(c) => c == fmt_cfg(opt.config), Err(_) => true },
@fn load_html_config_and_ast
    requires load_perm(*opt, extra_paths@)
    ensures match ret { Ok((c, a)) => loaded(*opt, extra_paths@, c) && ast_ok(a) && a.wikis@.len() == sel(c, opt.include@).len() && forall|i: int| 0 <= i < a.wikis@.len() ==> loads_all(#[trigger] a.wikis@[i], sel(c, opt.include@)[i]), Err(_) => true },
@fn run
    requires run_perm(opt)
    ensures ret is Ok ==> run_done(opt),
@source vimwiki-cli/src/subcommand/format.rs
@fn format stub
    requires fmt_all_perm(cmd, config)
    ensures ret is Ok ==> fmt_all_done(cmd, config),
@source vimwiki-cli/src/subcommand/serve.rs
@fn serve trusted
    ensures true,
@source vimwiki-cli/src/subcommand/inspect.rs
@fn inspect trusted
    ensures true,
