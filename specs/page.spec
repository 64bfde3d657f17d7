//# filling a page template (unit of P16)
@include std.rs
@include path.rs
@include foriter.rs
@fnhead broadcast use {pathax::ax_deref, pathax::ax_cow_ref, pathax::ax_path, pathax::ax_pathbuf, pathax::ax_cow_b, pathax2::ax_str, fillax::str_ext, fillax::disp_string, fillax::disp_cow, fillax::deref_cow};
@include wikitypes.spec
@raw
// ---- the contract of a template -------------------------------------------------------------------------------------
pub open spec fn holds(s: Seq<char>, c: char) -> bool { s.contains(c) }
/// place of the first c
pub open spec fn pos(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + pos(s.skip(1), c) } }
/// a template with each %name% that has a value replaced by it, in one pass
pub open spec fn fill(t: Seq<char>, v: spec_fn(Seq<char>) -> Option<Seq<char>>) -> Seq<char> decreases t.len() {
    if !holds(t, '%') { t } else {
        let i = pos(t, '%');
        let a = t.skip(i + 1);
        if 0 <= i < t.len() {
            if holds(a, '%') && 0 <= pos(a, '%') < a.len() && v(a.take(pos(a, '%'))) is Some { t.take(i) + v(a.take(pos(a, '%')))->0 + fill(a.skip(pos(a, '%') + 1), v) }
            else { t.take(i) + seq!['%'] + fill(a, v) }
        } else { t }
    }
}
/// the text before and after the first c
pub open spec fn cut(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> { if holds(s, c) { Some((s.take(pos(s, c)), s.skip(pos(s, c) + 1))) } else { None } }
mod fillax {
    use super::*;
    verus! {
    /// strings of equal characters are equal
    pub broadcast axiom fn str_ext(a: &str, b: &str) ensures #![trigger a@, b@] (a@ == b@) == (a == b);
    pub broadcast axiom fn disp_string(s: &String, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r) ==> r@ == s@;
    pub broadcast axiom fn disp_cow(s: &Cow<str>, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<str>>(s, r) ==> r@ == cow_str(*s);
    pub broadcast axiom fn deref_cow<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    pub broadcast proof fn pos_in(s: Seq<char>, c: char) ensures 0 <= #[trigger] pos(s, c) <= s.len(), holds(s, c) ==> pos(s, c) < s.len() && s[pos(s, c)] == c decreases s.len() {
        if s.len() > 0 && s[0] != c { pos_in(s.skip(1), c); if holds(s, c) { let k = choose|k: int| 0 <= k < s.len() && s[k] == c; assert(s.skip(1)[k - 1] == c); assert(s.skip(1).contains(c)); assert(s[1 + pos(s.skip(1), c)] == s.skip(1)[pos(s.skip(1), c)]); } }
    }
    }
}
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub trait SplitOnce__ { fn split_once__(&self, c: char) -> (r: Option<(&str, &str)>); }
impl SplitOnce__ for str {
    /// assumed of std
    #[verifier::external_body] fn split_once__(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some(p) => cut(self@, c) == Some((p.0@, p.1@)), None => cut(self@, c) is None } { unimplemented!() }
}
@endraw
@source vimwiki-core/src/lang/output/html/convert.rs
@fn fill_template
    requires forall|n: &str| #[trigger] value.requires((n,)),
    ensures forall|v: spec_fn(Seq<char>) -> Option<Seq<char>>| (forall|n: &str, r: Option<&'a str>| #[trigger] value.ensures((n,), r) ==> (match r { Some(t) => v(n@) == Some(t@), None => v(n@) is None })) ==> ret@ == #[trigger] fill(template@, v),
@@head
    broadcast use {fillax::pos_in};
    proof { reveal_strlit("%"); }
@@loop 0
    invariant forall|n: &str| #[trigger] value.requires((n,)), 
        forall|v: spec_fn(Seq<char>) -> Option<Seq<char>>| (forall|n: &str, r: Option<&'a str>| #[trigger] value.ensures((n,), r) ==> (match r { Some(t) => v(n@) == Some(t@), None => v(n@) is None })) ==> #[trigger] fill(template@, v) == filled@ + fill(rest@, v),
    decreases rest@.len()
@source vimwiki-core/src/lang/output/html/formatter.rs
@type HtmlFormatter
@raw
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: std::vec::Vec<(K, V)> }
impl<K, V> HashMap<K, V> { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NaiveDate { x: u64 }
/// a date as it is printed (assumed of chrono)
pub uninterp spec fn date_text(d: NaiveDate) -> Seq<char>;
impl NaiveDate { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == date_text(*self) { unimplemented!() } }
#[verifier::external_body] pub struct LocalTime__ { x: u64 }
pub struct Local {}
/// the date the clock shows while the page is made
pub uninterp spec fn today() -> NaiveDate;
impl Local { #[verifier::external_body] pub fn now() -> (r: LocalTime__) { unimplemented!() } }
impl LocalTime__ { #[verifier::external_body] pub fn naive_local(self) -> (r: LocalTime__) { unimplemented!() } #[verifier::external_body] pub fn date(self) -> (r: NaiveDate) ensures r == today() { unimplemented!() } }
#[verifier::external_body] pub struct Error { x: u64 }
pub enum HtmlOutputError { TemplateNotLoaded { source: Error }, Other }
/// what a file holds
pub uninterp spec fn file_text(p: Seq<Comp>) -> Option<Seq<char>>;
#[verifier::external_body] pub fn read_to_string<P: AsRef<Path>>(p: P) -> (r: Result<String, Error>) ensures match r { Ok(s) => file_text(p.as_spec()@) == Some(s@), Err(_) => file_text(p.as_spec()@) is None } { unimplemented!() }
/// the text with its markup characters escaped (assumed contract of voca_rs)
pub open spec fn esc1(c: char) -> Seq<char> { match c { '&' => "&amp;"@, '<' => "&lt;"@, '>' => "&gt;"@, '"' => "&quot;"@, '\'' => "&#x27;"@, '`' => "&#x60;"@, _ => seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
#[verifier::external_body] pub fn escape_html(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
/// verified in the unit of P11
#[verifier::external_body] pub fn path_to_uri_string(path: &Path) -> (r: String) ensures r@ == uri_str(path@) { unimplemented!() }
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (o: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
impl Path { #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures r.is_some() == (self@.len() > 0 && self@.last() is Name), r.is_some() ==> r.unwrap()@ == stem(self@.last()->Name_0) { unimplemented!() } }
// ---- what a page is made of -------------------------------------------------------------------------------------------
pub trait OutputFormatter: Sized { type Error; spec fn frame(self, o: Self) -> bool; }
/// what an element may do to the formatter
pub trait Output<F: OutputFormatter> {
    spec fn wrote(&self, o: F, f: F) -> bool;
    fn fmt(&self, f: &mut F) -> (ret: Result<(), F::Error>) ensures ret is Ok ==> self.wrote(*old(f), *final(f)), final(f).frame(*old(f));
}
/// the configuration of a formatter is private and has no setter
impl OutputFormatter for HtmlFormatter { type Error = HtmlOutputError; open spec fn frame(self, o: Self) -> bool { self.config == o.config } }
pub open spec fn fresh(f: HtmlFormatter, c: HtmlConfig) -> bool { f.config == c && f.title is None && f.date is None && f.template is None && f.content@.len() == 0 }
pub open spec fn page_title(f: HtmlFormatter) -> Seq<char> {
    let p = f.config.runtime.page@;
    match f.title { Some(t) => t@, None => if p.len() > 0 && p.last() is Name { lossy(stem(p.last()->Name_0)) } else { seq![] } }
}
pub open spec fn root_of(c: HtmlConfig) -> Seq<Comp> { match active(c) { Some(w) => if below(c.runtime.page@, w.path@) && c.runtime.page@.len() > w.path@.len() { ups((c.runtime.page@.len() - w.path@.len() - 1) as nat) } else { seq![] }, None => seq![] } }
pub open spec fn within(c: HtmlConfig) -> Seq<Comp> { c.runtime.page@.skip(match active(c) { Some(w) => w.path@.len() as int, None => dir_of(c.runtime.page@).len() as int }) }
/// the value of a template variable
pub open spec fn pick(n: Seq<char>, title: Seq<char>, date: Seq<char>, root: Seq<char>, wiki: Seq<char>, css: Seq<char>, content: Seq<char>) -> Option<Seq<char>> {
    if n == "title"@ { Some(title) } else if n == "date"@ { Some(date) } else if n == "root_path"@ { Some(root) } else if n == "wiki_path"@ { Some(wiki) }
    else if n == "css"@ { Some(css) } else if n == "encoding"@ { Some("utf-8"@) } else if n == "content"@ { Some(content) } else { None }
}
pub open spec fn opt_text(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn root_text(c: HtmlConfig) -> Seq<char> { let u = uri_str(root_of(c)); if u.len() == 0 { seq![] } else { u + "/"@ } }
pub open spec fn vars(f: HtmlFormatter) -> spec_fn(Seq<char>) -> Option<Seq<char>> {
    |n: Seq<char>| pick(n, esc(page_title(f)), date_text(match f.date { Some(d) => d, None => today() }), root_text(f.config), uri_str(within(f.config)), match active(f.config) { Some(w) => w.css_name@, None => "style.css"@ }, f.content@)
}
/// the template a page asks for, or the configured one
pub open spec fn template_of(f: HtmlFormatter) -> Option<Seq<char>> { match f.template { Some(p) => file_text(joined(f.config.template.dir@, p@)), None => Some(f.config.template.text@) } }
/// the page made of what was written
pub open spec fn made_of(f: HtmlFormatter, r: Result<String, HtmlOutputError>) -> bool {
    match template_of(f) { Some(t) => r is Ok && r->Ok_0@ == fill(t, vars(f)), None => r is Err }
}
pub trait ToHtmlPage {
    spec fn page(&self, config: HtmlConfig, r: Result<String, HtmlOutputError>) -> bool;
    fn to_html_page(&self, config: HtmlConfig) -> (ret: Result<String, HtmlOutputError>)
        requires match active(config) { Some(w) => below(config.runtime.page@, w.path@), None => true }
        ensures ret is Ok ==> self.page(config, ret);
}
@endraw
@source vimwiki-core/src/lang/output/html/config.rs
@fn HtmlConfig::active_page stub
    ensures ret@ == self.runtime.page@,
@fn HtmlConfig::to_current_wiki stub
    ensures match active(*self) { Some(w) => ret == w, None => ret.path@ == dir_of(self.runtime.page@) && is_tmp(ret) },
@fn HtmlConfig::to_active_page_path_to_wiki_root stub
    ensures ret@ == (match active(*self) { Some(w) => if below(self.runtime.page@, w.path@) && self.runtime.page@.len() > w.path@.len() { ups((self.runtime.page@.len() - w.path@.len() - 1) as nat) } else { seq![] }, None => seq![] }),
@fn HtmlConfig::as_active_page_path_within_wiki stub
    requires match active(*self) { Some(w) => below(self.runtime.page@, w.path@), None => true }
    ensures ret@ == self.runtime.page@.skip(match active(*self) { Some(w) => w.path@.len() as int, None => dir_of(self.runtime.page@).len() as int }),
@source vimwiki-core/src/lang/output/html/formatter.rs
@fn HtmlFormatter::new
    ensures fresh(ret, config),
@fn HtmlFormatter::config
    ensures *ret == self.config,
@fn HtmlFormatter::set_title
    ensures final(self).title is Some, final(self).title->0@ == title@, *final(self) == (HtmlFormatter { title: final(self).title, ..*old(self) }),
@fn HtmlFormatter::take_title
    ensures ret == old(self).title, *final(self) == (HtmlFormatter { title: None, ..*old(self) }),
@fn HtmlFormatter::set_date
    ensures *final(self) == (HtmlFormatter { date: Some(*date), ..*old(self) }),
@fn HtmlFormatter::take_date
    ensures ret == old(self).date, *final(self) == (HtmlFormatter { date: None, ..*old(self) }),
@fn HtmlFormatter::set_template
    ensures final(self).template is Some, final(self).template->0@ == template.as_spec()@, *final(self) == (HtmlFormatter { template: final(self).template, ..*old(self) }),
@fn HtmlFormatter::take_template
    ensures ret == old(self).template, *final(self) == (HtmlFormatter { template: None, ..*old(self) }),
@fn HtmlFormatter::get_content
    ensures ret@ == self.content@,
@source vimwiki-core/src/lang/output/html/convert.rs
@fn T<ToHtmlPage>::to_html_page
    requires match active(config) { Some(w) => below(config.runtime.page@, w.path@), None => true }
    ensures ret is Ok ==> exists|o: HtmlFormatter, f: HtmlFormatter| fresh(o, config) && #[trigger] self.wrote(o, f) && made_of(f, ret),
@@stub
@@closure 0
    ensures r__@ == (if formatter.config.runtime.page@.len() > 0 && formatter.config.runtime.page@.last() is Name { lossy(stem(formatter.config.runtime.page@.last()->Name_0)) } else { seq![] })
@@closure 1
    ensures r__@ == lossy(x@)
@@closure 2
    ensures r__ == today()
@@closure 3
    ensures r__@ == joined(formatter.config.template.dir@, p@)
@@closure 5
    ensures r__@ == formatter.config.template.text@
@@closure 6
    ensures opt_text(r__) == pick(name@, title@, date@, root_path@, wiki_path@, wiki.css_name@, formatter.content@)
@@impl
    open spec fn page(&self, config: HtmlConfig, r: Result<String, HtmlOutputError>) -> bool { exists|o: HtmlFormatter, f: HtmlFormatter| fresh(o, config) && #[trigger] self.wrote(o, f) && made_of(f, r) }

@source vimwiki-core/src/lang/output/html/formatter.rs
@fn HtmlFormatter::into_content
    ensures ret@ == self.content@,
@raw
pub trait ToHtmlString {
    spec fn content_of(&self, config: HtmlConfig, r: Result<String, HtmlOutputError>) -> bool;
    fn to_html_string(&self, config: HtmlConfig) -> (ret: Result<String, HtmlOutputError>) ensures ret is Ok ==> self.content_of(config, ret);
}
@endraw
@source vimwiki-core/src/lang/output/html/convert.rs
@fn T<ToHtmlString>::to_html_string
    ensures ret is Ok ==> exists|o: HtmlFormatter, f: HtmlFormatter| fresh(o, config) && #[trigger] self.wrote(o, f) && ret->Ok_0@ == f.content@,
@@stub
@@impl
    open spec fn content_of(&self, config: HtmlConfig, r: Result<String, HtmlOutputError>) -> bool { exists|o: HtmlFormatter, f: HtmlFormatter| fresh(o, config) && #[trigger] self.wrote(o, f) && r->Ok_0@ == f.content@ }
@source vimwiki-core/src/lang/elements/blocks/placeholders.rs
@type Placeholder
@raw
pub trait CowRef__ { fn as_ref__(&self) -> (r: &str); }
/// assumed of std
impl<'a> CowRef__ for Cow<'a, str> { #[verifier::external_body] fn as_ref__(&self) -> (r: &str) ensures r == cow_ref(self) { unimplemented!() } }
pub type HtmlOutputResult = Result<(), HtmlOutputError>;
/// a placeholder only takes down what it says, over what was said before
pub open spec fn took(p: Placeholder, o: HtmlFormatter, f: HtmlFormatter) -> bool {
    match p {
        Placeholder::Title(x) => f.title is Some && f.title->0@ == cow_str(x) && f == (HtmlFormatter { title: f.title, ..o }),
        Placeholder::Date(d) => f == (HtmlFormatter { date: Some(d), ..o }),
        Placeholder::Template(x) => f.template is Some && f.template->0@ == str_path(cow_str(x)) && f == (HtmlFormatter { template: f.template, ..o }),
        _ => f == o,
    }
}
@endraw
@source vimwiki-core/src/lang/output/html/mod.rs
@fn Placeholder<Output<HtmlFormatter>>::fmt
    ensures ret is Ok, took(*self, *old(f), *final(f)),
@@stub
@@impl
    open spec fn wrote(&self, o: HtmlFormatter, f: HtmlFormatter) -> bool { took(*self, o, f) }
