//# HTML output: tags balanced, document text never becomes markup (unit of P09)
@include std.rs
@include html.rs
@litgen
@raw
use std::borrow::Cow;
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
/// the text of a Cow
pub open spec fn cow_str(x: Cow<str>) -> Seq<char> { match x { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> Disp__ for Cow<'a, str> { open spec fn disp(&self) -> Seq<char> { cow_str(*self) } }
/// a located element stands for the element inside (Deref of the real type)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Located<T> { t: T }
impl<T> std::ops::Deref for Located<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) { unimplemented!() } }
impl<T> Disp__ for Located<T> { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HIter<'a, K, V> { k: &'a Vec<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HKeys<'a, K, V> { k: &'a Vec<(K, V)> }
impl<'a, K, V> HIter<'a, K, V> { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) { unimplemented!() } }
/// header levels and id counts stay below the largest address (assumed)
impl<'a> HKeys<'a, usize, String> { #[verifier::external_body] pub fn max(self) -> (r: Option<&'a usize>) ensures r is Some ==> *r->Some_0 < usize::MAX { unimplemented!() } }
#[verifier::external_body] pub struct NaiveDate { x: u8 }
impl Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveDate {}
#[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
#[verifier::external_body] pub struct URI<'a> { x: &'a str }
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
pub mod fmt { pub struct Error {} pub type Result = core::result::Result<(), Error>; }
pub mod nom { pub struct Err {} }
/// HashMap as a finite map (assumed contract of std)
impl<V> HashMap<usize, V> {
    pub uninterp spec fn view(&self) -> Map<usize, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: HKeys<usize, V>) { unimplemented!() }
    #[verifier::external_body] pub fn retain<F: Fn(&usize, &mut V) -> bool>(&mut self, f: F) requires forall|k: &usize, v: &mut V| #[trigger] f.requires((k, v))
        ensures (forall|k: &usize, v: &mut V, b: bool| #[trigger] f.ensures((k, v), b) ==> *final(v) == *v) ==> forall|k: usize| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] { unimplemented!() }
}
impl<V> Empty__ for HashMap<usize, V> { open spec fn none(&self) -> bool { forall|k: usize| !#[trigger] self@.contains_key(k) } }
impl<V> Empty__ for HashMap<String, V> { open spec fn none(&self) -> bool { true } }
pub trait Empty__ { spec fn none(&self) -> bool; }
impl<K, V> HashMap<K, V> where Self: Empty__ { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.none() { unimplemented!() } }
impl<K, V> HashMap<K, V> { #[verifier::external_body] pub fn iter(&self) -> (r: HIter<K, V>) { unimplemented!() } }
/// the id cache: text -> count
pub trait Ids__ {
    fn contains_key(&self, k: &str) -> (r: bool);
    fn get(&self, k: &str) -> (r: Option<&usize>) ensures r is Some ==> *r->Some_0 < usize::MAX;
    fn insert(&mut self, k: String, n: usize) -> (r: Option<usize>);
}
impl Ids__ for HashMap<String, usize> {
    #[verifier::external_body] fn contains_key(&self, k: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &str) -> (r: Option<&usize>) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String, n: usize) -> (r: Option<usize>) { unimplemented!() }
}
/// escaping (assumed contract of voca_rs::escape::escape_html: the six characters replaced one by one, & first)
pub open spec fn esc1(c: char) -> Seq<char> { match c { '&' => "&amp;"@, '<' => "&lt;"@, '>' => "&gt;"@, '"' => "&quot;"@, '\'' => "&#x27;"@, '`' => "&#x60;"@, _ => seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
mod esclem {
    use super::*;
    verus! {
    pub broadcast proof fn esc_safe(s: Seq<char>) ensures safe(#[trigger] esc(s)) decreases s.len() {
        if s.len() > 0 {
            esc_safe(s.drop_last());
            reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#x27;"); reveal_strlit("&#x60;");
            assert(safe(esc1(s.last())));
            htmllem::safe_add(esc(s.drop_last()), esc1(s.last()));
        }
    }
    pub broadcast axiom fn ax_cow_str<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    pub broadcast axiom fn ax_uri_safe(u: URIReference) ensures safe(#[trigger] u.disp());
    }
}
#[verifier::external_body] pub fn escape_html(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
/// a URI never holds < > or " (assumed of uriparse)
impl<'a> Disp__ for URIReference<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
impl<'a> URIReference<'a> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() } }
/// destinations of write!: pieces are appended in order (assumed of core::fmt; HtmlFormatter::write_str is verified)
pub trait Sink__ { spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool; }
impl Sink__ for String { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { self@ == o@ + t } }
#[verifier::external_body] pub fn w_lit__<W: Sink__ + ?Sized>(w: &mut W, s: &str) ensures final(w).wrote(&*old(w), s@) { unimplemented!() }
#[verifier::external_body] pub fn w_disp__<W: Sink__ + ?Sized, T: Disp__ + ?Sized>(w: &mut W, x: &T) ensures final(w).wrote(&*old(w), x.disp()) { unimplemented!() }
pub fn w_end__() -> (r: Result<(), HtmlOutputError>) ensures r is Ok { Ok(()) }
pub trait WriteStr__ { fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>); }
impl WriteStr__ for String { #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }
pub trait Into<T>: Sized { spec fn into_ens(self, r: T) -> bool; fn into__(self) -> (r: T) ensures self.into_ens(r); }
impl Into<String> for String { open spec fn into_ens(self, r: String) -> bool { r == self } fn into__(self) -> (r: String) { self } }
pub trait AsRef<T: ?Sized> { spec fn as_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_spec(); }
impl AsRef<Path> for PathBuf { uninterp spec fn as_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl<'a, T: ?Sized + AsRef<U>, U: ?Sized> AsRef<U> for &'a T { open spec fn as_spec(&self) -> &U { (**self).as_spec() } fn as_ref(&self) -> (r: &U) { (**self).as_ref() } }
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::convert::AsRef<B>>::as_ref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub trait Sp__ { spec fn sp_is_empty(&self) -> bool; }
impl Sp__ for str { open spec fn sp_is_empty(&self) -> bool { self@.len() == 0 } }
impl<'a> Disp__ for Cow<'a, Cow<'a, str>> { open spec fn disp(&self) -> Seq<char> { match *self { Cow::Borrowed(c) => cow_str(*c), Cow::Owned(c) => cow_str(c) } } }
impl AsRef<Path> for str { uninterp spec fn as_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) { unimplemented!() } }
/// loops
pub trait It__ { spec fn same(&self, o: &Self) -> bool; }
pub trait ForIter__ { type It: It__; spec fn made(&self, r: Self::It) -> bool; fn it__(self) -> (r: Self::It) ensures self.made(r); }
pub fn for_iter__<T: ForIter__>(x: T) -> (r: T::It) ensures x.made(r) { x.it__() }
impl<'a, T> It__ for std::slice::Iter<'a, T> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<'a, T> ForIter__ for std::slice::Iter<'a, T> { type It = Self; open spec fn made(&self, r: Self) -> bool { true } fn it__(self) -> (r: Self) { self } }
impl<'a, K, V> It__ for HIter<'a, K, V> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<'a, K, V> ForIter__ for HIter<'a, K, V> { type It = Self; open spec fn made(&self, r: Self) -> bool { true } fn it__(self) -> (r: Self) { self } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct EnumIter__<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> EnumIter__<'a, T> {
    pub uninterp spec fn total(&self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a T)>) ensures final(self).total() == old(self).total(), r is Some ==> r->Some_0.0 < old(self).total() { unimplemented!() }
}
impl<'a, T> It__ for EnumIter__<'a, T> { open spec fn same(&self, o: &Self) -> bool { self.total() == o.total() } }
impl<'a, T> ForIter__ for EnumIter__<'a, T> { type It = Self; open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
pub trait Enumerate__<'a, T: 'a>: Sized { fn enumerate__(self) -> (r: EnumIter__<'a, T>); }
impl<'a, T> Enumerate__<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::external_body] fn enumerate__(self) -> (r: EnumIter__<'a, T>) ensures r.total() == vstd::std_specs::iter::IteratorSpec::remaining(&self).len() { unimplemented!() }
}
macro_rules! refiter__ { ($($t:ident : $i:ty : $f:tt),* $(,)?) => { verus! { $(
    impl<'x, 'a> ForIter__ for &'x $t<'a> { type It = std::slice::Iter<'x, $i>; open spec fn made(&self, r: Self::It) -> bool { true } fn it__(self) -> (r: Self::It) { self.$f.iter() } }
)* } } }
refiter__! {
    Blockquote: Cow<'a, str>: lines, CodeBlock: Cow<'a, str>: lines, MathBlock: Cow<'a, str>: lines, MultiLineComment: Cow<'a, str>: 0,
    DefinitionList: Located<TermAndDefinitions<'a>>: items, List: Located<ListItem<'a>>: items, ListItemContents: Located<BlockElement<'a>>: 0,
    InlineElementContainer: Located<InlineElement<'a>>: elements, Tags: Tag<'a>: 0, DefinitionBundle: Located<Definition<'a>>: definitions,
}
impl<'x, T> ForIter__ for &'x Vec<T> { type It = std::slice::Iter<'x, T>; open spec fn made(&self, r: Self::It) -> bool { true } fn it__(self) -> (r: Self::It) { self.iter() } }
/// the output traits of the crate, with the standing contract of every HTML writer: on success the scanner is where it was
pub trait OutputFormatter: Sized {
    type Error;
    spec fn ready(&self) -> bool;
    spec fn at_same(&self, o: &Self) -> bool;
}
pub trait Output<F: OutputFormatter> {
    fn fmt(&self, f: &mut F) -> (ret: Result<(), F::Error>)
        requires old(f).ready()
        ensures ret is Ok ==> final(f).ready() && final(f).at_same(&*old(f));
}
@endraw
@include alltypes.spec
@source vimwiki-core/src/lang/output/html/config.rs
@type HtmlWikiConfig
@type HtmlRuntimeConfig
@type HtmlListConfig
@type HtmlParagraphConfig
@type HtmlLinkConfig
@type HtmlHeaderConfig
@type HtmlCodeConfig
@type HtmlCommentConfig
@type HtmlTemplateConfig
@type HtmlConfig
@source vimwiki-core/src/lang/output/html/formatter.rs
@type HtmlFormatter
@raw
impl HtmlFormatter {
    /// the scanner after everything written so far
    #[verifier::opaque] pub open spec fn st(&self) -> St { run(st0(), self.content@) }
    pub open spec fn wf(&self) -> bool { forall|k: usize| #[trigger] self.last_seen_headers@.contains_key(k) ==> safe(self.last_seen_headers@[k]@) }
    pub open spec fn but_content(&self, o: &Self) -> bool {
        self.config == o.config && self.last_seen_headers == o.last_seen_headers && self.id_cache == o.id_cache && self.title == o.title && self.date == o.date && self.template == o.template
    }
}
impl Sink__ for HtmlFormatter { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { self.content@ == o.content@ + t && self.st() == run(o.st(), t) && self.but_content(o) } }
impl OutputFormatter for HtmlFormatter {
    type Error = HtmlOutputError;
    open spec fn ready(&self) -> bool { self.st().mode is Text && self.wf() }
    open spec fn at_same(&self, o: &Self) -> bool { self.st() == o.st() }
}
#[verifier::external_body] pub struct OtherError__ { x: u8 }
/// the errors, all but one of them left out
pub enum HtmlOutputError { ThemeMissing(String), Other(OtherError__) }
pub type HtmlOutputResult = Result<(), HtmlOutputError>;
impl<'a> std::ops::Deref for DefinitionBundle<'a> { type Target = Vec<Located<Definition<'a>>>; fn deref(&self) -> (r: &Vec<Located<Definition<'a>>>) ensures *r == self.definitions { &self.definitions } }
impl<'a> std::ops::Deref for InlineElementContainer<'a> { type Target = Vec<Located<InlineElement<'a>>>; fn deref(&self) -> (r: &Vec<Located<InlineElement<'a>>>) ensures *r == self.elements { &self.elements } }
// ---- parts of the crate used by the writers (other units, or assumed) ----
impl HtmlConfig {
    #[verifier::external_body] pub fn to_current_wiki(&self) -> (r: HtmlWikiConfig) { unimplemented!() }
    #[verifier::external_body] pub fn as_active_page_path_within_wiki(&self) -> (r: &Path) { unimplemented!() }
}
#[verifier::external_body] pub struct LinkResolutionError { x: u8 }
#[verifier::external_body] pub fn resolve_link<'a, 'b>(config: &HtmlConfig, src_wiki: &HtmlWikiConfig, src: &Path, target: &'b Link<'a>) -> (r: Result<URIReference<'static>, LinkResolutionError>) { unimplemented!() }
impl HtmlOutputError { #[verifier::external_body] pub fn from__<E>(e: E) -> (r: Self) { unimplemented!() } }
impl<'a> Blockquote<'a> { #[verifier::external_body] pub fn line_groups(&self) -> (r: Groups__<'_, 'a>) { unimplemented!() } }
#[verifier::external_body] pub struct Groups__<'x, 'a> { x: &'x Vec<Cow<'a, str>> }
impl<'x, 'a> Groups__<'x, 'a> {
    #[verifier::external_body] pub fn count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'x [Cow<'a, str>]>) { unimplemented!() }
}
impl<'x, 'a> It__ for Groups__<'x, 'a> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<'x, 'a> ForIter__ for Groups__<'x, 'a> { type It = Self; open spec fn made(&self, r: Self) -> bool { true } fn it__(self) -> (r: Self) { self } }
pub trait Join__ { fn join(&self, s: &str) -> (r: String); }
impl<'x> Join__ for Vec<&'x str> { #[verifier::external_body] fn join(&self, s: &str) -> (r: String) { unimplemented!() } }
pub uninterp spec fn deref_of<T: std::ops::Deref>(x: &T) -> &T::Target;
pub assume_specification<T> [std::option::Option::<T>::as_deref] (o: &std::option::Option<T>) -> (r: std::option::Option<&<T as std::ops::Deref>::Target>)
    where T: std::ops::Deref,
    ensures r == (match o { Some(x) => Some(deref_of(x)), None => None });
pub assume_specification [str::trim] (s: &str) -> (r: &str);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String);
#[verifier::external_body] pub struct Split__<'x> { x: &'x str }
pub trait SplitStr__ { fn split<F: Fn(char) -> bool>(&self, f: F) -> (r: Split__<'_>) requires forall|c: char| #[trigger] f.requires((c,)); }
impl SplitStr__ for String { #[verifier::external_body] fn split<F: Fn(char) -> bool>(&self, f: F) -> (r: Split__<'_>) { unimplemented!() } }
impl<'x> Split__<'x> {
    #[verifier::external_body] pub fn filter<F: Fn(&&'x str) -> bool>(self, f: F) -> (r: Split__<'x>) requires forall|s: &&'x str| #[trigger] f.requires((s,)) { unimplemented!() }
    #[verifier::external_body] pub fn collect<V>(self) -> (r: Vec<&'x str>) { unimplemented!() }
}
pub trait ToStr__ { fn to_string(&self) -> (r: String); }
impl<'a> ToStr__ for InlineElementContainer<'a> { #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> ToStr__ for Description<'a> { #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> List<'a> {
    pub uninterp spec fn ordered(&self) -> bool;
    #[verifier::external_body] pub fn is_ordered(&self) -> (r: bool) ensures r == self.ordered() { unimplemented!() }
}
impl<'a> Paragraph<'a> { #[verifier::external_body] pub fn is_blank(&self) -> (r: bool) { unimplemented!() } }
impl<'a> ListItem<'a> {
    #[verifier::external_body] pub fn is_todo_incomplete(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_todo_partially_complete_1(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_todo_partially_complete_2(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_todo_partially_complete_3(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_todo_complete(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_todo_rejected(&self) -> (r: bool) { unimplemented!() }
}
/// table iteration (verified in the unit of P07); here only which kind of thing comes out
#[verifier::external_body] pub struct Rows__<'x, 'a> { x: &'x Table<'a> }
#[verifier::external_body] pub struct Row__<'x, 'a> { x: &'x Table<'a> }
#[verifier::external_body] pub struct Cells__<'x, 'a> { x: &'x Table<'a> }
impl<'a> Table<'a> {
    #[verifier::external_body] pub fn has_header_rows(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn has_body_rows(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn header_rows(&self) -> (r: Rows__<'_, 'a>) { unimplemented!() }
    #[verifier::external_body] pub fn body_rows(&self) -> (r: Rows__<'_, 'a>) { unimplemented!() }
    #[verifier::external_body] pub fn get_cell_rowspan(&self, row: usize, col: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn get_cell_colspan(&self, row: usize, col: usize) -> (r: usize) { unimplemented!() }
}
impl<'x, 'a> Rows__<'x, 'a> { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Row__<'x, 'a>>) { unimplemented!() } }
impl<'x, 'a> It__ for Rows__<'x, 'a> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<'x, 'a> ForIter__ for Rows__<'x, 'a> { type It = Self; open spec fn made(&self, r: Self) -> bool { true } fn it__(self) -> (r: Self) { self } }
impl<'x, 'a> Row__<'x, 'a> {
    #[verifier::external_body] pub fn has_content(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn zip_with_position(self) -> (r: Cells__<'x, 'a>) { unimplemented!() }
}
impl<'x, 'a> Cells__<'x, 'a> { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(CellPos, &'x Located<Cell<'a>>)>) { unimplemented!() } }
impl<'x, 'a> It__ for Cells__<'x, 'a> { open spec fn same(&self, o: &Self) -> bool { true } }
impl<'x, 'a> ForIter__ for Cells__<'x, 'a> { type It = Self; open spec fn made(&self, r: Self) -> bool { true } fn it__(self) -> (r: Self) { self } }
impl<'a> Cell<'a> { #[verifier::external_body] pub fn get_content(&self) -> (r: Option<&InlineElementContainer<'a>>) { unimplemented!() } }
impl<'a> Link<'a> {
    #[verifier::external_body] pub fn to_description_or_fallback(&self) -> (r: Option<Description<'_>>) { unimplemented!() }
    #[verifier::external_body] pub fn properties(&self) -> (r: Option<&HashMap<Cow<'a, str>, Cow<'a, str>>>) { unimplemented!() }
}
impl<'a> Clone for LinkData<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
// ---- syntect: markup of a highlighted line is closed (assumed) ----
#[verifier::external_body] pub struct SyntaxSet { x: u8 }
#[verifier::external_body] pub struct Themes__ { x: u8 }
pub struct ThemeSet { pub themes: Themes__ }
#[verifier::external_body] pub struct Theme { x: u8 }
#[verifier::external_body] pub struct SyntaxReference { x: u8 }
#[verifier::external_body] pub struct LoadingError { x: u8 }
#[verifier::external_body] pub struct HighlightLines<'x> { x: &'x u8 }
#[verifier::external_body] pub struct Style { x: u8 }
pub enum IncludeBackground { No }
pub exec static DEFAULT_SYNTAX_SET: SyntaxSet ensures true { default_ss() }
pub exec static DEFAULT_THEME_SET: ThemeSet ensures true { default_ts() }
#[verifier::external_body] pub const fn default_ss() -> SyntaxSet { SyntaxSet { x: 0 } }
#[verifier::external_body] pub const fn default_ts() -> ThemeSet { ThemeSet { themes: Themes__ { x: 0 } } }
impl SyntaxSet {
    #[verifier::external_body] pub fn load_from_folder(p: &PathBuf) -> (r: Result<SyntaxSet, LoadingError>) { unimplemented!() }
    #[verifier::external_body] pub fn find_syntax_by_token(&self, s: &str) -> (r: Option<&SyntaxReference>) { unimplemented!() }
    #[verifier::external_body] pub fn find_syntax_plain_text(&self) -> (r: &SyntaxReference) { unimplemented!() }
}
impl ThemeSet { #[verifier::external_body] pub fn load_from_folder(p: &PathBuf) -> (r: Result<ThemeSet, LoadingError>) { unimplemented!() } }
impl Themes__ { #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&Theme>) { unimplemented!() } }
impl<'x> HighlightLines<'x> {
    #[verifier::external_body] pub fn new(s: &'x SyntaxReference, t: &'x Theme) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn highlight<'y>(&mut self, l: &'y str, s: &SyntaxSet) -> (r: Vec<(Style, &'y str)>) { unimplemented!() }
}
#[verifier::external_body] pub fn start_highlighted_html_snippet(t: &Theme) -> (r: (String, u8)) ensures forall|s: St| s.mode is Text ==> #[trigger] run(s, r.0@) == push(s, seq!['p', 'r', 'e'], Mode::Text) { unimplemented!() }
#[verifier::external_body] pub fn styled_line_to_highlighted_html(v: &[(Style, &str)], b: IncludeBackground) -> (r: String) ensures closed(r@) { unimplemented!() }
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (o: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>);
@endraw
@fnhead broadcast use {htmllem::run_safe, htmllem::run_plain, htmllem::dec_plain, htmllem::safe_add, htmllem::push_drop, esclem::esc_safe, esclem::ax_uri_safe, esclem::ax_cow_str, lits__::all};
@autopar &mutHtmlFormatter ;; requires old(PAR).ready() ensures ret is Ok ==> final(PAR).ready() && final(PAR).at_same(&*old(PAR)) ;;
@loopinv invariant PAR.ready(), PAR.st() == snap__K, it__K.same(&it0__K) ;; invariant PAR.ready(), PAR.st() == snap__K, ;; PAR.st()
@source vimwiki-core/src/lang/output/html/formatter.rs
@fn HtmlFormatter<Write>::write_str inherent
ensures ret is Ok ==> final(self).wrote(&*old(self), s@)
@@head
proof { reveal(HtmlFormatter::st); htmllem::run_add(st0(), self.content@, s@); }
@fn HtmlFormatter::new
ensures ret.content@.len() == 0, ret.ready(), ret.st() == st0(), ret.config == config
@@head
proof { reveal(HtmlFormatter::st); assert(run(st0(), seq![]) == st0()); assert forall|s: String| s@.len() == 0 implies #[trigger] s@ == Seq::<char>::empty() by { assert(s@ =~= seq![]); } }
@fn HtmlFormatter::into_content
ensures ret@ == self.content@
@fn HtmlFormatter::config
ensures *ret == self.config
@fn HtmlFormatter::insert_header_text
@@closure 0
ensures *final(p__1) == *old(p__1)
@@contract
requires old(self).wf(), forall|t: String| #[trigger] text.into_ens(t) ==> safe(t@)
ensures final(self).wf(), final(self).content == old(self).content, final(self).st() == old(self).st()
@@head
proof { reveal(HtmlFormatter::st); }
@fn HtmlFormatter::get_header_text
requires self.wf()
ensures ret is Some ==> safe(ret->Some_0@)
@fn HtmlFormatter::max_header_level
ensures ret is Some ==> ret->Some_0 < usize::MAX
@fn HtmlFormatter::ensure_unique_id
@@head
proof { reveal(HtmlFormatter::st); }
let ghost id0 = id@; let ghost s0 = *self;
@@loop 0
invariant self.content == s0.content, self.last_seen_headers == s0.last_seen_headers, safe(id0) ==> safe(cow_str(id)),
@@contract
ensures final(self).wf() == old(self).wf(), final(self).content == old(self).content, final(self).st() == old(self).st(), final(self).last_seen_headers == old(self).last_seen_headers, safe(id@) ==> safe(cow_str(ret))
@fn HtmlFormatter::set_title
ensures final(self).content == old(self).content, final(self).st() == old(self).st(), final(self).last_seen_headers == old(self).last_seen_headers
@@head
proof { reveal(HtmlFormatter::st); }
@fn HtmlFormatter::set_date
ensures final(self).content == old(self).content, final(self).st() == old(self).st(), final(self).last_seen_headers == old(self).last_seen_headers
@@head
proof { reveal(HtmlFormatter::st); }
@fn HtmlFormatter::set_template
ensures final(self).content == old(self).content, final(self).st() == old(self).st(), final(self).last_seen_headers == old(self).last_seen_headers
@@head
proof { reveal(HtmlFormatter::st); }
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@fn DefinitionListValue::as_inner
ensures *ret == self.0
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@fn Text::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/code.rs
@fn CodeInline::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/math.rs
@fn MathInline::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@fn Tag::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@fn LineComment::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/output/html/utils.rs
@fn normalize_id
ensures safe(ret@)
@source vimwiki-core/src/lang/output/html/mod.rs
@fn Page<Output<HtmlFormatter>>::fmt
@fn Element<Output<HtmlFormatter>>::fmt
@fn InlineBlockElement<Output<HtmlFormatter>>::fmt
@fn BlockElement<Output<HtmlFormatter>>::fmt
@fn Blockquote<Output<HtmlFormatter>>::fmt
@fn DefinitionList<Output<HtmlFormatter>>::fmt
@fn DefinitionListValue<Output<HtmlFormatter>>::fmt
@fn Divider<Output<HtmlFormatter>>::fmt
@fn Header<Output<HtmlFormatter>>::fmt
@fn List<Output<HtmlFormatter>>::fmt
@fn ListItem<Output<HtmlFormatter>>::fmt
@fn ListItemContents<Output<HtmlFormatter>>::fmt
@fn MathBlock<Output<HtmlFormatter>>::fmt
@fn Placeholder<Output<HtmlFormatter>>::fmt
@fn CodeBlock<Output<HtmlFormatter>>::fmt
@@loop 1
invariant f.wf(), f.st() == snap__1 || f.st() == canon(snap__1), 
@fn Paragraph<Output<HtmlFormatter>>::fmt
@fn Table<Output<HtmlFormatter>>::fmt rlimit=60 spinoff
@fn InlineElementContainer<Output<HtmlFormatter>>::fmt
@fn InlineElement<Output<HtmlFormatter>>::fmt
@fn Text<Output<HtmlFormatter>>::fmt
requires old(f).ready()
ensures ret is Ok ==> final(f).ready() && final(f).at_same(&*old(f)),
    ret is Ok ==> final(f).content@ == old(f).content@ + esc(cow_str(self.0))
@@stub
@fn DecoratedText<Output<HtmlFormatter>>::fmt
@fn DecoratedTextContent<Output<HtmlFormatter>>::fmt
@fn Keyword<Output<HtmlFormatter>>::fmt
requires old(f).ready()
ensures ret is Ok ==> final(f).ready() && final(f).at_same(&*old(f)),
    ret is Ok ==> final(f).content@ == old(f).content@ + (match self { Keyword::Todo => "<span class=\"todo\">TODO</span>"@, Keyword::Done => "DONE"@, Keyword::Started => "STARTED"@, Keyword::Fixme => "FIXME"@, Keyword::Fixed => "FIXED"@, Keyword::Xxx => "XXX"@ })
@@stub
@fn Link<Output<HtmlFormatter>>::fmt
@fn Link<Output<HtmlFormatter>>::fmt::write_link
@@loop 0
invariant f.wf(), f.st() == snap__0
@@loop 1
invariant f.wf(), f.st() == snap__1
@fn Tags<Output<HtmlFormatter>>::fmt
@fn CodeInline<Output<HtmlFormatter>>::fmt
requires old(f).ready()
ensures ret is Ok ==> final(f).ready() && final(f).at_same(&*old(f)),
    ret is Ok ==> final(f).content@ == old(f).content@ + "<code>"@ + esc(cow_str(self.0)) + "</code>"@
@@stub
@fn MathInline<Output<HtmlFormatter>>::fmt
requires old(f).ready()
ensures ret is Ok ==> final(f).ready() && final(f).at_same(&*old(f)),
    ret is Ok ==> final(f).content@ == old(f).content@ + "\\("@ + esc(cow_str(self.0)) + "\\)"@
@@stub
@fn Comment<Output<HtmlFormatter>>::fmt
@fn LineComment<Output<HtmlFormatter>>::fmt
@fn MultiLineComment<Output<HtmlFormatter>>::fmt
@@loop 0
invariant f.wf(), f.st().mode is Com, canon(f.st()) == canon(snap__0)
@fn build_complete_id
requires old(f).wf(), safe(id@)
ensures ret is Ok ==> safe(ret->Ok_0@), *final(f) == *old(f)
@@loop 0
invariant *f == f0, f.wf(), safe(complete_id@)
@@head
let ghost f0 = *f;
broadcast use htmllem::safe_add2;
@raw
pub trait ToHtmlString {
    spec fn can(&self) -> bool;
    fn to_html_string(&self, config: HtmlConfig) -> (ret: Result<String, HtmlOutputError>) ensures ret is Ok ==> run(st0(), ret->Ok_0@) == st0();
}
@endraw
@source vimwiki-core/src/lang/output/html/convert.rs
@fn T<ToHtmlString>::to_html_string
ensures ret is Ok ==> run(st0(), ret->Ok_0@) == st0()
@@stub
@@head
reveal(HtmlFormatter::st);
@@impl
open spec fn can(&self) -> bool { true }
