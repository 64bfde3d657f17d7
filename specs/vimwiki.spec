//# vimwiki output: every writer appends the vimwiki form of its element (unit of P10)
@include std.rs
@raw
use std::borrow::Cow;
use core::cmp::Ordering;
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::convert::AsRef<B>>::as_ref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
/// the text of a Cow
pub open spec fn cow_str(x: Cow<str>) -> Seq<char> { match x { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> Disp__ for Cow<'a, str> { open spec fn disp(&self) -> Seq<char> { cow_str(*self) } }
mod vwlem {
    use super::*;
    verus! {
    pub broadcast proof fn nil(s: Seq<char>) ensures #![trigger s.len()] s.len() == 0 ==> s == Seq::<char>::empty() { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
    pub broadcast axiom fn ax_to_string(x: String, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(&x, r) ==> r@ == x@;
    pub axiom fn ax_obeys() ensures <str as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
    pub broadcast axiom fn ax_ord(a: &str, b: &str) ensures #[trigger] <str as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == ord(a@, b@);
    pub broadcast axiom fn ax_cow_str<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    }
}
/// a located element stands for the element inside (Deref of the real type)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Located<T> { t: T }
impl<T> Located<T> { pub uninterp spec fn val(&self) -> T; #[verifier::external_body] pub fn as_inner(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
impl<T> std::ops::Deref for Located<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body] pub struct NaiveDate { x: u8 }
impl Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveDate {}
impl Disp__ for NaiveDate { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
impl<'a> Disp__ for URIReference<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
pub mod fmt { pub struct Error {} pub type Result = core::result::Result<(), Error>; }
/// blanks
pub uninterp spec fn ws(c: char) -> bool;
pub open spec fn lead(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { lead(s.drop_first()) } else { s } }
pub open spec fn tail(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { tail(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { tail(lead(s)) }
/// bytes of a text
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == lead(s@);
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == tail(s@), blen(r@) <= blen(s@);
/// (a String holds at most isize::MAX bytes)
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX;
/// truncate: a text is cut back to the one of its beginnings that has n bytes (beginnings of different length differ in bytes)
pub assume_specification [String::truncate] (s: &mut String, n: usize) ensures forall|k: int| 0 <= k <= old(s)@.len() && #[trigger] blen(old(s)@.take(k)) == n ==> final(s)@ == old(s)@.take(k);
pub trait EndsWith__ { fn ends_with(&self, c: char) -> (r: bool); }
impl EndsWith__ for String { #[verifier::external_body] fn ends_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@.last() == c) { unimplemented!() } }
pub proof fn tail_take(s: Seq<char>) ensures tail(s).len() <= s.len(), tail(s) == s.take(tail(s).len() as int) decreases s.len()
{ if s.len() > 0 && ws(s.last()) { tail_take(s.drop_last()); assert(s.drop_last().take(tail(s).len() as int) =~= s.take(tail(s).len() as int)); } else { assert(s.take(s.len() as int) =~= s); } }
pub trait WriteStr__ { fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>); }
impl WriteStr__ for String { #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() } }
/// destinations of write!: pieces are appended in order (assumed of core::fmt; VimwikiFormatter::write_str is verified)
pub trait Sink__ { spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool; }
impl Sink__ for String { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { self@ == o@ + t } }
#[verifier::external_body] pub fn w_lit__<W: Sink__ + ?Sized>(w: &mut W, s: &str) ensures final(w).wrote(&*old(w), s@) { unimplemented!() }
#[verifier::external_body] pub fn w_disp__<W: Sink__ + ?Sized, T: Disp__ + ?Sized>(w: &mut W, x: &T) ensures final(w).wrote(&*old(w), x.disp()) { unimplemented!() }
pub fn w_end__() -> (r: Result<(), VimwikiOutputError>) ensures r is Ok { Ok(()) }
pub trait OutputFormatter: Sized { type Error; type S; spec fn vs(&self) -> Self::S; spec fn level(s: Self::S) -> int; }
/// what writing an element does to the state of the formatter; its definition, one equation per type, is what the writers are proved to do
pub uninterp spec fn w<T, S>(x: T, s: S) -> S;
pub trait Output<F: OutputFormatter>: Sized {
    fn fmt(&self, f: &mut F) -> (ret: Result<(), F::Error>) ensures ret is Ok, final(f).vs() == w(*self, old(f).vs()), F::level(final(f).vs()) == F::level(old(f).vs());
}
pub open spec fn vals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// loops
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VIt__<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> VIt__<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && *x == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct EIt__<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> EIt__<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && *x.1 == old(self).rem()[0] && x.0 == old(self).idx() && final(self).idx() == old(self).idx() + 1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
pub trait ForIter__: Sized { type It; #[verifier::prophetic] spec fn made(&self, r: Self::It) -> bool; fn it__(self) -> (r: Self::It) ensures self.made(r); }
pub fn for_iter__<T: ForIter__>(x: T) -> (r: T::It) ensures x.made(r) { x.it__() }
impl<'a, T> ForIter__ for std::slice::Iter<'a, T> { type It = VIt__<'a, T>; #[verifier::prophetic] open spec fn made(&self, r: VIt__<'a, T>) -> bool { r.rem() == vals(vstd::std_specs::iter::IteratorSpec::remaining(self)) } #[verifier::external_body] fn it__(self) -> (r: VIt__<'a, T>) { unimplemented!() } }
impl<'a, T> ForIter__ for EIt__<'a, T> { type It = Self; #[verifier::prophetic] open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
pub trait Enumerate__<'a, T: 'a>: Sized { fn enumerate__(self) -> (r: EIt__<'a, T>); }
impl<'a, T> Enumerate__<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::external_body] fn enumerate__(self) -> (r: EIt__<'a, T>) ensures r.idx() == 0, r.rem() == vals(vstd::std_specs::iter::IteratorSpec::remaining(&self)) { unimplemented!() }
}
macro_rules! refiter__ { ($($t:ident : $i:ty : $f:tt),* $(,)?) => { verus! { $(
    impl<'x, 'a> ForIter__ for &'x $t<'a> { type It = VIt__<'x, $i>; #[verifier::prophetic] open spec fn made(&self, r: Self::It) -> bool { r.rem() == self.$f@ } #[verifier::external_body] fn it__(self) -> (r: Self::It) { unimplemented!() } }
)* } } }
refiter__! {
    Blockquote: Cow<'a, str>: lines, CodeBlock: Cow<'a, str>: lines, MathBlock: Cow<'a, str>: lines, MultiLineComment: Cow<'a, str>: 0, Paragraph: InlineElementContainer<'a>: lines,
    DefinitionList: Located<TermAndDefinitions<'a>>: items, List: Located<ListItem<'a>>: items, ListItemContents: Located<BlockElement<'a>>: 0,
    InlineElementContainer: Located<InlineElement<'a>>: elements, Tags: Tag<'a>: 0, DefinitionBundle: Located<Definition<'a>>: definitions,
}
impl<'x, T> ForIter__ for &'x Vec<T> { type It = VIt__<'x, T>; #[verifier::prophetic] open spec fn made(&self, r: Self::It) -> bool { r.rem() == self@ } #[verifier::external_body] fn it__(self) -> (r: Self::It) { unimplemented!() } }
@endraw
@include alltypes.spec
@source vimwiki-core/src/lang/output/vimwiki/config.rs
@type VimwikiTodoListItemConfig copy
@type VimwikiListConfig
@type VimwikiPageConfig
@type VimwikiBlockquoteConfig
@type VimwikiCommentConfig
@type VimwikiDefinitionListConfig
@type VimwikiHeaderConfig
@type VimwikiParagraphConfig
@type VimwikiTableConfig
@type VimwikiConfig
@source vimwiki-core/src/lang/output/vimwiki/formatter.rs
@type VimwikiFormatter
@raw
impl Clone for VimwikiFormatter { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct VimwikiOutputError { pub x: u8 }
pub type VimwikiOutputResult = Result<(), VimwikiOutputError>;
/// the state of the formatter
pub struct Vs { pub text: Seq<char>, pub ind: int, pub skip: bool, pub cfg: VimwikiConfig }
impl OutputFormatter for VimwikiFormatter { type Error = VimwikiOutputError; type S = Vs; open spec fn level(s: Vs) -> int { s.ind } open spec fn vs(&self) -> Vs { Vs { text: self.content@, ind: self.indent_level as int, skip: self.skip_whitespace, cfg: self.config } } }
impl Sink__ for VimwikiFormatter { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { self.vs() == wr(o.vs(), t) } }
/// text arrives; leading blanks are dropped while they are to be skipped
pub open spec fn wr(s: Vs, t: Seq<char>) -> Vs { if s.skip { Vs { text: s.text + lead(t), skip: lead(t).len() == 0, ..s } } else { Vs { text: s.text + t, ..s } } }
pub open spec fn skip(s: Vs, b: bool) -> Vs { Vs { skip: b, ..s } }
pub open spec fn cut(s: Vs) -> Vs { Vs { text: tail(s.text), ..s } }
pub open spec fn deep(s: Vs, n: int) -> Vs { Vs { ind: s.ind + n, ..s } }
pub open spec fn times(s: Vs, t: Seq<char>, n: int) -> Vs decreases n { if n <= 0 { s } else { times(wr(s, t), t, n - 1) } }
/// at the start of a line, one indent string per level
pub open spec fn indent(s: Vs) -> Vs { if s.text.len() == 0 || s.text.last() == '\n' { times(s, s.cfg.page.indent_str@, s.ind) } else { s } }
/// a blank-trimmed child
pub open spec fn tw<T>(x: T, s: Vs) -> Vs { cut(skip(w(x, skip(s, true)), false)) }
pub open spec fn ww<T>(x: T, s: Vs, trim: bool) -> Vs { if trim { tw(x, s) } else { w(x, s) } }
pub open spec fn all<T>(v: Seq<T>, s: Vs) -> Vs decreases v.len() { if v.len() == 0 { s } else { all(v.drop_first(), w(v[0], s)) } }
pub open spec fn every<T>(v: Seq<Located<T>>, s: Vs) -> Vs decreases v.len() { if v.len() == 0 { s } else { every(v.drop_first(), w(v[0].val(), s)) } }
pub open spec fn page(v: Seq<Located<BlockElement>>, sep: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else { let t = w(v[0].val(), s); page(v.drop_first(), sep, if sep && v.len() > 1 { wr(t, "\n"@) } else { t }) }
}
pub open spec fn quote(v: Seq<Cow<str>>, arrow: bool, trim: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else {
        let s = wr(indent(s), if arrow { "> "@ } else { "    "@ });
        let s = if trim { cut(skip(wr(skip(s, true), cow_str(v[0])), false)) } else { wr(s, cow_str(v[0])) };
        quote(v.drop_first(), arrow, trim, wr(s, "\n"@))
    }
}
pub open spec fn defs(v: Seq<Located<DefinitionListValue>>, first: bool, trim: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else {
        let s = if first { wr(s, " "@) } else { wr(indent(s), ":: "@) };
        defs(v.drop_first(), false, trim, wr(ww(v[0].val(), s, trim), "\n"@))
    }
}
pub open spec fn terms(v: Seq<Located<TermAndDefinitions>>, own: bool, tt: bool, td: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else {
        let x = v[0].val();
        let d = x.definitions.val().definitions@;
        let s = wr(ww(x.term.val(), indent(s), tt), "::"@);
        let s = if own || d.len() == 0 { wr(s, "\n"@) } else { s };
        terms(v.drop_first(), own, tt, td, defs(d, !own, td, s))
    }
}
pub uninterp spec fn prefix_of(x: ListItem) -> Seq<char>;
pub open spec fn item_head(x: ListItem, s: Vs) -> Vs {
    let s = wr(wr(indent(s), prefix_of(x)), " "@);
    match x.attributes.todo_status { Some(t) => wr(w(t, wr(s, "["@)), "] "@), None => s }
}
pub open spec fn item(x: ListItem, v: Seq<Located<BlockElement>>, first: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else { item(x, v.drop_first(), false, deep(w(v[0].val(), deep(if first { item_head(x, s) } else { s }, 1)), -1)) }
}
pub open spec fn lines(v: Seq<Cow<str>>, s: Vs) -> Vs decreases v.len() { if v.len() == 0 { s } else { lines(v.drop_first(), wr(wr(indent(s), cow_str(v[0])), "\n"@)) } }
pub open spec fn para(v: Seq<InlineElementContainer>, trim: bool, s: Vs) -> Vs decreases v.len() { if v.len() == 0 { s } else { para(v.drop_first(), trim, wr(ww(v[0], indent(s), trim), "\n"@)) } }
pub open spec fn tags(v: Seq<Tag>, s: Vs) -> Vs decreases v.len() { if v.len() == 0 { s } else { tags(v.drop_first(), wr(wr(s, cow_str(v[0].0)), ":"@)) } }
pub open spec fn trimif(b: bool, t: Seq<char>) -> Seq<char> { if b { trimmed(t) } else { t } }
pub open spec fn mlines(v: Seq<Cow<str>>, trim: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else { let t = wr(s, trimif(trim, cow_str(v[0]))); mlines(v.drop_first(), trim, if v.len() == 1 { t } else { wr(t, "\n"@) }) }
}
/// key="value" pairs set apart by blanks
pub open spec fn pairs(v: Seq<(&str, &str)>, space: bool, s: Vs) -> Vs decreases v.len() {
    if v.len() == 0 { s } else { let s = if space { wr(s, " "@) } else { s }; pairs(v.drop_first(), true, wr(wr(wr(wr(s, v[0].0@), "=\""@), v[0].1@), "\""@)) }
}
/// the pairs of a map, each once, ordered by key (sort order of str)
pub uninterp spec fn ord(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering;
pub type Meta<'a> = HashMap<Cow<'a, str>, Cow<'a, str>>;
impl<'a> HashMap<Cow<'a, str>, Cow<'a, str>> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] pub fn iter<'x>(&'x self) -> (r: HIter<'x, 'a>) ensures r.of() == *self { unimplemented!() }
}
#[verifier::external_body] pub struct HIter<'x, 'a> { x: &'x Meta<'a> }
#[verifier::external_body] pub struct HMap<'x, 'a> { x: &'x Meta<'a> }
impl<'x, 'a> HIter<'x, 'a> {
    pub uninterp spec fn of(&self) -> Meta<'a>;
    #[verifier::external_body] pub fn map<F: Fn((&'x Cow<'a, str>, &'x Cow<'a, str>)) -> (&'x str, &'x str)>(self, f: F) -> (r: HMap<'x, 'a>)
        requires forall|e: (&'x Cow<'a, str>, &'x Cow<'a, str>)| #[trigger] f.requires((e,)),
            forall|e: (&'x Cow<'a, str>, &'x Cow<'a, str>), o: (&'x str, &'x str)| #[trigger] f.ensures((e,), o) ==> o.0@ == cow_str(*e.0) && o.1@ == cow_str(*e.1)
        ensures r.of() == self.of() { unimplemented!() }
}
impl<'x, 'a> HMap<'x, 'a> {
    pub uninterp spec fn of(&self) -> Meta<'a>;
    #[verifier::external_body] pub fn collect<V>(self) -> (r: Vec<(&'x str, &'x str)>) ensures listing(self.of(), r@) { unimplemented!() }
}
pub open spec fn listing(m: Meta, v: Seq<(&str, &str)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m@.contains_key(#[trigger] v[i].0@) && m@[v[i].0@] == v[i].1@
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].0@ != #[trigger] v[j].0@
    &&& forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i].0@ == k
}
pub open spec fn sorted(v: Seq<(&str, &str)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> ord(#[trigger] v[i].0@, #[trigger] v[j].0@) != core::cmp::Ordering::Greater }
pub open spec fn by_key(m: Meta, v: Seq<(&str, &str)>) -> bool { listing(m, v) && sorted(v) }
pub trait SortBy__<'x>: Sized {
    spec fn pv(&self) -> Seq<(&'x str, &'x str)>;
    fn sort_by<F: Fn(&(&'x str, &'x str), &(&'x str, &'x str)) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &(&'x str, &'x str), b: &(&'x str, &'x str)| #[trigger] f.requires((a, b)),
            forall|a: &(&'x str, &'x str), b: &(&'x str, &'x str), o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> o == ord(a.0@, b.0@)
        ensures sorted(final(self).pv()), final(self).pv().len() == old(self).pv().len(), forall|m: Meta| #[trigger] listing(m, old(self).pv()) ==> listing(m, final(self).pv());
}
impl<'x> SortBy__<'x> for Vec<(&'x str, &'x str)> {
    open spec fn pv(&self) -> Seq<(&'x str, &'x str)> { self@ }
    #[verifier::external_body] fn sort_by<F: Fn(&(&'x str, &'x str), &(&'x str, &'x str)) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
pub trait OwnEnum__<T>: Sized { fn enumerate__(self) -> (r: OwnIt__<T>); }
impl<T> OwnEnum__<T> for std::vec::IntoIter<T> { #[verifier::external_body] fn enumerate__(self) -> (r: OwnIt__<T>) ensures r.idx() == 0, r.rem() == vstd::std_specs::iter::IteratorSpec::remaining(&self) { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct OwnIt__<T> { x: Vec<T> }
impl<T> OwnIt__<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, T)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x.1 == old(self).rem()[0] && x.0 == old(self).idx() && final(self).idx() == old(self).idx() + 1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
impl<T> ForIter__ for OwnIt__<T> { type It = Self; open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
pub open spec fn code_head(x: CodeBlock, s: Vs) -> Vs { let s = wr(indent(s), "{{{"@); match x.language { Some(l) => wr(s, cow_str(l)), None => s } }
pub open spec fn code(x: CodeBlock, v: Seq<(&str, &str)>, s: Vs) -> Vs {
    let s = wr(pairs(v, x.language is Some, code_head(x, s)), "\n"@);
    wr(indent(lines(x.lines@, s)), "}}}\n"@)
}
// ---- parts of the crate used by the writers (other units, or assumed) ----
impl<'a> std::ops::Deref for DefinitionBundle<'a> { type Target = Vec<Located<Definition<'a>>>; fn deref(&self) -> (r: &Vec<Located<Definition<'a>>>) ensures *r == self.definitions { &self.definitions } }
impl<'a> std::ops::Deref for ListItemContents<'a> { type Target = Vec<Located<BlockElement<'a>>>; fn deref(&self) -> (r: &Vec<Located<BlockElement<'a>>>) ensures *r == self.0 { &self.0 } }
impl<'a> std::ops::Deref for MultiLineComment<'a> { type Target = Vec<Cow<'a, str>>; fn deref(&self) -> (r: &Vec<Cow<'a, str>>) ensures *r == self.0 { &self.0 } }
impl<'a> ListItem<'a> { #[verifier::external_body] pub fn to_prefix(&self) -> (r: String) ensures r@ == prefix_of(*self) { unimplemented!() } }
impl Copy for ListItemTodoStatus {}
impl Clone for ListItemTodoStatus { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn kw(x: Keyword) -> Seq<char> { match x { Keyword::Todo => "TODO"@, Keyword::Done => "DONE"@, Keyword::Started => "STARTED"@, Keyword::Fixme => "FIXME"@, Keyword::Fixed => "FIXED"@, Keyword::Xxx => "XXX"@ } }
impl Disp__ for Keyword { open spec fn disp(&self) -> Seq<char> { kw(*self) } }
impl<'a> Disp__ for Tag<'a> { open spec fn disp(&self) -> Seq<char> { cow_str(self.0) } }
impl<'a> Disp__ for CodeInline<'a> { open spec fn disp(&self) -> Seq<char> { cow_str(self.0) } }
impl<'a> Disp__ for MathInline<'a> { open spec fn disp(&self) -> Seq<char> { cow_str(self.0) } }
#[verifier::external_body] pub struct Anchor<'a> { x: &'a str }
impl<'a> Disp__ for Anchor<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
pub uninterp spec fn uri_text(x: LinkData) -> Seq<char>;
pub uninterp spec fn anchor_of<'a>(x: LinkData<'a>) -> Option<Anchor<'a>>;
impl<'a> LinkData<'a> {
    #[verifier::external_body] pub fn to_decoded_uri_string(&self) -> (r: String) ensures r@ == uri_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_anchor(&self) -> (r: Option<Anchor<'_>>) ensures r == anchor_of(*self) { unimplemented!() }
}
impl<'a> Clone for LinkData<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn desc<'a>(d: Option<Description<'a>>, s: Vs) -> Vs {
    match d { Some(Description::Text(t)) => wr(wr(s, "|"@), cow_str(t)), Some(Description::TransclusionLink(x)) => w(Link::<'a>::Transclusion { data: *x }, wr(s, "|"@)), None => s }
}
pub open spec fn link_end(x: LinkData, s: Vs) -> Vs { wr(desc(x.description, s), "]]"@) }
pub open spec fn trans(x: LinkData, v: Seq<(&str, &str)>, s: Vs) -> Vs {
    let s = desc(x.description, wr(wr(s, "{{"@), uri_text(x)));
    let s = if x.properties is Some { pairs(v, false, wr(if x.description is None { wr(s, "|"@) } else { s }, "|"@)) } else { s };
    wr(s, "}}"@)
}
/// elements nest fewer than usize::MAX deep (assumed)
pub axiom fn nesting(n: usize) ensures n < usize::MAX;
@endraw
@raw
// ---- tables ----
impl<'a> HashMap<CellPos, Located<Cell<'a>>> { pub uninterp spec fn view(&self) -> Map<CellPos, Located<Cell<'a>>>; }
impl HashMap<CellPos, String> {
    pub uninterp spec fn view(&self) -> Map<CellPos, String>;
    #[verifier::external_body] pub fn get(&self, k: &CellPos) -> (r: Option<&String>) ensures match r { Some(x) => self@.contains_key(*k) && *x == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: HIter__<'_, CellPos, String>) ensures r.m() == self@ { unimplemented!() }
}
impl HashMap<usize, usize> {
    pub uninterp spec fn view(&self) -> Map<usize, usize>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&usize>) ensures match r { Some(x) => self@.contains_key(*k) && *x == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: usize) -> (r: Entry__<'_, usize, usize>) ensures r.k() == k, r.m() == old(self)@, final(self)@ == r.fin() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct Entry__<'x, K, V> { m: &'x mut Vec<(K, V)> }
impl<'x, K, V> Entry__<'x, K, V> {
    pub uninterp spec fn k(&self) -> K;
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::prophetic] pub uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn or_insert(self, v: V) -> (r: &'x mut V) ensures *r == (if self.m().contains_key(self.k()) { self.m()[self.k()] } else { v }), self.fin() == self.m().insert(self.k(), *final(r)) { unimplemented!() }
}
impl<'x, K> Entry__<'x, K, usize> {
    #[verifier::external_body] pub fn or_default(self) -> (r: &'x mut usize) ensures *r == (if self.m().contains_key(self.k()) { self.m()[self.k()] } else { 0 }), self.fin() == self.m().insert(self.k(), *final(r)) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HIter__<'x, K, V> { m: &'x Vec<(K, V)> }
pub open spec fn folded<'x, K: 'x, V: 'x, B, F: Fn(B, (&'x K, &'x V)) -> B>(ks: Seq<K>, m: Map<K, V>, st: Seq<B>, init: B, f: F, r: B) -> bool {
    st.len() == ks.len() + 1 && st[0] == init && st[ks.len() as int] == r && ks.to_set() == m.dom() && forall|i: int| 0 <= i < ks.len() ==> f.ensures((#[trigger] st[i], (&ks[i], &m[ks[i]])), st[i + 1])
}
impl<'x, K, V> HIter__<'x, K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    /// every entry once, in some order
    #[verifier::external_body] pub fn fold_raw<B, F: Fn(B, (&'x K, &'x V)) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, p: (&'x K, &'x V)| self.m().contains_key(*p.0) && *p.1 == self.m()[*p.0] ==> #[trigger] f.requires((b, p))
        ensures exists|ks: Seq<K>, st: Seq<B>| #[trigger] folded(ks, self.m(), st, init, f, r) { unimplemented!() }
}
/// the largest size of each column, one entry more
pub open spec fn grow(w: Map<usize, usize>, c: usize, n: nat) -> Map<usize, usize> { if w.contains_key(c) && w[c] >= n { w } else { w.insert(c, n as usize) } }
/// the columns from `lo` on have the size of their longest text
#[verifier::opaque]
pub open spec fn sized(m: Map<CellPos, String>, ks: Set<CellPos>, w: Map<usize, usize>, lo: int) -> bool {
    &&& forall|p: CellPos| #[trigger] ks.contains(p) && p.col >= lo ==> w.contains_key(p.col) && blen(m[p]@) <= w[p.col]
    &&& forall|c: usize| c >= lo && #[trigger] w.contains_key(c) ==> w[c] <= isize::MAX && exists|p: CellPos| #[trigger] ks.contains(p) && p.col == c && blen(m[p]@) == w[c]
}
pub open spec fn grows<'x, F: Fn(HashMap<usize, usize>, (&'x CellPos, &'x String)) -> HashMap<usize, usize>>(f: F) -> bool {
    forall|a: HashMap<usize, usize>, p: (&'x CellPos, &'x String), r: HashMap<usize, usize>| #[trigger] f.ensures((a, p), r) ==> r@ == grow(a@, p.0.col, blen(p.1@)) && blen(p.1@) <= isize::MAX
}
pub proof fn sizes<'x, F: Fn(HashMap<usize, usize>, (&'x CellPos, &'x String)) -> HashMap<usize, usize>>(ks: Seq<CellPos>, m: Map<CellPos, String>, st: Seq<HashMap<usize, usize>>, init: HashMap<usize, usize>, f: F, r: HashMap<usize, usize>, n: int)
    requires folded(ks, m, st, init, f, r), grows(f), init@ == Map::<usize, usize>::empty(), 0 <= n <= ks.len()
    ensures sized(m, ks.take(n).to_set(), st[n]@, 0)
    decreases n
{
    reveal(sized);
    if n > 0 {
        sizes(ks, m, st, init, f, r, n - 1);
        let a = st[n - 1]@; let p = ks[n - 1]; let w = st[n]@; let k0 = ks.take(n - 1).to_set(); let k1 = ks.take(n).to_set();
        assert(f.ensures((st[n - 1], (&ks[n - 1], &m[ks[n - 1]])), st[n - 1 + 1]));
        assert(w == grow(a, p.col, blen(m[p]@)));
        assert(ks.take(n) =~= ks.take(n - 1).push(p));
        assert forall|q: CellPos| k1.contains(q) == (k0.contains(q) || q == p) by {
            if k1.contains(q) { let i = choose|i: int| 0 <= i < n && #[trigger] ks.take(n)[i] == q; if i < n - 1 { assert(ks.take(n - 1)[i] == q); } }
            if k0.contains(q) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks.take(n - 1)[i] == q; assert(ks.take(n)[i] == q); }
            assert(ks.take(n)[n - 1] == p);
        }
        assert forall|q: CellPos| #[trigger] k1.contains(q) implies w.contains_key(q.col) && blen(m[q]@) <= w[q.col] by { if q != p { assert(k0.contains(q)); } }
        assert forall|c: usize| #[trigger] w.contains_key(c) implies w[c] <= isize::MAX && exists|q: CellPos| #[trigger] k1.contains(q) && q.col == c && blen(m[q]@) == w[c] by {
            if a.contains_key(c) && w[c] == a[c] { let q = choose|q: CellPos| #[trigger] k0.contains(q) && q.col == c && blen(m[q]@) == a[c]; assert(k1.contains(q)); } else { assert(k1.contains(p)); }
        }
    } else { assert(ks.take(0).to_set() =~= Set::empty()); }
}
impl<'x> HIter__<'x, CellPos, String> {
    pub fn fold<F: Fn(HashMap<usize, usize>, (&'x CellPos, &'x String)) -> HashMap<usize, usize>>(self, init: HashMap<usize, usize>, f: F) -> (r: HashMap<usize, usize>)
        requires init@ == Map::<usize, usize>::empty(), grows(f), forall|b: HashMap<usize, usize>, p: (&'x CellPos, &'x String)| #[trigger] f.requires((b, p))
        ensures sized(self.m(), self.m().dom(), r@, 0)
    {
        let ghost m = self.m();
        let r = self.fold_raw(init, f);
        proof {
            let (ks, st) = choose|ks: Seq<CellPos>, st: Seq<HashMap<usize, usize>>| #[trigger] folded(ks, m, st, init, f, r);
            sizes(ks, m, st, init, f, r, ks.len() as int);
            assert(ks.take(ks.len() as int) =~= ks);
        }
        r
    }
}
impl<'a> Table<'a> {
    pub open spec fn pos(r: int, c: int) -> CellPos { CellPos { row: r as usize, col: c as usize } }
    pub open spec fn at(&self, r: int, c: int) -> Option<Cell<'a>> { if self.cells@.contains_key(Self::pos(r, c)) { Some(self.cells@[Self::pos(r, c)].val()) } else { None } }
    pub open spec fn inside(&self, p: CellPos) -> bool { p.row < self.row_cnt && p.col < self.col_cnt }
    #[verifier::external_body] pub fn row_cnt(&self) -> (r: usize) ensures r == self.row_cnt { unimplemented!() }
    #[verifier::external_body] pub fn col_cnt(&self) -> (r: usize) ensures r == self.col_cnt { unimplemented!() }
    #[verifier::external_body] pub fn get_cell(&self, row: usize, col: usize) -> (r: Option<&Located<Cell<'a>>>) ensures match r { Some(x) => self.at(row as int, col as int) == Some(x.val()), None => self.at(row as int, col as int) is None } { unimplemented!() }
    #[verifier::external_body] pub fn cells(&self) -> (r: Cells__<'_, 'a>) ensures r.t() == *self { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, idx: usize) -> (r: List__<&Located<Cell<'a>>>) ensures is_column(*self, idx as int, r.all()) { unimplemented!() }
}
/// the cells of a column
#[verifier::opaque]
pub open spec fn is_column<'x, 'a>(t: Table<'a>, c: int, v: Seq<Option<&'x Located<Cell<'a>>>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> exists|k: int| 0 <= k < t.row_cnt && #[trigger] t.at(k, c) == Some(v[i]->0.val())
    &&& forall|k: int| 0 <= k < t.row_cnt && (#[trigger] t.at(k, c)) is Some ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Some && t.at(k, c) == Some(v[i]->0.val())
}
pub open spec fn is_max(v: Seq<Option<usize>>, r: Option<usize>) -> bool {
    match r { Some(m) => (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == Some(m)) && forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> v[i]->0 <= m, None => forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is None }
}
#[verifier::external_body] pub struct Cells__<'x, 'a> { x: &'x Table<'a> }
impl<'x, 'a> Cells__<'x, 'a> {
    pub uninterp spec fn t(&self) -> Table<'a>;
    #[verifier::external_body] pub fn zip_with_position(self) -> (r: List__<(CellPos, &'x Located<Cell<'a>>)>)
        ensures is_zip(self.t(), r.all()) { unimplemented!() }
}
/// every cell of the table with its position
#[verifier::opaque]
pub open spec fn is_zip<'x, 'a>(t: Table<'a>, v: Seq<Option<(CellPos, &'x Located<Cell<'a>>)>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> t.inside(v[i]->Some_0.0) && t.cells@.contains_key(v[i]->Some_0.0) && t.cells@[v[i]->Some_0.0].val() == v[i]->Some_0.1.val()
    &&& forall|p: CellPos| t.inside(p) && (#[trigger] t.cells@.contains_key(p)) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && v[i]->Some_0.0 == p
}
/// a finite iterator: the items at their places, None where a filter left one out
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct List__<T> { x: Vec<T> }
impl<T> List__<T> {
    pub uninterp spec fn all(&self) -> Seq<Option<T>>;
    #[verifier::external_body] pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: List__<B>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r.all().len() == self.all().len(), forall|i: int| #![trigger self.all()[i]] #![trigger r.all()[i]] 0 <= i < self.all().len() ==> match self.all()[i] { Some(x) => f.ensures((x,), r.all()[i]), None => r.all()[i] is None } { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: List__<B>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r.all().len() == self.all().len(), forall|i: int| #![trigger self.all()[i]] #![trigger r.all()[i]] 0 <= i < self.all().len() ==> match self.all()[i] { Some(x) => r.all()[i] is Some && f.ensures((x,), r.all()[i]->0), None => r.all()[i] is None } { unimplemented!() }
    #[verifier::external_body] pub fn collect<B: FromList__<T>>(self) -> (r: B) ensures B::from_list(self.all(), r) { unimplemented!() }
}
impl List__<usize> { #[verifier::external_body] pub fn max(self) -> (r: Option<usize>) ensures is_max(self.all(), r) { unimplemented!() } }
pub trait FromList__<T>: Sized { spec fn from_list(v: Seq<Option<T>>, r: Self) -> bool; }
impl<E> FromList__<Result<(CellPos, String), E>> for Result<HashMap<CellPos, String>, E> {
    open spec fn from_list(v: Seq<Option<Result<(CellPos, String), E>>>, r: Self) -> bool { (forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> v[i]->0 is Ok) ==> r is Ok && collected(v, r->Ok_0@) }
}
#[verifier::opaque]
pub open spec fn collected<E>(v: Seq<Option<Result<(CellPos, String), E>>>, m: Map<CellPos, String>) -> bool {
    &&& forall|k: CellPos| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Some && v[i]->0->Ok_0 == (k, m[k])
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> m.contains_key(v[i]->0->Ok_0.0)
}
/// what stands between the bars: padded by one blank on each side unless a blank is there or padding is off
pub open spec fn padded(bare: bool, t: Seq<char>) -> Seq<char> {
    if bare { t } else if t.len() == 0 { " "@ } else { let a = blen(lead(t)) < blen(t); let b = blen(tail(t)) < blen(t); if a && b { t } else if a { t + " "@ } else if b { " "@ + t } else { " "@ + t + " "@ } }
}
/// cells with a text of their own (divider cells have none)
pub open spec fn raw_text(x: Cell, s: Vs) -> Option<Seq<char>> { match x { Cell::Content(x) => Some(w(x, Vs { text: Seq::empty(), ..s }).text), Cell::Span(CellSpan::FromLeft) => Some(">"@), Cell::Span(CellSpan::FromAbove) => Some("\\/"@), Cell::Align(_) => None } }
pub open spec fn cell_text(x: Option<Cell>, s: Vs) -> Option<Seq<char>> { match x { Some(x) => match raw_text(x, s) { Some(t) => Some(padded(s.cfg.table.no_padding, t)), None => None }, None => None } }
pub open spec fn least(x: Cell) -> nat { match x { Cell::Align(ColumnAlign::None) => 1, Cell::Align(ColumnAlign::Left) => 2, Cell::Align(ColumnAlign::Right) => 2, Cell::Align(ColumnAlign::Center) => 3, _ => 0 } }
pub open spec fn cell_size(x: Option<Cell>, s: Vs) -> nat { match cell_text(x, s) { Some(t) => blen(t), None => match x { Some(x) => least(x), None => 0 } } }
/// a column is as wide as the widest of its first n cells
pub open spec fn width(t: Table, n: int, c: int, s: Vs) -> nat decreases n { if n <= 0 { 0 } else { let a = width(t, n - 1, c, s); let b = cell_size(t.at(n - 1, c), s); if a >= b { a } else { b } } }
pub proof fn width_is(t: Table, n: int, c: int, s: Vs, x: nat)
    requires forall|k: int| 0 <= k < n ==> cell_size(#[trigger] t.at(k, c), s) <= x, x == 0 || exists|k: int| 0 <= k < n && cell_size(#[trigger] t.at(k, c), s) == x
    ensures width(t, n, c, s) == x
    decreases n
{
    if n > 0 {
        let y = width(t, n - 1, c, s);
        width_ge(t, n, c, s); width_le(t, n, c, s, x);
    }
}
pub proof fn width_le(t: Table, n: int, c: int, s: Vs, x: nat) requires forall|k: int| 0 <= k < n ==> cell_size(#[trigger] t.at(k, c), s) <= x ensures width(t, n, c, s) <= x decreases n { if n > 0 { width_le(t, n - 1, c, s, x); let z = t.at(n - 1, c); } }
pub proof fn width_ge(t: Table, n: int, c: int, s: Vs) ensures forall|k: int| 0 <= k < n ==> cell_size(#[trigger] t.at(k, c), s) <= width(t, n, c, s) decreases n { if n > 0 { width_ge(t, n - 1, c, s); } }
pub mod vwtab { use super::*; verus! {
    /// a str holds at most isize::MAX bytes
    pub broadcast axiom fn fits(s: &str) ensures (#[trigger] vstd::utf8::encode_utf8(s@)).len() <= isize::MAX;
    pub broadcast proof fn at_least(t: Table, n: int, k: int, c: int, s: Vs) ensures #![trigger t.at(k, c), width(t, n, c, s)] 0 <= k < n ==> match t.at(k, c) { Some(x) => least(x) <= width(t, n, c, s), None => true } { width_ge(t, n, c, s); }
    pub broadcast proof fn wr_ind(s: Vs, x: Seq<char>) ensures (#[trigger] wr(s, x)).ind == s.ind { }
    pub broadcast proof fn ascii(s: Seq<char>) ensures #![trigger vstd::utf8::encode_utf8(s)] vstd::utf8::is_ascii_chars(s) ==> vstd::utf8::encode_utf8(s).len() == s.len() { if vstd::utf8::is_ascii_chars(s) { vstd::utf8::is_ascii_chars_encode_utf8(s); } }
    pub broadcast proof fn all_texts<'x, 'a, E>(t: Table<'a>, s: Vs, v: Seq<Option<(CellPos, &'x Located<Cell<'a>>)>>, v3: Seq<Option<Result<(CellPos, String), E>>>, m: Map<CellPos, String>)
        requires #[trigger] is_zip(t, v), #[trigger] collected(v3, m), v.len() == v3.len(),
            forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Some(x) => match raw_text(x.1.val(), s) { Some(tx) => v3[i] is Some && v3[i]->0 is Ok && v3[i]->0->Ok_0.0 == x.0 && v3[i]->0->Ok_0.1@ == padded(s.cfg.table.no_padding, tx), None => v3[i] is None }, None => v3[i] is None }
        ensures #[trigger] texts(t, s, m)
    {
        reveal(is_zip); reveal(collected);
        assert forall|p: CellPos| #[trigger] m.contains_key(p) implies t.inside(p) && cell_text(t.at(p.row as int, p.col as int), s) == Some(m[p]@) by {
            let i = choose|i: int| 0 <= i < v3.len() && #[trigger] v3[i] is Some && v3[i]->0->Ok_0 == (p, m[p]);
            assert(v[i] is Some);
        }
        assert forall|p: CellPos| t.inside(p) && cell_text(t.at(p.row as int, p.col as int), s) is Some implies #[trigger] m.contains_key(p) by {
            assert(t.cells@.contains_key(p));
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && v[i]->Some_0.0 == p;
            assert(v3[i] is Some);
        }
    }
    pub broadcast proof fn sized_on(m: Map<CellPos, String>, ks: Set<CellPos>, w: Map<usize, usize>, w2: Map<usize, usize>, lo: int, hi: int)
        requires #[trigger] sized(m, ks, w, lo), lo <= hi, forall|c: usize| c >= hi ==> (#[trigger] w2.contains_key(c)) == w.contains_key(c) && w2[c] == w[c]
        ensures #[trigger] sized(m, ks, w2, hi)
    {
        reveal(sized);
        assert forall|p: CellPos| #[trigger] ks.contains(p) && p.col >= hi implies w2.contains_key(p.col) && blen(m[p]@) <= w2[p.col] by { assert(w2.contains_key(p.col) == w.contains_key(p.col)); }
    }
    pub broadcast proof fn size_fits(m: Map<CellPos, String>, ks: Set<CellPos>, w: Map<usize, usize>, lo: int, c: int) requires #[trigger] sized(m, ks, w, lo), lo <= c <= usize::MAX ensures #[trigger] size_or(w, c) <= isize::MAX { reveal(sized); }
    /// one turn of the loop over columns
    pub broadcast proof fn col_width<'x, 'a>(t: Table<'a>, s: Vs, m: Map<CellPos, String>, w: Map<usize, usize>, lo: int, c: int, v: Seq<Option<&'x Located<Cell<'a>>>>, v2: Seq<Option<usize>>, r: Option<usize>)
        requires #[trigger] texts(t, s, m), #[trigger] sized(m, m.dom(), w, lo), lo <= c, 0 <= c < t.col_cnt, #[trigger] is_column(t, c, v), #[trigger] is_max(v2, r),
            v.len() == v2.len(), forall|i: int| 0 <= i < v.len() ==> match v[i] { Some(x) => #[trigger] v2[i] is Some && v2[i]->0 == least(x.val()), None => v2[i] is None }
        ensures width(t, t.row_cnt as int, c, s) == ({ let a = match r { Some(m) => m, None => 0 }; let b = size_or(w, c); if a > b { a } else { b } })
    {
        reveal(sized); reveal(is_column);
        let a: usize = match r { Some(m) => m, None => 0 };
        assert forall|k: int| 0 <= k < t.row_cnt && (#[trigger] t.at(k, c)) is Some implies least(t.at(k, c)->0) <= a by {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] is Some && t.at(k, c) == Some(v[i]->0.val());
            assert(v2[i] is Some);
        }
        if a > 0 {
            let i = choose|i: int| 0 <= i < v2.len() && #[trigger] v2[i] == Some(a);
            assert(v[i] is Some);
            let k = choose|k: int| 0 <= k < t.row_cnt && #[trigger] t.at(k, c) == Some(v[i]->0.val());
            assert(t.at(k, c) is Some);
        }
        width_of(t, s, m, w, lo, c as usize, a as nat);
    }
} }
/// the texts of all cells that have one
pub open spec fn texts(t: Table, s: Vs, m: Map<CellPos, String>) -> bool {
    &&& forall|p: CellPos| #[trigger] m.contains_key(p) ==> t.inside(p) && cell_text(t.at(p.row as int, p.col as int), s) == Some(m[p]@)
    &&& forall|p: CellPos| t.inside(p) && cell_text(t.at(p.row as int, p.col as int), s) is Some ==> #[trigger] m.contains_key(p)
}
pub open spec fn size_or(w: Map<usize, usize>, c: int) -> usize { if w.contains_key(c as usize) { w[c as usize] } else { 0 } }
/// the column of the texts and its divider cells give the width
pub proof fn width_of(t: Table, s: Vs, m: Map<CellPos, String>, w0: Map<usize, usize>, lo: int, c: usize, least_of: nat)
    requires texts(t, s, m), sized(m, m.dom(), w0, lo), lo <= c < t.col_cnt,
        forall|k: int| 0 <= k < t.row_cnt && (#[trigger] t.at(k, c as int)) is Some ==> least(t.at(k, c as int)->0) <= least_of,
        least_of == 0 || exists|k: int| 0 <= k < t.row_cnt && #[trigger] t.at(k, c as int) is Some && least(t.at(k, c as int)->0) == least_of,
    ensures width(t, t.row_cnt as int, c as int, s) == (if least_of > size_or(w0, c as int) { least_of } else { size_or(w0, c as int) as nat })
{
    reveal(sized);
    let b = size_or(w0, c as int);
    let x = if least_of > b { least_of } else { b as nat };
    assert forall|k: int| 0 <= k < t.row_cnt implies cell_size(#[trigger] t.at(k, c as int), s) <= x by {
        let p = Table::pos(k, c as int);
        if cell_text(t.at(k, c as int), s) is Some { assert(m.contains_key(p)); assert(m.dom().contains(p)); }
    }
    if x > 0 {
        if least_of > b {
            let k = choose|k: int| 0 <= k < t.row_cnt && #[trigger] t.at(k, c as int) is Some && least(t.at(k, c as int)->0) == least_of;
            assert(cell_size(t.at(k, c as int), s) == x);
        } else {
            let p = choose|p: CellPos| #[trigger] m.dom().contains(p) && p.col == c && blen(m[p]@) == w0[c];
            assert(m.contains_key(p));
            assert(cell_size(t.at(p.row as int, c as int), s) == x);
        }
    }
    width_is(t, t.row_cnt as int, c as int, s, x);
}
pub open spec fn tcell(x: Option<Cell>, n: nat, s0: Vs, s: Vs) -> Vs {
    match cell_text(x, s0) {
        Some(t) => { let s = wr(s, t); if blen(t) < n { wr(s, rep(" "@, (n - blen(t)) as nat)) } else { s } },
        None => match x {
            Some(Cell::Align(ColumnAlign::None)) => wr(s, rep("-"@, n)),
            Some(Cell::Align(ColumnAlign::Left)) => wr(wr(s, ":"@), rep("-"@, (n - 1) as nat)),
            Some(Cell::Align(ColumnAlign::Center)) => wr(wr(wr(s, ":"@), rep("-"@, (n - 2) as nat)), ":"@),
            Some(Cell::Align(ColumnAlign::Right)) => wr(wr(s, rep("-"@, (n - 1) as nat)), ":"@),
            _ => wr(s, rep(" "@, n)),
        },
    }
}
pub open spec fn tcells(t: Table, r: int, c: int, s0: Vs, s: Vs) -> Vs decreases t.col_cnt - c { if c >= t.col_cnt { s } else { tcells(t, r, c + 1, s0, wr(tcell(t.at(r, c), width(t, t.row_cnt as int, c, s0), s0, s), "|"@)) } }
pub open spec fn tstart(t: Table, s: Vs) -> Vs { let s = indent(s); wr(if t.centered { wr(s, "    "@) } else { s }, "|"@) }
/// the rows from r: bar, cells, line end
pub open spec fn trows(t: Table, r: int, s0: Vs, s: Vs) -> Vs decreases t.row_cnt - r { if r >= t.row_cnt { s } else { trows(t, r + 1, s0, wr(tcells(t, r, 0, s0, tstart(t, s)), "\n"@)) } }
@endraw
@fnhead broadcast use {vwlem::ax_ord, vwlem::ax_cow_str, vwlem::ax_to_string, vwlem::nil};
@source vimwiki-core/src/lang/output/vimwiki/formatter.rs
@fn VimwikiFormatter<Write>::write_str inherent
ensures ret is Ok, final(self).wrote(&*old(self), s@)
@fn VimwikiFormatter::new
ensures ret.vs() == (Vs { text: Seq::empty(), ind: 0, skip: false, cfg: config })
@fn VimwikiFormatter::clone_without_content
ensures ret.vs() == (Vs { text: Seq::empty(), ..self.vs() })
@fn VimwikiFormatter::write_indent
@@head
let ghost s0 = self.vs();
@@loop 0
invariant self.vs().ind == s0.ind, self.vs().cfg == s0.cfg, indent_str@ == s0.cfg.page.indent_str@, times(self.vs(), indent_str@, s0.ind - it__0.index()) == indent(s0)
@@contract
ensures final(self).vs().ind == old(self).vs().ind, ret is Ok, final(self).vs() == indent(old(self).vs())
@fn VimwikiFormatter::and_indent
@@head
proof { nesting(self.indent_level); }
@@contract
requires forall|m: &mut Self| m.vs() == deep(old(self).vs(), 1) ==> #[trigger] f.requires((m,)), forall|m: &mut Self, r: Result<(), VimwikiOutputError>| #[trigger] f.ensures((m,), r) ==> final(m).vs().ind == m.vs().ind
ensures final(self).vs().ind == old(self).vs().ind, exists|m: &mut Self| m.vs() == deep(old(self).vs(), 1) && final(self).vs() == deep(final(m).vs(), -1) && #[trigger] f.ensures((m,), ret)
@fn VimwikiFormatter::and_trim
requires forall|m: &mut Self| m.vs() == skip(old(self).vs(), true) ==> #[trigger] f.requires((m,)), forall|m: &mut Self, r: Result<(), VimwikiOutputError>| #[trigger] f.ensures((m,), r) ==> final(m).vs().ind == m.vs().ind
ensures final(self).vs().ind == old(self).vs().ind, exists|m: &mut Self, r: Result<(), VimwikiOutputError>| m.vs() == skip(old(self).vs(), true) && (ret is Ok <==> r is Ok) && (r is Ok ==> final(self).vs() == cut(skip(final(m).vs(), false))) && #[trigger] f.ensures((m,), r)
@fn VimwikiFormatter::skip_whitespace
requires forall|m: &mut Self| m.vs() == skip(old(self).vs(), true) ==> #[trigger] f.requires((m,)), forall|m: &mut Self, r: Result<(), VimwikiOutputError>| #[trigger] f.ensures((m,), r) ==> final(m).vs().ind == m.vs().ind
ensures final(self).vs().ind == old(self).vs().ind, exists|m: &mut Self| m.vs() == skip(old(self).vs(), true) && final(self).vs() == skip(final(m).vs(), false) && #[trigger] f.ensures((m,), ret)
@fn VimwikiFormatter::trim_end
@@head
proof { tail_take(self.content@); }
@@contract
ensures final(self).vs() == cut(old(self).vs())
@fn VimwikiFormatter::config
ensures *ret == self.config
@fn VimwikiFormatter::clear_content
ensures final(self).vs() == (Vs { text: Seq::empty(), ..old(self).vs() })
@fn VimwikiFormatter::get_content
ensures ret@ == self.content@
@fn VimwikiFormatter::into_content
ensures ret@ == self.content@
@autopar &mutVimwikiFormatter ;; ensures final(PAR).vs().ind == old(PAR).vs().ind ;;
@loopinv invariant true, ;; invariant true, ;; PAR.vs()
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@fn DefinitionListValue::as_inner
ensures *ret == self.0
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@fn Text::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@fn LineComment::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/output/vimwiki/mod.rs
@fn Page<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.elements@, it__0.idx() + it__0.rem().len() == self.elements@.len(), page(it__0.rem(), separate_block_elements, f.vs()) == page(self.elements@, separate_block_elements, old(f).vs())
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (page(self.elements@, old(f).vs().cfg.page.separate_block_elements, old(f).vs()))
@@stub
@fn Element<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { Element::Block(x) => w(x, old(f).vs()), Element::Inline(x) => w(x, old(f).vs()), Element::InlineBlock(x) => w(x, old(f).vs()) })
@@stub
@fn InlineBlockElement<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { InlineBlockElement::ListItem(x) => w(x, old(f).vs()), InlineBlockElement::Term(x) => w(x, old(f).vs()), InlineBlockElement::Definition(x) => w(x, old(f).vs()) })
@@stub
@fn BlockElement<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { BlockElement::Blockquote(x) => w(x, old(f).vs()), BlockElement::DefinitionList(x) => w(x, old(f).vs()), BlockElement::Divider(x) => w(x, old(f).vs()), BlockElement::Header(x) => w(x, old(f).vs()), BlockElement::List(x) => w(x, old(f).vs()), BlockElement::MathBlock(x) => w(x, old(f).vs()), BlockElement::Paragraph(x) => w(x, old(f).vs()), BlockElement::Placeholder(x) => w(x, old(f).vs()), BlockElement::CodeBlock(x) => w(x, old(f).vs()), BlockElement::Table(x) => w(x, old(f).vs()) })
@@stub
@fn Blockquote<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.lines@, quote(it__0.rem(), !prefer_indented_blockquote, trim_lines, f.vs()) == quote(self.lines@, !prefer_indented_blockquote, trim_lines, old(f).vs())
@@closure 0
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (wr(old(f).vs(), cow_str(*line)))
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (quote(self.lines@, !old(f).vs().cfg.blockquote.prefer_indented_blockquote, old(f).vs().cfg.blockquote.trim_lines, old(f).vs()))
@@stub
@fn DefinitionList<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.items@, terms(it__0.rem(), term_on_line_by_itself, trim_terms, trim_definitions, f.vs()) == terms(self.items@, term_on_line_by_itself, trim_terms, trim_definitions, old(f).vs())
@@loop 1
invariant f.vs().ind == old(f).vs().ind, it0__1.rem() =~= bundle.val().definitions.val().definitions@, it__1.idx() >= 0, defs(it__1.rem(), it__1.idx() == 0 && !term_on_line_by_itself, trim_definitions, f.vs()) == defs(it0__1.rem(), !term_on_line_by_itself, trim_definitions, snap__1)
@@closure 0
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (w(bundle.val().term.val(), old(f).vs()))
@@closure 1
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (w(def.val(), old(f).vs()))
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (terms(self.items@, old(f).vs().cfg.definition_list.term_on_line_by_itself, old(f).vs().cfg.definition_list.trim_terms, old(f).vs().cfg.definition_list.trim_definitions, old(f).vs()))
@@stub
@fn DefinitionListValue<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (w(self.0, old(f).vs()))
@@stub
@fn Divider<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (wr(old(f).vs(), "----\n"@))
@@stub
@fn Header<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, times(f.vs(), "="@, self.level - it__0.index()) == times(snap__0, "="@, self.level as int)
@@loop 1
invariant f.vs().ind == old(f).vs().ind, times(f.vs(), "="@, self.level - it__1.index()) == times(snap__1, "="@, self.level as int)
@@closure 0
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (w(self.content, old(f).vs()))
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == ({ let c = old(f).vs().cfg.header; let s = if self.centered { wr(old(f).vs(), "    "@) } else { old(f).vs() }; let s = times(s, "="@, self.level as int); let s = if c.no_padding { s } else { wr(s, " "@) }; let s = ww(self.content, s, c.trim_content); let s = if c.no_padding { s } else { wr(s, " "@) }; wr(times(s, "="@, self.level as int), "\n"@) })
@@stub
@fn List<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.items@, every(it__0.rem(), f.vs()) == every(self.items@, old(f).vs())
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (every(self.items@, old(f).vs()))
@@stub
@fn ListItem<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.contents.0@, it__0.idx() >= 0, item(*self, it__0.rem(), it__0.idx() == 0, f.vs()) == item(*self, self.contents.0@, true, old(f).vs())
@@closure 0
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (w(content.val(), old(f).vs()))
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (item(*self, self.contents.0@, true, old(f).vs()))
@@stub
@fn ListItemTodoStatus<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == ({ let t = old(f).vs().cfg.list.todo; wr(old(f).vs(), seq![match *self { ListItemTodoStatus::Incomplete => t.incomplete_char, ListItemTodoStatus::PartiallyComplete1 => t.partially_complete_1_char, ListItemTodoStatus::PartiallyComplete2 => t.partially_complete_2_char, ListItemTodoStatus::PartiallyComplete3 => t.partially_complete_3_char, ListItemTodoStatus::Complete => t.complete_char, ListItemTodoStatus::Rejected => t.rejected_char }]) })
@@stub
@fn MathBlock<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.lines@, lines(it__0.rem(), f.vs()) == lines(self.lines@, snap__0)
@@closure 0
ensures r__@ == "%"@ + cow_str(*e) + "%"@
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == ({ let s = wr(indent(old(f).vs()), "{{$"@); let s = wr(s, match self.environment { Some(e) => "%"@ + cow_str(e) + "%"@, None => Seq::empty() }); let s = lines(self.lines@, wr(s, "\n"@)); wr(indent(s), "}}$\n"@) })
@@stub
@fn Placeholder<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { Placeholder::Title(x) => wr(wr(wr(old(f).vs(), "%title "@), cow_str(x)), "\n"@), Placeholder::Date(x) => wr(wr(wr(old(f).vs(), "%date "@), x.disp()), "\n"@), Placeholder::Template(x) => wr(wr(wr(old(f).vs(), "%template "@), cow_str(x)), "\n"@), Placeholder::NoHtml => wr(old(f).vs(), "%nohtml\n"@), Placeholder::Other { name, value } => wr(wr(wr(wr(wr(old(f).vs(), "%"@), cow_str(name)), " "@), cow_str(value)), "\n"@) })
@@stub
@fn CodeBlock<Output<VimwikiFormatter>>::fmt
@@head
proof { vwlem::ax_obeys(); }
@@closure 0
ensures r__.0@ == cow_str(*p__0.0), r__.1@ == cow_str(*p__0.1)
@@closure 1
ensures r__ == ord(p__0.0@, p__1.0@)
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it__0.idx() >= 0, by_key(self.metadata, it0__0.rem()), pairs(it__0.rem(), it__0.idx() != 0 || self.language is Some, f.vs()) == pairs(it0__0.rem(), self.language is Some, code_head(*self, old(f).vs()))
@@loop 1
invariant f.vs().ind == old(f).vs().ind, it0__1.rem() =~= self.lines@, lines(it__1.rem(), f.vs()) == lines(self.lines@, snap__1)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, exists|v: Seq<(&str, &str)>| #[trigger] by_key(self.metadata, v) && final(f).vs() == code(*self, v, old(f).vs())
@@stub
@fn Paragraph<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.lines@, para(it__0.rem(), trim_lines, f.vs()) == para(self.lines@, trim_lines, old(f).vs())
@@closure 0
ensures final(f).vs().ind == old(f).vs().ind, r__ is Ok, final(f).vs() == (w(*line, old(f).vs()))
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (para(self.lines@, old(f).vs().cfg.paragraph.trim_lines, old(f).vs()))
@@stub
@fn Table<Output<VimwikiFormatter>>::fmt rlimit=60 spinoff
@@head
broadcast use {vwtab::fits, vwtab::at_least, vwtab::ascii, vwtab::col_width, vwtab::all_texts, vwtab::sized_on, vwtab::size_fits, vwtab::wr_ind};
let ghost s0 = f.vs();
hide(wr); hide(indent); hide(width); hide(cell_text); hide(cell_size); hide(rep); hide(lead); hide(tail);
@@closures 6
@@closure 0
ensures match raw_text(p__0.1.val(), s0) { Some(x) => r__ is Some && r__->0 is Ok && r__->0->Ok_0.0 == p__0.0 && r__->0->Ok_0.1@ == x, None => r__ is None }
@@closure 1
ensures r__.0 == pos, r__.1@ == formatter.content@
@@closure 2
ensures res is Ok ==> r__ is Ok && r__->Ok_0.0 == res->Ok_0.0 && r__->Ok_0.1@ =~= padded(no_padding, res->Ok_0.1@)
@@closure 3
ensures r__@ =~= grow(acc@, p__1.0.col, blen(p__1.1@)), blen(p__1.1@) <= isize::MAX
@@closure 4
ensures r__ == least(x.val())
@@closure 5
ensures *r__ == x.val()
@@loop 0
invariant f.vs() == s0, texts(*self, s0, fixed_size_cells@), sized(fixed_size_cells@, fixed_size_cells@.dom(), max_column_sizes@, it__0.index()), forall|c: int| 0 <= c < it__0.index() ==> (#[trigger] width(*self, self.row_cnt as int, c, s0)) == size_or(max_column_sizes@, c), forall|c: int| 0 <= c < it__0.index() ==> #[trigger] size_or(max_column_sizes@, c) <= isize::MAX
@@loop 1
invariant f.vs().ind == s0.ind, trows(*self, it__1.index(), s0, f.vs()) == trows(*self, 0, s0, s0)
@@loop 2
invariant f.vs().ind == s0.ind, tcells(*self, row as int, it__2.index(), s0, f.vs()) == tcells(*self, row as int, 0, s0, snap__2)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == trows(*self, 0, old(f).vs(), old(f).vs())
@@stub
@fn InlineElementContainer<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.elements@, every(it__0.rem(), f.vs()) == every(self.elements@, old(f).vs())
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (every(self.elements@, old(f).vs()))
@@stub
@fn InlineElement<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { InlineElement::Text(x) => w(x, old(f).vs()), InlineElement::DecoratedText(x) => w(x, old(f).vs()), InlineElement::Keyword(x) => w(x, old(f).vs()), InlineElement::Link(x) => w(x, old(f).vs()), InlineElement::Tags(x) => w(x, old(f).vs()), InlineElement::Code(x) => w(x, old(f).vs()), InlineElement::Math(x) => w(x, old(f).vs()), InlineElement::Comment(x) => w(x, old(f).vs()) })
@@stub
@fn Text<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (wr(old(f).vs(), cow_str(self.0)))
@@stub
@fn DecoratedText<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, every(it__0.rem(), f.vs()) == every(contents@, snap__0)
@@loop 1
invariant f.vs().ind == old(f).vs().ind, every(it__1.rem(), f.vs()) == every(contents@, snap__1)
@@loop 2
invariant f.vs().ind == old(f).vs().ind, every(it__2.rem(), f.vs()) == every(contents@, snap__2)
@@loop 3
invariant f.vs().ind == old(f).vs().ind, every(it__3.rem(), f.vs()) == every(contents@, snap__3)
@@loop 4
invariant f.vs().ind == old(f).vs().ind, every(it__4.rem(), f.vs()) == every(contents@, snap__4)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { DecoratedText::Bold(v) => wr(every(v@, wr(old(f).vs(), "*"@)), "*"@), DecoratedText::Italic(v) => wr(every(v@, wr(old(f).vs(), "_"@)), "_"@), DecoratedText::Strikeout(v) => wr(every(v@, wr(old(f).vs(), "~~"@)), "~~"@), DecoratedText::Superscript(v) => wr(every(v@, wr(old(f).vs(), "^"@)), "^"@), DecoratedText::Subscript(v) => wr(every(v@, wr(old(f).vs(), ",,"@)), ",,"@) })
@@stub
@fn DecoratedTextContent<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { DecoratedTextContent::Text(x) => w(x, old(f).vs()), DecoratedTextContent::DecoratedText(x) => w(x, old(f).vs()), DecoratedTextContent::Keyword(x) => w(x, old(f).vs()), DecoratedTextContent::Link(x) => w(x, old(f).vs()) })
@@stub
@fn Keyword<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (wr(old(f).vs(), kw(*self)))
@@stub
@fn Link<Output<VimwikiFormatter>>::fmt
@@head
proof { vwlem::ax_obeys(); }
@@closure 0
ensures r__.0@ == cow_str(*p__0.0), r__.1@ == cow_str(*p__0.1)
@@closure 1
ensures r__ == ord(p__0.0@, p__1.0@)
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it__0.idx() >= 0, by_key(*properties, it0__0.rem()), pairs(it__0.rem(), it__0.idx() != 0, f.vs()) == pairs(it0__0.rem(), false, snap__0)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, match *self {
    Link::Wiki { data } => final(f).vs() == link_end(data, wr(wr(old(f).vs(), "[["@), uri_text(data))),
    Link::IndexedInterWiki { index, data } => final(f).vs() == link_end(data, wr(wr(wr(wr(wr(old(f).vs(), "[["@), "wiki"@), dec(index as nat)), ":"@), uri_text(data))),
    Link::NamedInterWiki { name, data } => final(f).vs() == link_end(data, wr(wr(wr(wr(wr(old(f).vs(), "[["@), "wn."@), cow_str(name)), ":"@), uri_text(data))),
    Link::Diary { date, data } => final(f).vs() == link_end(data, { let s = wr(wr(old(f).vs(), "[[diary:"@), date.disp()); match anchor_of(data) { Some(a) => wr(s, a.disp()), None => s } }),
    Link::Raw { data } => final(f).vs() == wr(old(f).vs(), data.uri_ref.disp()),
    Link::Transclusion { data } => match data.properties { Some(m) => exists|v: Seq<(&str, &str)>| #[trigger] by_key(m, v) && final(f).vs() == trans(data, v, old(f).vs()), None => final(f).vs() == trans(data, Seq::empty(), old(f).vs()) },
}
@@stub
@fn Tags<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.0@, tags(it__0.rem(), f.vs()) == tags(self.0@, snap__0)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (tags(self.0@, wr(old(f).vs(), ":"@)))
@@stub
@fn CodeInline<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (wr(wr(wr(old(f).vs(), "`"@), cow_str(self.0)), "`"@))
@@stub
@fn MathInline<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (wr(wr(wr(old(f).vs(), "$"@), cow_str(self.0)), "$"@))
@@stub
@fn Comment<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == (match *self { Comment::Line(x) => w(x, old(f).vs()), Comment::MultiLine(x) => w(x, old(f).vs()) })
@@stub
@fn LineComment<Output<VimwikiFormatter>>::fmt
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == ({ let c = old(f).vs().cfg.comment; let s = wr(old(f).vs(), "%%"@); let s = if c.no_padding { s } else { wr(s, " "@) }; wr(s, trimif(c.trim_content, cow_str(self.0))) })
@@stub
@fn MultiLineComment<Output<VimwikiFormatter>>::fmt
@@loop 0
invariant f.vs().ind == old(f).vs().ind, it0__0.rem() =~= self.0@, it__0.idx() + it__0.rem().len() == self.0@.len(), mlines(it__0.rem(), trim_content, f.vs()) == mlines(self.0@, trim_content, snap__0)
@@contract
ensures final(f).vs().ind == old(f).vs().ind, ret is Ok, final(f).vs() == ({ let c = old(f).vs().cfg.comment; let s = wr(old(f).vs(), "%%+"@); let s = if c.no_padding { s } else { wr(s, " "@) }; let s = mlines(self.0@, c.trim_content, s); let s = if c.no_padding { s } else { wr(s, " "@) }; wr(s, "+%%"@) })
@@stub
@raw
pub trait ToVimwikiString: Sized {
    fn to_vimwiki_string(&self, config: VimwikiConfig) -> (ret: Result<String, VimwikiOutputError>) ensures ret is Ok, ret->Ok_0@ == w(*self, Vs { text: Seq::empty(), ind: 0, skip: false, cfg: config }).text;
}
@endraw
@source vimwiki-core/src/lang/output/vimwiki/convert.rs
@fn T<ToVimwikiString>::to_vimwiki_string
ensures ret is Ok, ret->Ok_0@ == w(*self, Vs { text: Seq::empty(), ind: 0, skip: false, cfg: config }).text
@@stub
