//# HTML output: every writer appends the HTML of its element (unit of P08)
@include std.rs
@raw
use std::borrow::Cow;
use vstd::std_specs::cmp::*;
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::convert::AsRef<B>>::as_ref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
/// the text of a Cow
pub open spec fn cow_str(x: Cow<str>) -> Seq<char> { match x { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> Disp__ for Cow<'a, str> { open spec fn disp(&self) -> Seq<char> { cow_str(*self) } }
impl<'a> Disp__ for Cow<'a, Cow<'a, str>> { open spec fn disp(&self) -> Seq<char> { match *self { Cow::Borrowed(c) => cow_str(*c), Cow::Owned(c) => cow_str(c) } } }
mod hlem {
    use super::*;
    verus! {
    pub broadcast proof fn nil(s: Seq<char>) ensures #![trigger s.len()] s.len() == 0 ==> s == Seq::<char>::empty() { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
    pub broadcast axiom fn ax_cow_str<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    pub broadcast axiom fn ax_deref_cow<'a>(x: &Cow<'a, str>) ensures #[trigger] deref_of::<Cow<'a, str>>(x)@ == cow_str(*x);
    pub broadcast axiom fn ax_deref_s(x: &String) ensures #[trigger] deref_of::<String>(x)@ == x@;
    pub broadcast axiom fn ax_to_string(x: String, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(&x, r) ==> r@ == x@;
    pub broadcast axiom fn ax_cow_to_string(x: &Cow<str>, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<str>>(x, r) ==> r@ == cow_str(*x);
    pub broadcast axiom fn ax_str_to_string(x: &str, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<str>(x, r) ==> r@ == x@;
    pub broadcast proof fn trims_texts(v: Seq<&str>, g: Seq<Cow<str>>) requires v.len() == g.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == trimmed(cow_str(g[i])) ensures #[trigger] texts(v) == #[trigger] trims(g) { assert(texts(v) =~= trims(g)); }
    pub broadcast proof fn whole<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
    pub axiom fn ax_obeys() ensures <String as PartialEqSpec<String>>::obeys_eq_spec(), <&str as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn ax_eq1(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn ax_eq2<'a>(a: &'a str, b: String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast proof fn top_is(h: Map<usize, Seq<char>>, m: usize) requires #[trigger] is_top(h, m) ensures top(h) == m, any_head(h) { let k = choose|m: usize| #[trigger] is_top(h, m); assert(is_top(h, k)); assert(h.contains_key(k)); assert(h.contains_key(m)); }
    // ---- after an error nothing else counts ----------------------------------------------------------------------
    pub broadcast proof fn d_every<T>(v: Seq<Located<T>>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = w(v[0].val(), s); !n.live ==> #[trigger] every(v, s) == n }) { if v.len() > 0 && s.live { let n = w(v[0].val(), s); if !n.live { assert(every(v.drop_first(), n) == n); } } }
    pub broadcast proof fn d_page(v: Seq<Located<BlockElement>>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = wr(w(v[0].val(), s), "\n"@); !n.live ==> #[trigger] page(v, s) == n }) { if v.len() > 0 && s.live { let n = wr(w(v[0].val(), s), "\n"@); if !n.live { assert(page(v.drop_first(), n) == n); } } }
    pub broadcast proof fn d_defs(v: Seq<Located<DefinitionListValue>>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = wr(ww(v[0].val(), wr(s, "<dd>"@)), "</dd>\n"@); !n.live ==> #[trigger] defs(v, s) == n }) { if v.len() > 0 && s.live { let n = wr(ww(v[0].val(), wr(s, "<dd>"@)), "</dd>\n"@); if !n.live { assert(defs(v.drop_first(), n) == n); } } }
    pub broadcast proof fn d_terms(v: Seq<Located<TermAndDefinitions>>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = defs(v[0].val().definitions.val().definitions@, wr(ww(v[0].val().term.val(), wr(s, "<dt>"@)), "</dt>\n"@)); !n.live ==> #[trigger] terms(v, s) == n }) { if v.len() > 0 && s.live { let n = defs(v[0].val().definitions.val().definitions@, wr(ww(v[0].val().term.val(), wr(s, "<dt>"@)), "</dt>\n"@)); if !n.live { assert(terms(v.drop_first(), n) == n); } } }
    pub broadcast proof fn d_items(v: Seq<Located<ListItem>>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = wr(w(v[0].val(), s), "\n"@); !n.live ==> #[trigger] items(v, s) == n }) { if v.len() > 0 && s.live { let n = wr(w(v[0].val(), s), "\n"@); if !n.live { assert(items(v.drop_first(), n) == n); } } }
    pub broadcast proof fn d_para(v: Seq<InlineElementContainer>, i: bool, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = every(v[0].elements@, s); !n.live ==> #[trigger] para(v, i, s) == n }) { if v.len() > 0 && s.live { let n = every(v[0].elements@, s); if !n.live { assert(para(v.drop_first(), i, n) == n); } } }
    pub broadcast proof fn d_tcells<'a>(t: Table<'a>, v: Seq<(CellPos, Cell<'a>)>, o: Seq<char>, c: Seq<char>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = match v[0].1 { Cell::Content(x) => wr(ww(x, wr(spans(t, v[0].0, wr(s, o)), ">"@)), c), _ => s }; !n.live ==> #[trigger] tcells(t, v, o, c, s) == n }) { if v.len() > 0 && s.live { let n = match v[0].1 { Cell::Content(x) => wr(ww(x, wr(spans(t, v[0].0, wr(s, o)), ">"@)), c), _ => s }; if !n.live { assert(tcells(t, v.drop_first(), o, c, n) == n); } } }
    pub broadcast proof fn d_trows(t: Table, v: Seq<int>, o: Seq<char>, c: Seq<char>, s: Hs) ensures v.len() > 0 && s.live ==> ({ let n = if t.shows(v[0]) { wr(tcells(t, t.row_at(v[0], 0), o, c, wr(s, "<tr>\n"@)), "</tr>\n"@) } else { s }; !n.live ==> #[trigger] trows(t, v, o, c, s) == n }) { if v.len() > 0 && s.live { let n = if t.shows(v[0]) { wr(tcells(t, t.row_at(v[0], 0), o, c, wr(s, "<tr>\n"@)), "</tr>\n"@) } else { s }; if !n.live { assert(trows(t, v.drop_first(), o, c, n) == n); } } }
    // ---- ids -------------------------------------------------------------------------------------------------------
    pub proof fn fuel_more(ids: Map<Seq<char>, usize>, id: Seq<char>, n: nat, k: nat) requires fuel(ids, id, n) is Some ensures fuel(ids, id, n + k) == fuel(ids, id, n) decreases n {
        if n > 0 && ids.contains_key(id) {
            let c = ids[id]; let t = id + "-"@ + dec((c + 1) as nat);
            if !ids.contains_key(t) { fuel_more(ids.insert(id, (c + 1) as usize), t, (n - 1) as nat, k); } else { fuel_more(ids, id + "-1"@, (n - 1) as nat, k); }
            assert((n + k - 1) as nat == (n - 1) as nat + k);
        }
    }
    pub broadcast proof fn climb_here(ids: Map<Seq<char>, usize>, id: Seq<char>) ensures #[trigger] reach(ids, id, ids, id) { assert(ahead(ids, id, ids, id, 0)) by { assert forall|n: nat| #[trigger] fuel(ids, id, n) == fuel(ids, id, n + 0) by {} } }
    pub broadcast proof fn climb_next(a: Map<Seq<char>, usize>, b: Seq<char>, c: Map<Seq<char>, usize>, d: Seq<char>, v: usize)
        requires reach(a, b, c, d), c.contains_key(d), v == (c[d] + 1) as usize, c[d] < usize::MAX, !c.contains_key(d + "-"@ + dec(v as nat))
        ensures #![trigger reach(a, b, c, d), c.insert(d, v)] reach(a, b, c.insert(d, v), d + "-"@ + dec(v as nat))
    {
        let k = choose|k: nat| #[trigger] ahead(a, b, c, d, k);
        let t = d + "-"@ + dec(v as nat);
        assert forall|n: nat| #[trigger] fuel(c.insert(d, v), t, n) == fuel(a, b, n + (k + 1)) by { assert(fuel(c, d, n + 1) == fuel(a, b, n + 1 + k)); assert(n + 1 + k == n + (k + 1)); assert((n + 1 - 1) as nat == n); }
        assert(ahead(a, b, c.insert(d, v), t, k + 1));
    }
    pub broadcast proof fn climb_over(a: Map<Seq<char>, usize>, b: Seq<char>, c: Map<Seq<char>, usize>, d: Seq<char>)
        requires reach(a, b, c, d), c.contains_key(d), c[d] < usize::MAX, c.contains_key(d + "-"@ + dec((c[d] + 1) as nat))
        ensures #![trigger reach(a, b, c, d), d + "-1"@] reach(a, b, c, d + "-1"@)
    {
        let k = choose|k: nat| #[trigger] ahead(a, b, c, d, k);
        assert forall|n: nat| #[trigger] fuel(c, d + "-1"@, n) == fuel(a, b, n + (k + 1)) by { assert(fuel(c, d, n + 1) == fuel(a, b, n + 1 + k)); assert(n + 1 + k == n + (k + 1)); assert((n + 1 - 1) as nat == n); }
        assert(ahead(a, b, c, d + "-1"@, k + 1));
    }
    pub broadcast proof fn climb_done(a: Map<Seq<char>, usize>, b: Seq<char>, c: Map<Seq<char>, usize>, d: Seq<char>)
        requires reach(a, b, c, d), !c.contains_key(d)
        ensures #![trigger reach(a, b, c, d), c.contains_key(d)] climb(a, b) == (c, d)
    {
        assert(climbs(a, b, (c, d))) by { let k = choose|k: nat| #[trigger] ahead(a, b, c, d, k); assert(fuel(c, d, 1) == Some((c, d))); assert(fuel(a, b, 1 + k) == Some((c, d))); }
        let k = choose|k: nat| #[trigger] ahead(a, b, c, d, k);
        assert(fuel(c, d, 1) == Some((c, d)));
        assert(fuel(a, b, 1 + k) == Some((c, d)));
        let r = climb(a, b);
        let m = choose|n: nat| #[trigger] fuel(a, b, n) == Some(r);
        assert(exists|n: nat| #[trigger] fuel(a, b, n) is Some);
        fuel_more(a, b, m, 1 + k); fuel_more(a, b, 1 + k, m); assert(m + (1 + k) == (1 + k) + m);
    }
    }
}
/// a located element stands for the element inside (Deref of the real type)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Located<T> { t: T }
impl<T> Located<T> { pub uninterp spec fn val(&self) -> T; #[verifier::external_body] pub fn as_inner(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
impl<T> std::ops::Deref for Located<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
impl<T: Disp__> Disp__ for Located<T> { open spec fn disp(&self) -> Seq<char> { self.val().disp() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body] pub struct NaiveDate { x: u8 }
impl Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveDate {}
#[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
impl<'a> Disp__ for URIReference<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
impl<'a> URIReference<'a> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() } }
#[verifier::external_body] pub struct URI<'a> { x: &'a u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
impl PathBuf { pub uninterp spec fn text(&self) -> Seq<char>; }
impl Path { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.text() == self.text() { unimplemented!() } }
pub mod fmt { pub struct Error {} pub type Result = core::result::Result<(), Error>; }
/// blanks, lower case
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
pub uninterp spec fn deref_of<T: std::ops::Deref>(x: &T) -> &T::Target;
pub assume_specification<T> [std::option::Option::<T>::as_deref] (o: &std::option::Option<T>) -> (r: std::option::Option<&<T as std::ops::Deref>::Target>)
    where T: std::ops::Deref,
    ensures r == (match o { Some(x) => Some(deref_of(x)), None => None });
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (o: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
/// the pieces between the characters p picks out
pub open spec fn pieces(s: Seq<char>, p: spec_fn(char) -> bool, cur: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![cur] } else if p(s[0]) { seq![cur] + pieces(s.drop_first(), p, Seq::empty()) } else { pieces(s.drop_first(), p, cur.push(s[0])) }
}
pub open spec fn nonempty(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { v } else if v[0].len() > 0 { seq![v[0]] + nonempty(v.drop_first()) } else { nonempty(v.drop_first()) } }
pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), sep) + sep + v.last() } }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn trims(v: Seq<Cow<str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| trimmed(cow_str(v[i]))) }
pub open spec fn white() -> spec_fn(char) -> bool { |c: char| vstd::std_specs::char::is_white_space(c) }
#[verifier::external_body] pub struct Split__<'x> { x: &'x str }
pub trait SplitStr__ {
    spec fn sv(&self) -> Seq<char>;
    fn split<F: Fn(char) -> bool>(&self, f: F) -> (r: Split__<'_>) requires forall|c: char| #[trigger] f.requires((c,))
        ensures r.src() == self.sv(), forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == p(c)) ==> r.parts() == #[trigger] pieces(self.sv(), p, Seq::empty());
}
impl SplitStr__ for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn split<F: Fn(char) -> bool>(&self, f: F) -> (r: Split__<'_>) { unimplemented!() } }
impl<'x> Split__<'x> {
    pub uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body] pub fn filter<F: Fn(&&'x str) -> bool>(self, f: F) -> (r: Split__<'x>) requires forall|s: &&'x str| #[trigger] f.requires((s,)), forall|s: &&'x str, b: bool| #[trigger] f.ensures((s,), b) ==> b == (s@.len() > 0) ensures r.parts() == nonempty(self.parts()) { unimplemented!() }
    #[verifier::external_body] pub fn collect<V>(self) -> (r: Vec<&'x str>) ensures texts(r@) == self.parts() { unimplemented!() }
}
pub trait Join__ { spec fn tv(&self) -> Seq<Seq<char>>; fn join(&self, s: &str) -> (r: String) ensures r@ == join(self.tv(), s@); }
impl<'x> Join__ for Vec<&'x str> { open spec fn tv(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn join(&self, s: &str) -> (r: String) { unimplemented!() } }
pub trait Sp__ { spec fn sp_is_empty(&self) -> bool; }
impl Sp__ for str { open spec fn sp_is_empty(&self) -> bool { self@.len() == 0 } }
/// escaping (assumed contract of voca_rs::escape::escape_html: the six characters replaced one by one)
pub open spec fn esc1(c: char) -> Seq<char> { match c { '&' => "&amp;"@, '<' => "&lt;"@, '>' => "&gt;"@, '"' => "&quot;"@, '\'' => "&#x27;"@, '`' => "&#x60;"@, _ => seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
#[verifier::external_body] pub fn escape_html(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
/// destinations of write!: pieces are appended in order (assumed of core::fmt; HtmlFormatter::write_str is verified)
pub trait Sink__ { spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool; }
impl Sink__ for String { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { self@ == o@ + t } }
#[verifier::external_body] pub fn w_lit__<W: Sink__ + ?Sized>(w: &mut W, s: &str) ensures final(w).wrote(&*old(w), s@) { unimplemented!() }
#[verifier::external_body] pub fn w_disp__<W: Sink__ + ?Sized, T: Disp__ + ?Sized>(w: &mut W, x: &T) ensures final(w).wrote(&*old(w), x.disp()) { unimplemented!() }
pub fn w_end__() -> (r: Result<(), HtmlOutputError>) ensures r is Ok { Ok(()) }
pub trait WriteStr__ { fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>); }
impl WriteStr__ for String { #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result<(), fmt::Error>) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() } }
pub trait Into<T>: Sized { spec fn into_ens(self, r: T) -> bool; fn into__(self) -> (r: T) ensures self.into_ens(r); }
impl Into<String> for String { open spec fn into_ens(self, r: String) -> bool { r == self } fn into__(self) -> (r: String) { self } }
pub trait AsRef<T: ?Sized> { spec fn as_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_spec(); }
impl AsRef<Path> for PathBuf { uninterp spec fn as_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl<'a, T: ?Sized + AsRef<U>, U: ?Sized> AsRef<U> for &'a T { open spec fn as_spec(&self) -> &U { (**self).as_spec() } fn as_ref(&self) -> (r: &U) { (**self).as_ref() } }
pub uninterp spec fn path_of(s: Seq<char>) -> &'static Path;
impl AsRef<Path> for str { open spec fn as_spec(&self) -> &Path { path_of(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
/// HashMap as a finite map (assumed contract of std)
#[verifier::external_body] pub struct HKeys<'a> { k: &'a u8 }
impl HashMap<usize, String> {
    pub uninterp spec fn view(&self) -> Map<usize, Seq<char>>;
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&String>) ensures match r { Some(v) => self@.contains_key(*k) && v@ == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: HKeys<'_>) ensures r.of() == self@ { unimplemented!() }
    #[verifier::external_body] pub fn retain<F: Fn(&usize, &mut String) -> bool>(&mut self, f: F) requires forall|k: &usize, v: &mut String| #[trigger] f.requires((k, v))
        ensures forall|p: spec_fn(usize) -> bool| (forall|k: &usize, v: &mut String, b: bool| #[trigger] f.ensures((k, v), b) ==> b == p(*k) && final(v)@ == v@) ==> final(self)@ == #[trigger] kept(old(self)@, p) { unimplemented!() }
}
pub open spec fn kept(m: Map<usize, Seq<char>>, p: spec_fn(usize) -> bool) -> Map<usize, Seq<char>> { Map::new(m.dom().filter(p), |k: usize| m[k]) }
/// header levels and id counts stay below the largest address (assumed)
impl<'a> HKeys<'a> { pub uninterp spec fn of(&self) -> Map<usize, Seq<char>>; #[verifier::external_body] pub fn max(self) -> (r: Option<&'a usize>) ensures match r { Some(m) => *m < usize::MAX && is_top(self.of(), *m), None => forall|k: usize| !#[trigger] self.of().contains_key(k) } { unimplemented!() } }
impl HashMap<String, usize> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&usize>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@] && *v < usize::MAX, None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
pub trait Empty__ { spec fn none(&self) -> bool; }
impl Empty__ for HashMap<usize, String> { open spec fn none(&self) -> bool { self@ == Map::<usize, Seq<char>>::empty() } }
impl Empty__ for HashMap<String, usize> { open spec fn none(&self) -> bool { self@ == Map::<Seq<char>, usize>::empty() } }
impl<K, V> HashMap<K, V> where Self: Empty__ { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.none() { unimplemented!() } }
/// the entries of a map in the order its iterator meets them
pub type Meta<'a> = HashMap<Cow<'a, str>, Cow<'a, str>>;
pub uninterp spec fn entries(m: Meta) -> Seq<(Seq<char>, Seq<char>)>;
impl<'a> HashMap<Cow<'a, str>, Cow<'a, str>> { #[verifier::external_body] pub fn iter<'x>(&'x self) -> (r: HIter<'x, 'a>) ensures r.rem() == entries(*self) { unimplemented!() } }
#[verifier::external_body] pub struct HIter<'x, 'a> { x: &'x Meta<'a> }
impl<'x, 'a> HIter<'x, 'a> {
    pub uninterp spec fn rem(&self) -> Seq<(Seq<char>, Seq<char>)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'x Cow<'a, str>, &'x Cow<'a, str>)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && cow_str(*x.0) == old(self).rem()[0].0 && cow_str(*x.1) == old(self).rem()[0].1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
impl<'x, 'a> ForIter__ for HIter<'x, 'a> { type It = Self; open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
/// what writing an element does to the state of the formatter; its definition, one equation per type, is what the writers are proved to do
pub uninterp spec fn w<T, S>(x: T, s: S) -> S;
pub trait OutputFormatter: Sized { type Error; type S; spec fn hs(&self) -> Self::S; spec fn aft(ok: bool, s: Self::S) -> Self::S; }
pub trait Output<F: OutputFormatter>: Sized {
    fn fmt(&self, f: &mut F) -> (ret: Result<(), F::Error>) ensures F::aft(ret is Ok, final(f).hs()) == w(*self, old(f).hs());
}
pub open spec fn vals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// loops
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VIt__<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> VIt__<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && *x == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct EIt__<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> EIt__<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && *x.1 == old(self).rem()[0] && x.0 == old(self).idx() && final(self).idx() == old(self).idx() + 1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
pub trait ForIter__: Sized { type It; #[verifier::prophetic] spec fn made(&self, r: Self::It) -> bool; fn it__(self) -> (r: Self::It) ensures self.made(r); }
pub fn for_iter__<T: ForIter__>(x: T) -> (r: T::It) ensures x.made(r) { x.it__() }
impl<'a, T> ForIter__ for std::slice::Iter<'a, T> { type It = VIt__<'a, T>; #[verifier::prophetic] open spec fn made(&self, r: VIt__<'a, T>) -> bool { r.rem() == vals(vstd::std_specs::iter::IteratorSpec::remaining(self)) } #[verifier::external_body] fn it__(self) -> (r: VIt__<'a, T>) { unimplemented!() } }
impl<'a, T> ForIter__ for EIt__<'a, T> { type It = Self; #[verifier::prophetic] open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
pub trait Enumerate__<'a, T: 'a>: Sized { fn enumerate__(self) -> (r: EIt__<'a, T>); }
impl<'a, T> Enumerate__<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::external_body] fn enumerate__(self) -> (r: EIt__<'a, T>) ensures r.idx() == 0, r.rem() == vals(vstd::std_specs::iter::IteratorSpec::remaining(&self)) { unimplemented!() }
}
macro_rules! refiter__ { ($($t:ident : $i:ty : $f:tt),* $(,)?) => { verus! { $(
    impl<'x, 'a> ForIter__ for &'x $t<'a> { type It = VIt__<'x, $i>; #[verifier::prophetic] open spec fn made(&self, r: Self::It) -> bool { r.rem() == self.$f@ } #[verifier::external_body] fn it__(self) -> (r: Self::It) { unimplemented!() } }
)* } } }
refiter__! {
    Blockquote: Cow<'a, str>: lines, CodeBlock: Cow<'a, str>: lines, MathBlock: Cow<'a, str>: lines, MultiLineComment: Cow<'a, str>: 0, Paragraph: InlineElementContainer<'a>: lines,
    DefinitionList: Located<TermAndDefinitions<'a>>: items, List: Located<ListItem<'a>>: items, ListItemContents: Located<BlockElement<'a>>: 0,
    InlineElementContainer: Located<InlineElement<'a>>: elements, Tags: Tag<'a>: 0, DefinitionBundle: Located<Definition<'a>>: definitions,
}
impl<'x, T> ForIter__ for &'x Vec<T> { type It = VIt__<'x, T>; #[verifier::prophetic] open spec fn made(&self, r: Self::It) -> bool { r.rem() == self@ } #[verifier::external_body] fn it__(self) -> (r: Self::It) { unimplemented!() } }
@endraw
@include alltypes.spec
@source vimwiki-core/src/lang/output/html/config.rs
@type HtmlWikiConfig
@type HtmlRuntimeConfig
@type HtmlListConfig
@type HtmlParagraphConfig
@type HtmlLinkConfig
@type HtmlHeaderConfig
@type HtmlCodeConfig
@type HtmlCommentConfig
@type HtmlTemplateConfig
@type HtmlConfig
@source vimwiki-core/src/lang/output/html/formatter.rs
@type HtmlFormatter
@raw
/// the state of the formatter; a dead one follows an error and stays as it is
pub struct Hs { pub live: bool, pub text: Seq<char>, pub heads: Map<usize, Seq<char>>, pub ids: Map<Seq<char>, usize>, pub title: Option<Seq<char>>, pub date: Option<NaiveDate>, pub tpl: Option<Seq<char>>, pub cfg: HtmlConfig }
pub open spec fn dead() -> Hs { Hs { live: false, ..arbitrary() } }
impl HtmlFormatter {
    pub open spec fn hs(&self) -> Hs {
        Hs { live: true, text: self.content@, heads: self.last_seen_headers@, ids: self.id_cache@, title: match self.title { Some(t) => Some(t@), None => None }, date: self.date, tpl: match self.template { Some(t) => Some(t.text()), None => None }, cfg: self.config }
    }
}
impl OutputFormatter for HtmlFormatter {
    type Error = HtmlOutputError;
    type S = Hs;
    open spec fn hs(&self) -> Hs { HtmlFormatter::hs(self) }
    open spec fn aft(ok: bool, s: Hs) -> Hs { if ok { s } else { dead() } }
}
pub open spec fn aft(ok: bool, s: Hs) -> Hs { if ok { s } else { dead() } }
impl Sink__ for HtmlFormatter { open spec fn wrote(&self, o: &Self, t: Seq<char>) -> bool { HtmlFormatter::hs(self) == wr(HtmlFormatter::hs(o), t) } }
#[verifier::external_body] pub struct OtherError__ { x: u8 }
/// the errors, all but one of them left out
pub enum HtmlOutputError { ThemeMissing(String), Other(OtherError__) }
pub type HtmlOutputResult = Result<(), HtmlOutputError>;
impl HtmlOutputError { #[verifier::external_body] pub fn from__<E>(e: E) -> (r: Self) { unimplemented!() } }
pub open spec fn wr(s: Hs, t: Seq<char>) -> Hs { if s.live { Hs { text: s.text + t, ..s } } else { s } }
pub open spec fn we(s: Hs, t: Seq<char>) -> Hs { wr(s, esc(t)) }
pub open spec fn ww<T>(x: T, s: Hs) -> Hs { if s.live { w(x, s) } else { s } }
pub open spec fn every<T>(v: Seq<Located<T>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 || !s.live { s } else { every(v.drop_first(), w(v[0].val(), s)) } }
pub open spec fn elines(v: Seq<Cow<str>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 { s } else { elines(v.drop_first(), wr(we(s, cow_str(v[0])), "\n"@)) } }
pub open spec fn page(v: Seq<Located<BlockElement>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 || !s.live { s } else { page(v.drop_first(), wr(w(v[0].val(), s), "\n"@)) } }
// ---- blockquotes: runs of non-empty lines ----
pub open spec fn run_of(v: Seq<Cow<str>>) -> Seq<Seq<Cow<str>>> { if v.len() > 0 { seq![v] } else { seq![] } }
pub open spec fn groups<'a>(v: Seq<Cow<'a, str>>, cur: Seq<Cow<'a, str>>) -> Seq<Seq<Cow<'a, str>>> decreases v.len() {
    if v.len() == 0 { run_of(cur) } else if cow_str(v[0]).len() == 0 { run_of(cur) + groups(v.drop_first(), seq![]) } else { groups(v.drop_first(), cur.push(v[0])) }
}
pub open spec fn paras(v: Seq<Seq<Cow<str>>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 { s } else { paras(v.drop_first(), wr(we(wr(s, "<p>"@), join(trims(v[0]), " "@)), "</p>\n"@)) } }
pub open spec fn quote(v: Seq<Cow<str>>, s: Hs) -> Hs { wr(if groups(v, seq![]).len() > 1 { paras(groups(v, seq![]), s) } else { elines(v, s) }, "</blockquote>"@) }
#[verifier::external_body] pub struct Groups__<'x, 'a> { x: &'x Vec<Cow<'a, str>> }
impl<'x, 'a> Groups__<'x, 'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<Cow<'a, str>>>;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'x [Cow<'a, str>]>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x@ == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
impl<'x, 'a> ForIter__ for Groups__<'x, 'a> { type It = Self; #[verifier::prophetic] open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
/// slice::split and filter: the runs between the lines for which f holds; those that are kept
pub open spec fn parts<T>(v: Seq<T>, cut: spec_fn(T) -> bool, cur: Seq<T>) -> Seq<Seq<T>> decreases v.len() { if v.len() == 0 { seq![cur] } else if cut(v[0]) { seq![cur] + parts(v.drop_first(), cut, seq![]) } else { parts(v.drop_first(), cut, cur.push(v[0])) } }
pub open spec fn keep<T>(v: Seq<T>, good: spec_fn(T) -> bool) -> Seq<T> decreases v.len() { if v.len() == 0 { seq![] } else if good(v[0]) { seq![v[0]] + keep(v.drop_first(), good) } else { keep(v.drop_first(), good) } }
#[verifier::external_body] pub struct Parts__<'x, 'a> { x: &'x Vec<Cow<'a, str>> }
pub trait Cut__<'a> { fn split<F: Fn(&Cow<'a, str>) -> bool>(&self, f: F) -> (r: Parts__<'_, 'a>) requires forall|x: &Cow<'a, str>| #[trigger] f.requires((x,)) ensures r.of() == self.sv(), forall|b: spec_fn(Cow<'a, str>) -> bool| (forall|x: &Cow<'a, str>, o: bool| #[trigger] f.ensures((x,), o) ==> o == b(*x)) ==> r.rem() == #[trigger] parts(self.sv(), b, seq![]); spec fn sv(&self) -> Seq<Cow<'a, str>>; }
impl<'a> Cut__<'a> for Vec<Cow<'a, str>> {
    open spec fn sv(&self) -> Seq<Cow<'a, str>> { self@ }
    #[verifier::external_body] fn split<F: Fn(&Cow<'a, str>) -> bool>(&self, f: F) -> (r: Parts__<'_, 'a>) { unimplemented!() }
}
impl<'x, 'a> Parts__<'x, 'a> {
    pub uninterp spec fn of(&self) -> Seq<Cow<'a, str>>;
    pub uninterp spec fn rem(&self) -> Seq<Seq<Cow<'a, str>>>;
    #[verifier::external_body] pub fn filter<F: Fn(&&[Cow<'a, str>]) -> bool>(self, f: F) -> (r: Groups__<'x, 'a>) requires forall|x: &&[Cow<'a, str>]| #[trigger] f.requires((x,)) ensures forall|b: spec_fn(Seq<Cow<'a, str>>) -> bool| (forall|x: &&[Cow<'a, str>], o: bool| #[trigger] f.ensures((x,), o) ==> o == b((*x)@)) ==> r.rem() == #[trigger] keep(self.rem(), b) { unimplemented!() }
}
pub open spec fn no_text<'a>() -> spec_fn(Cow<'a, str>) -> bool { |x: Cow<'a, str>| cow_str(x).len() == 0 }
pub open spec fn some_lines<'a>() -> spec_fn(Seq<Cow<'a, str>>) -> bool { |x: Seq<Cow<'a, str>>| x.len() > 0 }
pub proof fn groups_are<'a>(v: Seq<Cow<'a, str>>, cur: Seq<Cow<'a, str>>) ensures groups(v, cur) == keep(parts(v, no_text(), cur), some_lines()), forall|x: Cow<'a, str>| #[trigger] no_text()(x) == (cow_str(x).len() == 0), forall|x: Seq<Cow<'a, str>>| #[trigger] some_lines()(x) == (x.len() > 0) decreases v.len()
{
    let p = parts(v, no_text(), cur);
    if v.len() == 0 { assert(keep(p.drop_first(), some_lines()) =~= seq![]); assert(p[0] == cur); assert(groups(v, cur) =~= keep(p, some_lines())); }
    else if no_text()(v[0]) {
        groups_are(v.drop_first(), seq![]);
        assert(p.drop_first() =~= parts(v.drop_first(), no_text(), seq![])); assert(p[0] == cur);
        assert(groups(v, cur) =~= keep(p, some_lines()));
    } else { groups_are(v.drop_first(), cur.push(v[0])); }
}
// ---- definition lists ----
pub open spec fn defs(v: Seq<Located<DefinitionListValue>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 || !s.live { s } else { defs(v.drop_first(), wr(ww(v[0].val(), wr(s, "<dd>"@)), "</dd>\n"@)) } }
pub open spec fn terms(v: Seq<Located<TermAndDefinitions>>, s: Hs) -> Hs decreases v.len() {
    if v.len() == 0 || !s.live { s } else { let x = v[0].val(); terms(v.drop_first(), defs(x.definitions.val().definitions@, wr(ww(x.term.val(), wr(s, "<dt>"@)), "</dt>\n"@))) }
}
// ---- ids ----
pub open spec fn idn(raw: Seq<char>) -> Seq<char> { esc(join(nonempty(pieces(lower(raw), white(), Seq::empty())), "-"@)) }
/// looking for an id that is not in use, in at most n steps
pub open spec fn fuel(ids: Map<Seq<char>, usize>, id: Seq<char>, n: nat) -> Option<(Map<Seq<char>, usize>, Seq<char>)> decreases n {
    if n == 0 { None } else if !ids.contains_key(id) { Some((ids, id)) } else {
        let c = ids[id]; let t = id + "-"@ + dec((c + 1) as nat);
        if !ids.contains_key(t) { fuel(ids.insert(id, (c + 1) as usize), t, (n - 1) as nat) } else { fuel(ids, id + "-1"@, (n - 1) as nat) }
    }
}
pub open spec fn ahead(a: Map<Seq<char>, usize>, b: Seq<char>, c: Map<Seq<char>, usize>, d: Seq<char>, k: nat) -> bool { forall|n: nat| #[trigger] fuel(c, d, n) == fuel(a, b, n + k) }
pub open spec fn reach(a: Map<Seq<char>, usize>, b: Seq<char>, c: Map<Seq<char>, usize>, d: Seq<char>) -> bool { exists|k: nat| #[trigger] ahead(a, b, c, d, k) }
pub open spec fn climbs(ids: Map<Seq<char>, usize>, id: Seq<char>, r: (Map<Seq<char>, usize>, Seq<char>)) -> bool { exists|n: nat| #[trigger] fuel(ids, id, n) == Some(r) }
pub open spec fn climb(ids: Map<Seq<char>, usize>, id: Seq<char>) -> (Map<Seq<char>, usize>, Seq<char>) { choose|r: (Map<Seq<char>, usize>, Seq<char>)| #[trigger] climbs(ids, id, r) }
/// an id of its own: the id itself the first time, then the first free of id-1, id-2, ...
pub open spec fn uq(ids: Map<Seq<char>, usize>, id: Seq<char>) -> (Map<Seq<char>, usize>, Seq<char>) { if ids.contains_key(id) { climb(ids, id) } else { (ids.insert(id, 0), id) } }
pub open spec fn is_top(h: Map<usize, Seq<char>>, m: usize) -> bool { h.contains_key(m) && forall|k: usize| #[trigger] h.contains_key(k) ==> k <= m }
pub open spec fn top(h: Map<usize, Seq<char>>) -> int { (choose|m: usize| #[trigger] is_top(h, m)) as int }
pub open spec fn below(n: usize) -> spec_fn(usize) -> bool { |l: usize| l < n }
/// a header ends the sections of its level and deeper ones
pub open spec fn seen(h: Map<usize, Seq<char>>, n: usize, id: Seq<char>) -> Map<usize, Seq<char>> { kept(h, below(n)).insert(n, id) }
/// the ids of the headers above level n
pub open spec fn prefix(h: Map<usize, Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 1 { Seq::empty() } else if h.contains_key((n - 1) as usize) { prefix(h, n - 1) + h[(n - 1) as usize] + "-"@ } else { prefix(h, n - 1) } }
pub open spec fn any_head(h: Map<usize, Seq<char>>) -> bool { exists|k: usize| #[trigger] h.contains_key(k) }
/// an id for something below the headers seen, with a target for its complete id
pub open spec fn anchored(s: Hs, raw: Seq<char>) -> (Hs, Seq<char>) {
    let id = idn(raw);
    let u = uq(s.ids, id);
    let s = Hs { ids: u.0, ..s };
    if any_head(s.heads) { let v = uq(s.ids, prefix(s.heads, top(s.heads) + 1) + id); (wr(wr(wr(Hs { ids: v.0, ..s }, "<span id=\""@), v.1), "\"></span>"@), u.1) } else { (s, u.1) }
}
pub open spec fn header(x: Header, s: Hs) -> Hs {
    let n = x.level;
    let raw = x.content.disp();
    let id = idn(raw);
    let u = uq(s.ids, id);
    let s = Hs { ids: u.0, heads: seen(s.heads, n, id), ..s };
    if n == 1 && trimmed(raw) == s.cfg.header.table_of_contents@ {
        let s = wr(s, "<div class=\"toc\">"@);
        let s = wr(wr(wr(wr(wr(s, "<h"@), dec(n as nat)), " id=\""@), u.1), "\">"@);
        wr(wr(wr(ww(x.content, s), "</h"@), dec(n as nat)), "></div>"@)
    } else {
        let full = prefix(s.heads, n as int) + id;
        let v = if full != id { uq(s.ids, full) } else { (s.ids, u.1) };
        let s = Hs { ids: v.0, ..s };
        let s = if full != id { wr(wr(wr(s, "<div id=\""@), v.1), "\">"@) } else { s };
        let s = wr(wr(wr(wr(wr(s, "<h"@), dec(n as nat)), " id=\""@), u.1), "\" class=\"header\">"@);
        let s = wr(wr(wr(s, "<a href=\"#"@), v.1), "\">"@);
        let s = wr(wr(wr(ww(x.content, s), "</a></h"@), dec(n as nat)), ">"@);
        if full != id { wr(s, "</div>"@) } else { s }
    }
}
// ---- lists ----
pub open spec fn items(v: Seq<Located<ListItem>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 || !s.live { s } else { items(v.drop_first(), wr(w(v[0].val(), s), "\n"@)) } }
pub open spec fn todo_class(t: ListItemTodoStatus) -> Seq<char> {
    match t { ListItemTodoStatus::Incomplete => "done0"@, ListItemTodoStatus::PartiallyComplete1 => "done1"@, ListItemTodoStatus::PartiallyComplete2 => "done2"@, ListItemTodoStatus::PartiallyComplete3 => "done3"@, ListItemTodoStatus::Complete => "done4"@, ListItemTodoStatus::Rejected => "rejected"@ }
}
pub open spec fn item(x: ListItem, s: Hs) -> Hs {
    let s = match x.attributes.todo_status { Some(t) => wr(wr(wr(s, "<li class=\""@), todo_class(t)), "\">"@), None => wr(s, "<li>"@) };
    wr(ww(x.contents, s), "</li>"@)
}
// ---- code ----
pub open spec fn attrs(v: Seq<(Seq<char>, Seq<char>)>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 { s } else { attrs(v.drop_first(), wr(we(wr(we(wr(s, " "@), v[0].0), "=\""@), v[0].1), "\""@)) } }
pub open spec fn clines(v: Seq<Cow<str>>, s: Hs) -> Hs decreases v.len() { if v.len() == 0 { s } else { clines(v.drop_first(), if v.len() == 1 { we(s, cow_str(v[0])) } else { wr(we(s, cow_str(v[0])), "\n"@) }) } }
pub open spec fn hlines(v: Seq<Cow<str>>, h: HighlightLines, ss: SyntaxSet, s: Hs) -> Hs decreases v.len() { if v.len() == 0 { s } else { hlines(v.drop_first(), hl_next(h, cow_str(v[0]), ss), ss, wr(wr(s, hl_line(h, cow_str(v[0]), ss)), "\n"@)) } }
pub open spec fn syntaxes(c: HtmlCodeConfig) -> Result<SyntaxSet, LoadingError> { match c.syntax_dir { Some(d) => ss_load(d), None => Ok(dflt_ss()) } }
pub open spec fn themes(c: HtmlCodeConfig) -> Result<ThemeSet, LoadingError> { match c.theme_dir { Some(d) => ts_load(d), None => Ok(dflt_ts()) } }
pub open spec fn syntax_of(l: Option<Cow<str>>, ss: SyntaxSet) -> SyntaxReference { match l { Some(l) => match by_token(ss, cow_str(l)) { Some(x) => x, None => plain_syntax(ss) }, None => plain_syntax(ss) } }
pub open spec fn code(x: CodeBlock, s: Hs) -> Hs {
    let c = s.cfg.code;
    if c.server_side {
        match (syntaxes(c), themes(c)) {
            (Ok(ss), Ok(ts)) => match theme_of(ts.themes, c.theme@) { Some(t) => wr(hlines(x.lines@, hl_new(syntax_of(x.language, ss), t), ss, wr(s, pre_of(t))), "</pre>"@), None => dead() },
            _ => dead(),
        }
    } else {
        let s = wr(wr(s, "<pre>"@), "<code"@);
        let s = match x.language { Some(l) => wr(we(wr(s, " class=\""@), cow_str(l)), "\""@), None => s };
        wr(clines(x.lines@, wr(attrs(entries(x.metadata), s), ">"@)), "</code></pre>"@)
    }
}
// ---- paragraphs ----
pub open spec fn empty_line(x: InlineElementContainer) -> bool { forall|i: int| 0 <= i < x.elements@.len() ==> (#[trigger] x.elements@[i]).val() is Comment }
pub open spec fn blank(x: Paragraph) -> bool { forall|i: int| 0 <= i < x.lines@.len() ==> empty_line(#[trigger] x.lines@[i]) }
pub open spec fn para(v: Seq<InlineElementContainer>, ignore: bool, s: Hs) -> Hs decreases v.len() {
    if v.len() == 0 || !s.live { s } else { let s = every(v[0].elements@, s); para(v.drop_first(), ignore, if v.len() == 1 { s } else { wr(s, if ignore { " "@ } else { "<br />"@ }) }) }
}
/// a finite iterator: the items at their places, None where a filter left one out
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct List__<T> { x: Vec<T> }
impl<T> List__<T> {
    pub uninterp spec fn all(&self) -> Seq<Option<T>>;
    #[verifier::external_body] pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Self)
        requires forall|x: &T| #[trigger] f.requires((x,))
        ensures r.all().len() == self.all().len(), forall|i: int| #![trigger self.all()[i]] #![trigger r.all()[i]] 0 <= i < self.all().len() ==> match self.all()[i] { Some(x) => f.ensures((&x,), r.all()[i] is Some) && (r.all()[i] is Some ==> r.all()[i] == Some(x)), None => r.all()[i] is None } { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r ==> exists|i: int| 0 <= i < old(self).all().len() && #[trigger] old(self).all()[i] is Some && f.ensures((old(self).all()[i]->0,), true), !r ==> forall|i: int| 0 <= i < old(self).all().len() && #[trigger] old(self).all()[i] is Some ==> f.ensures((old(self).all()[i]->0,), false) { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures (r == 0) == (forall|i: int| 0 <= i < self.all().len() ==> #[trigger] self.all()[i] is None) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures old(self).all().len() == 0 ==> r is None, old(self).all().len() > 0 && old(self).all()[0] is Some ==> r == old(self).all()[0] { unimplemented!() }
}
pub open spec fn refs<'x, T>(v: Seq<Option<&'x T>>, w: Seq<T>) -> bool { v.len() == w.len() && forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < w.len() ==> v[i] is Some && *v[i]->0 == w[i] }
impl<'a> Paragraph<'a> { #[verifier::external_body] pub fn into_iter(&self) -> (r: List__<&InlineElementContainer<'a>>) ensures refs(r.all(), self.lines@) { unimplemented!() } }
impl<'a> InlineElementContainer<'a> { #[verifier::external_body] pub fn into_iter(&self) -> (r: List__<&Located<InlineElement<'a>>>) ensures refs(r.all(), self.elements@) { unimplemented!() } }
impl<'a> List<'a> { #[verifier::external_body] pub fn into_iter(&self) -> (r: List__<&Located<ListItem<'a>>>) ensures refs(r.all(), self.items@) { unimplemented!() } }
// ---- tables (the contracts of the unit of P07) ----
impl HashMap<CellPos, Located<Cell<'_>>> {}
impl<'a> HashMap<CellPos, Located<Cell<'a>>> { pub uninterp spec fn view(&self) -> Map<CellPos, Located<Cell<'a>>>; }
impl<'a> Table<'a> {
    pub open spec fn pos(r: int, c: int) -> CellPos { CellPos { row: r as usize, col: c as usize } }
    pub open spec fn at(&self, r: int, c: int) -> Option<Cell<'a>> { if self.cells@.contains_key(Self::pos(r, c)) { Some(self.cells@[Self::pos(r, c)].val()) } else { None } }
    pub open spec fn divider(&self, r: int) -> bool { self.at(r, 0) is Some && self.at(r, 0)->0 is Align }
    /// the first divider row at or after k
    pub open spec fn first_div(&self, k: int) -> Option<int> decreases self.row_cnt - k { if k >= self.row_cnt { None } else if self.divider(k) { Some(k) } else { self.first_div(k + 1) } }
    pub open spec fn heads(&self) -> Seq<int> { match self.first_div(0) { Some(d) => Seq::new(d as nat, |i: int| i), None => seq![] } }
    pub open spec fn rest(&self, k: int) -> Seq<int> decreases self.row_cnt - k { if k >= self.row_cnt { seq![] } else if self.divider(k) { self.rest(k + 1) } else { seq![k] + self.rest(k + 1) } }
    pub open spec fn bodies(&self) -> Seq<int> { match self.first_div(0) { Some(d) => self.rest(d + 1), None => self.rest(0) } }
    pub open spec fn row_at(&self, r: int, c: int) -> Seq<(CellPos, Cell<'a>)> decreases self.col_cnt - c { if c >= self.col_cnt { seq![] } else { match self.at(r, c) { Some(x) => seq![(Self::pos(r, c), x)] + self.row_at(r, c + 1), None => self.row_at(r, c + 1) } } }
    pub open spec fn shows(&self, r: int) -> bool { exists|c: int| 0 <= c < self.col_cnt && (#[trigger] self.at(r, c)) is Some && self.at(r, c)->0 is Content }
    pub open spec fn down(&self, r: int, c: int) -> nat decreases self.row_cnt - r { if r < self.row_cnt && self.at(r, c) == Some(Cell::<'a>::Span(CellSpan::FromAbove)) { 1 + self.down(r + 1, c) } else { 0 } }
    pub open spec fn right(&self, r: int, c: int) -> nat decreases self.col_cnt - c { if c < self.col_cnt && self.at(r, c) == Some(Cell::<'a>::Span(CellSpan::FromLeft)) { 1 + self.right(r, c + 1) } else { 0 } }
    #[verifier::external_body] pub fn has_header_rows(&self) -> (r: bool) ensures r == (self.heads().len() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn has_body_rows(&self) -> (r: bool) ensures r == (self.bodies().len() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn header_rows(&self) -> (r: Rows__<'_, 'a>) ensures r.t() == *self, r.rem() == self.heads() { unimplemented!() }
    #[verifier::external_body] pub fn body_rows(&self) -> (r: Rows__<'_, 'a>) ensures r.t() == *self, r.rem() == self.bodies() { unimplemented!() }
    #[verifier::external_body] pub fn get_cell_rowspan(&self, row: usize, col: usize) -> (r: usize) ensures self.at(row as int, col as int) is Some && self.at(row as int, col as int)->0 is Content ==> r == 1 + self.down(row + 1, col as int) { unimplemented!() }
    #[verifier::external_body] pub fn get_cell_colspan(&self, row: usize, col: usize) -> (r: usize) ensures self.at(row as int, col as int) is Some && self.at(row as int, col as int)->0 is Content ==> r == 1 + self.right(row as int, col + 1) { unimplemented!() }
}
#[verifier::external_body] pub struct Rows__<'x, 'a> { x: &'x Table<'a> }
#[verifier::external_body] pub struct Row__<'x, 'a> { x: &'x Table<'a> }
#[verifier::external_body] pub struct Cells__<'x, 'a> { x: &'x Table<'a> }
impl<'x, 'a> Rows__<'x, 'a> {
    pub uninterp spec fn rem(&self) -> Seq<int>;
    pub uninterp spec fn t(&self) -> Table<'a>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Row__<'x, 'a>>)
        ensures final(self).t() == old(self).t(), match r { Some(x) => old(self).rem().len() > 0 && x.t() == old(self).t() && x.r() == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
impl<'x, 'a> ForIter__ for Rows__<'x, 'a> { type It = Self; #[verifier::prophetic] open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
impl<'x, 'a> Row__<'x, 'a> {
    pub uninterp spec fn t(&self) -> Table<'a>;
    pub uninterp spec fn r(&self) -> int;
    #[verifier::external_body] pub fn has_content(&self) -> (r: bool) ensures r == self.t().shows(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn zip_with_position(self) -> (r: Cells__<'x, 'a>) ensures r.rem() == self.t().row_at(self.r(), 0), forall|i: int| 0 <= i < r.rem().len() ==> self.t().at((#[trigger] r.rem()[i]).0.row as int, r.rem()[i].0.col as int) == Some(r.rem()[i].1) { unimplemented!() }
}
impl<'x, 'a> Cells__<'x, 'a> {
    pub uninterp spec fn rem(&self) -> Seq<(CellPos, Cell<'a>)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(CellPos, &'x Located<Cell<'a>>)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x.0 == old(self).rem()[0].0 && x.1.val() == old(self).rem()[0].1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
impl<'x, 'a> ForIter__ for Cells__<'x, 'a> { type It = Self; #[verifier::prophetic] open spec fn made(&self, r: Self) -> bool { r == *self } fn it__(self) -> (r: Self) { self } }
impl<'a> Cell<'a> { #[verifier::external_body] pub fn get_content(&self) -> (r: Option<&InlineElementContainer<'a>>) ensures match r { Some(x) => *self == Cell::<'a>::Content(*x), None => !(*self is Content) } { unimplemented!() } }
pub open spec fn spans(t: Table, p: CellPos, s: Hs) -> Hs {
    let (d, r) = (t.down(p.row + 1, p.col as int), t.right(p.row as int, p.col + 1));
    let s = if d > 0 { wr(wr(wr(s, " rowspan=\""@), dec(1 + d)), "\""@) } else { s };
    if r > 0 { wr(wr(wr(s, " colspan=\""@), dec(1 + r)), "\""@) } else { s }
}
pub open spec fn tcells<'a>(t: Table<'a>, v: Seq<(CellPos, Cell<'a>)>, open: Seq<char>, close: Seq<char>, s: Hs) -> Hs decreases v.len() {
    if v.len() == 0 || !s.live { s } else { tcells(t, v.drop_first(), open, close, match v[0].1 { Cell::Content(x) => wr(ww(x, wr(spans(t, v[0].0, wr(s, open)), ">"@)), close), _ => s }) }
}
pub open spec fn trows(t: Table, v: Seq<int>, open: Seq<char>, close: Seq<char>, s: Hs) -> Hs decreases v.len() {
    if v.len() == 0 || !s.live { s } else { trows(t, v.drop_first(), open, close, if t.shows(v[0]) { wr(tcells(t, t.row_at(v[0], 0), open, close, wr(s, "<tr>\n"@)), "</tr>\n"@) } else { s }) }
}
pub open spec fn table(t: Table, s: Hs) -> Hs {
    let s = wr(s, if t.centered { "<table class=\"center\">\n"@ } else { "<table>\n"@ });
    let s = if t.heads().len() > 0 { wr(trows(t, t.heads(), "<th"@, "</th>\n"@, wr(s, "<thead>\n"@)), "</thead>\n"@) } else { s };
    let s = if t.bodies().len() > 0 { wr(trows(t, t.bodies(), "<td"@, "</td>\n"@, wr(s, "<tbody>\n"@)), "</tbody>\n"@) } else { s };
    wr(s, "</table>"@)
}
// ---- inline elements ----
pub uninterp spec fn plain<T>(x: T) -> Seq<char>;
impl<'a> Disp__ for InlineElementContainer<'a> { open spec fn disp(&self) -> Seq<char> { plain(*self) } }
impl<'a> Disp__ for DecoratedTextContent<'a> { open spec fn disp(&self) -> Seq<char> { plain(*self) } }
impl<'a> Disp__ for LinkData<'a> { open spec fn disp(&self) -> Seq<char> { plain(*self) } }
impl<'a> Disp__ for Description<'a> { open spec fn disp(&self) -> Seq<char> { match *self { Description::Text(t) => cow_str(t), Description::TransclusionLink(x) => x.disp() } } }
pub open spec fn disps(v: Seq<Located<DecoratedTextContent>>, acc: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { acc } else { disps(v.drop_first(), acc + v[0].val().disp()) } }
pub trait ToStr__ { spec fn tv(&self) -> Seq<char>; fn to_string(&self) -> (r: String) ensures r@ == self.tv(); }
impl<'a> ToStr__ for InlineElementContainer<'a> { open spec fn tv(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> ToStr__ for Description<'a> { open spec fn tv(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn deco(x: DecoratedText, s: Hs) -> Hs {
    match x {
        DecoratedText::Bold(v) => { let a = anchored(s, disps(v@, Seq::empty())); wr(every(v@, wr(wr(wr(a.0, "<strong id=\""@), a.1), "\">"@)), "</strong>"@) }
        DecoratedText::Italic(v) => wr(every(v@, wr(s, "<em>"@)), "</em>"@),
        DecoratedText::Strikeout(v) => wr(every(v@, wr(s, "<del>"@)), "</del>"@),
        DecoratedText::Superscript(v) => wr(every(v@, wr(s, "<sup><small>"@)), "</small></sup>"@),
        DecoratedText::Subscript(v) => wr(every(v@, wr(s, "<sub><small>"@)), "</small></sub>"@),
    }
}
pub open spec fn tagsx(v: Seq<Tag>, s: Hs) -> Hs decreases v.len() {
    if v.len() == 0 { s } else { let a = anchored(s, cow_str(v[0].0)); tagsx(v.drop_first(), wr(we(wr(wr(wr(a.0, "<span class=\"tag\" id=\""@), a.1), "\">"@), cow_str(v[0].0)), "</span>"@)) }
}
// ---- links: where they lead is the subject of P11 ----
pub uninterp spec fn wiki_of(c: HtmlConfig) -> HtmlWikiConfig;
pub uninterp spec fn page_of(c: HtmlConfig) -> Path;
pub uninterp spec fn href_of(c: HtmlConfig, w: HtmlWikiConfig, p: Path, x: Link) -> Option<Seq<char>>;
impl HtmlConfig {
    #[verifier::external_body] pub fn to_current_wiki(&self) -> (r: HtmlWikiConfig) ensures r == wiki_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_active_page_path_within_wiki(&self) -> (r: &Path) ensures *r == page_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct LinkResolutionError { x: u8 }
#[verifier::external_body] pub fn resolve_link<'a, 'b>(config: &HtmlConfig, src_wiki: &HtmlWikiConfig, src: &Path, target: &'b Link<'a>) -> (r: Result<URIReference<'static>, LinkResolutionError>)
    ensures href_of(*config, *src_wiki, *src, *target) == (match r { Ok(u) => Some(u.disp()), Err(_) => None }) { unimplemented!() }
/// what a link shows: the target itself, a text, or an image
pub enum Shown<'a> { Target, Text(Seq<char>), Image(LinkData<'a>) }
pub open spec fn shown<'a>(d: Option<Description<'a>>) -> Shown<'a> { match d { Some(Description::Text(t)) => Shown::Text(cow_str(t)), Some(Description::TransclusionLink(x)) => Shown::Image(*x), None => Shown::Target } }
pub uninterp spec fn day(d: NaiveDate) -> Seq<char>;
/// percent escapes replaced by what they stand for
pub open spec fn decoded(s: Seq<char>) -> Seq<char> { lossy(vstd::utf8::encode_utf8(s)) }
pub open spec fn label<'a>(x: Link<'a>) -> Shown<'a> {
    match x {
        Link::Wiki { data } => if data.description is Some { shown(data.description) } else { Shown::Text(decoded(data.uri_ref.disp())) },
        Link::IndexedInterWiki { index, data } => if data.description is Some { shown(data.description) } else { Shown::Text(decoded(data.uri_ref.disp())) },
        Link::NamedInterWiki { name, data } => if data.description is Some { shown(data.description) } else { Shown::Text(decoded(data.uri_ref.disp())) },
        Link::Diary { date, data } => if data.description is Some { shown(data.description) } else { Shown::Text("diary:"@ + day(date)) },
        Link::Raw { data } => shown(data.description),
        Link::Transclusion { data } => shown(data.description),
    }
}
pub open spec fn data_of<'a>(x: Link<'a>) -> LinkData<'a> { match x { Link::Wiki { data } => data, Link::IndexedInterWiki { index, data } => data, Link::NamedInterWiki { name, data } => data, Link::Diary { date, data } => data, Link::Raw { data } => data, Link::Transclusion { data } => data } }
/// (derived)
impl<'a> From__<Cow<'a, str>> for Description<'a> { open spec fn from_ens(x: Cow<'a, str>, r: Self) -> bool { r == Description::<'a>::Text(x) } fn from__(x: Cow<'a, str>) -> (r: Self) { Description::Text(x) } }
impl<'a> Clone for Description<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Day__ { pub d: NaiveDate }
impl Disp__ for Day__ { open spec fn disp(&self) -> Seq<char> { day(self.d) } }
impl NaiveDate { #[verifier::external_body] pub fn format(&self, f: &str) -> (r: Day__) ensures f@ == "%Y-%m-%d"@ ==> r.d == *self { unimplemented!() } }
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub struct PercentDecode<'a> { x: &'a u8 }
impl<'a> PercentDecode<'a> {
    pub uninterp spec fn of(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn decode_utf8_lossy(self) -> (r: Cow<'a, str>) ensures cow_str(r) == lossy(self.of()) { unimplemented!() }
}
#[verifier::external_body] pub fn percent_decode<'a>(s: &'a [u8]) -> (r: PercentDecode<'a>) ensures r.of() == s@ { unimplemented!() }
impl<'a> Clone for LinkData<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn props(m: Option<Meta>, s: Hs) -> Hs { match m { Some(m) => attrs(entries(m), s), None => s } }
pub open spec fn tag<'a>(h: Seq<char>, d: Shown<'a>, m: Option<Meta>, img: bool, s: Hs) -> Hs {
    if img {
        let s = wr(wr(wr(s, "<img src=\""@), h), "\""@);
        let s = match d { Shown::Text(t) => wr(we(wr(s, " alt=\""@), t), "\""@), Shown::Image(x) => wr(we(wr(s, " alt=\""@), x.disp()), "\""@), Shown::Target => s };
        wr(props(m, s), " />"@)
    } else {
        let s = wr(wr(wr(s, "<a href=\""@), h), "\""@);
        let s = wr(props(m, s), ">"@);
        let s = match d { Shown::Text(t) => we(s, t), Shown::Image(x) => ww(Link::<'a>::Transclusion { data: x }, s), Shown::Target => we(s, h) };
        wr(s, "</a>"@)
    }
}
pub open spec fn link(x: Link, s: Hs) -> Hs {
    match href_of(s.cfg, wiki_of(s.cfg), page_of(s.cfg), x) { Some(h) => tag(h, label(x), data_of(x).properties, x is Transclusion, s), None => dead() }
}
// ---- syntect (assumed: what it writes depends on its arguments only) ----
#[verifier::external_body] pub struct SyntaxSet { x: u8 }
#[verifier::external_body] pub struct Themes__ { x: u8 }
pub struct ThemeSet { pub themes: Themes__ }
#[verifier::external_body] pub struct Theme { x: u8 }
#[verifier::external_body] pub struct SyntaxReference { x: u8 }
#[verifier::external_body] pub struct LoadingError { x: u8 }
#[verifier::external_body] pub struct HighlightLines<'x> { x: &'x u8 }
#[verifier::external_body] pub struct Style { x: u8 }
pub enum IncludeBackground { No }
pub uninterp spec fn ss_load(p: PathBuf) -> Result<SyntaxSet, LoadingError>;
pub uninterp spec fn ts_load(p: PathBuf) -> Result<ThemeSet, LoadingError>;
pub uninterp spec fn dflt_ss() -> SyntaxSet;
pub uninterp spec fn dflt_ts() -> ThemeSet;
pub uninterp spec fn by_token(s: SyntaxSet, t: Seq<char>) -> Option<SyntaxReference>;
pub uninterp spec fn plain_syntax(s: SyntaxSet) -> SyntaxReference;
pub uninterp spec fn theme_of(t: Themes__, n: Seq<char>) -> Option<Theme>;
pub uninterp spec fn pre_of(t: Theme) -> Seq<char>;
pub uninterp spec fn hl_new<'x>(s: SyntaxReference, t: Theme) -> HighlightLines<'x>;
pub uninterp spec fn hl_next<'x>(h: HighlightLines<'x>, l: Seq<char>, s: SyntaxSet) -> HighlightLines<'x>;
pub uninterp spec fn hl_line(h: HighlightLines, l: Seq<char>, s: SyntaxSet) -> Seq<char>;
pub uninterp spec fn styled(v: Seq<(Style, &str)>) -> Seq<char>;
pub exec static DEFAULT_SYNTAX_SET: SyntaxSet ensures DEFAULT_SYNTAX_SET == dflt_ss() { default_ss() }
pub exec static DEFAULT_THEME_SET: ThemeSet ensures DEFAULT_THEME_SET == dflt_ts() { default_ts() }
#[verifier::external_body] pub const fn default_ss() -> (r: SyntaxSet) ensures r == dflt_ss() { SyntaxSet { x: 0 } }
#[verifier::external_body] pub const fn default_ts() -> (r: ThemeSet) ensures r == dflt_ts() { ThemeSet { themes: Themes__ { x: 0 } } }
impl SyntaxSet {
    #[verifier::external_body] pub fn load_from_folder(p: &PathBuf) -> (r: Result<SyntaxSet, LoadingError>) ensures r == ss_load(*p) { unimplemented!() }
    #[verifier::external_body] pub fn find_syntax_by_token(&self, s: &str) -> (r: Option<&SyntaxReference>) ensures by_token(*self, s@) == (match r { Some(x) => Some(*x), None => None }) { unimplemented!() }
    #[verifier::external_body] pub fn find_syntax_plain_text(&self) -> (r: &SyntaxReference) ensures *r == plain_syntax(*self) { unimplemented!() }
}
impl ThemeSet { #[verifier::external_body] pub fn load_from_folder(p: &PathBuf) -> (r: Result<ThemeSet, LoadingError>) ensures r == ts_load(*p) { unimplemented!() } }
impl Themes__ { #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&Theme>) ensures theme_of(*self, k@) == (match r { Some(x) => Some(*x), None => None }) { unimplemented!() } }
impl<'x> HighlightLines<'x> {
    #[verifier::external_body] pub fn new(s: &'x SyntaxReference, t: &'x Theme) -> (r: Self) ensures r == hl_new::<'x>(*s, *t) { unimplemented!() }
    #[verifier::external_body] pub fn highlight<'y>(&mut self, l: &'y str, s: &SyntaxSet) -> (r: Vec<(Style, &'y str)>) ensures *final(self) == hl_next(*old(self), l@, *s), styled(r@) == hl_line(*old(self), l@, *s) { unimplemented!() }
}
#[verifier::external_body] pub fn start_highlighted_html_snippet(t: &Theme) -> (r: (String, u8)) ensures r.0@ == pre_of(*t) { unimplemented!() }
#[verifier::external_body] pub fn styled_line_to_highlighted_html(v: &[(Style, &str)], b: IncludeBackground) -> (r: String) ensures r@ == styled(v@) { unimplemented!() }
impl<'a> std::ops::Deref for DefinitionBundle<'a> { type Target = Vec<Located<Definition<'a>>>; fn deref(&self) -> (r: &Vec<Located<Definition<'a>>>) ensures *r == self.definitions { &self.definitions } }
impl<'a> std::ops::Deref for InlineElementContainer<'a> { type Target = Vec<Located<InlineElement<'a>>>; fn deref(&self) -> (r: &Vec<Located<InlineElement<'a>>>) ensures *r == self.elements { &self.elements } }
pub open spec fn kw(x: Keyword) -> Seq<char> { match x { Keyword::Todo => "<span class=\"todo\">TODO</span>"@, Keyword::Done => "DONE"@, Keyword::Started => "STARTED"@, Keyword::Fixme => "FIXME"@, Keyword::Fixed => "FIXED"@, Keyword::Xxx => "XXX"@ } }
@endraw
@fnhead broadcast use {hlem::ax_cow_str, hlem::ax_deref_cow, hlem::ax_deref_s, hlem::ax_to_string, hlem::ax_cow_to_string, hlem::ax_str_to_string, hlem::nil, hlem::ax_eq1, hlem::ax_eq2, hlem::d_every, hlem::d_page, hlem::d_defs, hlem::d_terms, hlem::d_items, hlem::d_para, hlem::d_tcells, hlem::d_trows};
@source vimwiki-core/src/lang/output/html/formatter.rs
@fn HtmlFormatter<Write>::write_str inherent
ensures ret is Ok, final(self).wrote(&*old(self), s@)
@fn HtmlFormatter::new
ensures ret.hs() == (Hs { live: true, text: Seq::empty(), heads: Map::empty(), ids: Map::empty(), title: None, date: None, tpl: None, cfg: config })
@fn HtmlFormatter::config
ensures *ret == self.config
@fn HtmlFormatter::insert_header_text
@@closure 0
ensures r__ == below(level)(*l), final(p__1)@ == old(p__1)@
@@contract
ensures exists|t: String| #[trigger] text.into_ens(t) && final(self).hs() == (Hs { heads: seen(old(self).hs().heads, level, t@), ..old(self).hs() })
@fn HtmlFormatter::get_header_text
ensures match ret { Some(t) => self.hs().heads.contains_key(level) && t@ == self.hs().heads[level], None => !self.hs().heads.contains_key(level) }
@fn HtmlFormatter::max_header_level
ensures match ret { Some(m) => m < usize::MAX && is_top(self.hs().heads, m), None => !any_head(self.hs().heads) }
@fn HtmlFormatter::ensure_unique_id
@@head
let ghost id0 = id@; let ghost s0 = self.hs();
broadcast use {hlem::climb_here, hlem::climb_next, hlem::climb_over, hlem::climb_done};
@@loop 0
invariant self.hs() == (Hs { ids: self.id_cache@, ..s0 }), reach(s0.ids, id0, self.id_cache@, cow_str(id)),
@@contract
ensures final(self).hs() == (Hs { ids: uq(old(self).hs().ids, id@).0, ..old(self).hs() }), cow_str(ret) == uq(old(self).hs().ids, id@).1
@fn HtmlFormatter::set_title
ensures final(self).hs() == (Hs { title: Some(title@), ..old(self).hs() })
@fn HtmlFormatter::get_title
ensures match ret { Some(t) => self.hs().title == Some(t@), None => self.hs().title is None }
@fn HtmlFormatter::take_title
ensures final(self).hs() == (Hs { title: None, ..old(self).hs() }), match ret { Some(t) => old(self).hs().title == Some(t@), None => old(self).hs().title is None }
@fn HtmlFormatter::set_date
ensures final(self).hs() == (Hs { date: Some(*date), ..old(self).hs() })
@fn HtmlFormatter::get_date
ensures match ret { Some(t) => self.hs().date == Some(*t), None => self.hs().date is None }
@fn HtmlFormatter::take_date
ensures final(self).hs() == (Hs { date: None, ..old(self).hs() }), ret == old(self).hs().date
@fn HtmlFormatter::set_template
ensures final(self).hs() == (Hs { tpl: Some(template.as_spec().text()), ..old(self).hs() })
@fn HtmlFormatter::take_template
ensures final(self).hs() == (Hs { tpl: None, ..old(self).hs() }), match ret { Some(t) => old(self).hs().tpl == Some(t.text()), None => old(self).hs().tpl is None }
@fn HtmlFormatter::get_content
ensures ret@ == self.content@
@fn HtmlFormatter::into_content
ensures ret@ == self.hs().text
@autopar &mutHtmlFormatter ;; ensures true ;;
@loopinv invariant true, ;; invariant true, ;; PAR.hs()
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@fn ListItem::is_todo_incomplete
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::Incomplete))
@fn ListItem::is_todo_partially_complete_1
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::PartiallyComplete1))
@fn ListItem::is_todo_partially_complete_2
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::PartiallyComplete2))
@fn ListItem::is_todo_partially_complete_3
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::PartiallyComplete3))
@fn ListItem::is_todo_complete
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::Complete))
@fn ListItem::is_todo_rejected
ensures ret == (self.attributes.todo_status == Some(ListItemTodoStatus::Rejected))
@fn ListItemType::is_ordered
ensures ret == (self is Ordered)
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@fn List::iter
@@ret List__<&Located<ListItem<'a>>>
ensures refs(ret.all(), self.items@)
@fn List::is_ordered
@@closure 0
ensures r__ == (item.val().ty is Ordered)
@@contract
ensures ret == (self.items@.len() > 0 && self.items@[0].val().ty is Ordered)
@source vimwiki-core/src/lang/elements/blocks/paragraphs.rs
@fn Paragraph::is_blank
ensures ret == blank(*self)
@fn Paragraph::nonblank_lines
@@ret List__<&InlineElementContainer<'a>>
@@closure 0
ensures r__ == !empty_line(**line)
@@closure 1
ensures r__ == !(e.val() is Comment)
@@contract
ensures ret.all().len() == self.lines@.len(), forall|i: int| #![trigger ret.all()[i]] #![trigger self.lines@[i]] 0 <= i < self.lines@.len() ==> ret.all()[i] is None == empty_line(self.lines@[i])
@source vimwiki-core/src/lang/elements/blocks/blockquotes.rs
@fn Blockquote::line_groups
@@ret Groups__<'_, 'a>
@@head
proof { groups_are(self.lines@, seq![]); }
@@closure 0
ensures r__ == (cow_str(*line).len() == 0)
@@closure 1
ensures r__ == (lines@.len() > 0)
@@contract
ensures ret.rem() == groups(self.lines@, seq![])
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@fn Description<From<String>>::from
@@impl
open spec fn from_ens(s: String, ret: Self) -> bool { shown(Some(ret)) == Shown::<'static>::Text(s@) }
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@fn Link::data
ensures *ret == data_of(*self)
@fn Link::description
ensures match ret { Some(x) => data_of(*self).description == Some(*x), None => data_of(*self).description is None }
@fn Link::properties
ensures match ret { Some(m) => data_of(*self).properties == Some(*m), None => data_of(*self).properties is None }
@fn Link::to_description_or_fallback
ensures shown(ret) == label(*self)
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@fn DefinitionListValue::as_inner
ensures *ret == self.0
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@fn Text::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/code.rs
@fn CodeInline::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/math.rs
@fn MathInline::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@fn Tag::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@fn LineComment::as_str
ensures ret@ == cow_str(self.0)
@source vimwiki-core/src/lang/output/html/utils.rs
@fn normalize_id
@@closure 0
ensures r__ == white()(c)
@@closure 1
ensures r__ == (s@.len() > 0)
@@contract
ensures ret@ == idn(id@)
@source vimwiki-core/src/lang/output/html/mod.rs
@fn Page<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.elements@, page(it__0.rem(), f.hs()) == page(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (page(self.elements@, old(f).hs()))
@@stub
@fn Element<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { Element::Block(x) => w(x, old(f).hs()), Element::Inline(x) => w(x, old(f).hs()), Element::InlineBlock(x) => w(x, old(f).hs()) })
@@stub
@fn InlineBlockElement<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { InlineBlockElement::ListItem(x) => w(x, old(f).hs()), InlineBlockElement::Term(x) => w(x, old(f).hs()), InlineBlockElement::Definition(x) => w(x, old(f).hs()) })
@@stub
@fn BlockElement<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { BlockElement::Blockquote(x) => w(x, old(f).hs()), BlockElement::DefinitionList(x) => w(x, old(f).hs()), BlockElement::Divider(x) => w(x, old(f).hs()), BlockElement::Header(x) => w(x, old(f).hs()), BlockElement::List(x) => w(x, old(f).hs()), BlockElement::MathBlock(x) => w(x, old(f).hs()), BlockElement::Paragraph(x) => w(x, old(f).hs()), BlockElement::Placeholder(x) => w(x, old(f).hs()), BlockElement::CodeBlock(x) => w(x, old(f).hs()), BlockElement::Table(x) => w(x, old(f).hs()) })
@@stub
@fn Blockquote<Output<HtmlFormatter>>::fmt
@@head
broadcast use hlem::trims_texts;
@@closure 0
ensures r__@ == trimmed(cow_str(*line))
@@loop 0
invariant it0__0.rem() =~= groups(self.lines@, seq![]), paras(it__0.rem(), f.hs()) == paras(it0__0.rem(), snap__0)
@@loop 1
invariant it0__1.rem() =~= self.lines@, elines(it__1.rem(), f.hs()) == elines(it0__1.rem(), snap__1)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (quote(self.lines@, wr(old(f).hs(), "<blockquote>\n"@)))
@@stub
@fn DefinitionList<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.items@, terms(it__0.rem(), f.hs()) == terms(it0__0.rem(), snap__0)
@@loop 1
invariant it0__1.rem() =~= bundle.val().definitions.val().definitions@, defs(it__1.rem(), f.hs()) == defs(it0__1.rem(), snap__1)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(terms(self.items@, wr(old(f).hs(), "<dl>\n"@)), "</dl>"@))
@@stub
@fn DefinitionListValue<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (w(self.0, old(f).hs()))
@@stub
@fn Divider<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(old(f).hs(), "<hr />"@))
@@stub
@fn Header<Output<HtmlFormatter>>::fmt
@@head
proof { hlem::ax_obeys(); }
@@contract
ensures aft(ret is Ok, final(f).hs()) == (header(*self, old(f).hs()))
@@stub
@fn List<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.items@, items(it__0.rem(), f.hs()) == items(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(items(self.items@, wr(old(f).hs(), if self.items@.len() > 0 && self.items@[0].val().ty is Ordered { "<ol>\n"@ } else { "<ul>\n"@ })), if self.items@.len() > 0 && self.items@[0].val().ty is Ordered { "</ol>"@ } else { "</ul>"@ }))
@@stub
@fn ListItem<Output<HtmlFormatter>>::fmt
@@head
proof { reveal_strlit(""); reveal_strlit("done0"); reveal_strlit("done1"); reveal_strlit("done2"); reveal_strlit("done3"); reveal_strlit("done4"); reveal_strlit("rejected"); }
@@contract
ensures aft(ret is Ok, final(f).hs()) == (item(*self, old(f).hs()))
@@stub
@fn ListItemContents<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.0@, every(it__0.rem(), f.hs()) == every(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (every(self.0@, old(f).hs()))
@@stub
@fn MathBlock<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.lines@, elines(it__0.rem(), f.hs()) == elines(it0__0.rem(), snap__0)
@@loop 1
invariant it0__1.rem() =~= self.lines@, elines(it__1.rem(), f.hs()) == elines(it0__1.rem(), snap__1)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match self.environment { Some(e) => wr(we(wr(elines(self.lines@, wr(we(wr(old(f).hs(), "\\begin{"@), cow_str(e)), "}\n"@)), "\\end{"@), cow_str(e)), "}"@), None => wr(elines(self.lines@, wr(old(f).hs(), "\\[\n"@)), "\\]"@) })
@@stub
@fn Placeholder<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { Placeholder::Title(x) => Hs { title: Some(cow_str(x)), ..old(f).hs() }, Placeholder::Date(x) => Hs { date: Some(x), ..old(f).hs() }, Placeholder::Template(x) => Hs { tpl: Some(path_of(cow_str(x)).text()), ..old(f).hs() }, _ => old(f).hs() })
@@stub
@fn CodeBlock<Output<HtmlFormatter>>::fmt
@@head
broadcast use hlem::whole;
@@closure 0
ensures *r__ == plain_syntax(*ss)
@@loop 0
invariant it0__0.rem() =~= self.lines@, hlines(it__0.rem(), h, *ss, f.hs()) == hlines(it0__0.rem(), hl_new(*syntax, *theme), *ss, snap__0)
@@loop 1
invariant it0__1.rem() =~= entries(self.metadata), attrs(it__1.rem(), f.hs()) == attrs(it0__1.rem(), snap__1)
@@loop 2
invariant it0__2.rem() =~= self.lines@, it__2.idx() + it__2.rem().len() == self.lines@.len(), clines(it__2.rem(), f.hs()) == clines(it0__2.rem(), snap__2)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (code(*self, old(f).hs()))
@@stub
@fn Paragraph<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.lines@, it__0.idx() + it__0.rem().len() == self.lines@.len(), para(it__0.rem(), ignore_newlines, f.hs()) == para(it0__0.rem(), ignore_newlines, snap__0)
@@loop 1
invariant it0__1.rem() =~= line.elements@, every(it__1.rem(), f.hs()) == every(it0__1.rem(), snap__1)
@@contract
ensures aft(ret is Ok, final(f).hs()) == ({ let s = old(f).hs(); let t = para(self.lines@, s.cfg.paragraph.ignore_newline, if blank(*self) { s } else { wr(s, "<p>"@) }); if blank(*self) { t } else { wr(t, "</p>"@) } })
@@stub
@fn Table<Output<HtmlFormatter>>::fmt rlimit=60 spinoff
@@loop 0
invariant it__0.t() == *self, it0__0.rem() =~= self.heads(), trows(*self, it__0.rem(), "<th"@, "</th>\n"@, f.hs()) == trows(*self, it0__0.rem(), "<th"@, "</th>\n"@, snap__0)
@@loop 1
invariant forall|i: int| 0 <= i < it__1.rem().len() ==> self.at((#[trigger] it__1.rem()[i]).0.row as int, it__1.rem()[i].0.col as int) == Some(it__1.rem()[i].1), tcells(*self, it__1.rem(), "<th"@, "</th>\n"@, f.hs()) == tcells(*self, it0__1.rem(), "<th"@, "</th>\n"@, snap__1)
@@loop 2
invariant it__2.t() == *self, it0__2.rem() =~= self.bodies(), trows(*self, it__2.rem(), "<td"@, "</td>\n"@, f.hs()) == trows(*self, it0__2.rem(), "<td"@, "</td>\n"@, snap__2)
@@loop 3
invariant forall|i: int| 0 <= i < it__3.rem().len() ==> self.at((#[trigger] it__3.rem()[i]).0.row as int, it__3.rem()[i].0.col as int) == Some(it__3.rem()[i].1), tcells(*self, it__3.rem(), "<td"@, "</td>\n"@, f.hs()) == tcells(*self, it0__3.rem(), "<td"@, "</td>\n"@, snap__3)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (table(*self, old(f).hs()))
@@stub
@fn InlineElementContainer<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.elements@, every(it__0.rem(), f.hs()) == every(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (every(self.elements@, old(f).hs()))
@@stub
@fn InlineElement<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { InlineElement::Text(x) => w(x, old(f).hs()), InlineElement::DecoratedText(x) => w(x, old(f).hs()), InlineElement::Keyword(x) => w(x, old(f).hs()), InlineElement::Link(x) => w(x, old(f).hs()), InlineElement::Tags(x) => w(x, old(f).hs()), InlineElement::Code(x) => w(x, old(f).hs()), InlineElement::Math(x) => w(x, old(f).hs()), InlineElement::Comment(x) => w(x, old(f).hs()) })
@@stub
@fn Text<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (we(old(f).hs(), cow_str(self.0)))
@@stub
@fn DecoratedText<Output<HtmlFormatter>>::fmt
@@head
broadcast use hlem::top_is;
@@loop 0
invariant it0__0.rem() =~= contents@, disps(it__0.rem(), id@) == disps(it0__0.rem(), Seq::empty())
@@loop 1
invariant it0__1.rem() =~= contents@, every(it__1.rem(), f.hs()) == every(it0__1.rem(), snap__1)
@@loop 2
invariant it0__2.rem() =~= contents@, every(it__2.rem(), f.hs()) == every(it0__2.rem(), snap__2)
@@loop 3
invariant it0__3.rem() =~= contents@, every(it__3.rem(), f.hs()) == every(it0__3.rem(), snap__3)
@@loop 4
invariant it0__4.rem() =~= contents@, every(it__4.rem(), f.hs()) == every(it0__4.rem(), snap__4)
@@loop 5
invariant it0__5.rem() =~= contents@, every(it__5.rem(), f.hs()) == every(it0__5.rem(), snap__5)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (deco(*self, old(f).hs()))
@@stub
@fn DecoratedTextContent<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { DecoratedTextContent::Text(x) => w(x, old(f).hs()), DecoratedTextContent::DecoratedText(x) => w(x, old(f).hs()), DecoratedTextContent::Keyword(x) => w(x, old(f).hs()), DecoratedTextContent::Link(x) => w(x, old(f).hs()) })
@@stub
@fn Keyword<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(old(f).hs(), kw(*self)))
@@stub
@fn Link<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (link(*self, old(f).hs()))
@@stub
@fn Link<Output<HtmlFormatter>>::fmt::write_link
@@loop 0
invariant attrs(it__0.rem(), f.hs()) == attrs(it0__0.rem(), snap__0)
@@loop 1
invariant attrs(it__1.rem(), f.hs()) == attrs(it0__1.rem(), snap__1)
@@contract
ensures aft(ret is Ok, final(f).hs()) == tag(href.disp(), shown(match description { Some(d) => Some(*d), None => None }), match properties { Some(m) => Some(*m), None => None }, use_img_tag, old(f).hs())
@fn Tags<Output<HtmlFormatter>>::fmt
@@head
broadcast use hlem::top_is;
@@loop 0
invariant it0__0.rem() =~= self.0@, tagsx(it__0.rem(), f.hs()) == tagsx(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (tagsx(self.0@, old(f).hs()))
@@stub
@fn CodeInline<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(we(wr(old(f).hs(), "<code>"@), cow_str(self.0)), "</code>"@))
@@stub
@fn MathInline<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (wr(we(wr(old(f).hs(), "\\("@), cow_str(self.0)), "\\)"@))
@@stub
@fn Comment<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (match *self { Comment::Line(x) => w(x, old(f).hs()), Comment::MultiLine(x) => w(x, old(f).hs()) })
@@stub
@fn LineComment<Output<HtmlFormatter>>::fmt
@@contract
ensures aft(ret is Ok, final(f).hs()) == (if old(f).hs().cfg.comment.include { wr(we(wr(old(f).hs(), "<!-- "@), cow_str(self.0)), " -->"@) } else { old(f).hs() })
@@stub
@fn MultiLineComment<Output<HtmlFormatter>>::fmt
@@loop 0
invariant it0__0.rem() =~= self.0@, elines(it__0.rem(), f.hs()) == elines(it0__0.rem(), snap__0)
@@contract
ensures aft(ret is Ok, final(f).hs()) == (if old(f).hs().cfg.comment.include { wr(elines(self.0@, wr(old(f).hs(), "<!--\n"@)), "-->"@) } else { old(f).hs() })
@@stub
@fn build_complete_id
@@head
let ghost s0 = f.hs();
@@loop 0
invariant f.hs() == s0, complete_id@ == prefix(s0.heads, 1 + it__0.index())
@@contract
ensures ret is Ok, ret->Ok_0@ == prefix(old(f).hs().heads, max_level as int) + id@, final(f).hs() == old(f).hs()
@raw
pub open spec fn fresh(c: HtmlConfig) -> Hs { Hs { live: true, text: Seq::empty(), heads: Map::empty(), ids: Map::empty(), title: None, date: None, tpl: None, cfg: c } }
pub trait ToHtmlString: Sized {
    fn to_html_string(&self, config: HtmlConfig) -> (ret: Result<String, HtmlOutputError>) ensures match ret { Ok(t) => w(*self, fresh(config)).live && w(*self, fresh(config)).text == t@, Err(_) => w(*self, fresh(config)) == dead() };
}
@endraw
@source vimwiki-core/src/lang/output/html/convert.rs
@fn T<ToHtmlString>::to_html_string
ensures match ret { Ok(t) => w(*self, fresh(config)).live && w(*self, fresh(config)).text == t@, Err(_) => w(*self, fresh(config)) == dead() }
@@stub
