// ---- std, percent_encoding, uriparse (assumed contracts) -----------------------------------------------
pub use vstd::utf8::encode_utf8;
use std::borrow::Cow;
// percent-encoding sets: the ASCII bytes that are escaped (bytes from 128 always are)
#[verifier::external_body] pub struct AsciiSet { x: u8 }
impl AsciiSet {
    pub uninterp spec fn view(&self) -> spec_fn(u8) -> bool;
    #[verifier::external_body] pub fn add(&self, b: u8) -> (r: AsciiSet) ensures r@ == ins(self@, b) { unimplemented!() }
}
pub open spec fn controls() -> spec_fn(u8) -> bool { |b: u8| b < 32 || b == 127 }
pub open spec fn ins(s: spec_fn(u8) -> bool, x: u8) -> spec_fn(u8) -> bool { |b: u8| b == x || s(b) }
#[verifier::external_body] const fn controls__() -> (r: &'static AsciiSet) ensures r@ == controls() { &AsciiSet { x: 0 } }
pub exec static CONTROLS: &'static AsciiSet ensures CONTROLS@ == controls() { controls__() }
/// what an address escapes: controls, blank, quotes, angle brackets, back quote, pound sign
pub open spec fn uset() -> spec_fn(u8) -> bool { ins(ins(ins(ins(ins(ins(controls(), 32), 34), 60), 62), 96), 35) }
pub open spec fn hexdigit(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn hexval(b: u8) -> int { if b <= 57 { b - 48 } else if b <= 70 { b - 55 } else { b - 87 } }
pub open spec fn ench(b: u8, set: spec_fn(u8) -> bool) -> Seq<u8> { if b >= 128 || set(b) { seq![37u8, hexdigit(b as int / 16), hexdigit(b as int % 16)] } else { seq![b] } }
/// percent-encoding: bytes in the set and from 128 become % and two digits
pub open spec fn penc(s: Seq<u8>, set: spec_fn(u8) -> bool) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { ench(s[0], set) + penc(s.skip(1), set) } }
pub open spec fn esc(s: Seq<u8>) -> bool { s.len() >= 3 && s[0] == 37 && hexb(s[1]) && hexb(s[2]) }
/// percent-decoding: % and two digits become their byte, everything else stays
pub open spec fn pdec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else if esc(s) { seq![(hexval(s[1]) * 16 + hexval(s[2])) as u8] + pdec(s.skip(3)) } else { seq![s[0]] + pdec(s.skip(1)) }
}
/// the first occurrence of p in s becomes t
pub open spec fn repl1(s: Seq<u8>, p: Seq<u8>, t: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() < p.len() || s.len() == 0 { s } else if s.take(p.len() as int) == p { t + s.skip(p.len() as int) } else { seq![s[0]] + repl1(s.skip(1), p, t) }
}
/// an address encoded: everything in the set, the first pound sign excepted, which starts the fragment
pub open spec fn enc_uri(b: Seq<u8>) -> Seq<u8> { repl1(penc(b, uset()), seq![37u8, 50, 51], seq![35u8]) }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub struct PercentEncode<'a> { x: &'a str }
impl<'a> PercentEncode<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures encode_utf8(r@) == self.bytes() { unimplemented!() } }
#[verifier::external_body] pub fn percent_encode<'a>(s: &'a [u8], set: &AsciiSet) -> (r: PercentEncode<'a>) ensures r.bytes() == penc(s@, set@) { unimplemented!() }
#[verifier::external_body] pub struct PercentDecode<'a> { x: &'a str }
impl<'a> PercentDecode<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] pub fn decode_utf8_lossy(self) -> (r: Cow<'a, str>) ensures cow_str(r) == lossy(self.bytes()) { unimplemented!() } }
#[verifier::external_body] pub fn percent_decode<'a>(s: &'a [u8]) -> (r: PercentDecode<'a>) ensures r.bytes() == pdec(s@) { unimplemented!() }
pub trait Replacen__ { fn replacen__(&self, p: &str, t: &str, n: usize) -> (r: String); }
impl Replacen__ for String { #[verifier::external_body] fn replacen__(&self, p: &str, t: &str, n: usize) -> (r: String) ensures n == 1 && p@.len() > 0 ==> encode_utf8(r@) == repl1(encode_utf8(self@), encode_utf8(p@), encode_utf8(t@)) { unimplemented!() } }
pub proof fn lits_ascii() ensures encode_utf8("%23"@) == seq![37u8, 50, 51], encode_utf8("#"@) == seq![35u8], "%23"@.len() == 3
{
    reveal_strlit("%23"); reveal_strlit("#");
    vstd::utf8::is_ascii_chars_encode_utf8("%23"@); vstd::utf8::is_ascii_chars_encode_utf8("#"@);
    assert(encode_utf8("%23"@) =~= seq![37u8, 50, 51]); assert(encode_utf8("#"@) =~= seq![35u8]);
}
// ---- decoding undoes encoding
pub proof fn penc_first(s: Seq<u8>) ensures penc(s, uset()).len() == 0 <==> s.len() == 0, s.len() > 0 ==> penc(s, uset())[0] == s[0] || penc(s, uset())[0] == 37 {}
pub proof fn dec_enc(s: Seq<u8>) ensures pdec(penc(s, uset())) == pdec(s) decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1); let e = penc(s, uset()); let pt = penc(t, uset());
        dec_enc(t); penc_first(t);
        if s[0] >= 128 || uset()(s[0]) {
            let h = hexdigit(s[0] as int / 16); let l = hexdigit(s[0] as int % 16);
            assert(e =~= seq![37u8, h, l] + pt); assert(e.skip(3) =~= pt);
            assert(hexval(h) * 16 + hexval(l) == s[0]);
        } else {
            assert(e =~= seq![s[0]] + pt); assert(e.skip(1) =~= pt);
            if s[0] == 37 {
                if t.len() > 0 && hexb(t[0]) {
                    let u = t.skip(1); let pu = penc(u, uset());
                    penc_first(u);
                    assert(pt =~= seq![t[0]] + pu);
                    if u.len() > 0 && hexb(u[0]) {
                        let v = u.skip(1);
                        assert(pu =~= seq![u[0]] + penc(v, uset()));
                        assert(e.skip(3) =~= penc(v, uset()));
                        assert(s.skip(3) =~= v);
                        dec_enc(v);
                    }
                }
            }
        }
    }
}
pub proof fn repl_first(s: Seq<u8>, p: Seq<u8>, t: Seq<u8>)
    requires p == seq![37u8, 50, 51], t == seq![35u8]
    ensures repl1(s, p, t).len() == 0 <==> s.len() == 0, s.len() > 0 ==> repl1(s, p, t)[0] == s[0] || repl1(s, p, t)[0] == 35, s.len() > 0 && s[0] != 37 ==> repl1(s, p, t) == seq![s[0]] + repl1(s.skip(1), p, t)
{
    if s.len() >= 3 { assert(s.take(3)[0] == s[0]); }
    if s.len() > 0 && s.len() < 3 { assert(s =~= seq![s[0]] + s.skip(1)); }
}
pub proof fn dec_repl(s: Seq<u8>, p: Seq<u8>, t: Seq<u8>)
    requires p == seq![37u8, 50, 51], t == seq![35u8]
    ensures pdec(repl1(s, p, t)) == pdec(s)
    decreases s.len()
{
    if s.len() >= 3 {
        let r = repl1(s, p, t);
        if s.take(3) == p {
            assert(s[0] == s.take(3)[0] && s[1] == s.take(3)[1] && s[2] == s.take(3)[2]);
            assert(r.skip(1) =~= s.skip(3));
        } else {
            let u = s.skip(1); let ru = repl1(u, p, t);
            dec_repl(u, p, t); repl_first(u, p, t);
            assert(r.skip(1) =~= ru);
            if s[0] == 37 && hexb(s[1]) {
                let v = u.skip(1); let rv = repl1(v, p, t);
                repl_first(v, p, t);
                assert(ru == seq![s[1]] + rv);
                if hexb(s[2]) {
                    assert(rv == seq![s[2]] + repl1(v.skip(1), p, t));
                    assert(v.skip(1) =~= s.skip(3));
                    assert(r.skip(3) =~= repl1(s.skip(3), p, t));
                    dec_repl(s.skip(3), p, t);
                } else { assert(!hexb(rv[0])); assert(r[2] == rv[0]); }
            } else if s[0] == 37 { assert(r[1] == ru[0]); }
        }
    }
}
/// decoding an encoded address gives what decoding the address itself gives
pub proof fn decode_undoes_encode(b: Seq<u8>) ensures pdec(enc_uri(b)) == pdec(b) { dec_repl(penc(b, uset()), seq![37u8, 50, 51], seq![35u8]); dec_enc(b); }
/// an address without a percent sign comes back as it was
pub proof fn plain_comes_back(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> b[i] != 37 ensures pdec(b) == b, pdec(enc_uri(b)) == b
{ decode_undoes_encode(b); plain(b); }
pub proof fn plain(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> b[i] != 37 ensures pdec(b) == b decreases b.len()
{ if b.len() > 0 { plain(b.skip(1)); assert(seq![b[0]] + b.skip(1) =~= b); } }
// ---- Cow, AsRef, HashMap, hashing, formatting
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub open spec fn cow_str(x: Cow<str>) -> Seq<char> { match x { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
pub open spec fn texts(v: Seq<Cow<str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| cow_str(v[i])) }
mod ldax {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_cow_str<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    pub broadcast axiom fn ax_bytes(s: &String) ensures #[trigger] bytes_of(s)@ == encode_utf8(s@);
    pub broadcast axiom fn ax_cow_string<'a>(x: &Cow<'a, str>, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<'a, str>>(x, r) <==> r@ == cow_str(*x);
    pub broadcast proof fn ax_seg_text(u: URIReference, i: int) requires 0 <= i < u.segs_().len() ensures #[trigger] u.segs_()[i] == u.path_().segv()[i].text() {}
    }
}
pub trait AsRef<T: ?Sized> { spec fn as_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_spec(); }
impl<'x, T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &'x U { open spec fn as_spec(&self) -> &T { (**self).as_spec() } fn as_ref(&self) -> (r: &T) { (**self).as_ref() } }
pub uninterp spec fn bytes_of(s: &String) -> &[u8];
impl AsRef<[u8]> for String { open spec fn as_spec(&self) -> &[u8] { bytes_of(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'x> AsRef<str> for Cow<'x, str> { open spec fn as_spec(&self) -> &str { cow_to(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
/// std HashMap with texts as keys (assumed contract: a finite map)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Keys<'x, K, V> { k: &'x Vec<(K, V)> }
impl<'a> HashMap<Cow<'a, str>, Cow<'a, str>> {
    pub uninterp spec fn texts(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] pub fn get(&self, k: &Cow<'a, str>) -> (r: Option<&Cow<'a, str>>)
        ensures r.is_some() == self.texts().dom().contains(cow_str(*k)), r.is_some() ==> cow_str(*r.unwrap()) == self.texts()[cow_str(*k)] { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Keys<'_, Cow<'a, str>, Cow<'a, str>>) ensures r.set() == self.texts().dom() { unimplemented!() }
}
impl<'x, 'a> Keys<'x, Cow<'a, str>, Cow<'a, str>> {
    pub uninterp spec fn set(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn collect<B: FromKeys__<'x, 'a>>(self) -> (r: B) ensures r.holds(self.set()) { unimplemented!() }
}
/// v lists every member of s once, in any order
pub uninterp spec fn lists(v: Seq<Seq<char>>, s: Set<Seq<char>>) -> bool;
/// the members of s from the smallest on
pub uninterp spec fn sorted(s: Set<Seq<char>>) -> Seq<Seq<char>>;
pub open spec fn ctexts(v: Seq<&Cow<str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| cow_str(*v[i])) }
pub trait FromKeys__<'x, 'a>: Sized { spec fn holds(&self, s: Set<Seq<char>>) -> bool; }
impl<'x, 'a> FromKeys__<'x, 'a> for Vec<&'x Cow<'a, str>> { open spec fn holds(&self, s: Set<Seq<char>>) -> bool { lists(ctexts(self@), s) } }
pub trait Sort__ { fn sort_unstable(&mut self); }
impl<'x, 'a> Sort__ for Vec<&'x Cow<'a, str>> { #[verifier::external_body] fn sort_unstable(&mut self) ensures forall|s: Set<Seq<char>>| #[trigger] lists(ctexts(old(self)@), s) ==> ctexts(final(self)@) == sorted(s) { unimplemented!() } }
/// what was fed into a hasher
pub ghost enum Fed { Text(Seq<char>), Address(Seq<char>), Description(Option<Seq<char>>) }
pub trait Hasher { spec fn fed(&self) -> Seq<Fed>; }
pub trait Hash { spec fn feed(&self) -> Fed; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(self.feed()); }
impl<'a> Hash for URIReference<'a> { open spec fn feed(&self) -> Fed { Fed::Address(self.disp()) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'a> Hash for Option<Description<'a>> { open spec fn feed(&self) -> Fed { Fed::Description(match *self { Some(d) => Some(d.disp()), None => None }) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'x, 'a> Hash for &'x Cow<'a, str> { open spec fn feed(&self) -> Fed { Fed::Text(cow_str(**self)) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn key_feeds(v: Seq<Seq<char>>, n: int) -> Seq<Fed> { Seq::new(n as nat, |i: int| Fed::Text(v[i])) }
/// what a link feeds: its address, its description, the names of its properties from the smallest on
pub open spec fn data_feed(d: LinkData) -> Seq<Fed> {
    seq![Fed::Address(d.uri_ref.disp()), Fed::Description(match d.description { Some(x) => Some(x.disp()), None => None })] + (match d.properties { Some(m) => key_feeds(sorted(m.texts().dom()), sorted(m.texts().dom()).len() as int), None => seq![] })
}
mod fmt { pub use super::Formatter; }
pub open spec fn data_feed0(d: LinkData, f: Seq<Fed>) -> Seq<Fed> { f.push(Fed::Address(d.uri_ref.disp())).push(Fed::Description(match d.description { Some(x) => Some(x.disp()), None => None })) }
#[verifier::external_body] pub struct FmtError { x: u8 }
#[verifier::external_body] pub struct Formatter<'a> { x: &'a u8 }
impl<'a> Formatter<'a> { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn w_lit__<'a>(w: &mut Formatter<'a>, s: &str) ensures final(w)@ == old(w)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn w_disp__<'a, T: Disp__ + ?Sized>(w: &mut Formatter<'a>, x: &T) ensures final(w)@ == old(w)@ + x.disp() { unimplemented!() }
pub fn w_end__() -> (r: Result<(), FmtError>) ensures r is Ok { Ok(()) }
impl<'a> Disp__ for Description<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
// ---- joining and splitting
pub trait Join__ { fn join__(&self, sep: &str) -> (r: String); }
impl<'a> Join__ for Vec<Cow<'a, str>> { #[verifier::external_body] fn join__(&self, sep: &str) -> (r: String) ensures r@ == glue(texts(self@), sep@) { unimplemented!() } }
pub open spec fn at(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
/// the stretches of s between the occurrences of p, found from the left (str::split)
pub open spec fn split_at(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if p.len() == 0 || s.len() == 0 { seq![s] } else if at(s, p) { seq![Seq::empty()] + split_at(s.skip(p.len() as int), p) }
    else { let r = split_at(s.skip(1), p); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
#[verifier::external_body] pub struct SplitS__<'a> { x: &'a str }
impl<'a> SplitS__<'a> { pub uninterp spec fn rem(&self) -> Seq<Seq<char>>; #[verifier::external_body] pub fn collect<B: FromSplit__<'a>>(self) -> (r: B) ensures r.holds(self.rem()) { unimplemented!() } }
pub trait FromSplit__<'a>: Sized { spec fn holds(&self, s: Seq<Seq<char>>) -> bool; }
impl<'a> FromSplit__<'a> for Anchor<'a> { open spec fn holds(&self, s: Seq<Seq<char>>) -> bool { texts(self.0@) == s } }
pub trait Split__ { fn split__(&self, p: &str) -> (r: SplitS__<'_>); }
impl Split__ for str { #[verifier::external_body] fn split__(&self, p: &str) -> (r: SplitS__<'_>) ensures p@.len() > 0 ==> r.rem() == split_at(self@, p@) { unimplemented!() } }
// ---- uriparse
pub trait TryFrom__<T>: Sized { type Error; spec fn try_ens(x: T, r: Result<Self, Self::Error>) -> bool; fn try_from__(x: T) -> (r: Result<Self, Self::Error>) ensures Self::try_ens(x, r); }
#[verifier::external_body] pub struct Segment<'a> { x: &'a str }
impl<'a> Segment<'a> { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Segs<'a> { x: &'a str }
#[verifier::external_body] pub struct SegIter<'a> { x: &'a str }
impl<'a> Segs<'a> {
    pub uninterp spec fn view(&self) -> Seq<Segment<'a>>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&Segment<'a>>) ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: SegIter<'a>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Segment<'a>>) ensures match r { Some(c) => old(self)@.len() > 0 && *c == old(self)@[0] && final(self)@ == old(self)@.skip(1) && final(self).pos() == old(self).pos() + 1, None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
pub fn for_iter__<'a>(x: Segs<'a>) -> (r: Segs<'a>) ensures r@ == x@, r.pos() == x.pos() { x }
impl<'a> SegIter<'a> {
    pub uninterp spec fn view(&self) -> Seq<Segment<'a>>;
    #[verifier::external_body] pub fn all<F: Fn(&'a Segment<'a>) -> bool>(self, f: F) -> (r: bool)
        requires forall|s: &'a Segment<'a>| #[trigger] f.requires((s,))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), false) { unimplemented!() }
}
#[verifier::external_body] pub struct UriPath<'a> { x: &'a str }
impl<'a> UriPath<'a> {
    pub uninterp spec fn segv(&self) -> Seq<Segment<'a>>;
    pub uninterp spec fn abs(&self) -> bool;
    #[verifier::external_body] pub fn segments(&self) -> (r: Segs<'a>) ensures r@ == self.segv(), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == self.abs() { unimplemented!() }
}
#[verifier::external_body] pub struct Fragment<'a> { x: &'a str }
impl<'a> Fragment<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Fragment<'static>) ensures r.text() == self.text() { unimplemented!() }
}
#[verifier::external_body] pub struct FragmentError { x: u8 }
impl<'a> TryFrom__<&'a str> for Fragment<'a> {
    type Error = FragmentError;
    open spec fn try_ens(x: &'a str, r: Result<Self, FragmentError>) -> bool { match r { Ok(f) => f.text() == x@ && frag_chars(x@), Err(_) => !frag_chars(x@) } }
    #[verifier::external_body] fn try_from__(x: &'a str) -> (r: Result<Self, FragmentError>) { unimplemented!() }
}
/// the schemes the core tells apart
pub enum Scheme<'a> { File, FTP, HTTP, HTTPS, Data, MailTo, Unregistered(UnregisteredScheme<'a>), Other__ }
#[verifier::external_body] pub struct UnregisteredScheme<'a> { x: &'a str }
pub uninterp spec fn is_scheme(x: UnregisteredScheme, name: Seq<char>) -> bool;
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<str> for UnregisteredScheme<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { is_scheme(*self, o@) } }
impl<'a> PartialEq<str> for UnregisteredScheme<'a> { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
/// no scheme, file: and local: are this machine's
pub open spec fn local_scheme(s: Option<&Scheme>) -> bool { match s { None => true, Some(Scheme::File) => true, Some(Scheme::Unregistered(x)) => is_scheme(*x, "local"@), Some(_) => false } }
#[verifier::external_body] pub struct Authority<'a> { x: &'a str }
#[verifier::external_body] pub struct Query<'a> { x: &'a str }
#[verifier::external_body] pub struct URIReferenceError { x: u8 }
#[verifier::external_body] pub struct URIReference<'a> { x: &'a str }
impl<'a> Disp__ for URIReference<'a> { uninterp spec fn disp(&self) -> Seq<char>; }
impl<'a> URIReference<'a> {
    pub uninterp spec fn path_(&self) -> &UriPath<'a>;
    pub uninterp spec fn scheme_(&self) -> Option<&Scheme<'a>>;
    pub uninterp spec fn authority_(&self) -> Option<&Authority<'a>>;
    pub uninterp spec fn query_(&self) -> Option<&Query<'a>>;
    pub uninterp spec fn frag_(&self) -> Option<Seq<char>>;
    pub open spec fn segs_(&self) -> Seq<Seq<char>> { Seq::new(self.path_().segv().len(), |i: int| self.path_().segv()[i].text()) }
    pub open spec fn abs_(&self) -> bool { self.path_().abs() }
    #[verifier::external_body] pub fn path(&self) -> (r: &UriPath<'a>) ensures r == self.path_() { unimplemented!() }
    #[verifier::external_body] pub fn scheme(&self) -> (r: Option<&Scheme<'a>>) ensures r == self.scheme_() { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self) -> (r: Option<&Authority<'a>>) ensures r == self.authority_() { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&Query<'a>>) ensures r == self.query_() { unimplemented!() }
    #[verifier::external_body] pub fn fragment(&self) -> (r: Option<&Fragment<'a>>) ensures r.is_some() == self.frag_().is_some(), r.is_some() ==> r.unwrap().text() == self.frag_().unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn has_fragment(&self) -> (r: bool) ensures r == self.frag_().is_some() { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: URIReference<'static>) ensures r.same_as(self) { unimplemented!() }
    pub open spec fn same_as(&self, o: URIReference) -> bool { self.disp() == o.disp() }
}
/// a text a reference can be read from; reading it and writing it gives that text in normal form
pub uninterp spec fn uri_ok(s: Seq<char>) -> bool;
pub uninterp spec fn uri_text(s: Seq<char>) -> Seq<char>;
impl<'a> TryFrom__<&'a str> for URIReference<'a> {
    type Error = URIReferenceError;
    open spec fn try_ens(x: &'a str, r: Result<Self, URIReferenceError>) -> bool { match r { Ok(u) => uri_ok(x@) && u.disp() == uri_text(x@), Err(_) => !uri_ok(x@) } }
    #[verifier::external_body] fn try_from__(x: &'a str) -> (r: Result<Self, URIReferenceError>) { unimplemented!() }
}
pub open spec fn read_as(s: Seq<char>, ret: Result<LinkData, URIReferenceError>) -> bool { match ret { Ok(d) => uri_ok(s) && d.uri_ref.disp() == uri_text(s) && d.description.is_none() && d.properties.is_none(), Err(_) => !uri_ok(s) } }
// ---- std::path
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
pub type PathV = Seq<Seq<char>>;
pub uninterp spec fn root_path() -> PathV;
pub uninterp spec fn joined(a: PathV, b: PathV) -> PathV;
pub uninterp spec fn str_path(s: Seq<char>) -> PathV;
pub uninterp spec fn no_path() -> PathV;
/// the first n segments, each pushed in order
pub open spec fn pushed(segs: Seq<Seq<char>>, n: int) -> PathV decreases n { if n <= 0 { no_path() } else { joined(pushed(segs, n - 1), str_path(segs[n - 1])) } }
impl PathBuf {
    pub uninterp spec fn view(&self) -> PathV;
    #[verifier::external_body] pub fn new() -> (r: PathBuf) ensures r@ == no_path() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: &str) ensures final(self)@ == joined(old(self)@, str_path(s@)) { unimplemented!() }
}
pub enum Component { RootDir, CurDir, ParentDir }
impl Path {
    pub uninterp spec fn view(&self) -> PathV;
    #[verifier::external_body] pub fn new<'x>(c: &'x Component) -> (r: &'x Path) ensures *c is RootDir ==> r@ == root_path() { unimplemented!() }
    #[verifier::external_body] pub fn join__(&self, p: PathBuf) -> (r: PathBuf) ensures r@ == joined(self@, p@) { unimplemented!() }
}
