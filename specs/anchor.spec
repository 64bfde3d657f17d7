//# anchors of links and the fragments of URIs (unit of P13; P01 uses its contracts)
@include std.rs
@include anchor.rs
@raw
pub use vstd::utf8::encode_utf8;
/// percent-encoding sets: the ASCII bytes that are escaped (bytes from 128 always are)
#[verifier::external_body] pub struct AsciiSet { x: u8 }
impl AsciiSet {
    pub uninterp spec fn view(&self) -> spec_fn(u8) -> bool;
    #[verifier::external_body] pub fn add(&self, b: u8) -> (r: AsciiSet) ensures r@ == ins(self@, b) { unimplemented!() }
}
pub open spec fn controls() -> spec_fn(u8) -> bool { |b: u8| b < 32 || b == 127 }
pub open spec fn ins(s: spec_fn(u8) -> bool, x: u8) -> spec_fn(u8) -> bool { |b: u8| b == x || s(b) }
#[verifier::external_body] const fn controls__() -> (r: &'static AsciiSet) ensures r@ == controls() { &AsciiSet { x: 0 } }
pub exec static CONTROLS: &'static AsciiSet ensures CONTROLS@ == controls() { controls__() }
pub open spec fn up_hex(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
pub open spec fn enc_byte(b: u8, set: spec_fn(u8) -> bool) -> Seq<char> { if b >= 128 || set(b) { seq!['%', up_hex(b as int / 16), up_hex(b as int % 16)] } else { seq![b as char] } }
pub open spec fn hexes(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() == 0 { seq![] } else { seq!['%', up_hex(b[0] as int / 16), up_hex(b[0] as int % 16)] + hexes(b.drop_first()) } }
pub open spec fn enc_char(c: char, set: spec_fn(u8) -> bool) -> Seq<char> { if (c as u32) < 128 { enc_byte(c as u8, set) } else { hexes(encode_utf8(seq![c])) } }
/// percent-encoding of a text: its ASCII characters outside the set stay, every other byte becomes % and two digits
pub open spec fn penc(s: Seq<char>, set: spec_fn(u8) -> bool) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { enc_char(s[0], set) + penc(s.drop_first(), set) } }
#[verifier::external_body] pub struct PercentEncode<'a> { x: &'a str }
impl<'a> PercentEncode<'a> { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body] pub fn utf8_percent_encode<'a>(s: &'a str, set: &AsciiSet) -> (r: PercentEncode<'a>) ensures r.text() == penc(s@, set@) { unimplemented!() }
pub trait Extend__ { fn extend__(&mut self, e: PercentEncode<'_>); }
impl Extend__ for String { #[verifier::external_body] fn extend__(&mut self, e: PercentEncode<'_>) ensures final(self)@ == old(self)@ + e.text() { unimplemented!() } }
#[verifier::external_body] pub struct SplitC__<'a> { x: &'a str }
pub struct SplitE__<'a> { pub it: SplitC__<'a>, pub n: usize }
impl<'a> SplitC__<'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x@ == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn enumerate__(self) -> (r: EIt__<'a>) ensures r.idx() == 0, r.rem() == self.rem() { unimplemented!() }
    #[verifier::external_body] pub fn collect(self) -> (r: Anchor<'a>) ensures texts(r.0@) == self.rem() { unimplemented!() }
}
#[verifier::external_body] pub struct EIt__<'a> { x: &'a str }
impl<'a> EIt__<'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x.1@ == old(self).rem()[0] && x.0 == old(self).idx() && final(self).idx() == old(self).idx() + 1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
#[verifier::external_body] pub struct CIt__<'x, 'a> { x: &'x [Cow<'a, str>] }
impl<'x, 'a> CIt__<'x, 'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'x Cow<'a, str>)>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && cow_str(*x.1) == old(self).rem()[0] && x.0 == old(self).idx() && final(self).idx() == old(self).idx() + 1 && final(self).rem() == old(self).rem().drop_first(), None => old(self).rem().len() == 0 } { unimplemented!() }
}
pub trait Enumerate__<'x, 'a>: Sized { fn enumerate__(self) -> (r: CIt__<'x, 'a>); }
impl<'x, 'a> Enumerate__<'x, 'a> for std::slice::Iter<'x, Cow<'a, str>> {
    #[verifier::external_body] fn enumerate__(self) -> (r: CIt__<'x, 'a>) ensures r.idx() == 0, r.rem() == refs(vstd::std_specs::iter::IteratorSpec::remaining(&self)) { unimplemented!() }
}
pub open spec fn refs<'a>(v: Seq<&Cow<'a, str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| cow_str(*v[i])) }
pub fn for_iter__<T>(x: T) -> (r: T) ensures r == x { x }
pub open spec fn vals8(v: Seq<&u8>) -> Seq<u8> { Seq::new(v.len(), |i: int| *v[i]) }
pub trait All__<'x>: Sized { fn all__<F: Fn(&'x u8) -> bool>(self, f: F) -> (r: bool); }
impl<'x> All__<'x> for std::slice::Iter<'x, u8> {
    #[verifier::external_body] fn all__<F: Fn(&'x u8) -> bool>(self, f: F) -> (r: bool)
        ensures r ==> forall|i: int| 0 <= i < vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self)).len() ==> f.ensures((&#[trigger] vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self))[i],), true), r && vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self)).len() > 1 ==> f.ensures((&vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self))[0],), true) && f.ensures((&vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self))[1],), true), !r ==> exists|i: int| 0 <= i < vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self)).len() && f.ensures((&#[trigger] vals8(vstd::std_specs::iter::IteratorSpec::remaining(&self))[i],), false)
    { unimplemented!() }
}
pub fn is_ascii_hexdigit(b: &u8) -> (r: bool) ensures r == hexb(*b) { matches!(*b, b'0'..=b'9' | b'A'..=b'F' | b'a'..=b'f') }
pub trait Split__ { fn split__(&self, c: char) -> (r: SplitC__<'_>); }
impl Split__ for str { #[verifier::external_body] fn split__(&self, c: char) -> (r: SplitC__<'_>) ensures r.rem() == pieces(self@, c) { unimplemented!() } }
@endraw
@raw
use std::borrow::Cow;
pub uninterp spec fn cow_to<'a, B: ?Sized + ToOwned>(x: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_to(x);
pub open spec fn cow_str(x: Cow<str>) -> Seq<char> { match x { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
pub open spec fn texts(v: Seq<Cow<str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| cow_str(v[i])) }
mod ancax {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_cow_str<'a>(x: &Cow<'a, str>) ensures #[trigger] cow_to::<str>(x)@ == cow_str(*x);
    }
}
/// what a fragment escapes: controls and the ASCII characters RFC 3986 does not allow there
pub open spec fn fset() -> spec_fn(u8) -> bool { ins(ins(ins(ins(ins(ins(ins(ins(ins(ins(ins(ins(ins(controls(), 32), 34), 35), 60), 62), 91), 92), 93), 94), 96), 123), 124), 125) }
/// a percent sign stays when two hexadecimal digits follow it and is escaped otherwise
pub open spec fn pct(p: Seq<u8>) -> Seq<char> { if p.len() >= 2 && hexb(p[0]) && hexb(p[1]) { "%"@ } else { "%25"@ } }
/// the pieces of a part, each escaped, with their percent signs between them; n of them
pub open spec fn enc_pieces(ps: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { enc_pieces(ps, n - 1) + (if n > 1 { pct(encode_utf8(ps[n - 1])) } else { seq![] }) + penc(ps[n - 1], fset()) }
}
pub open spec fn enc_part(p: Seq<char>) -> Seq<char> { enc_pieces(pieces(p, '%'), pieces(p, '%').len() as int) }
/// the fragment that holds n parts of an anchor: # before the first, an encoded # before each other
pub open spec fn enc_parts(ps: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { enc_parts(ps, n - 1) + (if n == 1 { "#"@ } else { "%23"@ }) + enc_part(ps[n - 1]) }
}
pub proof fn first_ascii(s: Seq<char>)
    requires encode_utf8(s).len() > 0, encode_utf8(s)[0] < 128
    ensures s.len() > 0, (s[0] as u32) < 128, s[0] as u8 == encode_utf8(s)[0], encode_utf8(s).drop_first() == encode_utf8(s.drop_first())
{
    let c = s[0] as u32;
    assert(s.len() > 0);
    assert(encode_utf8(s) == vstd::utf8::encode_scalar(c) + encode_utf8(s.drop_first()));
    assert(c < 128 ==> (c & 0x7f) == c) by(bit_vector);
    assert(forall|x: u8| #[trigger] (0xC0u8 | x) >= 128) by(bit_vector);
    assert(forall|x: u8| #[trigger] (0xE0u8 | x) >= 128) by(bit_vector);
    assert(forall|x: u8| #[trigger] (0xF0u8 | x) >= 128) by(bit_vector);
    assert(c < 128);
    assert(vstd::utf8::encode_scalar(c) =~= seq![c as u8]);
    assert(vstd::utf8::encode_scalar(c).len() >= 1);
    assert(vstd::utf8::encode_scalar(c)[0] == encode_utf8(s)[0]);
    assert(encode_utf8(s).drop_first() =~= encode_utf8(s.drop_first()));
}
pub proof fn hex_frag(h: char, l: char) requires hexd(h), hexd(l) ensures frag_chars(seq!['%', h, l])
{ let s = seq!['%', h, l]; assert(s.skip(3).len() == 0); assert(frag_chars(s.skip(3))); }
pub proof fn hexes_frag(b: Seq<u8>) ensures frag_chars(hexes(b)) decreases b.len()
{ if b.len() > 0 { hexes_frag(b.drop_first()); let h = up_hex(b[0] as int / 16); let l = up_hex(b[0] as int % 16); hex_frag(h, l); frag_add(seq!['%', h, l], hexes(b.drop_first())); } }
pub proof fn penc_frag(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '%'
    ensures frag_chars(penc(s, fset()))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '%' by { assert(t[i] == s[i + 1]); }
        penc_frag(t);
        let c = s[0]; let e = enc_char(c, fset());
        assert(frag_chars(e)) by {
            if (c as u32) < 128 {
                let b = c as u8;
                if fset()(b) { hex_frag(up_hex(b as int / 16), up_hex(b as int % 16)); }
                else { assert(fragb(b)); assert(b as char == c); assert(e =~= seq![c]); assert(e.skip(1).len() == 0); assert(frag_chars(e.skip(1))); }
            } else { hexes_frag(encode_utf8(seq![c])); }
        }
        frag_add(e, penc(t, fset()));
    }
}
pub proof fn pieces_free(s: Seq<char>, c: char)
    ensures pieces(s, c).len() >= 1, forall|k: int, i: int| 0 <= k < pieces(s, c).len() && 0 <= i < pieces(s, c)[k].len() ==> pieces(s, c)[k][i] != c
    decreases s.len()
{
    if s.len() > 0 {
        pieces_free(s.drop_last(), c);
        let p = pieces(s.drop_last(), c); let q = pieces(s, c);
        assert forall|k: int, i: int| 0 <= k < q.len() && 0 <= i < q[k].len() implies q[k][i] != c by {
            if k < p.len() - 1 { assert(q[k] == p[k]); } else if s.last() != c { assert(k == p.len() - 1); if i < p.last().len() { assert(p[k][i] != c); } } else if k < p.len() { assert(q[k] == p[k]); }
        }
    }
}
pub proof fn pct_frag(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '%'
    ensures frag_chars(pct(encode_utf8(s)) + penc(s, fset()))
{
    reveal_strlit("%"); reveal_strlit("%25");
    penc_frag(s);
    let b = encode_utf8(s);
    if b.len() >= 2 && hexb(b[0]) && hexb(b[1]) {
        first_ascii(s);
        let t = s.drop_first();
        assert(b.drop_first()[0] == b[1]);
        first_ascii(t);
        let u = t.drop_first();
        assert forall|i: int| 0 <= i < u.len() implies u[i] != '%' by { assert(u[i] == s[i + 2]); }
        penc_frag(u);
        let h = s[0]; let l = t[0];
        assert(hexd(h) && hexd(l));
        assert(!fset()(h as u8) && !fset()(l as u8));
        assert(enc_char(h, fset()) =~= seq![h]);
        assert(enc_char(l, fset()) =~= seq![l]);
        hex_frag(h, l);
        frag_add(seq!['%', h, l], penc(u, fset()));
        assert("%"@ =~= seq!['%']);
        assert(penc(t, fset()) == enc_char(l, fset()) + penc(u, fset()));
        assert(penc(s, fset()) == enc_char(h, fset()) + penc(t, fset()));
        assert("%"@ + penc(s, fset()) =~= seq!['%', h, l] + penc(u, fset()));
    } else {
        assert("%25"@ =~= seq!['%', '2', '5']);
        hex_frag('2', '5');
        frag_add("%25"@, penc(s, fset()));
    }
}
pub proof fn part_frag(p: Seq<char>, n: int)
    requires 0 <= n <= pieces(p, '%').len()
    ensures frag_chars(enc_pieces(pieces(p, '%'), n))
    decreases n
{
    if n > 0 {
        part_frag(p, n - 1);
        pieces_free(p, '%');
        let ps = pieces(p, '%'); let q = ps[n - 1]; let a = enc_pieces(ps, n - 1);
        assert forall|i: int| 0 <= i < q.len() implies q[i] != '%' by { assert(ps[n - 1][i] != '%'); }
        if n > 1 {
            pct_frag(q);
            frag_add(a, pct(encode_utf8(q)) + penc(q, fset()));
            assert(a + (pct(encode_utf8(q)) + penc(q, fset())) =~= enc_pieces(ps, n));
        } else { penc_frag(q); frag_add(a, penc(q, fset())); assert(a + penc(q, fset()) =~= enc_pieces(ps, n)); }
    }
}
/// the fragment of any anchor is one a URI reference can hold
pub proof fn parts_frag(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len()
    ensures frag_ref(enc_parts(ps, n)), n > 0 ==> enc_parts(ps, n).len() > 0
    decreases n
{
    reveal_strlit("#"); reveal_strlit("%23");
    if n > 0 {
        parts_frag(ps, n - 1);
        let a = enc_parts(ps, n - 1); let e = enc_part(ps[n - 1]);
        part_frag(ps[n - 1], pieces(ps[n - 1], '%').len() as int);
        if n == 1 { assert(a.len() == 0); assert(enc_parts(ps, n) =~= seq!['#'] + e); assert(enc_parts(ps, n).skip(1) =~= e); }
        else {
            hex_frag('2', '3');
            assert("%23"@ =~= seq!['%', '2', '3']);
            frag_add("%23"@, e);
            frag_add(a.skip(1), "%23"@ + e);
            assert(enc_parts(ps, n).skip(1) =~= a.skip(1) + ("%23"@ + e));
        }
    }
}
@endraw
@fnhead broadcast use ancax::ax_cow_str;
@source vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@type Anchor ctor
@fn Anchor::push_encoded desugar
    ensures final(fragment)@ == old(fragment)@ + enc_part(part@),
@@loop 0
    invariant fragment@ == old(fragment)@ + enc_pieces(pieces(part@, '%'), it__0.idx()), 0 <= it__0.idx() <= pieces(part@, '%').len(), it__0.rem() == pieces(part@, '%').skip(it__0.idx()),
@fn Anchor::to_encoded_uri_fragment desugar
    ensures ret@ == enc_parts(texts(self.0@), self.0@.len() as int), frag_ref(ret@),
@@head
    proof { parts_frag(texts(self.0@), self.0@.len() as int); }
@@loop 0
    invariant fragment@ == enc_parts(texts(self.0@), it__0.idx()), 0 <= it__0.idx() <= self.0@.len(), it__0.rem() == texts(self.0@).skip(it__0.idx()),
@fn Anchor::from_uri_fragment
    ensures match ret { Some(a) => pieces(s@, '#')[0].len() == 0 && texts(a.0@) == pieces(s@, '#').drop_first(), None => pieces(s@, '#')[0].len() > 0 },
