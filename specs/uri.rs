// ---- uriparse, relative_path, chrono (assumed contracts) -----------------------------------------
pub trait TryFrom__<T>: Sized {
    type Error;
    spec fn try_ens(x: T, r: Result<Self, Self::Error>) -> bool;
    fn try_from__(x: T) -> (r: Result<Self, Self::Error>) ensures Self::try_ens(x, r);
}
/// a uri reference: the part before the fragment, and the fragment
pub struct Uri { pub base: Seq<char>, pub frag: Option<Seq<char>> }
#[verifier::external_body] pub struct Segment<'a> { x: &'a str }
impl<'a> Segment<'a> { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Segs<'a> { x: &'a str }
#[verifier::external_body] pub struct SegIter<'a> { x: &'a str }
impl<'a> Segs<'a> {
    pub uninterp spec fn view(&self) -> Seq<Segment<'a>>;
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&Segment<'a>>) ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: SegIter<'a>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Segment<'a>>) ensures match r { Some(c) => old(self)@.len() > 0 && *c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
impl<'a> SegIter<'a> {
    pub uninterp spec fn view(&self) -> Seq<Segment<'a>>;
    #[verifier::external_body] pub fn all<F: Fn(&'a Segment<'a>) -> bool>(self, f: F) -> (r: bool)
        requires forall|s: &'a Segment<'a>| #[trigger] f.requires((s,))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), false) { unimplemented!() }
}
#[verifier::external_body] pub struct UriPath<'a> { x: &'a str }
impl<'a> UriPath<'a> {
    pub uninterp spec fn segs(&self) -> Seq<Segment<'a>>;
    pub uninterp spec fn abs(&self) -> bool;
    #[verifier::external_body] pub fn segments(&self) -> (r: Segs<'a>) ensures r@ == self.segs() { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == self.abs() { unimplemented!() }
}
#[verifier::external_body] pub struct Fragment<'a> { x: &'a str }
impl<'a> Fragment<'a> { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct FragmentError { x: u8 }
#[verifier::external] impl core::fmt::Debug for FragmentError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body] pub struct Scheme<'a> { x: &'a str }
#[verifier::external_body] pub struct Authority<'a> { x: &'a str }
#[verifier::external_body] pub struct Query<'a> { x: &'a str }
pub open spec fn frag_text(f: Option<Fragment>) -> Option<Seq<char>> { match f { Some(x) => Some(x.text()), None => None } }
#[verifier::external_body] pub struct URIReference<'a> { x: &'a str }
impl<'a> URIReference<'a> {
    pub uninterp spec fn view(&self) -> Uri;
    pub uninterp spec fn path_(&self) -> &UriPath<'a>;
    pub uninterp spec fn scheme_(&self) -> Option<&Scheme<'a>>;
    pub uninterp spec fn authority_(&self) -> Option<&Authority<'a>>;
    pub uninterp spec fn query_(&self) -> Option<&Query<'a>>;
    #[verifier::external_body] pub fn path(&self) -> (r: &UriPath<'a>) ensures r == self.path_() { unimplemented!() }
    #[verifier::external_body] pub fn scheme(&self) -> (r: Option<&Scheme<'a>>) ensures r == self.scheme_() { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self) -> (r: Option<&Authority<'a>>) ensures r == self.authority_() { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&Query<'a>>) ensures r == self.query_() { unimplemented!() }
    #[verifier::external_body] pub fn fragment(&self) -> (r: Option<&Fragment<'a>>) ensures r.is_some() == self@.frag.is_some(), r.is_some() ==> r.unwrap().text() == self@.frag.unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn has_fragment(&self) -> (r: bool) ensures r == self@.frag.is_some() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: URIReference<'static>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn map_fragment<F: FnOnce(Option<Fragment<'a>>) -> Option<Fragment<'a>>>(&mut self, f: F)
        requires forall|x: Option<Fragment<'a>>| #[trigger] f.requires((x,))
        ensures final(self)@.base == old(self)@.base, exists|x: Option<Fragment<'a>>, y: Option<Fragment<'a>>| #[trigger] f.ensures((x,), y) && final(self)@.frag == frag_text(y) { unimplemented!() }
}
impl<'a> Clone for URIReference<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct RelativeReferenceError { x: u8 }
#[verifier::external] impl core::fmt::Debug for RelativeReferenceError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body] pub struct RelativeReference<'a> { x: &'a str }
impl<'a> RelativeReference<'a> {
    pub uninterp spec fn view(&self) -> Uri;
    #[verifier::external_body] pub fn into_owned(self) -> (r: RelativeReference<'static>) ensures r@ == self@ { unimplemented!() }
}
impl<'a> TryFrom__<&'a str> for RelativeReference<'a> {
    type Error = RelativeReferenceError;
    open spec fn try_ens(x: &'a str, r: Result<Self, RelativeReferenceError>) -> bool { r.is_ok() ==> r.unwrap()@ == (Uri { base: x@, frag: None }) }
    #[verifier::external_body] fn try_from__(x: &'a str) -> (r: Result<Self, RelativeReferenceError>) { unimplemented!() }
}
impl<'a> From__<RelativeReference<'a>> for URIReference<'a> {
    open spec fn from_ens(x: RelativeReference<'a>, r: Self) -> bool { r@ == x@ }
    #[verifier::external_body] fn from__(x: RelativeReference<'a>) -> (r: Self) { unimplemented!() }
}
/// relative_path: component sequences without root and without `.`
#[verifier::external_body] pub struct RelativePath { x: String }
pub type RelativePathBuf = RelativePath;
#[verifier::external_body] pub struct FromPathError { x: u8 }
#[verifier::external] impl core::fmt::Debug for FromPathError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body] pub struct RelStripError { x: u8 }
#[verifier::external] impl core::fmt::Debug for RelStripError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub open spec fn no_cur(s: Seq<Comp>) -> Seq<Comp> { if s.len() > 0 && s[0] == Comp::Cur { s.skip(1) } else { s } }
/// relative_traversal: `..` cancels the name before it and otherwise stays
pub open spec fn trav_step(acc: Seq<Comp>, c: Comp) -> Seq<Comp> {
    match c { Comp::Parent => if acc.len() == 0 || acc.last() == Comp::Parent { acc.push(c) } else { acc.drop_last() }, Comp::Name(_) => acc.push(c), _ => acc }
}
pub open spec fn trav_from(acc: Seq<Comp>, s: Seq<Comp>) -> Seq<Comp> decreases s.len() { if s.len() == 0 { acc } else { trav_from(trav_step(acc, s[0]), s.skip(1)) } }
pub open spec fn trav(s: Seq<Comp>) -> Seq<Comp> { trav_from(seq![], s) }
/// length of the longest common prefix
pub open spec fn lcp(a: Seq<Comp>, b: Seq<Comp>) -> int decreases a.len() { if a.len() == 0 || b.len() == 0 || a[0] != b[0] { 0 } else { 1 + lcp(a.skip(1), b.skip(1)) } }
pub open spec fn relative_(a: Seq<Comp>, b: Seq<Comp>) -> Seq<Comp> {
    let k = lcp(trav(a), trav(b));
    if k < trav(a).len() && trav(a)[k] == Comp::Parent { seq![] } else { ups((trav(a).len() - k) as nat) + trav(b).skip(k) }
}
pub uninterp spec fn rel_str(s: Seq<Comp>) -> Seq<char>;
impl RelativePath {
    pub uninterp spec fn view(&self) -> Seq<Comp>;
    #[verifier::external_body] pub fn from_path<P: AsRef<Path>>(p: P) -> (r: Result<RelativePath, FromPathError>)
        ensures r.is_ok() == (!is_abs(p.as_spec()@) && utf8_path(p.as_spec()@)), r.is_ok() ==> r.unwrap()@ == no_cur(p.as_spec()@) { unimplemented!() }
    #[verifier::external_body] pub fn relative(&self, p: RelativePath) -> (r: RelativePath) ensures r@ == relative_(self@, p@) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix(&self, p: &str) -> (r: Result<&RelativePath, RelStripError>)
        ensures p@ == ".."@ ==> r.is_ok() == (self@.len() > 0 && self@[0] == Comp::Parent) && (r.is_ok() ==> r.unwrap()@ == self@.skip(1)) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == rel_str(self@) { unimplemented!() }
}
/// the reference from one output file to another (relative to the directory of the first)
pub open spec fn link_comps(src: Seq<Comp>, target: Seq<Comp>) -> Seq<Comp> {
    let r = relative_(no_cur(rel(src)), no_cur(rel(target)));
    if r.len() > 0 && r[0] == Comp::Parent { r.skip(1) } else { r }
}
/// text of a path with the characters encoded that a uri path cannot hold (which ones: bounded run only)
pub uninterp spec fn uri_enc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct AsciiSet { x: u8 }
#[verifier::external_body] pub exec const URI_PATH: AsciiSet = AsciiSet { x: 0 };
#[verifier::external_body] pub struct PercentEncode { x: u8 }
impl PercentEncode { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn utf8_percent_encode(s: &str, set: AsciiSet) -> (r: PercentEncode) ensures r@ == uri_enc(s@) { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NaiveDate { x: i32 }
#[verifier::external_body] pub struct DelayedFormat { x: i32 }
pub uninterp spec fn date_str(d: NaiveDate, f: Seq<char>) -> Seq<char>;
impl NaiveDate { #[verifier::external_body] pub fn format(&self, f: &str) -> (r: DelayedFormat) ensures r@ == date_str(*self, f@) { unimplemented!() } }
impl DelayedFormat { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub proof fn lcp_props(a: Seq<Comp>, b: Seq<Comp>)
    ensures 0 <= lcp(a, b) <= a.len(), lcp(a, b) <= b.len(), a.take(lcp(a, b)) == b.take(lcp(a, b)), lcp(a, b) < a.len() && lcp(a, b) < b.len() ==> a[lcp(a, b)] != b[lcp(a, b)]
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { assert(a.take(0) =~= b.take(0)); }
    else {
        lcp_props(a.skip(1), b.skip(1));
        let k = lcp(a.skip(1), b.skip(1));
        assert(a.take(k + 1) =~= seq![a[0]] + a.skip(1).take(k));
        assert(b.take(k + 1) =~= seq![b[0]] + b.skip(1).take(k));
    }
}
pub open spec fn names_only(s: Seq<Comp>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Name }
pub proof fn trav_names(acc: Seq<Comp>, s: Seq<Comp>) requires names_only(s) ensures trav_from(acc, s) == acc + s decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] is Name);
        assert(names_only(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) is Name by { assert(s.skip(1)[i] == s[i + 1]); } }
        trav_names(acc.push(s[0]), s.skip(1));
        assert(acc.push(s[0]) + s.skip(1) =~= acc + s);
    } else { assert(acc + s =~= acc); }
}
pub proof fn norm_app(acc: Seq<Comp>, s: Seq<Comp>, t: Seq<Comp>) ensures norm_from(acc, s + t) == norm_from(norm_from(acc, s), t) decreases s.len()
{
    if s.len() > 0 { assert((s + t).skip(1) =~= s.skip(1) + t); norm_app(norm_step(acc, s[0]), s.skip(1), t); } else { assert(s + t =~= t); }
}
/// a path below the root without `.`: climbs above the root, then names
pub open spec fn climb(m: nat, c: Seq<Comp>, s: Seq<Comp>) -> (nat, Seq<Comp>) decreases s.len() {
    if s.len() == 0 { (m, c) } else { match s[0] { Comp::Parent => if c.len() == 0 { climb(m + 1, c, s.skip(1)) } else { climb(m, c.drop_last(), s.skip(1)) }, x => climb(m, c.push(x), s.skip(1)) } }
}
pub open spec fn steps(s: Seq<Comp>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Name || s[i] == Comp::Parent }
pub proof fn climb_is(m: nat, c: Seq<Comp>, s: Seq<Comp>)
    requires names_only(c), steps(s)
    ensures ({ let r = climb(m, c, s); names_only(r.1) && trav_from(ups(m) + c, s) == ups(r.0) + r.1 && norm_from(seq![Comp::Root] + c, s) == seq![Comp::Root] + r.1 })
    decreases s.len()
{
    let root = seq![Comp::Root];
    if s.len() > 0 {
        assert(steps(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) is Name || s.skip(1)[i] == Comp::Parent by { assert(s.skip(1)[i] == s[i + 1]); } }
        let acc = ups(m) + c;
        assert(s[0] is Name || s[0] == Comp::Parent);
        if s[0] is Name {
            assert(acc.push(s[0]) =~= ups(m) + c.push(s[0]));
            assert((root + c).push(s[0]) =~= root + c.push(s[0]));
            climb_is(m, c.push(s[0]), s.skip(1));
        } else if c.len() == 0 {
            assert(acc =~= ups(m));
            if m > 0 { assert(acc.last() == Comp::Parent); }
            assert(acc.push(Comp::Parent) =~= ups(m + 1) + c);
            assert(trav_step(acc, s[0]) == ups(m + 1) + c);
            assert(popped(root + c) =~= root + c) by { assert((root + c).last() == Comp::Root); }
            assert(norm_step(root + c, s[0]) == root + c);
            climb_is(m + 1, c, s.skip(1));
        } else {
            assert(c[c.len() - 1] is Name);
            assert(acc.last() == c.last()); assert((root + c).last() == c.last());
            assert(acc.drop_last() =~= ups(m) + c.drop_last());
            assert((root + c).drop_last() =~= root + c.drop_last());
            assert(trav_step(acc, s[0]) == ups(m) + c.drop_last());
            assert(norm_step(root + c, s[0]) == root + c.drop_last());
            climb_is(m, c.drop_last(), s.skip(1));
        }
    }
}
/// following the reference from the directory of src leads to where target leads
pub proof fn link_reaches(src: Seq<Comp>, target: Seq<Comp>)
    requires pwf(src), pwf(target), is_abs(src), is_abs(target), names_only(src.skip(1)), steps(target.skip(1)), !below(norm(target), src), src.len() > 1
    ensures norm(src.drop_last() + link_comps(src, target)) == norm(target)
{
    let root = seq![Comp::Root];
    let a = src.skip(1); let b0 = target.skip(1); let e = Seq::<Comp>::empty();
    if a.len() > 0 { assert(a[0] is Name); }
    if b0.len() > 0 { assert(b0[0] is Name || b0[0] == Comp::Parent); }
    trav_names(e, a); climb_is(0, e, b0);
    let (m, c) = climb(0, e, b0);
    assert(e + a =~= a); assert(ups(0) + e =~= e); assert(root + e =~= root);
    let b = ups(m) + c;
    assert(trav(b0) == b);
    assert(target =~= root + b0);
    norm_app(e, root, b0);
    assert(root.skip(1) =~= e); reveal_with_fuel(norm_from, 3);
    assert(norm_step(e, Comp::Root) =~= root);
    assert(norm_from(e, root) == root);
    assert(norm(target) == root + c);
    lcp_props(a, b);
    let k = lcp(a, b);
    if k == a.len() {
        assert(b.take(k) == a) by { assert(a.take(k) =~= a); }
        if m > 0 { assert(b.take(k)[0] == Comp::Parent); assert(false); }
        assert(b =~= c);
        let t = root + c;
        assert(t.subrange(0, src.len() as int) =~= src) by {
            assert forall|i: int| 0 <= i < src.len() implies t[i] == src[i] by { if i > 0 { assert(b[i - 1] == t[i]); assert(a[i - 1] == src[i]); assert(b.take(k)[i - 1] == a[i - 1]); } }
        }
        assert(false);
    }
    assert(a[k] is Name);
    if m > 0 && k > 0 { assert(b.take(k)[0] == Comp::Parent); assert(a.take(k)[0] == a[0]); assert(false); }
    let n = (a.len() - k) as nat;
    let r = ups(n) + b.skip(k);
    assert(relative_(a, b0) == r);
    assert(no_cur(rel(src)) =~= a);
    assert(no_cur(rel(target)) =~= b0);
    assert(r[0] == Comp::Parent);
    let l = link_comps(src, target);
    assert(l =~= ups((n - 1) as nat) + b.skip(k));
    // root, then the directories of src
    let d = src.drop_last();
    let dd = d.skip(1);
    assert(d =~= root + dd);
    assert(d + l =~= root + (dd + l));
    norm_app(e, root, dd + l);
    assert(dd =~= a.drop_last());
    assert(names_only(dd)) by { assert forall|i: int| 0 <= i < dd.len() implies (#[trigger] dd[i]) is Name by { assert(dd[i] == a[i]); } }
    assert(steps(dd + l)) by {
        assert forall|i: int| 0 <= i < (dd + l).len() implies (#[trigger] (dd + l)[i]) is Name || (dd + l)[i] == Comp::Parent by {
            if i < dd.len() { assert((dd + l)[i] == dd[i]); } else { let q = i - dd.len(); if q >= n - 1 { let z = q - (n - 1) + k; assert((dd + l)[i] == b[z]); if z >= m { assert(b[z] == c[z - m]); } } }
        }
    }
    climb_is(0, e, dd + l);
    climb_app(0, e, dd, l);
    climb_names(0, e, dd);
    assert(e + dd =~= dd);
    climb_app(0, dd, ups((n - 1) as nat), b.skip(k));
    climb_ups(0, dd, (n - 1) as nat);
    assert(dd.take(dd.len() - (n - 1)) =~= a.take(k));
    if m == 0 {
        assert(b =~= c);
        assert(names_only(b.skip(k))) by { assert forall|i: int| 0 <= i < b.skip(k).len() implies (#[trigger] b.skip(k)[i]) is Name by { assert(b.skip(k)[i] == c[i + k]); } }
        climb_names(0, a.take(k), b.skip(k));
        assert(a.take(k) + b.skip(k) =~= c);
    } else {
        assert(b.skip(k) =~= ups(m) + c);
        assert(a.take(k) =~= e);
        climb_app(0, e, ups(m), c);
        climb_over(0, m);
        climb_names(m, e, c);
        assert(e + c =~= c);
    }
}
pub proof fn climb_app(m: nat, c: Seq<Comp>, s: Seq<Comp>, t: Seq<Comp>) ensures climb(m, c, s + t) == climb(climb(m, c, s).0, climb(m, c, s).1, t) decreases s.len()
{
    if s.len() > 0 {
        assert((s + t).skip(1) =~= s.skip(1) + t);
        match s[0] { Comp::Parent => if c.len() == 0 { climb_app(m + 1, c, s.skip(1), t); } else { climb_app(m, c.drop_last(), s.skip(1), t); }, x => climb_app(m, c.push(x), s.skip(1), t) }
    } else { assert(s + t =~= t); }
}
pub proof fn climb_names(m: nat, c: Seq<Comp>, s: Seq<Comp>) requires names_only(s) ensures climb(m, c, s) == (m, c + s) decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] is Name);
        assert(names_only(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) is Name by { assert(s.skip(1)[i] == s[i + 1]); } }
        climb_names(m, c.push(s[0]), s.skip(1));
        assert(c.push(s[0]) + s.skip(1) =~= c + s);
    } else { assert(c + s =~= c); }
}
pub proof fn climb_ups(m: nat, c: Seq<Comp>, n: nat) requires n <= c.len() ensures climb(m, c, ups(n)) == (m, c.take(c.len() - n)) decreases n
{
    if n > 0 { assert(ups(n).skip(1) =~= ups((n - 1) as nat)); climb_ups(m, c.drop_last(), (n - 1) as nat); assert(c.drop_last().take(c.len() - n) =~= c.take(c.len() - n)); }
    else { assert(c.take(c.len() as int) =~= c); }
}
pub proof fn climb_over(m: nat, n: nat) ensures climb(m, Seq::empty(), ups(n)) == (m + n, Seq::<Comp>::empty()) decreases n
{
    if n > 0 { assert(ups(n).skip(1) =~= ups((n - 1) as nat)); climb_over(m + 1, (n - 1) as nat); }
}
