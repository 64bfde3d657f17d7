global size_of usize == 8;
use std::fmt;
use Cow::{Borrowed, Owned};
use vstd::std_specs::cmp::PartialEqSpecImpl;
// ---- the two relations --------------------------------------------------------------------------------------------
/// `same(a, b)`: every part of `a` equals that of `b`, regions included (one equation per type, from its declaration)
pub uninterp spec fn same<T>(a: T, b: T) -> bool;
/// what `==` returns
pub uninterp spec fn peq<T>(a: T, b: T) -> bool;
// ---- conversions ---------------------------------------------------------------------------------------------------
pub trait From__<T>: Sized {
    spec fn from_req(x: T) -> bool;
    spec fn from_ens(x: T, r: Self) -> bool;
    fn from__(x: T) -> (r: Self) requires Self::from_req(x) ensures Self::from_ens(x, r);
}
pub trait Into__<T>: Sized {
    spec fn into_req(self) -> bool;
    spec fn into_ens(self, r: T) -> bool;
    fn into__(self) -> (r: T) requires self.into_req() ensures self.into_ens(r);
}
impl<S, T: From__<S>> Into__<T> for S {
    open spec fn into_req(self) -> bool { T::from_req(self) }
    open spec fn into_ens(self, r: T) -> bool { T::from_ens(self, r) }
    fn into__(self) -> (r: T) { T::from__(self) }
}
// ---- Cow<str> -------------------------------------------------------------------------------------------------------
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub open spec fn text(c: Cow<str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> Cow<'a, str> {
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == text(self) { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == text(*self) { unimplemented!() }
}
impl<'a> From__<&'a str> for Cow<'a, str> {
    open spec fn from_req(x: &'a str) -> bool { true }
    open spec fn from_ens(x: &'a str, r: Self) -> bool { r == Cow::<'a, str>::Borrowed(x) }
    fn from__(x: &'a str) -> (r: Self) { Cow::Borrowed(x) }
}
impl<'a> From__<String> for Cow<'a, str> {
    open spec fn from_req(x: String) -> bool { true }
    open spec fn from_ens(x: String, r: Self) -> bool { r == Cow::<'a, str>::Owned(x) }
    fn from__(x: String) -> (r: Self) { Cow::Owned(x) }
}
impl<'a> PartialEqSpecImpl for Cow<'a, str> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Cow<'a, str>) -> bool { peq(*self, *o) } }
impl<'a> PartialEq for Cow<'a, str> { #[verifier::external_body] fn eq(&self, o: &Cow<'a, str>) -> (r: bool) { unimplemented!() } }
// ---- dates and references to resources ------------------------------------------------------------------------------
#[verifier::external_body] #[derive(Copy, Clone)] pub struct NaiveDate { x: u64 }
impl PartialEqSpecImpl for NaiveDate { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &NaiveDate) -> bool { *self == *o } }
impl PartialEq for NaiveDate { #[verifier::external_body] fn eq(&self, o: &NaiveDate) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Scheme<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Authority<'a> { x: &'a u8 }
#[verifier::external_body] pub struct UriPath<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Query<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Fragment<'a> { x: &'a u8 }
#[verifier::external_body] pub struct URIReferenceError { x: u8 }
impl fmt::Debug for URIReferenceError { #[verifier::external_body] fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
pub uninterp spec fn u_scheme<'a>(u: URIReference<'a>) -> Option<Scheme<'a>>;
pub uninterp spec fn u_auth<'a>(u: URIReference<'a>) -> Option<Authority<'a>>;
pub uninterp spec fn u_path<'a>(u: URIReference<'a>) -> UriPath<'a>;
pub uninterp spec fn u_query<'a>(u: URIReference<'a>) -> Option<Query<'a>>;
pub uninterp spec fn u_frag<'a>(u: URIReference<'a>) -> Option<Fragment<'a>>;
pub open spec fn has_parts(u: URIReference, s: Option<Scheme>, a: Option<Authority>, p: UriPath, q: Option<Query>, f: Option<Fragment>) -> bool {
    same(u_scheme(u), s) && same(u_auth(u), a) && same(u_path(u), p) && same(u_query(u), q) && same(u_frag(u), f)
}
impl<'a> Scheme<'a> { #[verifier::external_body] pub fn as_borrowed(&self) -> (r: Scheme) ensures same(*self, r) { unimplemented!() } }
impl<'a> Authority<'a> { #[verifier::external_body] pub fn as_borrowed(&self) -> (r: Authority) ensures same(*self, r) { unimplemented!() } }
impl<'a> UriPath<'a> { #[verifier::external_body] pub fn to_borrowed(&self) -> (r: UriPath) ensures same(*self, r) { unimplemented!() } }
impl<'a> Query<'a> { #[verifier::external_body] pub fn as_borrowed(&self) -> (r: Query) ensures same(*self, r) { unimplemented!() } }
impl<'a> Fragment<'a> { #[verifier::external_body] pub fn as_borrowed(&self) -> (r: Fragment) ensures same(*self, r) { unimplemented!() } }
impl<'a> URIReference<'a> {
    #[verifier::external_body] pub fn scheme(&self) -> (r: Option<&Scheme<'a>>) ensures r is Some == u_scheme(*self) is Some, r is Some ==> *r->0 == u_scheme(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self) -> (r: Option<&Authority<'a>>) ensures r is Some == u_auth(*self) is Some, r is Some ==> *r->0 == u_auth(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &UriPath<'a>) ensures *r == u_path(*self) { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&Query<'a>>) ensures r is Some == u_query(*self) is Some, r is Some ==> *r->0 == u_query(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn fragment(&self) -> (r: Option<&Fragment<'a>>) ensures r is Some == u_frag(*self) is Some, r is Some ==> *r->0 == u_frag(*self)->0 { unimplemented!() }
    /// parts equal to those of a reference make a reference
    #[verifier::external_body] pub fn from_parts(s: Option<Scheme<'a>>, a: Option<Authority<'a>>, p: UriPath<'a>, q: Option<Query<'a>>, f: Option<Fragment<'a>>) -> (r: Result<URIReference<'a>, URIReferenceError>)
        ensures forall|u: URIReference<'a>| #[trigger] same(u_path(u), p) && has_parts(u, s, a, p, q, f) ==> r is Ok && same(u, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: URIReference<'static>) ensures same(self, r) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl for URIReference<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &URIReference<'a>) -> bool { peq(*self, *o) } }
impl<'a> PartialEq for URIReference<'a> { #[verifier::external_body] fn eq(&self, o: &URIReference<'a>) -> (r: bool) { unimplemented!() } }
// ---- sequences: eager re-implementations of the std adapters ----------------------------------------------------------
pub struct Vec<T> { pub v: std::vec::Vec<T> }
impl<T> Vec<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Vec<T>) ensures r@.len() == 0 { Vec { v: std::vec::Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn as_slice(&self) -> (r: &Vec<T>) ensures r@ == self@ { self }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { if i < self.v.len() { Some(&self.v[i]) } else { None } }
    pub fn iter(&self) -> (r: VIt<&T>) ensures refs(self@, r@) { self.into_iter() }
}
pub fn into_vec__<T>(v: std::vec::Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { Vec { v } }
#[verifier::opaque]
pub open spec fn refs<T>(s: Seq<T>, r: Seq<&T>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i] }
pub struct VIt<T> { pub v: std::vec::Vec<T> }
pub trait IntoIterator: Sized {
    type Item;
    spec fn gives(self, s: Seq<Self::Item>) -> bool;
    fn into_iter(self) -> (r: VIt<Self::Item>) ensures self.gives(r@);
}
impl<T> IntoIterator for Vec<T> { type Item = T;
    open spec fn gives(self, s: Seq<T>) -> bool { s == self@ }
    fn into_iter(self) -> (r: VIt<T>) { VIt { v: self.v } } }
impl<T> IntoIterator for VIt<T> { type Item = T;
    open spec fn gives(self, s: Seq<T>) -> bool { s == self@ }
    fn into_iter(self) -> (r: VIt<T>) { self } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T;
    open spec fn gives(self, s: Seq<&'a T>) -> bool { refs(self@, s) }
    fn into_iter(self) -> (r: VIt<&'a T>) {
        let mut out: std::vec::Vec<&'a T> = std::vec::Vec::new();
        let mut i = 0;
        while i < self.v.len() invariant 0 <= i <= self.v.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == self@[j] decreases self.v.len() - i { out.push(&self.v[i]); i += 1; }
        proof { reveal(refs); }
        VIt { v: out }
    } }
pub trait FromIterator<A>: Sized {
    spec fn built(s: Seq<A>, r: Self) -> bool;
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> (r: Self) ensures exists|s: Seq<A>| #[trigger] iter.gives(s) && Self::built(s, r);
}
impl<T> FromIterator<T> for Vec<T> {
    open spec fn built(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Self) { let it = iter.into_iter(); let r = Vec { v: it.v }; assert(Self::built(r@, r)); r }
}
pub open spec fn flat<T, U>(s: Seq<T>, g: spec_fn(T) -> Seq<U>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), g) + g(s.last()) } }
/// the function returns what `g` says
pub open spec fn does<T, J: IntoIterator, F: Fn(T) -> J>(f: F, s: Seq<T>, g: spec_fn(T) -> Seq<J::Item>) -> bool { forall|i: int, j: J, t: Seq<J::Item>| 0 <= i < s.len() && f.ensures((s[i],), j) && #[trigger] j.gives(t) ==> t == g(#[trigger] s[i]) }
impl<T> VIt<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIt<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i])
    {
        let mut it = self; let ghost s = self@;
        let mut out: std::vec::Vec<U> = std::vec::Vec::new();
        proof { assert(s.skip(0) =~= s); }
        while it.v.len() > 0
            invariant it@.len() + out@.len() == s.len(), it@ == s.skip(out@.len() as int), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int| 0 <= i < out@.len() ==> f.ensures((s[i],), #[trigger] out@[i])
            decreases it@.len()
        { let ghost o = it@; let x = it.v.remove(0); proof { assert(it@ =~= s.skip(out@.len() as int + 1)); assert(x == s[out@.len() as int]); } out.push(f(x)); }
        VIt { v: out }
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false)
    {
        let mut it = self; let ghost s = self@; let ghost mut n: int = 0;
        proof { assert(s.skip(0) =~= s); }
        while it.v.len() > 0
            invariant 0 <= n <= s.len(), it@ == s.skip(n), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] s[i],), true), s == self@
            decreases it@.len()
        { let x = it.v.remove(0); proof { assert(it@ =~= s.skip(n + 1)); assert(x == s[n]); } if !f(x) { assert(f.ensures((self@[n],), false)); return false; } proof { n = n + 1; } }
        true
    }
    pub fn zip<U, J: IntoIterator<Item = U>>(self, o: J) -> (r: VIt<(T, U)>)
        ensures exists|t: Seq<U>| o.gives(t) && #[trigger] zipped(self@, t, r@)
    {
        let mut a = self; let mut b = o.into_iter(); let ghost s = self@; let ghost t = b@;
        let mut out: std::vec::Vec<(T, U)> = std::vec::Vec::new();
        proof { assert(s.skip(0) =~= s); assert(t.skip(0) =~= t); }
        while a.v.len() > 0 && b.v.len() > 0
            invariant out@.len() <= s.len(), out@.len() <= t.len(), s == self@, o.gives(t), a@ == s.skip(out@.len() as int), b@ == t.skip(out@.len() as int), forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (s[i], t[i])
            decreases a@.len()
        { let x = a.v.remove(0); let y = b.v.remove(0); proof { assert(a@ =~= s.skip(out@.len() as int + 1)); assert(b@ =~= t.skip(out@.len() as int + 1)); } out.push((x, y)); }
        let r = VIt { v: out };
        proof { assert(o.gives(t)); assert(s == self@); assert(zipped(self@, t, r@)); }
        r
    }
    pub fn flat_map<J: IntoIterator, F: Fn(T) -> J>(self, f: F) -> (r: VIt<J::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures forall|g: spec_fn(T) -> Seq<J::Item>| does::<T, J, F>(f, self@, g) ==> r@ == #[trigger] flat(self@, g)
    {
        let mut it = self; let ghost s = self@; let ghost mut n: int = 0;
        let mut out: std::vec::Vec<J::Item> = std::vec::Vec::new();
        proof { assert(s.skip(0) =~= s); assert(s.take(0) =~= Seq::empty()); }
        while it.v.len() > 0
            invariant 0 <= n <= s.len(), it@ == s.skip(n), s == self@, forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|g: spec_fn(T) -> Seq<J::Item>| does::<T, J, F>(f, s, g) ==> out@ == #[trigger] flat(s.take(n), g)
            decreases it@.len()
        {
            let x = it.v.remove(0);
            let j = f(x);
            let mut k = j.into_iter();
            let ghost o = out@;
            proof { assert(it@ =~= s.skip(n + 1)); assert(x == s[n]); assert(s.take(n + 1).drop_last() =~= s.take(n)); }
            let ghost t = k@;
            out.append(&mut k.v);
            proof {
                assert forall|g: spec_fn(T) -> Seq<J::Item>| does::<T, J, F>(f, s, g) implies out@ == #[trigger] flat(s.take(n + 1), g) by { assert(j.gives(t)); assert(t == g(s[n])); assert(out@ == flat(s.take(n), g) + g(s[n])); }
                n = n + 1;
            }
        }
        proof { assert(s.take(n) =~= s); }
        VIt { v: out }
    }
    pub fn chain<J: IntoIterator<Item = T>>(self, o: J) -> (r: VIt<T>) ensures exists|t: Seq<T>| o.gives(t) && r@ == #[trigger] (self@ + t)
    { let mut a = self; let mut b = o.into_iter(); let ghost t = b@; let ghost s = a@; a.v.append(&mut b.v); proof { assert(a@ == s + t); } a }
    pub fn collect<C: FromIterator<T>>(self) -> (r: C) ensures C::built(self@, r) { C::from_iter(self) }
}
pub open spec fn zipped<T, U>(s: Seq<T>, t: Seq<U>, r: Seq<(T, U)>) -> bool { r.len() == (if s.len() <= t.len() { s.len() } else { t.len() }) && forall|i: int| #![trigger r[i]] #![trigger s[i]] #![trigger t[i]] 0 <= i < r.len() ==> r[i] == (s[i], t[i]) }
pub fn once__<T>(x: T) -> (r: VIt<T>) ensures r@ == seq![x] { let mut v = std::vec::Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } VIt { v } }
// ---- std HashMap (assumed contract) -----------------------------------------------------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: std::vec::Vec<(K, V)> }
/// the entries in an order iteration may give
pub uninterp spec fn listed<K, V>(m: HashMap<K, V>, s: Seq<(K, V)>) -> bool;
pub uninterp spec fn look<K, V>(m: HashMap<K, V>, k: K) -> Option<V>;
pub uninterp spec fn size<K, V>(m: HashMap<K, V>) -> nat;
pub uninterp spec fn made<K, V>(s: Seq<(K, V)>, m: HashMap<K, V>) -> bool;
#[verifier::opaque]
pub open spec fn prefs<K, V>(s: Seq<(K, V)>, r: Seq<(&K, &V)>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i].0 == s[i].0 && *r[i].1 == s[i].1 }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: HashMap<K, V>) ensures size(r) == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == size(*self) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: VIt<(&K, &V)>) ensures exists|s: Seq<(K, V)>| listed(*self, s) && #[trigger] prefs(s, r@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => look(*self, *k) == Some(*v), None => look(*self, *k) is None } { unimplemented!() }
}
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V);
    open spec fn gives(self, s: Seq<(K, V)>) -> bool { listed(self, s) }
    #[verifier::external_body] fn into_iter(self) -> (r: VIt<(K, V)>) { unimplemented!() } }
impl<K, V> FromIterator<(K, V)> for HashMap<K, V> {
    open spec fn built(s: Seq<(K, V)>, r: Self) -> bool { made(s, r) }
    #[verifier::external_body] fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> (r: Self) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn allsame<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> same(s[i], t[i]) }
#[verifier::opaque]
pub open spec fn allpeq<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> peq(s[i], t[i]) }
pub mod cax {
    use super::*;
    verus! {
    pub broadcast axiom fn s_ref<'a, T>(x: &'a T, y: &'a T) ensures #[trigger] same::<&T>(x, y) == same::<T>(*x, *y);
    pub broadcast axiom fn s_box<T>(x: Box<T>, y: Box<T>) ensures #[trigger] same::<Box<T>>(x, y) == same::<T>(*x, *y);
    pub broadcast axiom fn p_box<T>(x: Box<T>, y: Box<T>) ensures #[trigger] peq::<Box<T>>(x, y) == peq::<T>(*x, *y);
    pub broadcast axiom fn s_vec<T>(x: Vec<T>, y: Vec<T>) ensures #[trigger] same::<Vec<T>>(x, y) == allsame(x@, y@);
    pub broadcast axiom fn p_vec<T>(x: Vec<T>, y: Vec<T>) ensures #[trigger] peq::<Vec<T>>(x, y) == allpeq(x@, y@);
    pub broadcast axiom fn s_opt<T>(x: Option<T>, y: Option<T>) ensures #[trigger] same::<Option<T>>(x, y) == (match (x, y) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false });
    pub broadcast axiom fn p_opt<T>(x: Option<T>, y: Option<T>) ensures #[trigger] peq::<Option<T>>(x, y) == (match (x, y) { (Some(a), Some(b)) => peq(a, b), (None, None) => true, _ => false });
    pub broadcast axiom fn s_cow(x: Cow<str>, y: Cow<str>) ensures #[trigger] same(x, y) == (text(x) == text(y));
    pub broadcast axiom fn p_cow(x: Cow<str>, y: Cow<str>) ensures #[trigger] peq(x, y) == (text(x) == text(y));
    pub broadcast axiom fn s_usize(x: usize, y: usize) ensures #[trigger] same(x, y) == (x == y);
    pub broadcast axiom fn s_u32(x: u32, y: u32) ensures #[trigger] same(x, y) == (x == y);
    pub broadcast axiom fn s_bool(x: bool, y: bool) ensures #[trigger] same(x, y) == (x == y);
    pub broadcast axiom fn s_date(x: NaiveDate, y: NaiveDate) ensures #[trigger] same(x, y) == (x == y);
    pub broadcast axiom fn p_usize(x: usize, y: usize) ensures #[trigger] peq(x, y) == (x == y);
    pub broadcast axiom fn p_u32(x: u32, y: u32) ensures #[trigger] peq(x, y) == (x == y);
    pub broadcast axiom fn p_bool(x: bool, y: bool) ensures #[trigger] peq(x, y) == (x == y);
    pub broadcast axiom fn p_date(x: NaiveDate, y: NaiveDate) ensures #[trigger] peq(x, y) == (x == y);
    pub broadcast axiom fn p_uri(x: URIReference, y: URIReference) ensures #[trigger] peq(x, y) == same(x, y);
    pub broadcast axiom fn p_map(x: HashMap<Cow<str>, Cow<str>>, y: HashMap<Cow<str>, Cow<str>>) ensures #[trigger] peq(x, y) == same(x, y);
    pub broadcast axiom fn s_pair<A, B>(x: (A, B), y: (A, B)) ensures #[trigger] same::<(A, B)>(x, y) == (same(x.0, y.0) && same(x.1, y.1));
    /// entry by entry the same
    pub broadcast axiom fn s_made<K, V>(m0: HashMap<K, V>, s0: Seq<(K, V)>, s: Seq<(K, V)>, m: HashMap<K, V>) requires #[trigger] listed(m0, s0), #[trigger] made(s, m), allsame(s0, s) ensures same(m0, m);
    pub broadcast axiom fn s_size<K, V>(m0: HashMap<K, V>, m: HashMap<K, V>) requires #[trigger] same(m0, m) ensures size(m0) == size(m);
    /// equal in size, and every entry has a counterpart under its key
    pub broadcast axiom fn s_look<K, V>(m0: HashMap<K, V>, s0: Seq<(K, V)>, m: HashMap<K, V>) requires #[trigger] listed(m0, s0) ensures #[trigger] same(m0, m) == (size(m0) == size(m) && forall|i: int| 0 <= i < s0.len() ==> look(m, (#[trigger] s0[i]).0) is Some && same(s0[i].1, look(m, s0[i].0)->0));
    }
}
pub assume_specification<T, U, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    where U: std::marker::Destruct
    requires o.is_some() ==> f.requires((o.unwrap(),))
    ensures o.is_none() ==> r == d, o.is_some() ==> f.ensures((o.unwrap(),), r);
