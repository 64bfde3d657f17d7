use std::borrow::Cow;
/// Vec and its iterator: a newtype with verified re-implementations of the adapters used on it
pub struct Vec<T> { pub v: std::vec::Vec<T> }
impl<T> Vec<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { if i < self.v.len() { Some(&self.v[i]) } else { None } }
    pub fn iter(&self) -> (r: VIter<'_, T>) ensures r.v == self, r.i == 0 { VIter { v: self, i: 0 } }
}
pub struct VIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VIter<'a, T> { pub fn enumerate(self) -> (r: VEnum<'a, T>) ensures r.v == self.v, r.i == self.i { VEnum { v: self.v, i: self.i } } }
pub struct VEnum<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VEnum<'a, T> {
    pub fn find_map<B, F: Fn((usize, &'a T)) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires self.i <= self.v@.len(), forall|x: (usize, &'a T)| #[trigger] f.requires((x,))
        ensures self.v@.len() <= usize::MAX, match r {
            Some(b) => exists|k: int| self.i <= k < self.v@.len() && f.ensures(((k as usize, &#[trigger] self.v@[k]),), Some(b)) && forall|j: int| self.i <= j < k ==> f.ensures(((j as usize, &#[trigger] self.v@[j]),), None),
            None => forall|j: int| self.i <= j < self.v@.len() ==> f.ensures(((j as usize, &#[trigger] self.v@[j]),), None),
        }
    {
        let mut i = self.i;
        while i < self.v.v.len()
            invariant self.i <= i <= self.v@.len(), forall|x: (usize, &'a T)| #[trigger] f.requires((x,)), forall|j: int| self.i <= j < i ==> f.ensures(((j as usize, &#[trigger] self.v@[j]),), None),
            decreases self.v@.len() - i,
        {
            let r = f((i, &self.v.v[i]));
            if r.is_some() { assert(f.ensures(((i as usize, &self.v@[i as int]),), r)); return r; }
            i = i + 1;
        }
        None
    }
    pub fn filter<F: Fn(&(usize, &'a T)) -> bool>(self, f: F) -> (r: VFilter<'a, T, F>) ensures r.v == self.v, r.i == self.i, r.f == f { VFilter { v: self.v, i: self.i, f } }
}
pub struct VFilter<'a, T, F> { pub v: &'a Vec<T>, pub i: usize, pub f: F }
impl<'a, T, F: Fn(&(usize, &'a T)) -> bool> VFilter<'a, T, F> {
    /// the last element of largest key
    pub fn max_by_key<G: Fn(&(usize, &'a T)) -> usize>(self, g: G) -> (r: Option<(usize, &'a T)>)
        requires self.i <= self.v@.len(), forall|x: &(usize, &'a T)| #[trigger] self.f.requires((x,)), forall|x: &(usize, &'a T)| #[trigger] g.requires((x,))
        ensures match r {
            Some(x) => self.i <= x.0 < self.v@.len() && *x.1 == self.v@[x.0 as int] && self.f.ensures((&x,), true)
                && exists|m: usize| #[trigger] g.ensures((&x,), m) && forall|j: int| self.i <= j < self.v@.len() ==> self.f.ensures((&(j as usize, &#[trigger] self.v@[j]),), false) || exists|n: usize| n <= m && #[trigger] g.ensures((&(j as usize, &self.v@[j]),), n),
            None => forall|j: int| self.i <= j < self.v@.len() ==> self.f.ensures((&(j as usize, &#[trigger] self.v@[j]),), false),
        }
    {
        let mut i = self.i;
        let mut best: Option<(usize, &'a T)> = None;
        let mut bk = 0usize;
        while i < self.v.v.len()
            invariant self.i <= i <= self.v@.len(), forall|x: &(usize, &'a T)| #[trigger] self.f.requires((x,)), forall|x: &(usize, &'a T)| #[trigger] g.requires((x,)),
                match best {
                    Some(x) => self.i <= x.0 < self.v@.len() && *x.1 == self.v@[x.0 as int] && self.f.ensures((&x,), true) && g.ensures((&x,), bk),
                    None => true,
                },
                forall|j: int| self.i <= j < i ==> self.f.ensures((&(j as usize, &#[trigger] self.v@[j]),), false) || (best.is_some() && exists|n: usize| n <= bk && #[trigger] g.ensures((&(j as usize, &self.v@[j]),), n)),
            decreases self.v@.len() - i,
        {
            let x = (i, &self.v.v[i]);
            assert(x == (i as usize, &self.v@[i as int]));
            if (self.f)(&x) {
                let k = g(&x);
                if best.is_none() || k >= bk { best = Some(x); bk = k; }
                assert(g.ensures((&(i as usize, &self.v@[i as int]),), k) && k <= bk);
            }
            i = i + 1;
        }
        best
    }
}
// ---- std::path on a Unix system (assumed contract): a path is the sequence of its components ----
pub enum Comp { Root, Cur, Parent, Name(Seq<u8>) }
/// component sequences of paths: the root and a leading `.` only come first
pub open spec fn pwf(s: Seq<Comp>) -> bool { forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]) != Comp::Root && s[i] != Comp::Cur }
pub open spec fn is_abs(s: Seq<Comp>) -> bool { s.len() > 0 && s[0] == Comp::Root }
/// without the root
pub open spec fn rel(s: Seq<Comp>) -> Seq<Comp> { if is_abs(s) { s.skip(1) } else { s } }
pub open spec fn joined(a: Seq<Comp>, b: Seq<Comp>) -> Seq<Comp> {
    if is_abs(b) || a.len() == 0 { b } else if b.len() > 0 && b[0] == Comp::Cur { a + b.skip(1) } else { a + b }
}
pub open spec fn popped(a: Seq<Comp>) -> Seq<Comp> { if a.len() == 0 || a.last() == Comp::Root { a } else { a.drop_last() } }
pub open spec fn below(s: Seq<Comp>, pre: Seq<Comp>) -> bool { pre.len() <= s.len() && s.subrange(0, pre.len() as int) == pre }
pub uninterp spec fn comp_of(name: Seq<u8>) -> Comp;
pub open spec fn last_dot(n: Seq<u8>, i: nat) -> int decreases i { if i == 0 || i > n.len() { -1 } else if n[i - 1] == 46 { i - 1 } else { last_dot(n, (i - 1) as nat) } }
pub open spec fn dot_pos(n: Seq<u8>) -> int { last_dot(n, n.len()) }
/// file name without extension (std::path::Path::file_stem)
pub open spec fn stem(n: Seq<u8>) -> Seq<u8> { if dot_pos(n) > 0 { n.subrange(0, dot_pos(n)) } else { n } }
pub open spec fn fext(n: Seq<u8>) -> Option<Seq<u8>> { if dot_pos(n) > 0 { Some(n.skip(dot_pos(n) + 1)) } else { None } }
pub open spec fn with_ext(s: Seq<Comp>, e: Seq<u8>) -> Seq<Comp> {
    if s.len() > 0 && s.last() is Name { s.drop_last().push(if e.len() == 0 { comp_of(stem(s.last()->Name_0)) } else { Comp::Name(stem(s.last()->Name_0) + seq![46u8] + e) }) } else { s }
}
pub open spec fn utf8_path(s: Seq<Comp>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Name ==> utf8_name(s[i]->Name_0) }
pub uninterp spec fn utf8_name(n: Seq<u8>) -> bool;
pub uninterp spec fn deref_of<T: std::ops::Deref>(x: &T) -> &T::Target;
pub assume_specification<T> [std::option::Option::<T>::as_deref] (o: &std::option::Option<T>) -> (r: std::option::Option<&<T as std::ops::Deref>::Target>)
    where T: std::ops::Deref
    ensures r == (match o { Some(x) => Some(deref_of(x)), None => None });
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
    where T: std::marker::Destruct, E: std::marker::Destruct
    ensures o == (match r { Ok(x) => x, Err(_) => d });
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn str_path(s: Seq<char>) -> Seq<Comp>;
pub uninterp spec fn lossy(n: Seq<u8>) -> Seq<char>;
mod pathax {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_str_path(s: Seq<char>) ensures pwf(#[trigger] str_path(s));
    pub broadcast axiom fn ax_path(p: &Path) ensures pwf(#[trigger] p@);
    pub broadcast axiom fn ax_pathbuf(p: PathBuf) ensures pwf(#[trigger] p@);
    pub broadcast axiom fn ax_cow_b<'a>(s: &'a str) ensures #[trigger] cow_str(Cow::Borrowed(s)) == s@;
    pub broadcast axiom fn ax_deref(s: &String) ensures #[trigger] deref_of::<String>(s)@ == s@;
    pub broadcast axiom fn ax_empty() ensures #[trigger] str_bytes(""@) == Seq::<u8>::empty();
    pub broadcast axiom fn ax_cow_ref(s: &Cow<str>) ensures (#[trigger] cow_ref(s))@ == cow_str(*s);
    pub broadcast axiom fn ax_html() ensures #[trigger] str_bytes("html"@) == seq![104u8, 116u8, 109u8, 108u8];
    }
}
#[verifier::external_body] pub struct OsStr { x: Vec<u8> }
impl OsStr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r.is_some() == utf8_name(self@), r.is_some() ==> str_bytes(r.unwrap()@) == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Cow<'_, str>) ensures cow_str(r) == lossy(self@) { unimplemented!() }
}
pub uninterp spec fn cow_str(x: Cow<str>) -> Seq<char>;
#[verifier::external_body] pub struct PrefixComponent<'a> { x: &'a str }
#[derive(Clone, Copy)]
pub enum Component<'a> { Prefix(&'a PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> Component<'a> {
    pub open spec fn v(self) -> Comp { match self { Component::Prefix(_) | Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(n) => Comp::Name(n@) } }
    #[verifier::external_body] pub fn as_os_str(self) -> (r: &'a OsStr) ensures !(self is Prefix) ==> os_path(r) == seq![self.v()] { unimplemented!() }
}
/// the path an OsStr stands for
pub uninterp spec fn os_path(s: &OsStr) -> Seq<Comp>;
#[verifier::external_body] pub struct Path { x: Vec<u8> }
pub struct PathBuf { pub inner: Path }
pub trait AsRef<T: ?Sized> {
    spec fn as_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_spec();
}
impl AsRef<Path> for Path { open spec fn as_spec(&self) -> &Path { self } fn as_ref(&self) -> (r: &Path) { self } }
impl AsRef<Path> for PathBuf { open spec fn as_spec(&self) -> &Path { &self.inner } fn as_ref(&self) -> (r: &Path) { &self.inner } }
impl<'x, T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &'x U { open spec fn as_spec(&self) -> &T { (**self).as_spec() } fn as_ref(&self) -> (r: &T) { (**self).as_ref() } }
pub uninterp spec fn os_as_path(s: &OsStr) -> &Path;
pub uninterp spec fn str_as_path(s: Seq<char>) -> &'static Path;
pub uninterp spec fn comp_as_path(c: Comp) -> &'static Path;
impl AsRef<Path> for OsStr { open spec fn as_spec(&self) -> &Path { os_as_path(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for str { open spec fn as_spec(&self) -> &Path { str_as_path(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for String { open spec fn as_spec(&self) -> &Path { str_as_path(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<str> for String { open spec fn as_spec(&self) -> &str { deref_of(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
pub uninterp spec fn cow_ref<'a>(x: &'a Cow<str>) -> &'a str;
impl<'x> AsRef<str> for Cow<'x, str> { open spec fn as_spec(&self) -> &str { cow_ref(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl AsRef<str> for str { open spec fn as_spec(&self) -> &str { self } fn as_ref(&self) -> (r: &str) { self } }
impl<'a> AsRef<Path> for Component<'a> { open spec fn as_spec(&self) -> &Path { comp_as_path(self.v()) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
mod pathax2 {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_os(s: &OsStr) ensures (#[trigger] os_as_path(s))@ == os_path(s);
    pub broadcast axiom fn ax_str(s: Seq<char>) ensures (#[trigger] str_as_path(s))@ == str_path(s);
    pub broadcast axiom fn ax_comp(c: Comp) ensures (#[trigger] comp_as_path(c))@ == seq![c];
    }
}
#[verifier::external_body] pub struct StripPrefixError { x: u8 }
#[verifier::external] impl core::fmt::Debug for StripPrefixError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl Path {
    pub uninterp spec fn view(&self) -> Seq<Comp>;
    #[verifier::external_body] pub fn new<'a, S: AsRef<Path>>(s: &'a S) -> (r: &'a Path) ensures r@ == s.as_spec()@ { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn join<P: AsRef<Path>>(&self, p: P) -> (r: PathBuf) ensures r@ == joined(self@, p.as_spec()@) { unimplemented!() }
    #[verifier::external_body] pub fn has_root(&self) -> (r: bool) ensures r == is_abs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == is_abs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: AsRef<Path>>(&self, p: P) -> (r: bool) ensures r == below(self@, p.as_spec()@) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix<'a, P: AsRef<Path>>(&'a self, p: P) -> (r: Result<&'a Path, StripPrefixError>)
        ensures r.is_ok() == below(self@, p.as_spec()@), r.is_ok() ==> r.unwrap()@ == self@.skip(p.as_spec()@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>)
        ensures r.is_some() == (self@.len() > 0 && self@.last() != Comp::Root), r.is_some() ==> r.unwrap()@ == self@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn with_extension(&self, e: &str) -> (r: PathBuf) requires no_sep(e@) ensures r@ == with_ext(self@, str_bytes(e@)) { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures r.is_some() == (self@.len() > 0 && self@.last() is Name && fext(self@.last()->Name_0).is_some()), r.is_some() ==> r.unwrap()@ == fext(self@.last()->Name_0).unwrap(),
            match r { Some(o) => no_sep_b(o@), None => true } { unimplemented!() }
    #[verifier::external_body] pub fn components(&self) -> (r: Components<'_>) ensures r@.len() == self@.len(), r.comps() == self@, r.plain() { unimplemented!() }
}
/// no path separator
pub uninterp spec fn no_sep(s: Seq<char>) -> bool;
pub open spec fn no_sep_b(s: Seq<u8>) -> bool { forall|t: Seq<char>| str_bytes(t) == s ==> #[trigger] no_sep(t) }
pub axiom fn no_sep_html() ensures no_sep("html"@), no_sep(""@);
impl PathBuf {
    pub open spec fn view(&self) -> Seq<Comp> { self.inner@ }
    #[verifier::external_body] pub fn new() -> (r: PathBuf) ensures r@ == Seq::<Comp>::empty() { unimplemented!() }
    pub fn as_path(&self) -> (r: &Path) ensures r == &self.inner { &self.inner }
    #[verifier::external_body] pub fn push<P: AsRef<Path>>(&mut self, p: P) ensures final(self)@ == joined(old(self)@, p.as_spec()@) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: bool) ensures final(self)@ == popped(old(self)@) { unimplemented!() }
    pub fn join<P: AsRef<Path>>(&self, p: P) -> (r: PathBuf) ensures r@ == joined(self@, p.as_spec()@) { self.inner.join(p) }
    pub fn has_root(&self) -> (r: bool) ensures r == is_abs(self@) { self.inner.has_root() }
    pub fn is_absolute(&self) -> (r: bool) ensures r == is_abs(self@) { self.inner.is_absolute() }
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { self.inner.to_path_buf() }
    pub fn starts_with<P: AsRef<Path>>(&self, p: P) -> (r: bool) ensures r == below(self@, p.as_spec()@) { self.inner.starts_with(p) }
    pub fn strip_prefix<'a, P: AsRef<Path>>(&'a self, p: P) -> (r: Result<&'a Path, StripPrefixError>)
        ensures r.is_ok() == below(self@, p.as_spec()@), r.is_ok() ==> r.unwrap()@ == self@.skip(p.as_spec()@.len() as int) { self.inner.strip_prefix(p) }
    pub fn with_extension(&self, e: &str) -> (r: PathBuf) requires no_sep(e@) ensures r@ == with_ext(self@, str_bytes(e@)) { self.inner.with_extension(e) }
    pub fn parent(&self) -> (r: Option<&Path>) ensures r.is_some() == (self@.len() > 0 && self@.last() != Comp::Root), r.is_some() ==> r.unwrap()@ == self@.drop_last() { self.inner.parent() }
    pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures r.is_some() == (self@.len() > 0 && self@.last() is Name && fext(self@.last()->Name_0).is_some()), r.is_some() ==> r.unwrap()@ == fext(self@.last()->Name_0).unwrap(), match r { Some(o) => no_sep_b(o@), None => true } { self.inner.extension() }
    pub fn components(&self) -> (r: Components<'_>) ensures r@.len() == self@.len(), r.comps() == self@, r.plain() { self.inner.components() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for PathBuf { #[verifier::external_body] fn default() -> (r: PathBuf) ensures r@ == Seq::<Comp>::empty() { unimplemented!() } }
impl<'a> From__<&'a OsStr> for PathBuf { open spec fn from_ens(x: &'a OsStr, r: Self) -> bool { r@ == os_path(x) } #[verifier::external_body] fn from__(x: &'a OsStr) -> (r: Self) { unimplemented!() } }
impl<'a> From__<&'a str> for PathBuf { open spec fn from_ens(x: &'a str, r: Self) -> bool { r@ == str_path(x@) } #[verifier::external_body] fn from__(x: &'a str) -> (r: Self) { unimplemented!() } }
impl From__<String> for PathBuf { open spec fn from_ens(x: String, r: Self) -> bool { r@ == str_path(x@) } #[verifier::external_body] fn from__(x: String) -> (r: Self) { unimplemented!() } }
/// remaining components
#[verifier::external_body] pub struct Components<'a> { x: &'a Path }
#[verifier::external_body] pub struct PeekComponents<'a> { x: &'a Path }
pub open spec fn comps_of<'a>(s: Seq<Component<'a>>) -> Seq<Comp> { s.map_values(|c: Component<'a>| c.v()) }
impl<'a> Components<'a> {
    pub uninterp spec fn view(&self) -> Seq<Component<'a>>;
    pub open spec fn comps(&self) -> Seq<Comp> { comps_of(self@) }
    /// no Windows prefix; every name is the path of its own
    pub open spec fn plain(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> !((#[trigger] self@[i]) is Prefix) && (self@[i] is Normal ==> os_path(self@[i]->Normal_0) == seq![self@[i].v()]) }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Component<'a>>) ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn peekable(self) -> (r: PeekComponents<'a>) ensures r@ == self@, self.plain() ==> r.plain() { unimplemented!() }
    pub fn filter<F: Fn(&Component<'a>) -> bool>(self, f: F) -> (r: FilterComps<'a, F>) ensures r.c == self, r.f == f { FilterComps { c: self, f } }
    pub fn filter_map<'b, F: Fn(Component<'a>) -> Option<Cow<'b, str>>>(self, f: F) -> (r: FilterMapComps<'a, F>) ensures r.c == self, r.f == f { FilterMapComps { c: self, f } }
}
impl<'a> PeekComponents<'a> {
    pub uninterp spec fn view(&self) -> Seq<Component<'a>>;
    pub open spec fn comps(&self) -> Seq<Comp> { comps_of(self@) }
    pub open spec fn plain(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> !((#[trigger] self@[i]) is Prefix) && (self@[i] is Normal ==> os_path(self@[i]->Normal_0) == seq![self@[i].v()]) }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Component<'a>>) ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&Component<'a>>) ensures final(self)@ == old(self)@, match r { Some(c) => old(self)@.len() > 0 && *c == old(self)@[0], None => old(self)@.len() == 0 } { unimplemented!() }
}
pub struct FilterComps<'a, F> { pub c: Components<'a>, pub f: F }
/// the elements of s whose flag is set
pub open spec fn kept(s: Seq<Comp>, k: Seq<bool>) -> Seq<Comp> decreases s.len() {
    if s.len() == 0 { seq![] } else if k.last() { kept(s.drop_last(), k.drop_last()).push(s.last()) } else { kept(s.drop_last(), k.drop_last()) }
}
impl<'a, F: Fn(&Component<'a>) -> bool> FilterComps<'a, F> {
    /// FromIterator for PathBuf pushes the kept components one by one
    #[verifier::external_body] pub fn collect(self) -> (r: PathBuf)
        requires forall|c: Component<'a>| #[trigger] self.f.requires((&c,))
        ensures exists|k: Seq<bool>| k.len() == self.c@.len() && r@ == #[trigger] kept(self.c.comps(), k) && forall|i: int| 0 <= i < k.len() ==> self.f.ensures((&self.c@[i],), #[trigger] k[i])
    { unimplemented!() }
}
pub proof fn kept_rel(s: Seq<Comp>, k: Seq<bool>)
    requires pwf(s), k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i] != Comp::Root)
    ensures kept(s, k) == rel(s)
    decreases s.len()
{
    if s.len() > 0 { kept_rel(s.drop_last(), k.drop_last()); assert(kept(s, k) =~= rel(s)); } else { assert(kept(s, k) =~= rel(s)); }
}
pub struct FilterMapComps<'a, F> { pub c: Components<'a>, pub f: F }
impl<'a, 'b, F: Fn(Component<'a>) -> Option<Cow<'b, str>>> FilterMapComps<'a, F> {
    #[verifier::external_body] pub fn collect<B>(self) -> (r: Vec<Cow<'b, str>>)
        requires forall|c: Component<'a>| #[trigger] self.f.requires((c,))
        ensures exists|o: Seq<Option<Cow<'b, str>>>| o.len() == self.c@.len() && r@ == #[trigger] somes(o) && forall|i: int| 0 <= i < o.len() ==> self.f.ensures((self.c@[i],), #[trigger] o[i])
    { unimplemented!() }
}
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}
pub open spec fn joined_strs(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { joined_strs(s.drop_last(), sep) + sep + s.last() }
}
pub open spec fn cow_strs(s: Seq<Cow<str>>) -> Seq<Seq<char>> { s.map_values(|c: Cow<str>| cow_str(c)) }
impl<'b> Vec<Cow<'b, str>> { #[verifier::external_body] pub fn join(&self, sep: &str) -> (r: String) ensures r@ == joined_strs(cow_strs(self@), sep@) { unimplemented!() } }
// ---- normal form of a path: no `.`, every `..` removed together with the component before it ----
pub open spec fn norm_step(acc: Seq<Comp>, c: Comp) -> Seq<Comp> {
    match c { Comp::Root => seq![Comp::Root], Comp::Cur => acc, Comp::Parent => popped(acc), Comp::Name(_) => acc.push(c) }
}
pub open spec fn norm_from(acc: Seq<Comp>, s: Seq<Comp>) -> Seq<Comp> decreases s.len() { if s.len() == 0 { acc } else { norm_from(norm_step(acc, s[0]), s.skip(1)) } }
pub open spec fn norm(s: Seq<Comp>) -> Seq<Comp> { norm_from(seq![], s) }
pub open spec fn normal(s: Seq<Comp>) -> bool { pwf(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != Comp::Cur && s[i] != Comp::Parent }
pub proof fn norm_from_normal(acc: Seq<Comp>, s: Seq<Comp>)
    requires normal(acc), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != Comp::Root
    ensures normal(norm_from(acc, s)), is_abs(norm_from(acc, s)) == is_abs(acc), norm_from(acc, s).len() <= acc.len() + s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let r = norm_step(acc, s[0]);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) != Comp::Cur && r[i] != Comp::Parent && (i > 0 ==> r[i] != Comp::Root) by { if i < acc.len() { assert(r[i] == acc[i]); } }
        if acc.len() > 0 && r.len() > 0 { assert(r[0] == acc[0]); }
        if is_abs(acc) && acc.len() == 1 { assert(acc.last() == Comp::Root); }
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) != Comp::Root by { assert(s.skip(1)[i] == s[i + 1]); }
        norm_from_normal(r, s.skip(1));
    }
}
/// the normal form has neither `.` nor `..`, keeps the root, and is never longer
pub proof fn norm_normal(s: Seq<Comp>)
    requires pwf(s)
    ensures normal(norm(s)), is_abs(norm(s)) == is_abs(s), norm(s).len() <= s.len()
{
    let e = Seq::<Comp>::empty();
    assert(norm(s) == norm_from(e, s));
    if is_abs(s) {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) != Comp::Root by { assert(s.skip(1)[i] == s[i + 1]); }
        assert(norm_step(e, s[0]) =~= seq![Comp::Root]);
        norm_from_normal(seq![Comp::Root], s.skip(1));
    } else {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != Comp::Root by { if i == 0 { assert(s[0] != Comp::Root); } }
        norm_from_normal(e, s);
    }
}
pub proof fn norm_from_id(acc: Seq<Comp>, s: Seq<Comp>)
    requires normal(s), is_abs(s) ==> acc.len() == 0
    ensures norm_from(acc, s) == acc + s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) != Comp::Root && t[i] != Comp::Cur && t[i] != Comp::Parent by { assert(t[i] == s[i + 1]); }
        norm_from_id(norm_step(acc, s[0]), t);
        assert(norm_step(acc, s[0]) =~= acc.push(s[0]));
        assert(acc.push(s[0]) + t =~= acc + s);
    } else { assert(acc + s =~= acc); }
}
/// normalizing twice changes nothing
pub proof fn norm_idem(s: Seq<Comp>) requires pwf(s) ensures norm(norm(s)) == norm(s) { norm_normal(s); norm_from_id(seq![], norm(s)); assert(Seq::<Comp>::empty() + norm(s) =~= norm(s)); }
/// text of a component in a uri
pub open spec fn uri_comp(c: Comp) -> Option<Seq<char>> { match c { Comp::Root => None, Comp::Cur => Some(seq!['.']), Comp::Parent => Some(seq!['.', '.']), Comp::Name(n) => Some(lossy(n)) } }
pub open spec fn uri_parts(s: Seq<Comp>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] } else { match uri_comp(s.last()) { Some(x) => uri_parts(s.drop_last()).push(x), None => uri_parts(s.drop_last()) } }
}
pub open spec fn uri_str(s: Seq<Comp>) -> Seq<char> { if is_abs(s) { seq!['/'] + joined_strs(uri_parts(s), seq!['/']) } else { joined_strs(uri_parts(s), seq!['/']) } }
pub open spec fn opt_str(o: Option<Cow<str>>) -> Option<Seq<char>> { match o { Some(c) => Some(cow_str(c)), None => None } }
pub proof fn parts_somes<'a>(s: Seq<Comp>, o: Seq<Option<Cow<'a, str>>>)
    requires s.len() == o.len(), forall|i: int| 0 <= i < s.len() ==> opt_str(#[trigger] o[i]) == uri_comp(s[i])
    ensures cow_strs(somes(o)) == uri_parts(s)
    decreases s.len()
{
    if s.len() > 0 {
        parts_somes(s.drop_last(), o.drop_last());
        assert(opt_str(o[s.len() - 1]) == uri_comp(s[s.len() - 1]));
        assert(cow_strs(somes(o)) =~= uri_parts(s));
    } else { assert(cow_strs(somes(o)) =~= uri_parts(s)); }
}

mod pathlem {
    use super::*;
    verus! {
    pub broadcast proof fn b_kept(s: Seq<Comp>, k: Seq<bool>)
        requires pwf(s), k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i] != Comp::Root)
        ensures #[trigger] kept(s, k) == rel(s)
    { kept_rel(s, k); }
    pub broadcast proof fn b_parts<'a>(s: Seq<Comp>, o: Seq<Option<Cow<'a, str>>>)
        requires s.len() == o.len(), forall|i: int| 0 <= i < s.len() ==> opt_str(#[trigger] o[i]) == uri_comp(s[i])
        ensures cow_strs(#[trigger] somes(o)) == #[trigger] uri_parts(s)
    { parts_somes(s, o); }
    pub broadcast proof fn b_comps<'a>(s: Seq<Component<'a>>)
        ensures s.len() > 0 ==> (#[trigger] comps_of(s))[0] == s[0].v() && comps_of(s).skip(1) == comps_of(s.skip(1)), comps_of(s).len() == s.len()
    { if s.len() > 0 { assert(comps_of(s).skip(1) =~= comps_of(s.skip(1))); } }
    pub broadcast proof fn b_ups(n: nat) ensures #[trigger] ups(n).push(Comp::Parent) == ups(n + 1) { assert(ups(n).push(Comp::Parent) =~= ups(n + 1)); }
    pub broadcast proof fn b_join1(a: Seq<Comp>, c: Comp) requires c != Comp::Root, c != Comp::Cur ensures #[trigger] joined(a, seq![c]) == a.push(c) { assert(joined(a, seq![c]) =~= a.push(c)); }
    pub broadcast proof fn b_join2(a: Seq<Comp>) ensures #[trigger] joined(a, seq![Comp::Root]) == seq![Comp::Root] { }
    /// what was joined to a path is below it
    pub broadcast proof fn b_below(a: Seq<Comp>, b: Seq<Comp>) requires !is_abs(b) 
        ensures below(#[trigger] joined(a, b), a), a.len() > 0 ==> joined(a, b).skip(a.len() as int) == (if b.len() > 0 && b[0] == Comp::Cur { b.skip(1) } else { b }), a.len() == 0 ==> joined(a, b).skip(0) == b
    { assert(joined(a, b).subrange(0, a.len() as int) =~= a); if a.len() > 0 { assert(joined(a, b).skip(a.len() as int) =~= (if b.len() > 0 && b[0] == Comp::Cur { b.skip(1) } else { b })); } else { assert(b.skip(0) =~= b); } }
    pub broadcast proof fn b_rel(s: Seq<Comp>) requires pwf(s) ensures !is_abs(#[trigger] rel(s)), pwf(rel(s)) {
        if is_abs(s) { assert forall|i: int| 0 <= i < rel(s).len() implies (#[trigger] rel(s)[i]) != Comp::Root && rel(s)[i] != Comp::Cur by { assert(rel(s)[i] == s[i + 1]); } }
    }
    }
}
/// `..` n times
pub open spec fn ups(n: nat) -> Seq<Comp> { Seq::new(n, |i: int| Comp::Parent) }
