use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl};
// ---- sequences and eager iterators (verified re-implementations of the adapters that are used) ----
impl<T> Vec<T> {
    pub fn new() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec { v: std::vec::Vec::new() } }
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn as_slice(&self) -> (r: &Vec<T>) ensures r == self { self }
    #[verifier::external_body] pub fn extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn iter_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    /// iter_mut().find(..): some element, of which the caller decides what it becomes
    #[verifier::external_body] pub fn find<F: Fn(&&mut T) -> bool>(&mut self, f: F) -> (r: Option<&mut T>)
        ensures match r { Some(x) => exists|i: int| 0 <= i < old(self)@.len() && *x == #[trigger] old(self)@[i] && final(self)@ == old(self)@.update(i, *final(x)), None => final(self)@ == old(self)@ } { unimplemented!() }
    pub fn into_iter(self) -> (r: VList<T>) ensures r@ == self@ { VList { v: self.v } }
}
/// vec![..] of the standard library
pub fn into_vec__<T>(v: std::vec::Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { Vec { v } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn enumd<'a, T>(s: Seq<T>) -> Seq<(usize, &'a T)> { Seq::new(s.len(), |i: int| (i as usize, &s[i])) }
pub open spec fn all_in<'a, U>(vs: Seq<&'a Vec<U>>, t: Seq<&'a U>) -> bool { forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs[i]@.len() ==> t.contains(&#[trigger] vs[i]@[j]) }
impl<'a, T> VIter<'a, T> {
    pub fn any<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires self.i == 0, forall|x: &'a T| #[trigger] f.requires((x,))
        ensures r ==> exists|k: int| 0 <= k < self.v@.len() && f.ensures((&#[trigger] self.v@[k],), true), !r ==> forall|k: int| 0 <= k < self.v@.len() ==> f.ensures((&#[trigger] self.v@[k],), false)
    {
        let mut i = 0;
        while i < self.v.v.len()
            invariant 0 <= i <= self.v@.len(), forall|x: &'a T| #[trigger] f.requires((x,)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] self.v@[k],), false)
            decreases self.v@.len() - i
        {
            if f(&self.v.v[i]) { assert(f.ensures((&self.v@[i as int],), true)); return true; }
            i = i + 1;
        }
        false
    }
    pub fn find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires self.i == 0, forall|x: &&'a T| #[trigger] f.requires((x,))
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self.v@.len() && *x == #[trigger] self.v@[k] && f.ensures((&x,), true) && forall|j: int| 0 <= j < k ==> f.ensures((&&#[trigger] self.v@[j],), false),
            None => forall|k: int| 0 <= k < self.v@.len() ==> f.ensures((&&#[trigger] self.v@[k],), false),
        }
    {
        let mut i = 0;
        while i < self.v.v.len()
            invariant 0 <= i <= self.v@.len(), forall|x: &&'a T| #[trigger] f.requires((x,)), forall|k: int| 0 <= k < i ==> f.ensures((&&#[trigger] self.v@[k],), false)
            decreases self.v@.len() - i
        {
            let x = &self.v.v[i];
            if f(&x) { assert(*x == self.v@[i as int]); return Some(x); }
            assert(f.ensures((&&self.v@[i as int],), false));
            i = i + 1;
        }
        None
    }
    pub fn find_map<B, F: Fn(&'a T) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires self.i == 0, forall|x: &'a T| #[trigger] f.requires((x,))
        ensures match r {
            Some(b) => exists|k: int| 0 <= k < self.v@.len() && f.ensures((&#[trigger] self.v@[k],), Some(b)) && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] self.v@[j],), None),
            None => forall|k: int| 0 <= k < self.v@.len() ==> f.ensures((&#[trigger] self.v@[k],), None),
        }
    {
        let mut i = 0;
        while i < self.v.v.len()
            invariant 0 <= i <= self.v@.len(), forall|x: &'a T| #[trigger] f.requires((x,)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] self.v@[k],), None)
            decreases self.v@.len() - i
        {
            let r = f(&self.v.v[i]);
            if r.is_some() { assert(f.ensures((&self.v@[i as int],), r)); return r; }
            i = i + 1;
        }
        None
    }
    /// every element of every sequence the closure gives is there
    #[verifier::external_body] pub fn flat_map<U, F: Fn(&'a T) -> &'a Vec<U>>(self, f: F) -> (r: VList<&'a U>)
        requires self.i == 0, forall|x: &'a T| #[trigger] f.requires((x,))
        ensures exists|vs: Seq<&'a Vec<U>>| vs.len() == self.v@.len() && #[trigger] all_in(vs, r@) && forall|i: int| #![trigger vs[i]] #![trigger self.v@[i]] 0 <= i < vs.len() ==> f.ensures((&self.v@[i],), vs[i])
    { unimplemented!() }
}
pub struct VList<T> { pub v: std::vec::Vec<T> }
impl<T> VList<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn next(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } {
        if self.v.len() == 0 { None } else { let ghost o = self@; let x = self.v.remove(0); proof { assert(self@ =~= o.skip(1)); } Some(x) }
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VList<T>)
        requires forall|x: &T| #[trigger] f.requires((x,))
        ensures forall|p: spec_fn(T) -> bool| decides(f, p) ==> r@ == #[trigger] self@.filter(p)
    {
        let ghost all = self@;
        let mut it = self;
        let mut out = std::vec::Vec::new();
        proof { assert(all.take(0) =~= Seq::<T>::empty()); assert(all.skip(0) =~= all); }
        let ghost mut n: int = 0;
        loop
            invariant all == self@, 0 <= n <= all.len(), it@ == all.skip(n), forall|x: &T| #[trigger] f.requires((x,)), forall|p: spec_fn(T) -> bool| decides(f, p) ==> out@ == #[trigger] all.take(n).filter(p)
            decreases all.len() - n
        {
            match it.next() {
                Some(x) => {
                    let ghost o0 = out@;
                    proof { assert(x == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); }
                    let keep = f(&x);
                    if keep { out.push(x); }
                    proof {
                        assert forall|p: spec_fn(T) -> bool| decides(f, p) implies out@ == #[trigger] all.take(n + 1).filter(p) by {
                            reveal(Seq::filter);
                            assert(all.take(n + 1).drop_last() =~= all.take(n));
                            assert(o0 == all.take(n).filter(p));
                            assert(keep == p(all[n]));
                        }
                        n = n + 1;
                    }
                }
                None => { proof { assert(all.skip(n).len() == 0); assert(all.take(n) =~= all); assert forall|p: spec_fn(T) -> bool| decides(f, p) implies out@ == #[trigger] all.filter(p) by { assert(out@ == all.take(n).filter(p)); } } return VList { v: out } }
            }
        }
    }
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VList<U>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures forall|g: spec_fn(T) -> Option<U>| sends(f, g) ==> r@ == somes(#[trigger] self@.map_values(g))
    {
        let ghost all = self@;
        let mut it = self;
        let mut out = std::vec::Vec::new();
        proof { assert(all.skip(0) =~= all); assert forall|g: spec_fn(T) -> Option<U>| somes(#[trigger] all.take(0).map_values(g)) == Seq::<U>::empty() by { } }
        let ghost mut n: int = 0;
        loop
            invariant all == self@, 0 <= n <= all.len(), it@ == all.skip(n), forall|x: T| #[trigger] f.requires((x,)), forall|g: spec_fn(T) -> Option<U>| sends(f, g) ==> out@ == somes(#[trigger] all.take(n).map_values(g))
            decreases all.len() - n
        {
            match it.next() {
                Some(x) => {
                    let ghost o0 = out@;
                    let ghost x0 = x;
                    proof { assert(x == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); }
                    let y = f(x);
                    let ghost y0 = y;
                    match y { Some(z) => out.push(z), None => {} }
                    proof {
                        assert forall|g: spec_fn(T) -> Option<U>| sends(f, g) implies out@ == somes(#[trigger] all.take(n + 1).map_values(g)) by {
                            let m = all.take(n + 1).map_values(g);
                            assert(m.drop_last() =~= all.take(n).map_values(g));
                            assert(m.last() == g(all[n]));
                            assert(y0 == g(all[n]));
                            assert(o0 == somes(all.take(n).map_values(g)));
                        }
                        n = n + 1;
                    }
                }
                None => { proof { assert(all.skip(n).len() == 0); assert(all.take(n) =~= all); assert forall|g: spec_fn(T) -> Option<U>| sends(f, g) implies out@ == somes(#[trigger] all.map_values(g)) by { assert(out@ == somes(all.take(n).map_values(g))); } } return VList { v: out } }
            }
        }
    }
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VList<U>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < self@.len() ==> f.ensures((self@[k],), r@[k])
    { unimplemented!() }
    #[verifier::external_body] pub fn collect<C: Coll__<T>>(self) -> (r: C) ensures r.made(self@) { unimplemented!() }
}
/// the closure decides p, or sends x to g(x)
pub open spec fn decides<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool { forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x) }
pub open spec fn sends<T, U, F: Fn(T) -> Option<U>>(f: F, g: spec_fn(T) -> Option<U>) -> bool { forall|x: T, r: Option<U>| #[trigger] f.ensures((x,), r) ==> r == g(x) }
pub trait Coll__<T> { spec fn made(&self, s: Seq<T>) -> bool; }
/// a set of texts (assumed contract of std)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct HashSet<T> { x: std::vec::Vec<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
}
impl<'a> Coll__<&'a str> for HashSet<&'a str> { open spec fn made(&self, s: Seq<&'a str>) -> bool { forall|t: Seq<char>| #[trigger] self@.contains(t) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t } }
impl Coll__<String> for HashSet<String> { open spec fn made(&self, s: Seq<String>) -> bool { forall|t: Seq<char>| #[trigger] self@.contains(t) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t } }
// ---- for loops ----
pub trait ForIter__: Sized { type It; spec fn can(&self) -> bool; spec fn gives(&self, r: Self::It) -> bool; fn it__(self) -> (r: Self::It) requires self.can() ensures self.gives(r); }
pub fn for_iter__<X: ForIter__>(x: X) -> (r: X::It) requires x.can() ensures x.gives(r) { x.it__() }
impl<T> ForIter__ for VList<T> { type It = VList<T>; open spec fn can(&self) -> bool { true } open spec fn gives(&self, r: VList<T>) -> bool { r@ == self@ } fn it__(self) -> (r: VList<T>) { self } }
impl<T> ForIter__ for Vec<T> { type It = VList<T>; open spec fn can(&self) -> bool { true } open spec fn gives(&self, r: VList<T>) -> bool { r@ == self@ } fn it__(self) -> (r: VList<T>) { VList { v: self.v } } }
impl<'a, T> ForIter__ for VIter<'a, T> { type It = VList<&'a T>; open spec fn can(&self) -> bool { self.i == 0 } open spec fn gives(&self, r: VList<&'a T>) -> bool { r@ == refs::<T>(self.v@) }
    fn it__(self) -> (r: VList<&'a T>) {
        let mut out: std::vec::Vec<&'a T> = std::vec::Vec::new();
        let mut i = 0;
        while i < self.v.v.len() invariant 0 <= i <= self.v@.len(), out@ == refs::<T>(self.v@).take(i as int) decreases self.v@.len() - i
        { out.push(&self.v.v[i]); proof { assert(refs::<T>(self.v@).take(i + 1) =~= refs::<T>(self.v@).take(i as int).push(&self.v@[i as int])); } i = i + 1; }
        proof { assert(refs::<T>(self.v@).take(i as int) =~= refs::<T>(self.v@)); }
        VList { v: out }
    }
}
impl<'a, T, F: Fn(&(usize, &'a T)) -> bool> ForIter__ for VFilter<'a, T, F> { type It = VList<(usize, &'a T)>;
    open spec fn can(&self) -> bool { self.i == 0 && forall|x: &(usize, &'a T)| #[trigger] self.f.requires((x,)) }
    open spec fn gives(&self, r: VList<(usize, &'a T)>) -> bool { self.v@.len() <= usize::MAX && forall|p: spec_fn((usize, &'a T)) -> bool| decides(self.f, p) ==> r@ == #[trigger] enumd::<T>(self.v@).filter(p) }
    fn it__(self) -> (r: VList<(usize, &'a T)>) {
        let mut out: std::vec::Vec<(usize, &'a T)> = std::vec::Vec::new();
        let mut i = 0;
        while i < self.v.v.len() invariant 0 <= i <= self.v@.len(), out@ == enumd::<T>(self.v@).take(i as int) decreases self.v@.len() - i
        { out.push((i, &self.v.v[i])); proof { assert(enumd::<T>(self.v@).take(i + 1) =~= enumd::<T>(self.v@).take(i as int).push((i as usize, &self.v@[i as int]))); } i = i + 1; }
        proof { assert(enumd::<T>(self.v@).take(i as int) =~= enumd::<T>(self.v@)); }
        assert(self.v@.len() == i);
        let l = VList { v: out };
        assert(l@ == enumd::<T>(self.v@));
        l.filter(self.f)
    }
}
pub trait Into<T>: Sized { spec fn into_v(self) -> T; fn into__(self) -> (r: T) ensures r == self.into_v(); }
impl<'a> Into<Option<&'a str>> for Option<&'a str> { open spec fn into_v(self) -> Option<&'a str> { self } fn into__(self) -> (r: Option<&'a str>) { self } }
pub open spec fn ref_text(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
mod cliax {
    use super::*;
    verus! {
    pub axiom fn ax_str_eq() ensures <String as PartialEqSpec<str>>::obeys_eq_spec(), <String as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn ax_str_eq1(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
    pub broadcast axiom fn ax_str_eq2(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    /// UTF-8: every text has one encoding, which is valid
    pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures utf8_name(#[trigger] str_bytes(s));
    pub broadcast axiom fn ax_utf8b(s: Seq<char>, t: Seq<char>) ensures #[trigger] str_bytes(s) == #[trigger] str_bytes(t) ==> s == t;
    /// where output goes by default is not empty (the home directory or the root)
    pub broadcast axiom fn ax_dflt(w: HtmlWikiConfig) ensures #[trigger] is_tmp(w) ==> w.path_html@.len() > 0;
    }
}
// ---- files (assumed contracts of std::fs, walkdir, serde_json, sha1): files do not change behind the tool's back ----
pub mod io { pub type Result<T> = core::result::Result<T, super::Error>; }
#[verifier::external_body] pub struct Error { x: u8 }
pub enum ErrorKind { NotFound, InvalidData }
impl Error { #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) { unimplemented!() } }
#[verifier::external_body] pub struct JsonError { x: u8 }
#[verifier::external_body] pub struct TomlError { x: u8 }
impl From__<JsonError> for Error { open spec fn from_ens(x: JsonError, r: Error) -> bool { true } #[verifier::external_body] fn from__(x: JsonError) -> (r: Error) { unimplemented!() } }
impl From<TomlError> for Error { #[verifier::external_body] fn from(x: TomlError) -> (r: Error) { unimplemented!() } }
pub uninterp spec fn file_text(p: Seq<Comp>) -> Seq<char>;
/// what the tool may do to files, and what it did; each effect needs leave beforehand
pub uninterp spec fn may_write(p: Seq<Comp>, t: Seq<char>) -> bool;
pub uninterp spec fn wrote(p: Seq<Comp>, t: Seq<char>) -> bool;
pub uninterp spec fn may_print(t: Seq<char>) -> bool;
pub uninterp spec fn printed(t: Seq<char>) -> bool;
pub uninterp spec fn may_remove(p: Seq<Comp>) -> bool;
pub uninterp spec fn may_create(p: Seq<Comp>) -> bool;
pub uninterp spec fn may_cache(p: Seq<Comp>, v: PageV) -> bool;
pub trait Text__ { spec fn text(&self) -> Seq<char>; }
impl Text__ for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Text__ for &'a str { open spec fn text(&self) -> Seq<char> { (**self)@ } }
#[verifier::external_body] pub fn read_to_string<P: AsRef<Path>>(p: P) -> (r: io::Result<String>) ensures match r { Ok(s) => s@ == file_text(p.as_spec()@), Err(_) => true } { unimplemented!() }
#[verifier::external_body] pub fn write<P: AsRef<Path>, T: Text__>(p: P, t: T) -> (r: io::Result<()>) requires may_write(p.as_spec()@, t.text()) ensures r is Ok ==> wrote(p.as_spec()@, t.text()) { unimplemented!() }
#[verifier::external_body] pub fn create_dir_all<P: AsRef<Path>>(p: P) -> (r: io::Result<()>) { unimplemented!() }
#[verifier::external_body] pub fn remove_file<P: AsRef<Path>>(p: P) -> (r: io::Result<()>) requires may_remove(p.as_spec()@) { unimplemented!() }
#[verifier::external_body] pub fn println__<T: Disp__ + ?Sized>(x: &T) requires may_print(x.disp()) ensures printed(x.disp()) { unimplemented!() }
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct BufReader<R> { x: std::vec::Vec<R> }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct BufWriter<R> { x: std::vec::Vec<R> }
impl File {
    pub uninterp spec fn at(&self) -> Seq<Comp>;
    #[verifier::external_body] pub fn open<P: AsRef<Path>>(p: P) -> (r: io::Result<File>) ensures match r { Ok(f) => f.at() == p.as_spec()@, Err(_) => true } { unimplemented!() }
    #[verifier::external_body] pub fn create<P: AsRef<Path>>(p: P) -> (r: io::Result<File>) requires may_create(p.as_spec()@) ensures match r { Ok(f) => f.at() == p.as_spec()@, Err(_) => true } { unimplemented!() }
}
impl BufReader<File> { pub uninterp spec fn at(&self) -> Seq<Comp>; #[verifier::external_body] pub fn new(f: File) -> (r: BufReader<File>) ensures r.at() == f.at() { unimplemented!() } }
impl BufWriter<File> { pub uninterp spec fn at(&self) -> Seq<Comp>; #[verifier::external_body] pub fn new(f: File) -> (r: BufWriter<File>) ensures r.at() == f.at() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() } }
/// the file decodes to this page
pub uninterp spec fn decodes(p: Seq<Comp>, v: PageV) -> bool;
#[verifier::external_body] pub fn from_reader(r: BufReader<File>) -> (ret: Result<Page<'static>, JsonError>) ensures match ret { Ok(p) => decodes(r.at(), p.v()), Err(_) => true } { unimplemented!() }
#[verifier::external_body] pub fn to_writer_pretty<'a>(w: &mut BufWriter<File>, p: &Page<'a>) -> (ret: Result<(), JsonError>) requires may_cache(old(w).at(), p.v()) { unimplemented!() }
/// hexadecimal checksum of a text
pub uninterp spec fn cksum(t: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct Digest { x: u8 }
impl Hex__ for Digest { uninterp spec fn lhex(&self) -> Seq<char>; uninterp spec fn uhex(&self) -> Seq<char>; }
pub struct Sha1 {}
impl Sha1 { #[verifier::external_body] pub fn digest(t: &[u8]) -> (r: Digest) ensures forall|s: Seq<char>| #[trigger] vstd::utf8::encode_utf8(s) == t@ ==> r.lhex() == cksum(s) { unimplemented!() } }
// ---- walking directories ----
#[verifier::external_body] pub struct DirEntry { x: u8 }
#[verifier::external_body] pub struct FileType { x: u8 }
impl FileType { pub uninterp spec fn file(&self) -> bool; #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == self.file() { unimplemented!() } }
impl DirEntry {
    pub uninterp spec fn at(&self) -> Seq<Comp>;
    pub uninterp spec fn file(&self) -> bool;
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r@ == self.at() { unimplemented!() }
    #[verifier::external_body] pub fn file_type(&self) -> (r: FileType) ensures r.file() == self.file() { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: &OsStr) ensures r@ == name_of(self.at()) { unimplemented!() }
}
pub uninterp spec fn name_of(p: Seq<Comp>) -> Seq<u8>;
pub uninterp spec fn listing(p: Seq<Comp>) -> Seq<Result<DirEntry, Error>>;
#[verifier::external_body] pub struct WalkDir { x: u8 }
impl WalkDir {
    pub uninterp spec fn at(&self) -> Seq<Comp>;
    #[verifier::external_body] pub fn new<P: AsRef<Path>>(p: P) -> (r: WalkDir) ensures r.at() == p.as_spec()@ { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: VList<Result<DirEntry, Error>>) ensures r@ == listing(self.at()) { unimplemented!() }
}
pub open spec fn ok_of() -> spec_fn(Result<DirEntry, Error>) -> Option<DirEntry> { |e: Result<DirEntry, Error>| match e { Ok(x) => Some(x), Err(_) => None } }
pub open spec fn ext_is(p: Seq<Comp>, x: Seq<char>) -> bool { p.len() > 0 && p.last() is Name && fext(p.last()->Name_0) == Some(str_bytes(x)) }
pub open spec fn page_pred(x: Seq<char>) -> spec_fn(DirEntry) -> bool { |e: DirEntry| e.file() && ext_is(e.at(), x) }
pub open spec fn file_pred() -> spec_fn(DirEntry) -> bool { |e: DirEntry| e.file() }
/// the pages below a directory (or the file itself): the regular files with the extension
pub open spec fn entries(d: Seq<Comp>, x: Seq<char>) -> Seq<DirEntry> { somes(listing(d).map_values(ok_of())).filter(page_pred(x)) }
pub open spec fn files(d: Seq<Comp>) -> Seq<DirEntry> { somes(listing(d).map_values(ok_of())).filter(file_pred()) }
// ---- pages ----
#[verifier::external_body] pub struct PageV { x: u8 }
#[verifier::external_body] pub struct Page<'a> { x: &'a u8 }
#[verifier::external_body] pub struct ParseError<'a> { x: &'a u8 }
impl<'a> ParseError<'a> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct HtmlOutputError { x: u8 }
impl HtmlOutputError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct VimwikiOutputError { x: u8 }
impl VimwikiOutputError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct VimwikiConfig { x: u8 }
impl Clone for VimwikiConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the page a text is parsed to (the other properties say what is in it), its HTML under a configuration, its vimwiki text
pub uninterp spec fn parsed(t: Seq<char>) -> PageV;
pub uninterp spec fn html_of(v: PageV, c: Cv) -> Seq<char>;
pub uninterp spec fn vimwiki_of(v: PageV, c: VimwikiConfig) -> Seq<char>;
impl<'a> Page<'a> {
    pub uninterp spec fn v(&self) -> PageV;
    #[verifier::external_body] pub fn into_owned(self) -> (r: Page<'static>) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_html_page(&self, c: HtmlConfig) -> (r: Result<String, HtmlOutputError>) ensures match r { Ok(s) => s@ == html_of(self.v(), cv(c)), Err(_) => true } { unimplemented!() }
    #[verifier::external_body] pub fn to_vimwiki_string(&self, c: VimwikiConfig) -> (r: Result<String, VimwikiOutputError>) ensures match r { Ok(s) => s@ == vimwiki_of(self.v(), c), Err(_) => true } { unimplemented!() }
}
#[verifier::external_body] pub struct Language<'a> { x: &'a u8 }
impl<'a> Language<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from_vimwiki_str(s: &'a str) -> (r: Language<'a>) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn parse<T>(&self) -> (r: Result<Page<'a>, ParseError<'a>>) ensures match r { Ok(p) => p.v() == parsed(self.text()), Err(_) => true } { unimplemented!() }
}
// ---- paths that the file system resolves ----
pub uninterp spec fn canon(p: Seq<Comp>) -> Seq<Comp>;
pub uninterp spec fn a_dir(p: Seq<Comp>) -> bool;
pub uninterp spec fn a_file(p: Seq<Comp>) -> bool;
impl Path {
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: io::Result<PathBuf>) ensures match r { Ok(p) => p@ == canon(self@), Err(_) => true } { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == a_dir(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == a_file(self@) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl<&'a Path> for PathBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Path) -> bool { self@ == o@ } }
impl<'a> PartialEq<&'a Path> for PathBuf { #[verifier::external_body] fn eq(&self, o: &&'a Path) -> bool { unimplemented!() } }
pub mod stderrlog { pub struct Timestamp {} }
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification<T, E, U, F> [std::result::Result::<T, E>::and_then] (x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    where F: std::ops::FnOnce(T,) -> std::result::Result<U, E> + std::marker::Destruct
    requires x is Ok ==> f.requires((x->Ok_0,))
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
impl core::ops::Deref for PathBuf { type Target = Path; fn deref(&self) -> (r: &Path) ensures r == &self.inner { &self.inner } }
/// what str::parse gives for a text
pub uninterp spec fn parsed_as<F: std::str::FromStr>(s: Seq<char>) -> Result<F, F::Err>;
pub assume_specification<F: std::str::FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>) ensures r == parsed_as::<F>(s@);
#[verifier::external_trait_specification] pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
