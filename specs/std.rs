global size_of usize == 8;
// ---- String, str, formatting (assumed contracts of std) ----------------
mod stdax {
    use vstd::prelude::*;
    use vstd::std_specs::iter::*;
    verus! {
    pub broadcast axiom fn ax_string_from_iter(s: Seq<char>, r: String) ensures #[trigger] <String as FromIteratorSpec<char>>::from_iter_ensures(s, r) ==> r@ == s;
    pub broadcast proof fn rev_push<A>(s: Seq<A>, c: A) ensures #[trigger] s.push(c).reverse() == seq![c] + s.reverse() { assert(s.push(c).reverse() =~= seq![c] + s.reverse()); }
    pub broadcast proof fn rev_rev<A>(s: Seq<A>) ensures #[trigger] s.reverse().reverse() == s { assert(s.reverse().reverse() =~= s); }
    pub broadcast proof fn rev_empty<A>(s: Seq<A>) ensures s.len() == 0 ==> #[trigger] s.reverse() == s { if s.len() == 0 { assert(s.reverse() =~= s); } }
    pub broadcast proof fn add_empty_l<A>(s: Seq<A>, t: Seq<A>) ensures s.len() == 0 ==> #[trigger] (s + t) == t { if s.len() == 0 { assert(s + t =~= t); } }
    }
}
broadcast use {stdax::add_empty_l, stdax::ax_string_from_iter, stdax::rev_push, stdax::rev_empty};
pub trait From__<T>: Sized {
    spec fn from_ens(x: T, r: Self) -> bool;
    fn from__(x: T) -> (r: Self) ensures Self::from_ens(x, r);
}
impl<'a> From__<&'a str> for String {
    open spec fn from_ens(x: &'a str, r: Self) -> bool { r@ == x@ }
    #[verifier::external_body] fn from__(x: &'a str) -> (r: Self) { x.into() }
}
pub assume_specification [core::char::from_u32] (i: u32) -> (r: Option<char>)
    ensures (i < 0xD800 || 0xDFFF < i <= 0x10FFFF) ==> r == Some(i as char);
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { rep(s, (n - 1) as nat) + s } }
pub assume_specification [str::repeat] (s: &str, n: usize) -> (r: String)
    requires (s@.len() <= 1 && n <= 0x1fff_ffff_ffff_ffff) || s@.len() * 4 * n <= isize::MAX || vstd::utf8::encode_utf8(s@).len() * n <= isize::MAX
    ensures r@ == rep(s@, n as nat);
/// decimal digits of n
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as char] } else { dec(n / 10).push((48 + n % 10) as char) } }
pub trait Disp__ { spec fn disp(&self) -> Seq<char>; }
impl Disp__ for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Disp__ for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Disp__ for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl Disp__ for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp__ for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl<T: Disp__ + ?Sized> Disp__ for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
pub trait Hex__ { spec fn lhex(&self) -> Seq<char>; spec fn uhex(&self) -> Seq<char>; }
#[verifier::external_body] pub fn fmt_lit__(w: &mut String, s: &str) ensures final(w)@ == old(w)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn fmt_disp__<T: Disp__ + ?Sized>(w: &mut String, x: &T) ensures final(w)@ == old(w)@ + x.disp() { unimplemented!() }
#[verifier::external_body] pub fn fmt_lhex__<T: Hex__ + ?Sized>(w: &mut String, x: &T) ensures final(w)@ == old(w)@ + x.lhex() { unimplemented!() }
#[verifier::external_body] pub fn fmt_uhex__<T: Hex__ + ?Sized>(w: &mut String, x: &T) ensures final(w)@ == old(w)@ + x.uhex() { unimplemented!() }
pub proof fn lit_facts(p: &str) ensures p@.len() == 1 ==> p@ == seq![p@[0]], p@.len() == 2 ==> p@ == seq![p@[0], p@[1]] { if p@.len() == 1 { assert(p@ =~= seq![p@[0]]); } if p@.len() == 2 { assert(p@ =~= seq![p@[0], p@[1]]); } }
pub assume_specification<T, U, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    where U: std::marker::Destruct
    requires o.is_some() ==> f.requires((o.unwrap(),))
    ensures o.is_none() ==> r == d, o.is_some() ==> f.ensures((o.unwrap(),), r);
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
