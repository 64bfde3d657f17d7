@raw
#[verifier::external_body] pub struct NaiveDate { x: u8 }
pub struct ChronoErr {}
impl NaiveDate { #[verifier::external_body] pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDate, ChronoErr>) { unimplemented!() } }
/// the pairs of a map
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: K, v: V }
impl<K, V> HashMap<K, V> { pub uninterp spec fn view(&self) -> Set<(K, V)>; }
impl<K, V> core::iter::FromIterator<(K, V)> for HashMap<K, V> { #[verifier::external_body] fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> (r: Self) { unimplemented!() } }
pub type ParseIntError = std::num::ParseIntError;
pub type ParseError = ChronoErr;
#[verifier::external_body] pub struct Scheme<'a> { x: &'a u8 }
impl<'a> Scheme<'a> { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) { unimplemented!() } }
impl<'a> URIReference<'a> { 
    #[verifier::external_body] pub fn scheme(&self) -> (r: Option<&Scheme<'a>>) { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: URIReference<'static>) { unimplemented!() }
}
impl<'a> From__<URIReference<'a>> for URIReference<'a> { open spec fn from_req(x: Self) -> bool { true } open spec fn from_ens(x: Self, r: Self) -> bool { r == x } fn from__(x: Self) -> (r: Self) { x } }
impl<'a> From__<Option<Description<'a>>> for Option<Description<'a>> { open spec fn from_req(x: Self) -> bool { true } open spec fn from_ens(x: Self, r: Self) -> bool { r == x } fn from__(x: Self) -> (r: Self) { x } }
impl<'a> From__<Option<Anchor<'a>>> for Option<Anchor<'a>> { open spec fn from_req(x: Self) -> bool { true } open spec fn from_ens(x: Self, r: Self) -> bool { r == x } fn from__(x: Self) -> (r: Self) { x } }
impl<'a> From__<Cow<'a, str>> for Cow<'a, str> { open spec fn from_req(x: Self) -> bool { true } open spec fn from_ens(x: Self, r: Self) -> bool { r == x } fn from__(x: Self) -> (r: Self) { x } }
impl<'a> LinkData<'a> { #[verifier::external_body] pub fn encode_uri(b: &[u8]) -> (r: String) { unimplemented!() } }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_trait_specification] pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; }
pub assume_specification<F: std::str::FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>);
pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool);
pub assume_specification<T, U, D, F> [std::option::Option::<T>::map_or_else] (o: std::option::Option<T>, d: D, f: F) -> (r: U)
    where D: std::ops::FnOnce() -> U + std::marker::Destruct, F: std::ops::FnOnce(T,) -> U + std::marker::Destruct
    requires o is None ==> d.requires(()), o is Some ==> f.requires((o->0,))
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
@endraw
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/raw.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/wiki.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@autofns
@fn indexed_link_index
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.pre()
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
@autofns
@fn diary_link::inner
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires span.pre()
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/transclusion.rs
@autofns
@source vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@autofns
@fn link_uri_ref
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    ensures true
@fn link_anchor
    requires input.pre(),
    ensures post(input, ret),
@@closure 0
    requires s.pre()
@fn link_description
    requires input.pre(),
    ensures post(input, ret),
@@closure 1
    requires s.pre() ensures desc_ok(r__, s.c())
@fn link_properties
    requires input.pre(),
    ensures post(input, ret),
@@head
    broadcast use lem3::props_from;
