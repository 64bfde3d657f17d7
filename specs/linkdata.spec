//# addresses of links: encoding, decoding, the parts of a reference, anchors in fragments (unit of P13)
@include std.rs
@include anchor.rs
@include linkdata.rs
@fnhead broadcast use {ldax::ax_cow_str, ldax::ax_seg_text, ldax::ax_bytes, ldax::ax_cow_string};
@source vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@type Anchor ctor
@raw
/// Anchor derives Deref to its parts
impl<'a> Anchor<'a> { pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.is_empty() } }
@endraw
@fn Anchor<Display>::fmt inherent
@@ret Result<(), FmtError>
    ensures ret is Ok, final(f)@ == old(f)@ + anchor_text(texts(self.0@)),
@@head
    proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); }
@fn Fragment<TryFrom<Anchor>>::try_from
@@ret Result<Fragment<'static>, FragmentError>
@@impl
    type Error = FragmentError;
    open spec fn try_ens(anchor: Anchor<'a>, ret: Result<Self, FragmentError>) -> bool { match ret { Ok(f) => frag_chars(f.text()) && f.text() == glue(texts(anchor.0@), "-"@), Err(_) => !frag_chars(glue(texts(anchor.0@), "-"@)) } }
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@type Description
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@type LinkData ctor
@fn LinkData::encode_uri
    ensures encode_utf8(ret@) == enc_uri(uri.as_spec()@),
@@head
    proof { lits_ascii(); }
@fn LinkData::decode_uri
    ensures ret@ == lossy(pdec(uri.as_spec()@)),
@fn LinkData::get_property_str
    ensures match self.properties { None => ret is None, Some(m) => match ret { Some(v) => m.texts().dom().contains(name@) && v@ == m.texts()[name@], None => !m.texts().dom().contains(name@) } },
@@closure 0
    ensures match r__ { Some(v) => properties.texts().dom().contains(name@) && v@ == properties.texts()[name@], None => !properties.texts().dom().contains(name@) }
@fn LinkData::is_local_anchor
    ensures ret == (self.uri_ref.scheme_().is_none() && self.uri_ref.authority_().is_none() && self.uri_ref.query_().is_none() && self.uri_ref.frag_().is_some() && forall|i: int| 0 <= i < self.uri_ref.path_().segv().len() ==> (#[trigger] self.uri_ref.path_().segv()[i]).text().len() == 0),
@@closure 0
    ensures r__ == (s.text().len() == 0)
@fn LinkData::is_path_dir
    ensures ret == (self.uri_ref.segs_().len() > 0 && self.uri_ref.segs_().last().len() == 0),
@@closure 0
    ensures r__ == (s.text().len() == 0)
@fn LinkData::is_local
    ensures ret == local_scheme(self.uri_ref.scheme_()),
@@closure 0
    ensures r__ == local_scheme(Some(scheme))
@fn LinkData::is_remote
    ensures ret == !local_scheme(self.uri_ref.scheme_()),
@fn LinkData::to_path_buf desugar
    ensures ret@ == (if self.uri_ref.abs_() { joined(root_path(), pushed(self.uri_ref.segs_(), self.uri_ref.segs_().len() as int)) } else { pushed(self.uri_ref.segs_(), self.uri_ref.segs_().len() as int) }),
@@loop 0
    invariant 0 <= it__0.pos() <= self.uri_ref.segs_().len(), it__0@ == self.uri_ref.path_().segv().skip(it__0.pos()), path@ == pushed(self.uri_ref.segs_(), it__0.pos()),
    decreases it__0@.len(),
@fn LinkData::fragment_str
    ensures ret.is_some() == self.uri_ref.frag_().is_some(), ret.is_some() ==> ret.unwrap()@ == self.uri_ref.frag_().unwrap(),
@fn LinkData::has_anchor
    ensures ret == self.uri_ref.frag_().is_some(),
@fn LinkData::to_anchor
    ensures ret.is_some() == self.uri_ref.frag_().is_some(), ret.is_some() ==> texts(ret.unwrap().0@) == split_at(self.uri_ref.frag_().unwrap(), "%23"@),
@@closure 0
    ensures texts(r__.0@) == split_at(s@, "%23"@)
@fn LinkData::to_decoded_uri_string
    ensures ret@ == lossy(pdec(encode_utf8(self.uri_ref.disp()))),
@fn LinkData::scheme
    ensures ret == self.uri_ref.scheme_(),
@fn LinkData<Hash>::hash inherent
    ensures final(state).fed() == old(state).fed() + data_feed(*self),
@@loop 0
    invariant properties == self.properties.unwrap(), self.properties.is_some(), ctexts(it__0.seq()) == sorted(properties.texts().dom()), 0 <= it__0.index() <= it__0.seq().len(), state.fed() =~= data_feed0(*self, old(state).fed()) + key_feeds(sorted(properties.texts().dom()), it__0.index() as int),
@fn LinkData<Display>::fmt inherent
@@ret Result<(), FmtError>
    ensures ret is Ok, final(f)@ == old(f)@ + (match self.description { Some(d) => d.disp(), None => self.uri_ref.disp() }),
@fn LinkData<TryFrom<String>>::try_from
@@ret Result<LinkData<'static>, URIReferenceError>
@@impl
    type Error = URIReferenceError;
    open spec fn try_ens(s: String, ret: Result<Self, URIReferenceError>) -> bool { read_as(s@, ret) }
@fn LinkData<TryFrom<&str>>::try_from
@@ret Result<LinkData<'a>, URIReferenceError>
@@impl
    type Error = URIReferenceError;
    open spec fn try_ens(s: &'a str, ret: Result<Self, URIReferenceError>) -> bool { read_as(s@, ret) }
@fn LinkData<From<URIReference>>::from
@@impl
    open spec fn from_ens(uri_ref: URIReference<'a>, ret: Self) -> bool { ret == (LinkData { uri_ref, description: None, properties: None }) }
@fn PathBuf<From<LinkData>>::from
@@impl
    open spec fn from_ens(link: LinkData<'a>, ret: Self) -> bool { ret@ == (if link.uri_ref.abs_() { joined(root_path(), pushed(link.uri_ref.segs_(), link.uri_ref.segs_().len() as int)) } else { pushed(link.uri_ref.segs_(), link.uri_ref.segs_().len() as int) }) }
