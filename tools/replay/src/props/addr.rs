//! P13: addresses of links and anchors
use crate::{gen, rng::Rng, Prop};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use uriparse::{Fragment, Scheme, URIReference};
use vimwiki_core::*;

pub struct Addr;

fn hexval(b: u8) -> Option<u8> { (b as char).to_digit(16).map(|x| x as u8) }
fn decode(b: &[u8]) -> String {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hexval(b[i + 1]), hexval(b[i + 2])) { out.push(h * 16 + l); i += 3; continue; }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn encode(s: &str) -> String {
    let mut out = String::new();
    let mut used = false;
    let b = s.as_bytes();
    // a literal %23 counts as an encoded pound sign, too: the first of either kind stands for the fragment
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'#' { if used { out.push_str("%23"); } else { out.push('#'); used = true; } }
        else if !used && b[i..].starts_with(b"%23") { out.push('#'); used = true; i += 2; }
        else if b[i] < 32 || b[i] >= 127 || b" \"<>`".contains(&b[i]) { out.push_str(&format!("%{:02X}", b[i])); }
        else { out.push(b[i] as char); }
        i += 1;
    }
    out
}
/// a part of an anchor as a fragment holds it
fn part(p: &str) -> String {
    let b = p.as_bytes();
    let mut out = String::new();
    for i in 0..b.len() {
        let c = b[i];
        if c == b'%' { if i + 2 < b.len() && hexval(b[i + 1]).is_some() && hexval(b[i + 2]).is_some() { out.push('%'); } else { out.push_str("%25"); } }
        else if c < 33 || c >= 127 || b"\"#<>[\\]^`{|}".contains(&c) { out.push_str(&format!("%{:02X}", c)); }
        else { out.push(c as char); }
    }
    out
}
fn ne<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) } }
struct Fnv(u64);
impl Hasher for Fnv { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } }
fn hash<T: Hash>(x: &T) -> u64 { let mut h = Fnv(0xcbf29ce484222325); x.hash(&mut h); h.finish() }
fn strs(a: &Anchor) -> Vec<String> { a.into_iter().map(|x| x.to_string()).collect() }

impl Addr {
    fn text(s: &str) -> Result<(), String> {
        let e = LinkData::encode_uri(s);
        ne(&format!("encode_uri({s:?})"), e.as_str(), encode(s).as_str())?;
        ne(&format!("encode_uri({s:?}) of bytes"), LinkData::encode_uri(s.as_bytes()), e.clone())?;
        ne(&format!("decode_uri({s:?})"), LinkData::decode_uri(s), decode(s.as_bytes()))?;
        ne(&format!("decode_uri of encode_uri({s:?})"), LinkData::decode_uri(&e), LinkData::decode_uri(s))?;
        if !s.contains('%') { ne(&format!("decode_uri of encode_uri({s:?})"), LinkData::decode_uri(&e).as_str(), s)?; }
        Ok(())
    }
    fn anchor(s: &str) -> Result<(), String> {
        let ps: Vec<String> = if s.is_empty() { vec![] } else { s.split('\u{1}').map(|x| x.to_string()).collect() };
        let a: Anchor<'static> = ps.iter().cloned().collect();
        ne("parts of a collected anchor", strs(&a), ps.clone())?;
        let b: Anchor = ps.iter().map(|x| x.as_str()).collect();
        ne("parts of an anchor collected from &str", strs(&b), ps.clone())?;
        if let [one] = &ps[..] { ne("anchor from a text", strs(&Anchor::from(one.as_str())), ps.clone())?; ne("anchor from a string", strs(&Anchor::from(one.clone())), ps.clone())?; }
        ne("borrowed anchor", strs(&a.to_borrowed()), ps.clone())?;
        ne("owned anchor", strs(&a.clone().into_owned()), ps.clone())?;
        let f = a.to_encoded_uri_fragment();
        let want = ps.iter().enumerate().map(|(i, p)| format!("{}{}", if i == 0 { "#" } else { "%23" }, part(p))).collect::<String>();
        ne(&format!("fragment of the anchor {ps:?}"), f.as_str(), want.as_str())?;
        let u = match URIReference::try_from(f.as_str()) { Ok(u) => u.into_owned(), Err(e) => return Err(format!("the fragment {f:?} of the anchor {ps:?} is no reference: {e}")) };
        let d = LinkData::from(u);
        match d.to_anchor() {
            None => if !ps.is_empty() { return Err(format!("a link to {f:?} has no anchor")); },
            Some(x) => {
                let want: Vec<String> = f[1..].split("%23").map(|x| x.to_string()).collect();
                ne(&format!("anchor of a link to {f:?}"), strs(&x), want)?;
                if ps.iter().all(|p| !p.contains('#') && !p.contains('%')) { ne(&format!("decoded parts of the anchor of a link to {f:?}"), strs(&x).iter().map(LinkData::decode_uri).collect(), ps.clone())?; }
            }
        }
        let t = a.to_string();
        let want = if ps.is_empty() { String::new() } else { format!("#{}", ps.join("#")) };
        ne(&format!("text of the anchor {ps:?}"), t.as_str(), want.as_str())?;
        if !ps.is_empty() && ps.iter().all(|p| !p.contains('#')) { ne(&format!("anchor read from {t:?}"), Anchor::from_uri_fragment(&t).as_ref().map(strs), Some(ps.clone()))?; }
        let raw = s.replace('\u{1}', "#");
        let want = raw.strip_prefix('#').map(|r| r.split('#').map(|x| x.to_string()).collect::<Vec<_>>());
        let want = if raw.is_empty() { Some(vec![]) } else { want };
        ne(&format!("anchor read from {raw:?}"), Anchor::from_uri_fragment(&raw).as_ref().map(strs), want)?;
        let j = ps.join("-");
        let fr = Fragment::try_from(a.clone());
        match Fragment::try_from(j.as_str()) {
            Ok(x) => ne(&format!("uri fragment of the anchor {ps:?}"), fr.ok().map(|y| y.as_str().to_string()), Some(x.as_str().to_string())),
            Err(_) => if fr.is_ok() { Err(format!("the anchor {ps:?} makes a uri fragment out of {j:?}")) } else { Ok(()) },
        }
    }
    fn uri(s: &str) -> Result<(), String> {
        let r = URIReference::try_from(s);
        let d = LinkData::try_from(s);
        let o = LinkData::try_from(s.to_string());
        ne(&format!("{s:?} read as a link"), (d.is_ok(), o.is_ok()), (r.is_ok(), r.is_ok()))?;
        let (Ok(r), Ok(d), Ok(o)) = (r, d, o) else { return Ok(()) };
        if d != o || d.uri_ref != r || d.description.is_some() || d.properties.is_some() { return Err(format!("{s:?} read as a link: {d:?} and {o:?}")); }
        let t = r.to_string();
        let local = match r.scheme() { None => true, Some(Scheme::File) => true, Some(x) => x.as_str().eq_ignore_ascii_case("local") };
        let segs: Vec<&str> = r.path().segments().iter().map(|x| x.as_str()).collect();
        let frag = r.fragment().map(|x| x.as_str().to_string());
        ne(&format!("is_local, is_remote of {s:?}"), (d.is_local(), d.is_remote()), (local, !local))?;
        ne(&format!("has_anchor of {s:?}"), d.has_anchor(), frag.is_some())?;
        ne(&format!("fragment_str of {s:?}"), d.fragment_str().map(|x| x.to_string()), frag.clone())?;
        ne(&format!("to_anchor of {s:?}"), d.to_anchor().as_ref().map(strs), frag.as_ref().map(|f| f.split("%23").map(|x| x.to_string()).collect()))?;
        ne(&format!("is_path_dir of {s:?}"), d.is_path_dir(), segs.last().map_or(false, |x| x.is_empty()))?;
        ne(&format!("is_local_anchor of {s:?}"), d.is_local_anchor(), r.scheme().is_none() && r.authority().is_none() && r.query().is_none() && frag.is_some() && segs.iter().all(|x| x.is_empty()))?;
        ne(&format!("scheme of {s:?}"), d.scheme().map(|x| x.to_string()), r.scheme().map(|x| x.to_string()))?;
        let mut p = std::path::PathBuf::new();
        for x in &segs { p.push(x); }
        let p = if r.path().is_absolute() { std::path::Path::new("/").join(p) } else { p };
        ne(&format!("to_path_buf of {s:?}"), (d.to_path_buf(), std::path::PathBuf::from(d.clone())), (p.clone(), p))?;
        ne(&format!("to_decoded_uri_string of {s:?}"), d.to_decoded_uri_string(), decode(t.as_bytes()))?;
        ne(&format!("text of {s:?}"), d.to_string(), t)?;
        let b = d.to_borrowed();
        if b != d || hash(&b) != hash(&d) { return Err(format!("the borrowed copy of {s:?} is {b:?}, hashes {} and {}", hash(&b), hash(&d))); }
        let w = d.clone().into_owned();
        if w != d || hash(&w) != hash(&d) { return Err(format!("the owned copy of {s:?} is {w:?}")); }
        Ok(())
    }
    fn props(s: &str) -> Result<(), String> {
        let ks: Vec<&str> = s.split('\u{1}').collect();
        let uri = URIReference::try_from("a/b").unwrap();
        let make = |order: &[usize]| { let mut m = HashMap::new(); for i in order { m.insert(std::borrow::Cow::from(ks[*i].to_string()), std::borrow::Cow::from(format!("v{}", ks.iter().rposition(|k| k == &ks[*i]).unwrap()))); } LinkData::new(uri.clone(), Some(Description::from("d")), Some(m)) };
        let up: Vec<usize> = (0..ks.len()).collect();
        let down: Vec<usize> = (0..ks.len()).rev().collect();
        let (a, b) = (make(&up), make(&down));
        if a != b { return Err(format!("links with the properties {ks:?} in two orders differ")); }
        for _ in 0..4 { let c = make(&down); if hash(&c) != hash(&a) { return Err(format!("equal links with the properties {ks:?} hash to {} and {}", hash(&a), hash(&c))); } }
        for k in &ks {
            ne(&format!("property {k:?} of {ks:?}"), a.get_property_str(k).map(|x| x.to_string()), Some(format!("v{}", ks.iter().rposition(|x| x == k).unwrap())))?;
            let other = format!("{k}x");
            if !ks.contains(&other.as_str()) { ne(&format!("property {other:?} of {ks:?}"), a.get_property_str(&other).map(|x| x.to_string()), None)?; }
            let upper = k.to_uppercase();
            if !ks.contains(&upper.as_str()) { ne(&format!("property {upper:?} of {ks:?}"), a.get_property_str(&upper).map(|x| x.to_string()), None)?; }
        }
        ne("text of a link with a description", a.to_string(), "d".to_string())?;
        let n = LinkData::new(uri, None, None);
        ne("property of a link without any", n.get_property_str(ks[0]).map(|x| x.to_string()), None)
    }
    /// a link in a document: its address and anchor are what is written
    fn link(s: &str) -> Result<(), String> {
        let parts: Vec<&str> = s.split('\u{1}').collect();
        let ok = |x: &str| !x.is_empty() && x.trim() == x && !x.contains(|c: char| c.is_control() || "#|[]{}%:?\\^".contains(c) || c == '\u{1}');
        if !parts.iter().all(|x| ok(x)) || parts[0].starts_with('/') || parts[0].starts_with("diary") || parts[0].starts_with("wiki") { return Ok(()); }
        let text = format!("[[{}]]\n", parts.join("#"));
        let page = Language::from_vimwiki_str(&text).parse::<Page>().map_err(|_| format!("{text:?} is no page"))?;
        let mut found = None;
        fn walk(e: Vec<Located<Element>>, found: &mut Option<LinkData<'static>>) { for x in e { match x.into_inner() { Element::Inline(InlineElement::Link(l)) => { *found = Some(l.into_data().into_owned()); } o => walk(o.into_children(), found) } } }
        walk(page.into_owned().into_children().into_iter().map(|x| x.map(Element::from)).collect(), &mut found);
        let Some(d) = found else { return Err(format!("{text:?} holds no link")) };
        let path = d.uri_ref.path().to_string();
        ne(&format!("path of the link in {text:?}"), LinkData::decode_uri(path), parts[0].to_string())?;
        ne(&format!("anchor of the link in {text:?}"), d.to_anchor().map(|a| strs(&a).iter().map(LinkData::decode_uri).collect::<Vec<_>>()), if parts.len() > 1 { Some(parts[1..].iter().map(|x| x.to_string()).collect()) } else { None })
    }
}
const TEXT: &[&str] = &["#", "%", "2", "3", "23", "%23", " ", "\"", "<", ">", "`", "a", "F", "g", "é", "\u{7f}", "\u{1f}", "[", "/", "?", "%2", "%fF", "\u{10ffff}", "~", "^", "{", "|", "\\"];
const PART: &[&str] = &["\u{1}", "#", "%", "2", "%23", "%2", "a", "é", " ", "-", "\\", "^", "|", "{", "[", "\"", "`", "~", "\u{7f}", "<", "]", "}", "\u{e}"];
const URI: &[&str] = &["http:", "file:", "local:", "LOCAL:", "x-y:", "mailto:", "//", "/", "a", "b.c", "..", ".", "?", "#", "%23", "%20", "h:80", "", "u@"];
const KEY: &[&str] = &["\u{1}", "a", "b", "A", "z", "0", "é", " ", ""];
const NAME: &[&str] = &["\u{1}", "a", " ", "é", "/", "b.c", "%", "&", "<", "世", "..", "-", "\"", "'", "="];
impl Prop for Addr {
    fn text_case(&self) -> bool { false }
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let n = if th { 4 } else { 3 };
        let pre = |c: &'static str| move |x: String| format!("{c}{x}");
        Box::new((0..=n).flat_map(move |k| gen::seqs(TEXT, k)).map(pre("E")).chain((0..=n).flat_map(move |k| gen::seqs(PART, k)).map(pre("A"))).chain((0..=n + 1).flat_map(move |k| gen::seqs(URI, k)).map(pre("U")))
            .chain((1..=n + 1).flat_map(move |k| gen::seqs(KEY, k)).map(pre("P"))).chain((1..=n).flat_map(move |k| gen::seqs(NAME, k)).map(pre("L"))))
    }
    fn random(&self, r: &mut Rng) -> String {
        let (c, t) = match r.below(5) { 0 => ("E", TEXT), 1 => ("A", PART), 2 => ("U", URI), 3 => ("P", KEY), _ => ("L", NAME) };
        let mut s = c.to_string();
        for _ in 0..1 + r.below(9) { if r.chance(1, 6) && c != "U" { s.push(gen::uni(r)); } else { s.push_str(r.pick(t)); } }
        s
    }
    fn check(&self, s: &str) -> Result<(), String> {
        let Some(c) = s.chars().next() else { return Ok(()) };
        let t = &s[c.len_utf8()..];
        match c { 'A' => Addr::anchor(t), 'U' => Addr::uri(t), 'P' => Addr::props(t), 'L' => Addr::link(t), _ => Addr::text(t) }
    }
}
