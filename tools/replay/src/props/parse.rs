use crate::{gen, rng::Rng, tree::{self, Node}, Prop};
use vimwiki_core::*;

pub struct Safe;
pub struct Verbatim;
pub struct Regions;

fn lang(s: &str) -> Language<'_> { Language::from_vimwiki_str(s) }
pub fn parse(s: &str) -> Option<Page<'_>> { lang(s).parse::<Page>().ok() }

macro_rules! each { ($l:expr; $($t:ty),*) => { $( let _ = std::hint::black_box($l.parse::<$t>().is_ok()); )* } }

impl Prop for Safe {
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new(corpus(th)) }
    fn random(&self, r: &mut Rng) -> String { gen::any(r) }
    fn check(&self, s: &str) -> Result<(), String> {
        let l = lang(s);
        each!(l; Page, Located<BlockElement>, Located<InlineElementContainer>, Located<InlineElement>, Located<Blockquote>, Located<CodeInline>, Located<Comment>, Located<LineComment>,
            Located<MultiLineComment>, Located<DefinitionList>, Located<Divider>, Located<Header>, Located<Link>, Located<List>, Located<ListItem>, Located<MathInline>, Located<MathBlock>,
            Located<Paragraph>, Located<Placeholder>, Located<CodeBlock>, Located<Table>, Located<Tags>, Located<Text>, Located<DecoratedText>, Located<Keyword>);
        Ok(())
    }
}
pub fn corpus(th: bool) -> impl Iterator<Item = String> {
    gen::tokens(2).chain(gen::chars(if th { 4 } else { 3 }))
}

fn verbatim(x: &Node, s: &str, lo: usize, hi: usize) -> Result<(), String> {
    let (lo, hi) = match x.region { Some((o, l, _)) => (o, o + l), None => (lo, hi) };
    let hay = s.as_bytes().get(lo..hi).ok_or(format!("region {lo}..{hi} of {} lies outside the text", x.kind))?;
    let hay = std::str::from_utf8(hay).map_err(|_| format!("region {lo}..{hi} of {} is not on UTF-8 boundaries", x.kind))?;
    for t in &x.texts {
        if !hay.contains(t.as_str()) { return Err(format!("{} at {lo}..{hi} holds {t:?}, which is not in its stretch of the source {hay:?}", x.kind)); }
    }
    for c in &x.children { verbatim(c, s, lo, hi)?; }
    Ok(())
}
impl Prop for Verbatim {
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new(corpus(th)) }
    fn random(&self, r: &mut Rng) -> String { gen::any(r) }
    fn check(&self, s: &str) -> Result<(), String> {
        if let Some(p) = parse(s) { verbatim(&tree::page(&p), s, 0, s.len())?; }
        for n in parts(s) { verbatim(&n, s, 0, s.len())?; }
        Ok(())
    }
}
/// the results of parsing the text as a single element of each kind
pub fn parts(s: &str) -> Vec<Node> {
    let l = lang(s);
    let mut v = vec![];
    if let Ok(x) = l.parse::<Located<BlockElement>>() { v.push(tree::block(&x)); }
    if let Ok(x) = l.parse::<Located<InlineElement>>() { v.push(tree::inline(&x)); }
    if let Ok(x) = l.parse::<Located<InlineElementContainer>>() { for i in x.as_inner().iter() { v.push(tree::inline(i)); } }
    if let Ok(x) = l.parse::<Located<Link>>() { v.push(tree::link(x.as_inner(), Some((x.region().offset(), x.region().len(), x.region().depth())))); }
    if let Ok(x) = l.parse::<Located<ListItem>>() { v.push(tree::list_item(&x)); }
    v
}
fn nest(x: &Node, s: &str, lo: usize, hi: usize) -> Result<(), String> {
    let (a, b) = match x.region {
        Some((o, l, _)) => {
            let e = o.checked_add(l).ok_or("region overflows".to_string())?;
            if o < lo || e > hi { return Err(format!("{} {o}..{e} lies outside its parent {lo}..{hi}", x.kind)); }
            if !s.is_char_boundary(o) || !s.is_char_boundary(e) { return Err(format!("{} {o}..{e} not on character boundaries", x.kind)); }
            (o, e)
        }
        None => (lo, hi),
    };
    let mut at = a;
    for c in &x.children {
        if let Some((o, l, _)) = c.region {
            if o < at { return Err(format!("{} {o}..{} starts before the end of what precedes it ({at}) in {}", c.kind, o + l, x.kind)); }
            at = o + l;
        }
        nest(c, s, a, b)?;
    }
    Ok(())
}
impl Prop for Regions {
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new(corpus(th)) }
    fn random(&self, r: &mut Rng) -> String { gen::any(r) }
    fn check(&self, s: &str) -> Result<(), String> {
        if let Some(p) = parse(s) { nest(&tree::page(&p), s, 0, s.len())?; }
        for n in parts(s) { nest(&n, s, 0, s.len())?; }
        Ok(())
    }
}
