//! P10: parsing finds the elements that were written, and a written document reads back as itself
use crate::{canon, rng::Rng, Prop};
use vimwiki_core::*;

pub struct Trip;
fn parse(s: &str) -> Result<Page<'static>, String> { Language::from_vimwiki_str(s).parse::<Page>().map(|p| p.into_owned()).map_err(|e| format!("does not parse: {e}")) }
/// first difference between two pages
fn differ(a: &Page, b: &Page) -> Option<String> {
    for (i, (x, y)) in a.elements.iter().zip(b.elements.iter()).enumerate() { if x != y { return Some(format!("element {i}: {}", part(&strip(&format!("{x:?}")), &strip(&format!("{y:?}"))))); } }
    if a.elements.len() != b.elements.len() { return Some(format!("{} elements instead of {}", a.elements.len(), b.elements.len())); }
    None
}
/// the parts of two texts that differ, with some context
fn part(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let p = x.iter().zip(y.iter()).take_while(|(a, b)| a == b).count().saturating_sub(60);
    let cut = |v: &[char]| v[p.min(v.len())..(p + 260).min(v.len())].iter().collect::<String>();
    format!("\n  have ..{}\n  want ..{}", cut(&x), cut(&y))
}
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(k) = rest.find(", region: Region {") { o += &rest[..k]; let e = rest[k..].find('}').map(|e| k + e + 1).unwrap_or(rest.len()); rest = &rest[e..]; }
    o + rest
}
/// does any list of the document begin over or a number skip, so that only positions differ
fn config(k: usize) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    match k % 6 {
        1 => c.definition_list.term_on_line_by_itself = true,
        2 => c.header.no_padding = true,
        3 => { c.paragraph.trim_lines = false; c.definition_list.trim_terms = false; c.definition_list.trim_definitions = false; c.header.trim_content = false; c.blockquote.trim_lines = false; }
        4 => c.page.indent_str = "\t".into(),
        5 => c.page.indent_str = "  ".into(),
        _ => {}
    }
    c
}
/// blanks at the ends of table cells carry no meaning (the writer aligns columns with them)
fn trim_cells(b: &BlockElement) -> Option<Vec<(usize, usize, String)>> {
    if let BlockElement::Table(t) = b {
        let mut v = vec![];
        for row in 0..t.row_cnt() { for col in 0..t.col_cnt() { v.push((row, col, match t.get_cell(row, col).map(|x| x.as_inner()) { Some(Cell::Content(c)) => {
            let mut e: Vec<String> = vec![];
            let n = c.iter().count();
            for (i, x) in c.iter().enumerate() { let s = match x.as_inner() { InlineElement::Text(t) => { let mut s = t.as_str(); if i == 0 { s = s.trim_start() } if i + 1 == n { s = s.trim_end() } if s.is_empty() { continue } format!("{s:?}") } o => strip(&format!("{o:?}")) }; e.push(s); }
            format!("{e:?}") } o => strip(&format!("{o:?}")) })); } }
        return Some(v);
    }
    None
}
fn same(x: &BlockElement, y: &BlockElement) -> bool {
    match (x, y) {
        (BlockElement::Table(a), BlockElement::Table(b)) => a.centered == b.centered && a.row_cnt() == b.row_cnt() && a.col_cnt() == b.col_cnt() && trim_cells(x) == trim_cells(y),
        (BlockElement::List(a), BlockElement::List(b)) => a.items.len() == b.items.len() && a.items.iter().zip(b.items.iter()).all(|(i, j)| i.ty == j.ty && i.suffix == j.suffix && i.pos == j.pos && i.attributes == j.attributes && i.contents.len() == j.contents.len() && i.contents.iter().zip(j.contents.iter()).all(|(p, q)| same(p.as_inner(), q.as_inner()))),
        (BlockElement::Paragraph(a), BlockElement::Paragraph(b)) => a.lines.len() == b.lines.len() && a.lines.iter().zip(b.lines.iter()).all(|(p, q)| p.iter().count() == q.iter().count() && p.iter().zip(q.iter()).all(|(i, j)| same_inline(i.as_inner(), j.as_inner()))),
        _ => x == y,
    }
}
/// the writer sets the text of comments apart with blanks
fn same_inline(x: &InlineElement, y: &InlineElement) -> bool {
    match (x, y) {
        (InlineElement::Comment(Comment::MultiLine(a)), InlineElement::Comment(Comment::MultiLine(b))) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| p.trim() == q.trim()),
        _ => x == y,
    }
}
/// "<configuration> <seed> <kind of the single element, or p for a page>"
fn doc(case: &str) -> Option<(usize, (Page<'static>, String))> {
    let mut w = case.split(' ');
    let (k, s, what) = (w.next()?.parse().ok()?, w.next()?.parse().ok()?, w.next()?);
    let mut r = Rng::new(s);
    Some((k, match what.parse::<usize>() { Ok(n) => { let (b, t) = canon::block(&mut r, n % canon::KINDS); (Page { elements: vec![Located::from(b)] }, t) } Err(_) => canon::page(&mut r) }))
}
/// "t<configuration> <text>"
fn from_text(case: &str) -> Option<(usize, (Page<'static>, String))> { let (a, t) = case.strip_prefix('t')?.split_once(' ')?; Some((a.parse().ok()?, (parse(t).ok()?, t.to_string()))) }
fn seeds(thorough: bool) -> Box<dyn Iterator<Item = String> + Send> { Box::new((0..if thorough { 200000u64 } else { 6000 }).map(|k| format!("{} {} {}", k % 6, k * 7919 + 3, if k % 3 == 0 { "p".to_string() } else { (k / 6 % canon::KINDS as u64).to_string() }))) }

/// the document parsed from the generated text is the generated tree
fn faithful(want: &Page, src: &str) -> Result<(), String> {
    let got = parse(src).map_err(|e| format!("{e}\n--- source\n{src}"))?;
    if got == *want { return Ok(()); }
    Err(format!("the text is read as another document: {}\n--- source\n{src}", differ(&got, want).unwrap_or_default()))
}
/// documents given as text
const TEXTS: &[&str] = &["t0     a\n\n    b\n", "t0 > a\n>\n> b\n", "t0 - a\n  - b\n    - c\n- d\n", "t0 a:: b\n:: c\n", "t0 {{{x y=\"z\"\na\n\n b\n}}}\n"];
impl Prop for Trip {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new(TEXTS.iter().map(|t| t.to_string()).chain(seeds(thorough))) }
    fn random(&self, r: &mut Rng) -> String { format!("{} {} p", r.below(6), r.next() >> 20) }
    fn text_case(&self) -> bool { false }
    fn check(&self, case: &str) -> Result<(), String> {
        let text = case.starts_with('t');
        let (k, (want, src)) = match if text { from_text(case) } else { doc(case) } { Some(x) => x, None => return Ok(()) };
        if !text { faithful(&want, &src)?; faithful(&want, &src.replace("\n", "\r\n"))?; }
        let out = want.to_vimwiki_string(config(k)).map_err(|e| format!("cannot be written: {e}"))?;
        let got = parse(&out).map_err(|e| format!("{e}\n--- written\n{out}"))?;
        let ok = got.elements.len() == want.elements.len() && got.elements.iter().zip(want.elements.iter()).all(|(x, y)| same(x.as_inner(), y.as_inner()));
        if !ok && text { return Err(format!("document {src:?} reads back as another document, written as {out:?}")); }
        if !ok { let bad = got.elements.iter().zip(want.elements.iter()).find(|(x, y)| !same(x.as_inner(), y.as_inner())); return Err(format!("reads back as another document: {}\n--- written (config {k})\n{out}\n--- from\n{src}", bad.map(|(x, y)| part(&strip(&format!("{x:?}")), &strip(&format!("{y:?}")))).unwrap_or_else(|| format!("{} elements instead of {}", got.elements.len(), want.elements.len())))); }
        let again = got.to_vimwiki_string(config(k)).map_err(|e| format!("cannot be written: {e}"))?;
        if again != out { return Err(format!("formatting again changes the text\n--- first\n{out}\n--- second\n{again}")); }
        Ok(())
    }
}
