//! P09: HTML output is well nested and every text of the document is in it, escaped
use crate::{gen, model, rng::Rng, Prop};
use std::path::PathBuf;
use vimwiki_core::*;

pub struct Html;

/// where a browser's scanner is, one character at a time (independent of the writer)
#[derive(Debug, PartialEq)]
enum M { Text, Lt, Name(String), CName(String), In(bool), Val, Bang, Bang2, Com(u8) }
/// text between the tags, or where the output breaks
fn scan(s: &str, strict_text: bool) -> Result<(String, Vec<String>, Vec<(String, String)>), String> {
    let (mut attrs, mut name, mut val) = (vec![], String::new(), String::new());
    let mut m = M::Text;
    let mut stack: Vec<String> = vec![];
    let mut text = String::new();
    let mut tags = vec![];
    for (i, c) in s.char_indices() {
        let bad = |w: &str| Err(format!("{w} at {i}: …{}…", s.chars().skip(s[..i].chars().count().saturating_sub(40)).take(80).collect::<String>()));
        let blank = c == ' ' || c == '\n';
        m = match m {
            M::Text => if c == '<' { M::Lt } else if c == '>' && strict_text { return bad("bare > in text") } else { if strict_text && c == '"' { return bad("bare quote in text") } text.push(c); M::Text },
            M::Lt => if c == '/' { M::CName(String::new()) } else if c == '!' { M::Bang } else if !c.is_ascii_alphabetic() { return bad("bare < in text") } else { M::Name(c.to_string()) },
            M::Name(mut n) => if c == '<' || c == '"' { return bad("broken tag name") } else if blank { tags.push(n.clone()); stack.push(n); M::In(false) } else if c == '/' { tags.push(n.clone()); stack.push(n); M::In(true) } else if c == '>' { tags.push(n.clone()); stack.push(n); M::Text } else { n.push(c); M::Name(n) },
            M::CName(mut n) => if c == '>' { let o = stack.pop(); if o.as_deref() != Some(&n) { return bad(&format!("</{n}> closes {o:?}")) } M::Text } else if c == '<' || c == '"' || c == '/' || blank { return bad("broken closing tag") } else { n.push(c); M::CName(n) },
            M::In(b) => if c == '<' { return bad("< inside a tag") } else if c == '"' { val.clear(); M::Val } else if c == '/' { M::In(true) } else if c == '>' { if b { stack.pop(); } M::Text } else { if blank { name.clear() } else { name.push(c) } M::In(false) },
            M::Val => if c == '"' { attrs.push((name.trim_end_matches('=').to_string(), val.clone())); name.clear(); M::In(false) } else if c == '<' { return bad("< inside an attribute value") } else { val.push(c); M::Val },
            M::Bang => if c == '-' { M::Bang2 } else { return bad("broken comment") },
            M::Bang2 => if c == '-' { M::Com(0) } else { return bad("broken comment") },
            M::Com(d) => if c == '-' { M::Com((d + 1).min(2)) } else if c == '>' && d == 2 { M::Text } else { M::Com(0) },
        };
    }
    if m != M::Text { return Err(format!("output ends inside {m:?}")); }
    if !stack.is_empty() { return Err(format!("never closed: {stack:?}")); }
    Ok((text, tags, attrs))
}
const ENT: &[(&str, &str)] = &[("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#x27;", "'"), ("&#x60;", "`"), ("&#39;", "'")];
fn unescape(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = t;
    while let Some(k) = rest.find('&') {
        o.push_str(&rest[..k]);
        rest = &rest[k..];
        match ENT.iter().find(|(e, _)| rest.starts_with(e)) { Some((e, c)) => { o.push_str(c); rest = &rest[e.len()..]; } None => return Err(format!("bare & in text: {}", rest.chars().take(30).collect::<String>())) }
    }
    o.push_str(rest);
    Ok(o)
}
/// texts a reader sees, in order; None for a link whose text depends on where it leads
fn inl(e: &InlineElement, o: &mut Vec<String>) {
    match e {
        InlineElement::Text(t) => o.push(t.as_str().to_string()),
        InlineElement::Keyword(k) => o.push(kw(k).to_string()),
        InlineElement::Code(t) => o.push(t.as_str().to_string()),
        InlineElement::Math(t) => o.push(t.as_str().to_string()),
        InlineElement::Tags(t) => for x in t.iter() { o.push(x.as_str().to_string()) },
        InlineElement::Comment(_) => {}
        InlineElement::Link(x) => lnk(x, o),
        InlineElement::DecoratedText(d) => deco(d, o),
    }
}
fn kw(k: &Keyword) -> &'static str { match k { Keyword::Todo => "TODO", Keyword::Done => "DONE", Keyword::Started => "STARTED", Keyword::Fixme => "FIXME", Keyword::Fixed => "FIXED", Keyword::Xxx => "XXX" } }
fn lnk(x: &Link, o: &mut Vec<String>) { if matches!(x, Link::Transclusion { .. }) { if let Some(Description::Text(t)) = x.description() { o.push(format!("{ALT}{t}")) } if let Some(m) = x.properties() { for v in m.values() { o.push(format!("{VAL}{v}")) } } return; } if let Some(Description::Text(t)) = x.description() { o.push(t.to_string()) } }
fn deco(d: &DecoratedText, o: &mut Vec<String>) {
    let v = match d { DecoratedText::Bold(v) | DecoratedText::Italic(v) | DecoratedText::Strikeout(v) | DecoratedText::Superscript(v) | DecoratedText::Subscript(v) => v };
    for c in v { match c.as_inner() { DecoratedTextContent::Text(t) => o.push(t.as_str().to_string()), DecoratedTextContent::Keyword(k) => o.push(kw(k).into()), DecoratedTextContent::Link(x) => lnk(x, o), DecoratedTextContent::DecoratedText(d) => deco(d, o) } }
}
fn cont(c: &InlineElementContainer, o: &mut Vec<String>) { for e in c.iter() { inl(e.as_inner(), o) } }
fn blk(b: &BlockElement, o: &mut Vec<String>) {
    match b {
        BlockElement::Blockquote(q) => for x in &q.lines { o.push(x.to_string()) },
        BlockElement::CodeBlock(c) => for x in &c.lines { o.push(x.to_string()) },
        BlockElement::MathBlock(c) => { if let Some(e) = &c.environment { o.push(e.to_string()) } for x in &c.lines { o.push(x.to_string()) } if let Some(e) = &c.environment { o.push(e.to_string()) } }
        BlockElement::DefinitionList(d) => for i in d.items.iter() { cont(i.term.as_inner().as_inner(), o); for x in i.definitions.iter() { cont(x.as_inner().as_inner(), o) } },
        BlockElement::Divider(_) | BlockElement::Placeholder(_) => {}
        BlockElement::Header(h) => cont(&h.content, o),
        BlockElement::List(x) => for i in &x.items { for b in i.contents.iter() { blk(b.as_inner(), o) } },
        BlockElement::Paragraph(p) => for x in &p.lines { cont(x, o) },
        BlockElement::Table(t) => {
            let div = t.get_divider_row_index();
            for row in 0..t.row_cnt() { if Some(row) == div { continue; } for col in 0..t.col_cnt() { if let Some(Cell::Content(c)) = t.get_cell(row, col).map(|x| x.as_inner()) { cont(c, o) } } }
        }
    }
}
/// marks what is shown by an attribute
const ALT: &str = "\u{E000}alt\u{E000}";
const VAL: &str = "\u{E000}value\u{E000}";
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn config(k: usize) -> HtmlConfig {
    let w = |p: &str, n: &str| HtmlWikiConfig { path: PathBuf::from(p), path_html: PathBuf::from(format!("{p}_html")), name: Some(n.to_string()), ..Default::default() };
    let mut c = HtmlConfig { wikis: vec![w("/w/one", "wn"), w("/w/two", "other")], runtime: HtmlRuntimeConfig { wiki_index: Some(0), page: PathBuf::from("/w/one/sub/page.wiki"), ..Default::default() }, ..Default::default() };
    c.comment.include = k & 1 != 0;
    c.paragraph.ignore_newline = k & 2 != 0;
    c.link.canonicalize = k & 4 != 0;
    c.link.use_ugly_urls = k & 8 != 0;
    c.code.server_side = k & 48 == 48;
    c
}
fn judge(p: &Page, k: usize) -> Result<(), String> {
    // an unresolvable link is an error, not a page
    let html = match p.to_html_string(config(k)) { Ok(x) => x, Err(_) => return Ok(()) };
    let (text, tags, attrs) = scan(&html, true).map_err(|e| format!("{e}\n{html}"))?;
    const TAGS: &[&str] = &["blockquote", "p", "dl", "dt", "dd", "hr", "div", "a", "ol", "ul", "li", "pre", "code", "br", "table", "thead", "tbody", "tr", "th", "td", "strong", "span", "em", "del", "sup", "sub", "small", "img"];
    for t in &tags { if !TAGS.contains(&t.as_str()) && !(t.starts_with('h') && t[1..].parse::<usize>().is_ok()) { return Err(format!("unexpected tag <{t}>\n{html}")); } }
    let text = squeeze(&unescape(&text).map_err(|e| format!("{e}\n{html}"))?);
    let mut want = vec![];
    for b in &p.elements { blk(b.as_inner(), &mut want); }
    let mut rest: &str = &text;
    let alts: Vec<String> = attrs.iter().filter(|(n, _)| n == "alt").filter_map(|(_, v)| unescape(v).ok()).collect();
    let vals: Vec<String> = attrs.iter().filter_map(|(_, v)| unescape(v).ok()).collect();
    let mut next = 0;
    for w in want {
        if let Some(t) = w.strip_prefix(ALT) { match alts[next..].iter().position(|a| a == t) { Some(i) => { next += i + 1; continue } None => return Err(format!("alternative text {t:?} missing from output, or out of order\n{html}")) } }
        if let Some(t) = w.strip_prefix(VAL) { if !vals.iter().any(|a| a == t) { return Err(format!("property {t:?} missing from output\n{html}")) } continue; }
        let w = squeeze(&w); match rest.find(&w) { Some(i) => rest = &rest[i + w.len()..], None => return Err(format!("text {w:?} missing from output, or out of order\n{html}")) } }
    Ok(())
}
impl Prop for Html {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let it = gen::tokens(1).chain(gen::chars(2)).map(|s| format!("D1 {s}"));
        let seeds = (0..if thorough { 200000 } else { 3000 }).map(|k| format!("S{} {}", k % 48, k * 7919 + 1));
        if thorough { Box::new(it.chain(gen::tokens(2).map(|s| format!("D3 {s}"))).chain(seeds)) } else { Box::new(it.chain(seeds)) }
    }
    fn random(&self, r: &mut Rng) -> String {
        let k = if r.chance(1, 16) { 48 + r.below(16) } else { r.below(48) };
        if r.chance(1, 2) { format!("S{} {}", k, r.next() >> 20) } else { format!("D{} {}", k, gen::any(r)) }
    }
    fn check(&self, case: &str) -> Result<(), String> {
        let (h, t) = match case.split_once(' ') { Some(x) => x, None => return Ok(()) };
        let k: usize = match h.get(1..).and_then(|x| x.parse().ok()) { Some(k) => k, None => return Ok(()) };
        if h.starts_with('S') {
            let seed: u64 = match t.parse() { Ok(s) => s, Err(_) => return Ok(()) };
            judge(&model::page(&mut Rng::new(seed)), k)
        } else if h.starts_with('D') {
            match Language::from_vimwiki_str(t).parse::<Page>() { Ok(p) => judge(&p, k), Err(_) => Ok(()) }
        } else { Ok(()) }
    }
}
