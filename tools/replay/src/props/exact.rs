//! P08: the HTML of a page, written a second time
use crate::{gen, model, rng::Rng, Prop};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use vimwiki_core::*;

pub struct Exact;

struct W<'c> { c: &'c HtmlConfig, o: String, heads: BTreeMap<usize, String>, ids: HashMap<String, usize> }
type R = Result<(), ()>;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '&' => o += "&amp;", '<' => o += "&lt;", '>' => o += "&gt;", '"' => o += "&quot;", '\'' => o += "&#x27;", '`' => o += "&#x60;", c => o.push(c) } }
    o
}
fn kw(k: &Keyword) -> &'static str { match k { Keyword::Todo => "TODO", Keyword::Done => "DONE", Keyword::Started => "STARTED", Keyword::Fixme => "FIXME", Keyword::Fixed => "FIXED", Keyword::Xxx => "XXX" } }
/// what a reader would call the text of an element
fn plain(v: &InlineElementContainer) -> String {
    let mut o = String::new();
    for e in v.iter() { match e.as_inner() {
        InlineElement::Text(t) => o += t.as_str(), InlineElement::Keyword(k) => o += kw(k), InlineElement::Code(t) => o += t.as_str(), InlineElement::Math(t) => o += t.as_str(),
        InlineElement::Comment(_) => {}
        InlineElement::Tags(t) => { for x in t.iter() { o.push(':'); o += x.as_str(); } o.push(':'); }
        InlineElement::Link(x) => o += &plink(x),
        InlineElement::DecoratedText(d) => o += &pdeco(d),
    } }
    o
}
fn parts<'x, 'a>(d: &'x DecoratedText<'a>) -> &'x [Located<DecoratedTextContent<'a>>] { match d { DecoratedText::Bold(v) | DecoratedText::Italic(v) | DecoratedText::Strikeout(v) | DecoratedText::Superscript(v) | DecoratedText::Subscript(v) => v } }
fn pdeco(d: &DecoratedText) -> String {
    parts(d).iter().map(|c| match c.as_inner() { DecoratedTextContent::Text(t) => t.as_str().to_string(), DecoratedTextContent::Keyword(k) => kw(k).into(), DecoratedTextContent::Link(x) => plink(x), DecoratedTextContent::DecoratedText(d) => pdeco(d) }).collect()
}
fn pdata(d: &LinkData) -> String { match &d.description { Some(x) => pdesc(x), None => d.uri_ref.to_string() } }
fn pdesc(d: &Description) -> String { match d { Description::Text(t) => t.to_string(), Description::TransclusionLink(x) => pdata(x) } }
fn plink(x: &Link) -> String {
    match x {
        Link::Diary { date, data } => match &data.description { Some(d) => pdesc(d), None => date.format("%Y-%m-%d").to_string() },
        Link::Wiki { data } | Link::IndexedInterWiki { data, .. } | Link::NamedInterWiki { data, .. } | Link::Raw { data } | Link::Transclusion { data } => pdata(data),
    }
}
fn id_of(s: &str) -> String { esc(&s.to_lowercase().split_whitespace().collect::<Vec<_>>().join("-")) }
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        let h = |c: u8| (c as char).to_digit(16);
        match if b[i] == b'%' && i + 2 < b.len() { h(b[i + 1]).zip(h(b[i + 2])) } else { None } { Some((x, y)) => { o.push((x * 16 + y) as u8); i += 3 } None => { o.push(b[i]); i += 1 } }
    }
    String::from_utf8_lossy(&o).into_owned()
}
impl<'c> W<'c> {
    fn p(&mut self, s: &str) { self.o += s; }
    /// the id itself the first time; later one that is not in use
    fn unique(&mut self, id: &str) -> String {
        if !self.ids.contains_key(id) { self.ids.insert(id.into(), 0); return id.into(); }
        let mut cur = id.to_string();
        while let Some(n) = self.ids.get(&cur).copied() {
            let next = format!("{cur}-{}", n + 1);
            if self.ids.contains_key(&next) { cur += "-1"; } else { self.ids.insert(cur, n + 1); return next; }
        }
        cur
    }
    fn full(&self, below: usize, id: &str) -> String { let mut v: Vec<&str> = self.heads.range(..below).map(|x| x.1.as_str()).collect(); v.push(id); v.join("-") }
    /// an anchor of its own for something below a header
    fn anchor(&mut self, text: &str) -> String {
        let id = id_of(text);
        let own = self.unique(&id);
        if !self.heads.is_empty() { let f = self.full(usize::MAX, &id); let f = self.unique(&f); self.p(&format!("<span id=\"{f}\"></span>")); }
        own
    }
    fn inl(&mut self, v: &InlineElementContainer) -> R {
        for e in v.iter() { match e.as_inner() {
            InlineElement::Text(t) => self.p(&esc(t.as_str())),
            InlineElement::Keyword(k) => self.kw(k),
            InlineElement::Code(t) => self.p(&format!("<code>{}</code>", esc(t.as_str()))),
            InlineElement::Math(t) => self.p(&format!("\\({}\\)", esc(t.as_str()))),
            InlineElement::Tags(t) => for x in t.iter() { let a = self.anchor(x.as_str()); self.p(&format!("<span class=\"tag\" id=\"{a}\">{}</span>", esc(x.as_str()))); },
            InlineElement::Comment(c) => if self.c.comment.include { match c {
                Comment::Line(l) => self.p(&format!("<!-- {} -->", esc(l.as_str()))),
                Comment::MultiLine(m) => { let t: String = m.iter().map(|l| esc(l) + "\n").collect(); self.p(&format!("<!--\n{t}-->")) }
            } },
            InlineElement::Link(x) => self.link(x)?,
            InlineElement::DecoratedText(d) => self.deco(d)?,
        } }
        Ok(())
    }
    fn kw(&mut self, k: &Keyword) { if *k == Keyword::Todo { self.p("<span class=\"todo\">TODO</span>") } else { self.p(kw(k)) } }
    fn deco(&mut self, d: &DecoratedText) -> R {
        let (open, close) = match d {
            DecoratedText::Bold(_) => { let a = self.anchor(&pdeco(d)); (format!("<strong id=\"{a}\">"), "</strong>") }
            DecoratedText::Italic(_) => ("<em>".into(), "</em>"), DecoratedText::Strikeout(_) => ("<del>".into(), "</del>"),
            DecoratedText::Superscript(_) => ("<sup><small>".into(), "</small></sup>"), DecoratedText::Subscript(_) => ("<sub><small>".into(), "</small></sub>"),
        };
        self.p(&open);
        for c in parts(d) { match c.as_inner() { DecoratedTextContent::Text(t) => self.p(&esc(t.as_str())), DecoratedTextContent::Keyword(k) => self.kw(k), DecoratedTextContent::Link(x) => self.link(x)?, DecoratedTextContent::DecoratedText(d) => self.deco(d)? } }
        self.p(close);
        Ok(())
    }
    fn link(&mut self, x: &Link) -> R {
        let href = verif::html_utils::resolve_link(self.c, &self.c.to_current_wiki(), self.c.as_active_page_path_within_wiki(), x).map_err(|_| ())?.to_string();
        let data = x.data();
        let attrs: String = data.properties.iter().flat_map(|m| m.iter()).map(|(k, v)| format!(" {}=\"{}\"", esc(k), esc(v))).collect();
        if matches!(x, Link::Transclusion { .. }) {
            let alt = data.description.as_ref().map(|d| format!(" alt=\"{}\"", esc(&pdesc(d)))).unwrap_or_default();
            self.p(&format!("<img src=\"{href}\"{alt}{attrs} />"));
            return Ok(());
        }
        self.p(&format!("<a href=\"{href}\"{attrs}>"));
        match (&data.description, x) {
            (Some(Description::Text(t)), _) => self.p(&esc(t)),
            (Some(Description::TransclusionLink(d)), _) => self.link(&Link::Transclusion { data: (**d).clone() })?,
            (None, Link::Raw { .. }) => self.p(&esc(&href)),
            (None, Link::Diary { date, .. }) => self.p(&format!("diary:{}", date.format("%Y-%m-%d"))),
            (None, _) => self.p(&esc(&decode(&data.uri_ref.to_string()))),
        }
        self.p("</a>");
        Ok(())
    }
    fn lines(&mut self, v: &[std::borrow::Cow<str>]) { for l in v { let t = esc(l); self.p(&t); self.p("\n"); } }
    fn row(&mut self, t: &Table, r: usize, tag: &str) -> R {
        let kind = |r: usize, c: usize| t.get_cell(r, c).map(|x| x.as_inner());
        if !(0..t.col_cnt()).any(|c| matches!(kind(r, c), Some(Cell::Content(_)))) { return Ok(()); }
        self.p("<tr>\n");
        for c in 0..t.col_cnt() {
            let x = match kind(r, c) { Some(Cell::Content(x)) => x, _ => continue };
            let down = 1 + (r + 1..t.row_cnt()).take_while(|r| matches!(kind(*r, c), Some(Cell::Span(CellSpan::FromAbove)))).count();
            let right = 1 + (c + 1..t.col_cnt()).take_while(|c| matches!(kind(r, *c), Some(Cell::Span(CellSpan::FromLeft)))).count();
            self.p(&format!("<{tag}"));
            if down > 1 { self.p(&format!(" rowspan=\"{down}\"")); }
            if right > 1 { self.p(&format!(" colspan=\"{right}\"")); }
            self.p(">");
            self.inl(x)?;
            self.p(&format!("</{tag}>\n"));
        }
        self.p("</tr>\n");
        Ok(())
    }
    fn blk(&mut self, b: &BlockElement) -> R {
        match b {
            BlockElement::Blockquote(q) => {
                self.p("<blockquote>\n");
                let groups: Vec<String> = q.lines.split(|l| l.is_empty()).filter(|g| !g.is_empty()).map(|g| g.iter().map(|l| l.trim()).collect::<Vec<_>>().join(" ")).collect();
                if groups.len() > 1 { for g in groups { self.p(&format!("<p>{}</p>\n", esc(&g))); } } else { self.lines(&q.lines) }
                self.p("</blockquote>");
            }
            BlockElement::CodeBlock(c) => {
                if self.c.code.server_side { return Err(()); }
                let lang = c.language.as_ref().map(|l| format!(" class=\"{}\"", esc(l))).unwrap_or_default();
                let attrs: String = c.metadata.iter().map(|(k, v)| format!(" {}=\"{}\"", esc(k), esc(v))).collect();
                let text = c.lines.iter().map(|l| esc(l)).collect::<Vec<_>>().join("\n");
                self.p(&format!("<pre><code{lang}{attrs}>{text}</code></pre>"));
            }
            BlockElement::MathBlock(m) => {
                let (a, z) = match &m.environment { Some(e) => (format!("\\begin{{{}}}\n", esc(e)), format!("\\end{{{}}}", esc(e))), None => ("\\[\n".into(), "\\]".to_string()) };
                self.p(&a); self.lines(&m.lines); self.p(&z);
            }
            BlockElement::DefinitionList(d) => {
                self.p("<dl>\n");
                for i in d.items.iter() {
                    self.p("<dt>"); self.inl(i.term.as_inner().as_inner())?; self.p("</dt>\n");
                    for x in i.definitions.iter() { self.p("<dd>"); self.inl(x.as_inner().as_inner())?; self.p("</dd>\n"); }
                }
                self.p("</dl>");
            }
            BlockElement::Divider(_) => self.p("<hr />"),
            BlockElement::Placeholder(_) => {}
            BlockElement::Header(h) => {
                let (n, text) = (h.level, plain(&h.content));
                let id = id_of(&text);
                let own = self.unique(&id);
                self.heads.retain(|l, _| *l < n);
                self.heads.insert(n, id.clone());
                if n == 1 && text.trim() == self.c.header.table_of_contents {
                    self.p(&format!("<div class=\"toc\"><h1 id=\"{own}\">")); self.inl(&h.content)?; self.p("</h1></div>");
                } else {
                    let full = self.full(n, &id);
                    let nested = full != id;
                    let target = if nested { let u = self.unique(&full); self.p(&format!("<div id=\"{u}\">")); u } else { own.clone() };
                    self.p(&format!("<h{n} id=\"{own}\" class=\"header\"><a href=\"#{target}\">"));
                    self.inl(&h.content)?;
                    self.p(&format!("</a></h{n}>{}", if nested { "</div>" } else { "" }));
                }
            }
            BlockElement::List(x) => {
                let t = if x.items.first().map_or(false, |i| matches!(i.ty, ListItemType::Ordered(_))) { "ol" } else { "ul" };
                self.p(&format!("<{t}>\n"));
                for i in &x.items {
                    use ListItemTodoStatus::*;
                    self.p(match i.attributes.todo_status { None => "<li>", Some(Incomplete) => "<li class=\"done0\">", Some(PartiallyComplete1) => "<li class=\"done1\">", Some(PartiallyComplete2) => "<li class=\"done2\">", Some(PartiallyComplete3) => "<li class=\"done3\">", Some(Complete) => "<li class=\"done4\">", Some(Rejected) => "<li class=\"rejected\">" });
                    for b in i.contents.iter() { self.blk(b.as_inner())?; }
                    self.p("</li>\n");
                }
                self.p(&format!("</{t}>"));
            }
            BlockElement::Paragraph(p) => {
                let blank = p.lines.iter().all(|l| l.iter().all(|e| matches!(e.as_inner(), InlineElement::Comment(_))));
                if !blank { self.p("<p>"); }
                for (k, l) in p.lines.iter().enumerate() {
                    if k > 0 { self.p(if self.c.paragraph.ignore_newline { " " } else { "<br />" }); }
                    self.inl(l)?;
                }
                if !blank { self.p("</p>"); }
            }
            BlockElement::Table(t) => {
                self.p(if t.centered { "<table class=\"center\">\n" } else { "<table>\n" });
                let divider = |r: usize| matches!(t.get_cell(r, 0).map(|x| x.as_inner()), Some(Cell::Align(_)));
                let first = (0..t.row_cnt()).find(|r| divider(*r));
                let head: Vec<usize> = (0..first.unwrap_or(0)).collect();
                let body: Vec<usize> = (first.map_or(0, |x| x + 1)..t.row_cnt()).filter(|r| !divider(*r)).collect();
                for (part, tag, rows) in [("thead", "th", head), ("tbody", "td", body)] {
                    if rows.is_empty() { continue; }
                    self.p(&format!("<{part}>\n"));
                    for r in rows { self.row(t, r, tag)?; }
                    self.p(&format!("</{part}>\n"));
                }
                self.p("</table>");
            }
        }
        Ok(())
    }
}
fn config(k: usize) -> HtmlConfig {
    let w = |p: &str, n: &str| HtmlWikiConfig { path: PathBuf::from(p), path_html: PathBuf::from(format!("{p}_html")), name: Some(n.to_string()), ..Default::default() };
    let mut c = HtmlConfig { wikis: vec![w("/w/one", "wn"), w("/w/two", "other")], runtime: HtmlRuntimeConfig { wiki_index: Some(0), page: PathBuf::from("/w/one/sub/page.wiki") }, ..Default::default() };
    c.comment.include = k & 1 != 0;
    c.paragraph.ignore_newline = k & 2 != 0;
    c.list.ignore_newline = k & 2 == 0;
    c.link.canonicalize = k & 4 != 0;
    c.header.table_of_contents = if k & 8 != 0 { "a".into() } else { "Contents".into() };
    c
}
fn judge(p: &Page, k: usize) -> Result<(), String> {
    let c = config(k);
    let got = p.to_html_string(c.clone());
    let mut w = W { c: &c, o: String::new(), heads: Default::default(), ids: Default::default() };
    let mut r = Ok(());
    for b in &p.elements { r = w.blk(b.as_inner()); if r.is_err() { break; } w.p("\n"); }
    match (got, r) {
        (Ok(g), Ok(())) => if g == w.o { Ok(()) } else {
            let i = g.char_indices().zip(w.o.chars()).find(|((_, a), b)| a != b).map_or(g.len().min(w.o.len()), |x| x.0 .0);
            let cut = |s: &str| s.chars().skip(s.get(..i).map_or(0, |x| x.chars().count()).saturating_sub(60)).take(160).collect::<String>();
            Err(format!("html {:?}, expected {:?}", cut(&g), cut(&w.o)))
        },
        (Err(_), Err(())) => Ok(()),
        (Ok(g), Err(())) => Err(format!("html {g:?} for a page with a link that leads nowhere")),
        (Err(e), Ok(())) => Err(format!("no html: {e}")),
    }
}
const HEADS: &[&str] = &["= a =", "= b =", "= Contents =", "== a ==", "== b c ==", "=== a ===", "=== *b* :t: ===", "==== A ====", "====== d ======", "*a* text", ":a:b:", "text *b* *b*", " = Contents = ", "= a-1 =", "== a-b =="];
impl Prop for Exact {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let heads = (1..=if thorough { 4 } else { 3 }).flat_map(|n| (0..HEADS.len().pow(n)).map(move |mut i| { let mut s = String::from("D8 "); for _ in 0..n { s += HEADS[i % HEADS.len()]; s.push('\n'); i /= HEADS.len(); } s }));
        let it = gen::tokens(1).chain(gen::chars(2)).map(|s| format!("D1 {s}"));
        let seeds = (0..if thorough { 200000 } else { 4000 }).map(|k| format!("S{} {}", k % 16, k * 7919 + 1));
        if thorough { Box::new(heads.chain(it).chain(gen::tokens(2).map(|s| format!("D3 {s}"))).chain(seeds)) } else { Box::new(heads.chain(it).chain(seeds)) }
    }
    fn random(&self, r: &mut Rng) -> String {
        let k = r.below(16);
        match r.below(5) {
            0 | 1 => format!("S{} {}", k, r.next() >> 20),
            2 => { let mut s = format!("D{k} "); for _ in 0..2 + r.below(8) { if r.chance(1, 5) { gen::block(r, &mut s, "\n") } else { s += r.pick(HEADS); s.push('\n'); } } s }
            _ => format!("D{} {}", k, gen::any(r)),
        }
    }
    fn check(&self, case: &str) -> Result<(), String> {
        let (h, t) = match case.split_once(' ') { Some(x) => x, None => return Ok(()) };
        let k: usize = match h.get(1..).and_then(|x| x.parse().ok()) { Some(k) => k, None => return Ok(()) };
        if h.starts_with('S') {
            let seed: u64 = match t.parse() { Ok(s) => s, Err(_) => return Ok(()) };
            judge(&model::page(&mut Rng::new(seed)), k)
        } else if h.starts_with('D') {
            match Language::from_vimwiki_str(t).parse::<Page>() { Ok(p) => judge(&p, k), Err(_) => Ok(()) }
        } else { Ok(()) }
    }
}
