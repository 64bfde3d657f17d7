//! Documents built from a seed twice: as an element tree and, independently, as vimwiki text.
use crate::rng::Rng;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use uriparse::URIReference;
use vimwiki_core::*;

fn l<T: ElementLike>(x: T) -> Located<T> { Located::from(x) }
fn c(s: &str) -> Cow<'static, str> { Cow::Owned(s.to_string()) }
/// words that mean nothing to vimwiki
const W: &[&str] = &["foo", "bar", "é", "日本", "𝄞x", "x1", "b-c", "w", "100", "(z)", "a.b", "semi;", "q?", "don't", "mix", "cd", "ii", "E", "MC", "C3", "at@x", "a/b", "\"quoted\"", "<b>", "&amp;", "1,5", "\\", "todo", "key=val", "C", "{x} y", "[y]", "50", "!"];
pub fn word(r: &mut Rng) -> &'static str { r.pick(W) }
pub fn words(r: &mut Rng, n: usize) -> String { (0..1 + r.below(n)).map(|_| word(r)).collect::<Vec<_>>().join(" ") }
/// what may be used inside the inline text being built
#[derive(Clone, Copy)]
pub struct Ctx { pub pipe: bool, pub comment: bool, pub multi: bool, pub deco: u8, pub depth: usize, pub link: bool }
pub const TOP: Ctx = Ctx { pipe: true, comment: true, multi: true, deco: 0, depth: 2, link: true };
type Pair<T> = (T, String);

fn keyword(r: &mut Rng) -> Pair<Keyword> { use Keyword::*; let k = [(Todo, "TODO"), (Done, "DONE"), (Started, "STARTED"), (Fixme, "FIXME"), (Fixed, "FIXED"), (Xxx, "XXX")][r.below(6)]; (k.0, k.1.into()) }
/// reference as it is written in a link and as the URI it stands for
fn target(r: &mut Rng) -> Pair<URIReference<'static>> {
    let (t, u) = [("page", "page"), ("some page", "some%20page"), ("dir/page", "dir/page"), ("dir/", "dir/"), ("../up", "../up"), ("/abs/p", "/abs/p"), ("page#anchor", "page#anchor"), ("#anchor", "#anchor"), ("my page#sub title", "my%20page#sub%20title"), ("page#a#b", "page#a%23b"),
        ("日本", "%E6%97%A5%E6%9C%AC"), ("é x", "%C3%A9%20x"), ("file:/x/y", "file:/x/y"), ("local:img.png", "local:img.png"), ("https://h.i/j?k=1", "https://h.i/j?k=1"), ("a.b.wiki", "a.b.wiki"), ("x'y", "x'y"), ("Page-1_2", "Page-1_2"), ("p(1)", "p(1)")][r.below(19)];
    (URIReference::try_from(u).unwrap().into_owned(), t.into())
}
fn date(r: &mut Rng) -> Pair<chrono::NaiveDate> { let (y, m, d) = ([1999, 2021, 2024, 850][r.below(4)], 1 + r.below(12) as u32, 1 + r.below(28) as u32); (chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap(), format!("{y:04}-{m:02}-{d:02}")) }
fn props(r: &mut Rng) -> Pair<HashMap<Cow<'static, str>, Cow<'static, str>>> {
    let mut m = HashMap::new();
    let mut s = vec![];
    for k in ["k", "style", "w"].iter().take(1 + r.below(3)) { let v = if r.chance(1, 5) { String::new() } else { words(r, 2).replace('"', "") }; s.push(format!("{k}=\"{v}\"")); m.insert(c(k), Cow::Owned(v)); }
    (m, s.join(r.pick(&[" ", " ", "  ", "\t"])))
}
fn transclusion(r: &mut Rng, d: bool) -> Pair<LinkData<'static>> {
    let (u, t) = [("https://example.com/img.png", "https://example.com/img.png"), ("local:img.png", "local:img.png"), ("img file.png", "img%20file.png")].map(|(t, u)| (URIReference::try_from(u).unwrap().into_owned(), t.to_string()))[r.below(3)].clone();
    let mut x = LinkData { uri_ref: u, description: None, properties: None };
    let mut s = format!("{{{{{t}");
    if d {
        if r.chance(1, 2) { let w = words(r, 3); s += &format!("|{w}"); x.description = Some(Description::Text(c(&w))); }
        if r.chance(1, 2) { if x.description.is_none() { s.push('|'); x.description = Some(Description::Text(c(""))); } let (m, t) = props(r); s += &format!("|{t}"); x.properties = Some(m); }
    }
    s += "}}";
    (x, s)
}
fn desc(r: &mut Rng, cx: Ctx) -> Pair<Option<Description<'static>>> {
    if !cx.pipe { return (None, String::new()); }
    match r.below(6) { 0 | 1 => (None, String::new()), 2 => { let (d, s) = transclusion(r, false); (Some(Description::TransclusionLink(Box::new(d))), format!("|{s}")) } _ => { let w = words(r, 3).replace("[y]", "y"); let w = w.as_str(); (Some(Description::Text(c(w))), format!("|{w}")) } }
}
fn link(r: &mut Rng, cx: Ctx) -> Pair<Link<'static>> {
    match r.below(8) {
        0 => { let ((u, t), (d, s)) = (target(r), desc(r, cx)); let k = [0u32, 1, 12, 300, 4294967295][r.below(5)]; (Link::new_indexed_interwiki_link(k, u, d), format!("[[wiki{k}:{t}{s}]]")) }
        1 => { let ((u, t), (d, s)) = (target(r), desc(r, cx)); let n = r.pick(&["Name", "my wiki", "é"]); (Link::new_named_interwiki_link(c(n), u, d), format!("[[wn.{n}:{t}{s}]]")) }
        2 => { let ((u, t), (d, s)) = (date(r), desc(r, cx)); let a = if r.chance(1, 3) { Some(r.pick(&["anchor", "Some-Head", "a1"])) } else { None }; (Link::new_diary_link(u, d, a.map(Anchor::from)), format!("[[diary:{t}{}{s}]]", a.map(|x| format!("#{x}")).unwrap_or_default())) }
        3 => { let u = r.pick(&["https://example.com", "https://example.com/a/b?x=1#frag", "http://h.i/%20x", "mailto:me@x.y", "ftp://f.g/", "file:/x/y.txt", "https://h.i/a/b/c/d/e.png?q=1&r=2#s", "http://u@h.i:81/", "local:../a/b"]); (Link::new_raw_link(URIReference::try_from(u).unwrap()), u.to_string()) }
        4 if cx.pipe => { let (d, s) = transclusion(r, true); (Link::Transclusion { data: d }, s) }
        _ => { let ((u, t), (d, s)) = (target(r), desc(r, cx)); (Link::new_wiki_link(u, d), format!("[[{t}{s}]]")) }
    }
}
fn deco(r: &mut Rng, cx: Ctx) -> Option<Pair<DecoratedText<'static>>> {
    let free: Vec<u8> = (0..5).filter(|k| cx.deco & (1 << k) == 0).collect();
    if free.is_empty() { return None; }
    let k = free[r.below(free.len())];
    let cx = Ctx { deco: cx.deco | 1 << k, depth: cx.depth - 1, comment: false, multi: false, ..cx };
    let mut v: Vec<Located<DecoratedTextContent>> = vec![];
    let mut s = String::new();
    let n = 1 + 2 * r.below(2);
    let start = r.below(2);
    for i in 0..n {
        if (i + start) % 2 == 0 {
            let mut w = words(r, 3);
            if i > 0 { w.insert(0, ' '); }
            if i + 1 < n { w.push(if r.chance(1, 12) { '\t' } else { ' ' }); }
            s += &w;
            v.push(l(DecoratedTextContent::Text(Text::from(w))));
        } else {
            match r.below(3) {
                0 => { let (k, t) = keyword(r); s += &t; v.push(l(DecoratedTextContent::Keyword(k))) }
                1 if cx.link => { let (k, t) = link(r, Ctx { pipe: false, ..cx }); if matches!(k, Link::Raw { .. }) { let w = word(r); s += w; v.push(l(DecoratedTextContent::Text(Text::from(w)))); return finish(k_of(k), v, s, 9); } s += &t; v.push(l(DecoratedTextContent::Link(k))) }
                _ => match if cx.depth > 0 { deco(r, cx) } else { None } { Some((d, t)) => { s += &t; v.push(l(DecoratedTextContent::DecoratedText(d))) } None => { let (k, t) = keyword(r); s += &t; v.push(l(DecoratedTextContent::Keyword(k))) } },
            }
        }
    }
    finish(k, v, s, 0)
}
fn k_of(_: Link) -> u8 { 1 }
fn finish(k: u8, v: Vec<Located<DecoratedTextContent<'static>>>, s: String, skip: u8) -> Option<Pair<DecoratedText<'static>>> {
    if skip != 0 { return None; }
    let d = ["*", "_", "~~", "^", ",,"][k as usize];
    if s.contains(d) { return None; }
    let s = format!("{d}{s}{d}");
    Some((match k { 0 => DecoratedText::Bold(v), 1 => DecoratedText::Italic(v), 2 => DecoratedText::Strikeout(v), 3 => DecoratedText::Superscript(v), _ => DecoratedText::Subscript(v) }, s))
}
/// an element other than text
fn atom(r: &mut Rng, cx: Ctx) -> Pair<InlineElement<'static>> {
    loop {
        match r.below(8) {
            0 => { let (k, s) = keyword(r); return (InlineElement::Keyword(k), s) }
            1 => { let w = if r.chance(1, 3) { r.pick(&["*a*", "_b", ":t:", "[[x", "x]]", "$y$", " p ", "TODO", "https://h.i"]).to_string() } else { words(r, 2) }; return (InlineElement::Code(CodeInline::new(c(&w))), format!("`{w}`")) }
            2 => { let w = if r.chance(1, 3) { r.pick(&["\\frac{a}{b}", "x^2", "a_1*b_2*c", "[[x]]", "`z`", " p "]).to_string() } else { words(r, 2) }; return (InlineElement::Math(MathInline::new(c(&w))), format!("${w}$")) }
            3 => { let n = 1 + r.below(3); let v: Vec<&str> = (0..n).map(|_| r.pick(&["tag", "é", "T2", "a-b", "x_y"])).collect(); return (InlineElement::Tags(Tags::new(v.iter().map(|x| Tag::new(c(x))).collect())), format!(":{}:", v.join(":"))) }
            4 | 5 if cx.link => { let (k, s) = link(r, cx); return (InlineElement::Link(k), s) }
            6 if cx.multi && r.chance(1, 2) => {
                let n = 1 + r.below(4);
                let mut v: Vec<String> = (0..n).map(|_| match r.below(6) { 0 => String::new(), 1 => format!(" {}", words(r, 2)), 2 => format!("{} ", words(r, 2)), 3 => r.pick(&["x", "-", "é", "= h ="]).to_string(), _ => words(r, 2) }).collect();
                if v[n - 1].is_empty() { v[n - 1] = "z".into(); }
                let s = format!("%%+{}+%%", v.join("\n"));
                return (InlineElement::Comment(Comment::MultiLine(MultiLineComment::new(v.iter().map(|x| c(x)).collect()))), s)
            }
            7 if cx.depth > 0 => if let Some((d, s)) = deco(r, cx) { return (InlineElement::DecoratedText(d), s) },
            _ => {}
        }
    }
}
/// one line of inline elements, starting and ending with something other than blanks
pub fn inline(r: &mut Rng, cx: Ctx) -> Pair<InlineElementContainer<'static>> {
    let n = 1 + r.below(5);
    let start = if r.chance(1, 4) { 1 } else { 0 };
    let (mut v, mut s) = (vec![], String::new());
    for i in 0..n {
        if (i + start) % 2 == 0 {
            let mut w = words(r, 3);
            if i > 0 { w.insert(0, ' '); }
            if i + 1 < n { w.push(if r.chance(1, 12) { '\t' } else { ' ' }); }
            s += &w;
            v.push(l(InlineElement::Text(Text::from(w))));
        } else {
            let (e, t) = atom(r, Ctx { multi: cx.multi && i > 0, ..cx });
            s += &t;
            v.push(l(e));
        }
    }
    if cx.comment && r.chance(1, 12) {
        let mut w = words(r, 2);
        let text = (n - 1 + start) % 2 == 0;
        // what a comment cuts off is no markup
        if text && r.chance(1, 2) { let (a, b) = [("_", "_"), ("*", "*"), ("~~", "~~"), ("^", "^"), (",,", ",,"), ("[[", "]]"), ("{{", "}}")][r.below(7)]; let x = format!(" {a}{}", r.pick(&["y", "é", "mix"])); s += &x; w += b; if let Some(y) = v.pop() { if let InlineElement::Text(t) = y.into_inner() { v.push(l(InlineElement::Text(Text::from(format!("{}{x}", t.as_str()))))); } } }
        if text { if let Some(x) = v.pop() { if let InlineElement::Text(t) = x.into_inner() { v.push(l(InlineElement::Text(Text::from(format!("{} ", t.as_str()))))); } } s.push(' '); s += &format!("%% {w}"); v.push(l(InlineElement::Comment(Comment::Line(LineComment::new(c(&format!(" {w}"))))))); }
    }
    (InlineElementContainer::new(v), s)
}
/// the element of a line must not begin like another block
fn line_ok(s: &str) -> bool {
    let t = s.trim_start();
    let head: String = t.chars().take_while(|c| c.is_alphanumeric()).collect();
    !(s.contains("::") || t.starts_with(['#', '>', '=', '|', '%', '-']) || (t.starts_with('*') && t[1..].starts_with(' ')) || t.starts_with("{{{") || t.starts_with("{{$") || (!head.is_empty() && (t[head.len()..].starts_with(". ") || t[head.len()..].starts_with(") "))))
}
fn line(r: &mut Rng, cx: Ctx) -> Pair<InlineElementContainer<'static>> { loop { let x = inline(r, cx); if line_ok(&x.1) { return x; } } }
/// source lines are prefixed with `ind`
fn paragraph(r: &mut Rng, ind: &str, multi: bool) -> Pair<Paragraph<'static>> {
    let (mut v, mut s) = (vec![], String::new());
    let n = if ind.is_empty() && r.chance(1, 20) { 12 } else { 1 + r.below(3) };
    for _ in 0..n { let (e, t) = line(r, Ctx { multi, ..TOP }); let more = if !ind.is_empty() { "" } else if v.is_empty() { r.pick(&["", "", "", " ", "   ", "\t"]) } else { r.pick(&["", "", "", " ", "     ", "\t"]) }; v.push(e); s += &format!("{ind}{more}{t}\n"); }
    (Paragraph::new(v), s)
}
fn raw_line(r: &mut Rng) -> String { let w = if r.chance(1, 5) { String::new() } else { words(r, 3) }; if w.is_empty() { w } else { format!("{}{w}", r.pick(&["", "", "  ", "\t", "      "])) } }
/// indentation of the first and the last line of a block of raw lines
fn fences(r: &mut Rng, ind: &str) -> (String, String) { if ind.is_empty() && r.chance(1, 3) { (r.pick(&["", " ", "  ", "   "]).into(), r.pick(&["", " ", "  ", "\t"]).into()) } else { (ind.into(), ind.into()) } }
/// a raw line without the indentation common to both
fn inner<'a>(x: &'a str, ind: &str, a: &str, b: &str) -> &'a str { let n = a.len().min(b.len()).saturating_sub(ind.len()); &x[n.min(x.len() - x.trim_start_matches([' ', '\t']).len())..] }
fn code(r: &mut Rng, ind: &str) -> Pair<CodeBlock<'static>> {
    let lang = if r.chance(1, 2) { Some(r.pick(&["rust", "c++", "é", "python3"])) } else { None };
    let (m, p) = if r.chance(1, 3) { let (m, p) = props(r); (m, p) } else { (HashMap::new(), String::new()) };
    let (a, b) = fences(r, ind);
    let mut s = format!("{a}{{{{{{{}{}{p}{}\n", lang.unwrap_or(""), if lang.is_some() && !p.is_empty() { " " } else { "" }, if lang.is_none() || !p.is_empty() { r.pick(&["", "", " "]) } else { "" });
    let n = r.below(4);
    let v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { r.pick(&["= h =", "- item", "{{{", "%% x", "}}$", "|a|"]).to_string() } else { raw_line(r) }).collect();
    for x in &v { s += &format!("{ind}{x}\n"); }
    s += &format!("{b}}}}}}}{}\n", r.pick(&["", "", " \t"]));
    (CodeBlock::new(lang.map(c), m, v.iter().map(|x| c(inner(x, ind, &a, &b))).collect()), s)
}
fn math(r: &mut Rng, ind: &str) -> Pair<MathBlock<'static>> {
    let env = if r.chance(1, 2) { Some(r.pick(&["align", "gather*", "é"])) } else { None };
    let (a, b) = fences(r, ind);
    let mut s = format!("{a}{{{{${}\n", env.map(|e| format!("%{e}%")).unwrap_or_default());
    let n = r.below(4);
    let v: Vec<String> = (0..n).map(|_| raw_line(r)).collect();
    for x in &v { s += &format!("{ind}{x}\n"); }
    s += &format!("{b}}}}}${}\n", r.pick(&["", "", " \t"]));
    (MathBlock::new(v.iter().map(|x| c(inner(x, ind, &a, &b))).collect(), env.map(c)), s)
}
fn blockquote(r: &mut Rng, ind: &str) -> Pair<Blockquote<'static>> {
    let n = 1 + r.below(4);
    let (mut v, mut s) = (vec![], String::new());
    for k in 0..n {
        if k > 0 && k + 1 < n && r.chance(1, 4) && ind.is_empty() { v.push(c("")); s += r.pick(&["\n", "> \n", ">\n"]); } else { let w = words(r, 4); v.push(c(&w)); let more = if ind.is_empty() { r.pick(&["", "", " ", "   "]) } else { "" }; s += &format!("{ind}{more}> {w}\n"); }
    }
    (Blockquote::new(v), s)
}
fn table(r: &mut Rng, ind: &str, top: bool) -> Pair<Table<'static>> {
    let (rows, cols) = if top && r.chance(1, 20) { (1 + r.below(14), 1 + r.below(12)) } else { (1 + r.below(4), 1 + r.below(3)) };
    let centered = top && r.chance(1, 4);
    let div = if r.chance(1, 2) { Some(if rows > 1 && r.chance(1, 4) { 0 } else { 1 + r.below(2) }) } else { None };
    let pre = if centered { r.pick(&["   ", " ", "\t"]) } else { "" };
    let (mut cells, mut s) = (vec![], String::new());
    for row in 0..rows {
        s += &format!("{ind}{pre}|");
        for col in 0..cols {
            let cell = if Some(row) == div {
                let (a, t) = [(ColumnAlign::None, "---"), (ColumnAlign::Left, ":--"), (ColumnAlign::Center, ":-:"), (ColumnAlign::Right, "-:"), (ColumnAlign::None, "-")][r.below(5)];
                s += t;
                Cell::Align(a)
            } else {
                match r.below(9) {
                    0 => { s += r.pick(&[">", " > "]); Cell::Span(CellSpan::FromLeft) }
                    1 => { s += r.pick(&["\\/", " \\/ "]); Cell::Span(CellSpan::FromAbove) }
                    2 => { s += " - "; Cell::Content(InlineElementContainer::new(vec![l(InlineElement::Text(Text::from(" - ")))])) }
                    _ => { let (e, t) = loop { let x = inline(r, Ctx { pipe: false, comment: false, multi: false, deco: 0, depth: 1, link: true }); if !x.1.contains('|') { break x; } }; s += &format!(" {t} "); Cell::Content(pad(e)) }
                }
            };
            s.push('|');
            cells.push((CellPos { row, col }, l(cell)));
        }
        s.push('\n');
    }
    (Table::new(cells, centered), s)
}
/// the same content between blanks
fn pad(e: InlineElementContainer<'static>) -> InlineElementContainer<'static> {
    let mut v: Vec<InlineElement<'static>> = e.iter().map(|x| x.as_inner().clone().into_owned()).collect();
    match v.first_mut() { Some(InlineElement::Text(t)) => *t = Text::from(format!(" {}", t.as_str())), _ => v.insert(0, InlineElement::Text(Text::from(" "))) }
    match v.last_mut() { Some(InlineElement::Text(t)) => *t = Text::from(format!("{} ", t.as_str())), _ => v.push(InlineElement::Text(Text::from(" "))) }
    InlineElementContainer::new(v.into_iter().map(l).collect())
}
fn deflist(r: &mut Rng, ind: &str) -> Pair<DefinitionList<'static>> {
    let (mut v, mut s) = (vec![], String::new());
    let cx = Ctx { pipe: true, comment: false, multi: false, deco: 0, depth: 1, link: true };
    let one = |r: &mut Rng| loop { let x = line(r, cx); if !x.1.contains("::") && !x.1.contains("%%") && !x.1.ends_with(':') { return x; } };
    for _ in 0..1 + r.below(3) {
        let (t, ts) = one(r);
        s += &format!("{ind}{ts}::");
        let n = 1 + r.below(3);
        let same = r.chance(2, 3);
        let mut d = vec![];
        if !same { s += r.pick(&["\n", "\n", " \n", "\t \n"]); }
        for k in 0..n { let (e, t) = one(r); if k == 0 && same { s += &format!("{}{t}\n", r.pick(&[" ", " ", "  ", "\t"])) } else { s += &format!("{ind}{}::{}{t}\n", r.pick(&["", "", " "]), r.pick(&[" ", " ", "\t", "   "])) } d.push(l(DefinitionListValue::new(e))); }
        v.push(l(TermAndDefinitions::new(l(DefinitionListValue::new(t)), l(DefinitionBundle::new(d)))));
    }
    (DefinitionList::new(v), s)
}
fn alpha(mut n: usize, base: u8) -> String { let mut v = vec![]; n += 1; while n > 0 { n -= 1; v.push((base + (n % 26) as u8) as char); n /= 26; } v.iter().rev().collect() }
fn roman(n: usize) -> String {
    let mut n = n + 1;
    let mut s = String::new();
    for (v, t) in [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] { while n >= v { s += t; n -= v; } }
    s
}
fn list(r: &mut Rng, ind: &str, d: usize) -> Pair<List<'static>> {
    use OrderedListItemType::*;
    let long = d == 2 && r.chance(1, 10);
    let n = if long { 20 + r.below(110) } else { 1 + r.below(4) };
    let k = r.below(8);
    let suf = if r.chance(1, 2) { (ListItemSuffix::Period, ".") } else { (ListItemSuffix::Paren, ")") };
    let (mut v, mut s) = (vec![], String::new());
    let from = if k == 7 && r.chance(1, 3) { [8, 40, 998][r.below(3)] } else { 0 };
    for pos in 0..n {
        let (ty, sx, p): (ListItemType, _, String) = match k {
            0 | 1 => (UnorderedListItemType::Hyphen.into(), ListItemSuffix::None, "-".into()), 2 => (UnorderedListItemType::Asterisk.into(), ListItemSuffix::None, "*".into()), 3 => (Pound.into(), ListItemSuffix::None, "#".into()),
            4 => (Number.into(), suf.0, format!("{}{}", pos + 1, suf.1)), 5 => (LowercaseAlphabet.into(), suf.0, alpha(pos, b'a') + suf.1), 6 => (UppercaseAlphabet.into(), suf.0, alpha(pos, b'A') + suf.1),
            _ => if suf.1 == "." { (LowercaseRoman.into(), suf.0, roman(pos + from) + suf.1) } else { (UppercaseRoman.into(), suf.0, roman(pos + from).to_uppercase() + suf.1) },
        };
        let (st, ss) = [(None, ""), (None, ""), (Some(ListItemTodoStatus::Incomplete), "[ ] "), (Some(ListItemTodoStatus::PartiallyComplete1), "[.] "), (Some(ListItemTodoStatus::PartiallyComplete2), "[o] "), (Some(ListItemTodoStatus::PartiallyComplete3), "[O] "), (Some(ListItemTodoStatus::Complete), "[X] "), (Some(ListItemTodoStatus::Rejected), "[-] ")][r.below(8)];
        let sub = format!("{ind}{}", r.pick(&["  ", "    ", "   "]));
        let (first, fs) = if long { let w = word_ok(r); (Paragraph::new(vec![InlineElementContainer::new(vec![l(InlineElement::Text(Text::from(w)))])]), format!("{sub}{w}\n")) } else { paragraph(r, &sub, false) };
        s += &format!("{ind}{p} {ss}{}", &fs[sub.len()..]);
        let mut items = vec![l(BlockElement::Paragraph(first))];
        if !long && d > 0 {
            let mut last = 0;
            for _ in 0..if r.chance(1, 10) { 5 } else { r.below(3) } {
                let k = 1 + r.below(6);
                if k == last { continue; }
                let (b, t): Pair<BlockElement> = match k {
                    1 => { let (x, t) = list(r, &sub, d - 1); (x.into(), t) }
                    2 => { let (x, t) = code(r, &sub); (x.into(), t) }
                    3 => { let (x, t) = math(r, &sub); (x.into(), t) }
                    4 => { let (x, t) = blockquote(r, &sub); (x.into(), t) }
                    5 => { let (x, t) = table(r, &sub, false); (x.into(), t) }
                    _ => { let (x, t) = deflist(r, &sub); (x.into(), t) }
                };
                last = k;
                items.push(l(b));
                s += &t;
            }
        }
        v.push(l(ListItem::new(ty, sx, pos, ListItemContents::new(items), ListItemAttributes { todo_status: st })));
    }
    (List::new(v), s)
}
fn word_ok(r: &mut Rng) -> &'static str { loop { let w = word(r); if line_ok(w) { return w; } } }
fn placeholder(r: &mut Rng) -> Pair<Placeholder<'static>> {
    match r.below(5) {
        0 => { let w = words(r, 3); (Placeholder::Title(c(&w)), format!("%title {w}\n")) }
        1 => (Placeholder::NoHtml, format!("%nohtml{}\n", r.pick(&["", " ", "\t"]))),
        2 => { let w = word(r); (Placeholder::Template(c(w)), format!("%template {w}\n")) }
        3 => { let (d, s) = date(r); (Placeholder::Date(d), format!("%date{}{s}\n", r.pick(&[" ", "\t", "  "]))) }
        _ => { let w = words(r, 2); let n = r.pick(&["other", "x", "titel", "data", "temp", "nohtm", "é"]); (Placeholder::Other { name: c(n), value: c(&w) }, format!("%{n} {w}\n")) }
    }
}
pub const KINDS: usize = 11;
pub fn block(r: &mut Rng, k: usize) -> Pair<BlockElement<'static>> {
    match k {
        0 => {
            let lv = 1 + r.below(6);
            let centered = r.chance(1, 4);
            let (e, t) = loop { let x = inline(r, Ctx { comment: false, multi: false, ..TOP }); if !x.1.starts_with(['=', ':']) && !x.1.ends_with('=') && !x.1.contains("%%") { break x; } };
            let q = "=".repeat(lv);
            let p = if r.chance(1, 5) { "" } else { " " };
            (BlockElement::Header(Header::new(e, lv, centered)), format!("{}{q}{p}{t}{p}{q}{}\n", if centered { r.pick(&[" ", "     ", "\t"]) } else { "" }, if r.chance(1, 6) { r.pick(&[" ", "\t "]) } else { "" }))
        }
        1 => (BlockElement::Divider(Divider), format!("{}\n", "-".repeat(4 + r.below(4)))),
        2 => { let (x, t) = blockquote(r, ""); (x.into(), t) }
        3 => { let (x, t) = list(r, "", 2); (x.into(), t) }
        4 => { let (x, t) = code(r, ""); (x.into(), t) }
        5 => { let (x, t) = math(r, ""); (x.into(), t) }
        6 => { let (x, t) = table(r, "", true); (x.into(), t) }
        7 => { let (x, t) = deflist(r, ""); (x.into(), t) }
        8 => { let (x, t) = placeholder(r); (x.into(), t) }
        9 => { let n = 1 + r.below(3); let v: Vec<String> = (0..n).map(|_| words(r, 3)).collect(); (Blockquote::new(v.iter().map(|x| c(x)).collect()).into(), v.iter().map(|x| format!("{}{x}\n", r.pick(&["    ", "    ", "      ", "\t   ", "    \t"]))).collect()) }
        _ => { let (x, t) = paragraph(r, "", true); (x.into(), t) }
    }
}
/// a page and its source; elements are set apart by blank lines unless they cannot run together
pub fn page(r: &mut Rng) -> Pair<Page<'static>> {
    let (mut v, mut s) = (vec![], String::new());
    let mut last = 99;
    for _ in 0..1 + r.below(4) {
        let mut k = r.below(KINDS + 2);
        if k > KINDS { k = 3 }
        if k == last && (k == 2 || k == 9 || k == 7) { continue; }
        if last == 2 && k == 9 || last == 9 && k == 2 { continue; }
        let (b, t) = block(r, k);
        // these end by themselves, or with the line that begins the next
        let apart = !(matches!(last, 0 | 1 | 4 | 5 | 8) || last == 6 && !matches!(k, 6) || last == 10 && matches!(k, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 8)) || t.starts_with([' ', '\t']);
        if !s.is_empty() && (apart || r.chance(1, 2)) { s.push('\n'); }
        s += &t;
        v.push(l(b));
        last = k;
    }
    if r.chance(1, 6) { s.truncate(s.trim_end_matches('\n').len()); }
    (Page { elements: v }, s)
}
