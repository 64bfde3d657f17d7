//! P14: copies equal their original, strict equality sees every part, children are complete
use crate::{canon, rng::Rng, tree, Prop};
use serde_json::Value;
use vimwiki_core::*;

pub struct Copies;
/// every part of a page as plain data (the derived serialization); table sizes follow from the cells, the order of a map's entries means nothing
fn data(p: &Page) -> Value { let mut v = serde_json::to_value(p).unwrap(); plain(&mut v); v }
fn plain(v: &mut Value) {
    match v {
        Value::Array(a) => { a.iter_mut().for_each(plain); }
        Value::Object(o) => {
            if o.contains_key("cells") && o.contains_key("row_cnt") { o.remove("row_cnt"); o.remove("col_cnt"); if let Some(Value::Array(a)) = o.get_mut("cells") { a.sort_by_key(|x| x[0].to_string()); } }
            o.values_mut().for_each(plain);
        }
        _ => {}
    }
}
/// paths to the leaves
fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => { if !a.is_empty() { out.push(at.clone()); } for (i, x) in a.iter().enumerate() { at.push(i.to_string()); leaves(x, at, out); at.pop(); } }
        Value::Object(o) => for (k, x) in o { at.push(k.clone()); leaves(x, at, out); at.pop(); },
        _ => out.push(at.clone()),
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value { let mut v = v; for k in p { v = match v { Value::Array(a) => &mut a[k.parse::<usize>().unwrap()], Value::Object(o) => o.get_mut(k).unwrap(), _ => unreachable!() }; } v }
/// what a leaf may be replaced by
fn other(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Null => [Value::from("xx"), Value::from(1), Value::from(true), serde_json::json!({"offset": 1, "len": 2, "depth": 0})][r.below(4)].clone(),
        Value::Bool(b) => Value::from(!b),
        Value::Number(n) => if r.chance(1, 8) { Value::Null } else { Value::from(n.as_u64().unwrap_or(0) + 1) },
        Value::String(s) => match r.below(6) {
            0 => Value::Null,
            // names of variants
            1 | 2 => Value::from(r.pick(&["bold", "italic", "strikeout", "superscript", "subscript", "todo", "done", "started", "fixme", "fixed", "xxx", "hyphen", "asterisk", "number", "pound", "lowercase_alphabet", "uppercase_alphabet", "lowercase_roman", "uppercase_roman", "none", "period", "paren", "from_left", "from_above", "left", "center", "right", "incomplete", "partially_complete1", "partially_complete2", "partially_complete3", "complete", "rejected", "date", "title", "line", "multi_line", "1999-01-02"])),
            3 if !s.is_empty() => { let mut t = s.clone(); t.pop(); Value::from(t) }
            _ => Value::from(format!("{s}x")),
        },
        Value::Array(a) => { let mut b = a.clone(); match r.below(3) { 0 => { b.remove(r.below(a.len())); } 1 if a.len() > 1 => { let i = r.below(a.len() - 1); b.swap(i, i + 1); } _ => { let x = b[r.below(a.len())].clone(); b.push(x); } } Value::Array(b) }
        o => o.clone(),
    }
}
fn uri(p: &[String]) -> bool { p.iter().any(|k| k == "uri_ref" || k == "uri") }
/// regions of the children, in an order of their own
fn kids(mut v: Vec<(Option<(usize, usize, u16)>, &'static str)>) -> Vec<(Option<(usize, usize, u16)>, &'static str)> { v.sort(); v }
fn reg(r: &Region) -> Option<(usize, usize, u16)> { Some((r.offset(), r.len(), r.depth())) }
fn name(e: &Element) -> &'static str {
    match e {
        Element::Block(b) => match b { BlockElement::Blockquote(_) => "blockquote", BlockElement::CodeBlock(_) => "code_block", BlockElement::MathBlock(_) => "math_block", BlockElement::DefinitionList(_) => "definition_list", BlockElement::Divider(_) => "divider", BlockElement::Header(_) => "header", BlockElement::List(_) => "list", BlockElement::Paragraph(_) => "paragraph", BlockElement::Placeholder(_) => "placeholder", BlockElement::Table(_) => "table" },
        Element::InlineBlock(b) => match b { InlineBlockElement::ListItem(_) => "list_item", InlineBlockElement::Term(_) => "term", InlineBlockElement::Definition(_) => "definition" },
        Element::Inline(i) => match i { InlineElement::Text(_) => "text", InlineElement::DecoratedText(_) => "decorated_text", InlineElement::Keyword(_) => "keyword", InlineElement::Link(_) => "link", InlineElement::Tags(_) => "tags", InlineElement::Code(_) => "code_inline", InlineElement::Math(_) => "math_inline", InlineElement::Comment(_) => "comment" },
    }
}
/// nodes that are no elements of their own
fn flat(n: &tree::Node) -> Vec<&tree::Node> { n.children.iter().flat_map(|c| if matches!(c.kind, "cell" | "term_and_definitions" | "definition_bundle") { flat(c) } else { vec![c] }).collect() }
fn children(e: Element, n: &tree::Node) -> Result<(), String> {
    let have = e.clone().into_children();
    let want = flat(n);
    let (h, w) = (kids(have.iter().map(|x| (reg(&x.region()), name(x.as_inner()))).collect()), kids(want.iter().map(|x| (x.region, x.kind)).collect()));
    if h != w { return Err(format!("children of a {} are {h:?}, want {w:?}", n.kind)); }
    let sorted = n.kind != "table" && n.kind != "definition_list";
    if sorted && !have.iter().map(|x| reg(&x.region())).eq(want.iter().map(|x| x.region)) { return Err(format!("children of a {} are out of order", n.kind)); }
    let mut left: Vec<&tree::Node> = want.clone();
    for c in have { let k = left.iter().position(|x| x.region == reg(&c.region()) && x.kind == name(c.as_inner())).unwrap(); let x = left.remove(k); children(c.into_inner(), x)?; }
    Ok(())
}
fn judge(text: &str, r: &mut Rng) -> Result<(), String> {
    let page = match Language::from_vimwiki_str(text).parse::<Page>() { Ok(p) => p, Err(_) => return Ok(()) };
    let d = data(&page);
    let copy = page.to_borrowed();
    if data(&copy) != d { return Err("a borrowed copy differs".into()); }
    if !copy.strict_eq(&page) || !page.strict_eq(&copy) || copy != page { return Err("a borrowed copy does not equal its original".into()); }
    let own = page.clone().into_owned();
    if data(&own) != d { return Err("an owned copy differs".into()); }
    if !own.strict_eq(&page) || !page.strict_eq(&own) || own != page { return Err("an owned copy does not equal its original".into()); }
    for e in &page.elements {
        let x = Element::Block(e.as_inner().clone());
        let y = x.to_borrowed();
        if !y.strict_eq(&x) || y != x { return Err("a borrowed copy of an element does not equal it".into()); }
        let z = y.clone().into_owned();
        if !z.strict_eq(&x) || z != x { return Err("an owned copy of an element does not equal it".into()); }
        let n = tree::block(e);
        children(x, &n)?;
    }
    let mut all = vec![];
    let raw = serde_json::to_value(&page).unwrap();
    leaves(&raw, &mut vec![], &mut all);
    for _ in 0..6 {
        if all.is_empty() { break; }
        let p = &all[r.below(all.len())];
        // the size of a table is not a part of its own: it follows from the cells
        if matches!(p.last().map(|k| k.as_str()), Some("row_cnt" | "col_cnt")) { continue; }
        let mut m = raw.clone();
        let v = at(&mut m, p);
        // spellings of one reference are equal however they differ, so these only grow
        let w = if uri(p) { match v { Value::String(s) => Value::from(format!("{s}x")), _ => continue } } else { other(v, r) };
        *v = w;
        let q: Page = match serde_json::from_value(m) { Ok(q) => q, Err(_) => continue };
        let e = data(&q);
        for (a, b) in [(&page, &q), (&q, &page)] {
            if a.strict_eq(b) != (e == d) { return Err(format!("pages that {} at {} are strictly {}", if e == d { "agree" } else { "differ" }, p.join("/"), if e == d { "different" } else { "equal" })); }
        }
        if e == d && q != page { return Err(format!("pages with equal parts are unequal ({})", p.join("/"))); }
        // the copies of the changed page as well (its pieces hold what no text is parsed to)
        if data(&q.to_borrowed()) != e || data(&q.clone().into_owned()) != e { return Err(format!("a copy of a page changed at {} differs", p.join("/"))); }
    }
    Ok(())
}
impl Prop for Copies {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new((0..if thorough { 60000u64 } else { 3000 }).map(|k| format!("{} {}", k * 104729 + 7, if k % 3 == 0 { "p".to_string() } else { (k / 6 % canon::KINDS as u64).to_string() }))) }
    fn random(&self, r: &mut Rng) -> String { format!("{} p", r.next() >> 20) }
    fn text_case(&self) -> bool { false }
    fn check(&self, case: &str) -> Result<(), String> {
        let (s, what) = match case.split_once(' ') { Some(x) => x, None => return Ok(()) };
        let mut r = Rng::new(match s.parse() { Ok(s) => s, Err(_) => return Ok(()) });
        let text = match what.parse::<usize>() { Ok(n) => canon::block(&mut r, n % canon::KINDS).1, Err(_) => canon::page(&mut r).1 };
        judge(&text, &mut r).map_err(|e| format!("{e}\n--- source\n{text}"))
    }
}
