//! A plain tree view of a parsed page: kind, region, verbatim texts, children.
use vimwiki_core::*;

#[derive(Debug, Default, Clone)]
pub struct Node {
    pub kind: &'static str,
    pub region: Option<(usize, usize, u16)>,
    /// pieces of text that must be taken verbatim from the source
    pub texts: Vec<String>,
    pub children: Vec<Node>,
}

fn reg(r: &Region) -> Option<(usize, usize, u16)> { Some((r.offset(), r.len(), r.depth())) }
fn n(kind: &'static str, region: Option<(usize, usize, u16)>) -> Node { Node { kind, region, texts: vec![], children: vec![] } }

pub fn page(p: &Page) -> Node {
    let mut x = n("page", None);
    x.children = p.elements.iter().map(block).collect();
    x
}
pub fn block(b: &Located<BlockElement>) -> Node {
    let r = reg(&b.region());
    match b.as_inner() {
        BlockElement::Blockquote(q) => { let mut x = n("blockquote", r); x.texts = q.lines.iter().map(|l| l.to_string()).collect(); x }
        BlockElement::CodeBlock(c) => {
            let mut x = n("code_block", r);
            x.texts = c.lines.iter().map(|l| l.to_string()).collect();
            if let Some(l) = &c.language { x.texts.push(l.to_string()); }
            for (k, v) in &c.metadata { x.texts.push(k.to_string()); x.texts.push(v.to_string()); }
            x
        }
        BlockElement::MathBlock(c) => {
            let mut x = n("math_block", r);
            x.texts = c.lines.iter().map(|l| l.to_string()).collect();
            if let Some(l) = &c.environment { x.texts.push(l.to_string()); }
            x
        }
        BlockElement::DefinitionList(d) => {
            let mut x = n("definition_list", r);
            for i in d.iter() {
                let mut y = n("term_and_definitions", reg(&i.region()));
                let td = i.as_inner();
                let mut t = n("term", reg(&td.term.region()));
                t.children = td.term.as_inner().as_inner().iter().map(inline).collect();
                y.children.push(t);
                let mut b = n("definition_bundle", reg(&td.definitions.region()));
                for de in td.definitions.as_inner().iter() {
                    let mut t = n("definition", reg(&de.region()));
                    t.children = de.as_inner().as_inner().iter().map(inline).collect();
                    b.children.push(t);
                }
                y.children.push(b);
                x.children.push(y);
            }
            x
        }
        BlockElement::Divider(_) => n("divider", r),
        BlockElement::Header(h) => { let mut x = n("header", r); x.children = h.content.iter().map(inline).collect(); x }
        BlockElement::List(l) => list(l, r),
        BlockElement::Paragraph(p) => { let mut x = n("paragraph", r); for l in &p.lines { x.children.extend(l.iter().map(inline)); } x }
        BlockElement::Placeholder(p) => {
            let mut x = n("placeholder", r);
            match p {
                Placeholder::Title(t) | Placeholder::Template(t) => x.texts.push(t.to_string()),
                Placeholder::Other { name, value } => { x.texts.push(name.to_string()); x.texts.push(value.to_string()); }
                _ => {}
            }
            x
        }
        BlockElement::Table(t) => {
            let mut x = n("table", r);
            let mut cells: Vec<_> = t.as_data().iter().collect();
            cells.sort_by_key(|(p, _)| (p.row, p.col));
            for (_, c) in cells {
                let mut y = n("cell", reg(&c.region()));
                if let Cell::Content(i) = c.as_inner() { y.children = i.iter().map(inline).collect(); }
                x.children.push(y);
            }
            x
        }
    }
}
pub fn list(l: &List, r: Option<(usize, usize, u16)>) -> Node {
    let mut x = n("list", r);
    for i in &l.items { x.children.push(list_item(i)); }
    x
}
pub fn list_item(i: &Located<ListItem>) -> Node {
    let mut y = n("list_item", reg(&i.region()));
    let it = i.as_inner();
    if let ListItemType::Unordered(UnorderedListItemType::Other(s)) = &it.ty { y.texts.push(s.to_string()); }
    y.children = it.contents.iter().map(block).collect();
    y
}
pub fn inline(i: &Located<InlineElement>) -> Node {
    let r = reg(&i.region());
    match i.as_inner() {
        InlineElement::Text(t) => { let mut x = n("text", r); x.texts.push(t.as_str().to_string()); x }
        InlineElement::DecoratedText(d) => decorated(d, r),
        InlineElement::Keyword(_) => n("keyword", r),
        InlineElement::Link(l) => link(l, r),
        InlineElement::Tags(t) => tags(t, r),
        InlineElement::Code(c) => { let mut x = n("code_inline", r); x.texts.push(c.as_str().to_string()); x }
        InlineElement::Math(c) => { let mut x = n("math_inline", r); x.texts.push(c.as_str().to_string()); x }
        InlineElement::Comment(c) => comment(c, r),
    }
}
pub fn tags(t: &Tags, r: Option<(usize, usize, u16)>) -> Node {
    let mut x = n("tags", r);
    x.texts = t.into_iter().map(|t| t.as_str().to_string()).collect();
    x
}
pub fn comment(c: &Comment, r: Option<(usize, usize, u16)>) -> Node {
    let mut x = n("comment", r);
    match c {
        Comment::Line(l) => x.texts.push(l.as_str().to_string()),
        Comment::MultiLine(m) => x.texts = m.into_iter().map(|l| l.to_string()).collect(),
    }
    x
}
pub fn decorated(d: &DecoratedText, r: Option<(usize, usize, u16)>) -> Node {
    let mut x = n("decorated_text", r);
    for c in d.as_contents_slice() {
        let r = reg(&c.region());
        x.children.push(match c.as_inner() {
            DecoratedTextContent::Text(t) => { let mut x = n("text", r); x.texts.push(t.as_str().to_string()); x }
            DecoratedTextContent::DecoratedText(d) => decorated(d, r),
            DecoratedTextContent::Keyword(_) => n("keyword", r),
            DecoratedTextContent::Link(l) => link(l, r),
        });
    }
    x
}
pub fn link(l: &Link, r: Option<(usize, usize, u16)>) -> Node {
    let mut x = n("link", r);
    if let Link::NamedInterWiki { name, .. } = l { x.texts.push(name.to_string()); }
    if let Some(Description::Text(t)) = l.description() { x.texts.push(t.to_string()); }
    if let Some(p) = l.properties() { for (k, v) in p { x.texts.push(k.to_string()); x.texts.push(v.to_string()); } }
    x
}
