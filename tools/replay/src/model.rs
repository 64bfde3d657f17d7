//! Trees built directly from a seed, with arbitrary text in every position that holds text.
use crate::rng::Rng;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use uriparse::URIReference;
use vimwiki_core::*;

const P: &[&str] = &["a", "b1", "é", "日", "𝄞", " ", "<", ">", "<b>", "</p>", "\"", "'", "`", "&", "&amp;", "&#x27;", "-->", "<!--", "--", "-", "!", "/", "\\", "%title%", "%content%", "{{", "}}", "=", "x=\"y\"", "\t", "<br/>", "]]>", ">>", "W", "Contents", ";", "#", "?"];
fn l<T: ElementLike>(x: T) -> Located<T> { Located::from(x) }
pub fn wild(r: &mut Rng, n: usize) -> String { let mut s = String::new(); for _ in 0..r.below(n + 1) { s.push_str(r.pick(P)); } s }
pub fn cow(r: &mut Rng, n: usize) -> Cow<'static, str> { Cow::Owned(wild(r, n)) }
pub fn todo(k: usize) -> Option<ListItemTodoStatus> {
    use ListItemTodoStatus::*;
    match k % 7 { 0 => None, 1 => Some(Incomplete), 2 => Some(PartiallyComplete1), 3 => Some(PartiallyComplete2), 4 => Some(PartiallyComplete3), 5 => Some(Complete), _ => Some(Rejected) }
}
fn keyword(r: &mut Rng) -> Keyword { use Keyword::*; [Todo, Done, Started, Fixme, Fixed, Xxx][r.below(6)] }
fn uri(r: &mut Rng) -> URIReference<'static> {
    let s = match r.below(8) { 0 => "a&b".to_string(), 1 => "x#y'z".into(), 2 => "https://h.i/j?k=1&l='2'".into(), 3 => "file:/x/y".into(), 4 => "#anchor".into(), 5 => "dir/".into(), _ => crate::gen::uri(r) };
    match URIReference::try_from(s.as_str()) { Ok(u) => u.into_owned(), Err(_) => URIReference::try_from("page").unwrap().into_owned() }
}
fn props(r: &mut Rng) -> Option<HashMap<Cow<'static, str>, Cow<'static, str>>> {
    if r.chance(1, 2) { return None; }
    let mut m = HashMap::new();
    for _ in 0..r.below(3) { m.insert(cow(r, 3), cow(r, 4)); }
    Some(m)
}
fn desc(r: &mut Rng) -> Option<Description<'static>> {
    match r.below(4) { 0 => None, 1 => Some(Description::TransclusionLink(Box::new(LinkData { uri_ref: uri(r), description: if r.chance(1, 2) { Some(Description::Text(cow(r, 4))) } else { None }, properties: props(r) }))), _ => Some(Description::Text(cow(r, 5))) }
}
fn link(r: &mut Rng) -> Link<'static> {
    match r.below(7) {
        0 => Link::new_indexed_interwiki_link(r.below(2) as u32, uri(r), desc(r)),
        1 => Link::new_named_interwiki_link(Cow::Borrowed("wn"), uri(r), desc(r)),
        2 => Link::new_diary_link(chrono::NaiveDate::from_ymd_opt(2021, 1 + r.below(12) as u32, 1 + r.below(28) as u32).unwrap(), desc(r), None),
        3 => Link::new_raw_link(uri(r)),
        4 | 5 => Link::new_transclusion_link(uri(r), desc(r), props(r)),
        _ => Link::new_wiki_link(uri(r), desc(r)),
    }
}
fn deco(r: &mut Rng, d: usize) -> DecoratedText<'static> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        v.push(l(match r.below(if d == 0 { 3 } else { 5 }) {
            0 | 1 => DecoratedTextContent::Text(Text::from(wild(r, 5))), 2 => DecoratedTextContent::Keyword(keyword(r)), 3 => DecoratedTextContent::Link(link(r)), _ => DecoratedTextContent::DecoratedText(deco(r, d - 1)),
        }));
    }
    match r.below(5) { 0 => DecoratedText::Bold(v), 1 => DecoratedText::Italic(v), 2 => DecoratedText::Strikeout(v), 3 => DecoratedText::Superscript(v), _ => DecoratedText::Subscript(v) }
}
pub fn inline(r: &mut Rng, d: usize) -> InlineElement<'static> {
    match r.below(12) {
        0 | 1 | 2 => InlineElement::Text(Text::from(wild(r, 6))),
        3 => InlineElement::Keyword(keyword(r)),
        4 => InlineElement::Code(CodeInline::new(cow(r, 5))),
        5 => InlineElement::Math(MathInline::new(cow(r, 5))),
        6 => InlineElement::Comment(if r.chance(1, 2) { Comment::Line(LineComment::new(cow(r, 6))) } else { let n = r.below(3); Comment::MultiLine(MultiLineComment::new((0..n).map(|_| cow(r, 6)).collect())) }),
        7 => InlineElement::Tags(Tags::new((0..r.below(3)).map(|_| Tag::new(cow(r, 4))).collect())),
        8 | 9 => InlineElement::Link(link(r)),
        _ => InlineElement::DecoratedText(deco(r, d)),
    }
}
pub fn container(r: &mut Rng, d: usize) -> InlineElementContainer<'static> { let n = r.below(4); InlineElementContainer::new((0..n).map(|_| l(inline(r, d))).collect()) }
fn list(r: &mut Rng, d: usize) -> List<'static> {
    use OrderedListItemType::*;
    let mut items = vec![];
    for k in 0..r.below(4) {
        let ty: ListItemType = match r.below(6) { 0 => Number.into(), 1 => LowercaseRoman.into(), 2 => UppercaseAlphabet.into(), 3 => UnorderedListItemType::Other(cow(r, 3)).into(), _ => UnorderedListItemType::Hyphen.into() };
        let mut c = vec![];
        for _ in 0..r.below(3) { c.push(l(if d == 0 { BlockElement::Paragraph(paragraph(r)) } else { block(r, d - 1) })); }
        items.push(l(ListItem::new(ty, ListItemSuffix::Period, k, ListItemContents::new(c), ListItemAttributes { todo_status: todo(r.below(12)) })));
    }
    List::new(items)
}
fn paragraph(r: &mut Rng) -> Paragraph<'static> { let n = r.below(4); Paragraph::new((0..n).map(|_| container(r, 2)).collect()) }
fn table(r: &mut Rng) -> Table<'static> {
    let (rows, cols) = (r.below(4), 1 + r.below(3));
    let div = if r.chance(1, 2) { r.below(3) } else { 9 };
    let mut cells = vec![];
    for row in 0..rows { for col in 0..cols {
        let c = if row == div { Cell::Align([ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right][r.below(4)]) }
            else { match r.below(8) { 0 => Cell::Span(CellSpan::FromLeft), 1 => Cell::Span(CellSpan::FromAbove), _ => Cell::Content(container(r, 1)) } };
        cells.push((CellPos { row, col }, l(c)));
    } }
    Table::new(cells, r.chance(1, 4))
}
pub fn block(r: &mut Rng, d: usize) -> BlockElement<'static> {
    match r.below(14) {
        0 => { let n = r.below(4); BlockElement::Blockquote(Blockquote::new((0..n).map(|_| if r.chance(1, 4) { Cow::Borrowed("") } else { cow(r, 5) }).collect())) }
        1 => {
            let n = r.below(3);
            BlockElement::DefinitionList(DefinitionList::new((0..n).map(|_| {
                let t = l(DefinitionListValue::new(container(r, 1)));
                let m = r.below(3);
                l(TermAndDefinitions::new(t, l(DefinitionBundle::new((0..m).map(|_| l(DefinitionListValue::new(container(r, 1)))).collect()))))
            }).collect()))
        }
        2 => BlockElement::Divider(Divider),
        3 | 4 | 5 => BlockElement::Header(Header::new(container(r, 2), 1 + r.below(7), r.chance(1, 3))),
        6 => BlockElement::List(list(r, d)),
        7 => { let n = r.below(4); BlockElement::MathBlock(MathBlock::new((0..n).map(|_| cow(r, 5)).collect(), if r.chance(1, 2) { Some(cow(r, 3)) } else { None })) }
        8 => BlockElement::Placeholder(match r.below(5) { 0 => Placeholder::Title(cow(r, 4)), 1 => Placeholder::NoHtml, 2 => Placeholder::Template(cow(r, 3)), 3 => Placeholder::Other { name: cow(r, 2), value: cow(r, 3) }, _ => Placeholder::Date(chrono::NaiveDate::from_ymd_opt(2021, 5, 6).unwrap()) }),
        9 => { let n = r.below(4); BlockElement::CodeBlock(CodeBlock::new(if r.chance(1, 2) { Some(if r.chance(1, 3) { Cow::Borrowed("rust") } else { cow(r, 3) }) } else { None }, props(r).unwrap_or_default(), (0..n).map(|_| cow(r, 5)).collect())) }
        10 => BlockElement::Table(table(r)),
        _ => BlockElement::Paragraph(paragraph(r)),
    }
}
pub fn page(r: &mut Rng) -> Page<'static> { let n = 1 + r.below(4); Page { elements: (0..n).map(|_| l(block(r, 2))).collect() } }
