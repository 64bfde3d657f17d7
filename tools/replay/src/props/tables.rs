//! P07: iteration order, spans, alignment and header/body split of tables
use crate::{rng::Rng, Prop};
use std::collections::BTreeMap;
use vimwiki_core::*;

pub struct Tables;
type Map = BTreeMap<(usize, usize), u8>;
// cell kinds: 0 content, 1 from left, 2 from above, 3..=6 alignment
fn cell(k: u8, tag: String) -> Cell<'static> {
    match k {
        0 => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(tag)))])),
        1 => Cell::Span(CellSpan::FromLeft),
        2 => Cell::Span(CellSpan::FromAbove),
        k => Cell::Align(align(k)),
    }
}
fn align(k: u8) -> ColumnAlign { match k { 3 => ColumnAlign::None, 4 => ColumnAlign::Left, 5 => ColumnAlign::Center, _ => ColumnAlign::Right } }
fn model(rows: usize, cols: usize, mut code: u64, kinds: u64) -> Map {
    let mut m = Map::new();
    let seed = code;
    for r in 0..rows { for c in 0..cols {
        // larger tables go on from what the number is mixed into
        if rows * cols > 25 && code == 0 { code = seed.wrapping_add((r * 64 + c) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 3; }
        let k = code % (kinds + 1);
        code /= kinds + 1;
        if k > 0 { m.insert((r, c), (k - 1) as u8); }
    } }
    m
}
fn table(m: &Map) -> Table<'static> {
    Table::new(m.iter().map(|(&(r, c), &k)| (CellPos::new(r, c), Located::from(cell(k, format!("{r},{c}"))))), false)
}
fn same(at: (usize, usize), k: u8, x: &Cell) -> bool {
    match x {
        Cell::Content(i) => k == 0 && i.to_string() == format!("{},{}", at.0, at.1),
        Cell::Span(CellSpan::FromLeft) => k == 1,
        Cell::Span(CellSpan::FromAbove) => k == 2,
        Cell::Align(a) => k >= 3 && *a == align(k),
    }
}
fn cmp<C: std::borrow::Borrow<Cell<'static>>>(what: &str, want: &[((usize, usize), u8)], got: Vec<(Option<CellPos>, C)>) -> Result<(), String> {
    let show = |g: &[(Option<CellPos>, C)]| g.iter().map(|(p, c)| format!("{p:?}:{:?}", c.borrow())).collect::<Vec<_>>().join(" ");
    if want.len() != got.len() { return Err(format!("{what} yields {} cells instead of {}: {}", got.len(), want.len(), show(&got))); }
    for ((at, k), (p, c)) in want.iter().zip(&got) {
        if !same(*at, *k, c.borrow()) || p.map_or(false, |p| (p.row, p.col) != *at) { return Err(format!("{what} yields {p:?} {:?} where the cell at {at:?} (kind {k}) is due", c.borrow())); }
    }
    Ok(())
}
fn check(m: &Map) -> Result<(), String> {
    let t = table(m);
    let (rc, cc) = m.keys().fold((0, 0), |a, p| (a.0.max(p.0 + 1), a.1.max(p.1 + 1)));
    if (t.row_cnt(), t.col_cnt(), t.len(), t.is_empty()) != (rc, cc, m.len(), m.is_empty()) { return Err(format!("counts {:?}, expected {:?}", (t.row_cnt(), t.col_cnt(), t.len()), (rc, cc, m.len()))); }
    let of = |f: &dyn Fn((usize, usize)) -> bool, by_col: bool| { let mut v: Vec<_> = m.iter().map(|(a, b)| (*a, *b)).filter(|x| f(x.0)).collect(); if by_col { v.sort_by_key(|x| (x.0 .1, x.0 .0)); } v };
    let all = of(&|_| true, false);
    let lim = 4 * (rc + 2) * (cc + 2) + 8;
    fn plain<'a>(i: impl Iterator<Item = &'a Located<Cell<'static>>>, lim: usize) -> Vec<(Option<CellPos>, &'a Cell<'static>)> { i.take(lim).map(|c| (None, c.as_inner())).collect() }
    fn zip<'a>(i: impl Iterator<Item = (CellPos, &'a Located<Cell<'static>>)>, lim: usize) -> Vec<(Option<CellPos>, &'a Cell<'static>)> { i.take(lim).map(|(p, c)| (Some(p), c.as_inner())).collect() }
    fn own(i: impl Iterator<Item = Located<Cell<'static>>>, lim: usize) -> Vec<(Option<CellPos>, Cell<'static>)> { i.take(lim).map(|c| (None, c.into_inner())).collect() }
    fn ozip(i: impl Iterator<Item = (CellPos, Located<Cell<'static>>)>, lim: usize) -> Vec<(Option<CellPos>, Cell<'static>)> { i.take(lim).map(|(p, c)| (Some(p), c.into_inner())).collect() }
    cmp("cells()", &all, plain(t.cells(), lim))?;
    cmp("cells().zip_with_position()", &all, zip(t.cells().zip_with_position(), lim))?;
    cmp("into_cells()", &all, own(table(m).into_cells(), lim))?;
    cmp("into_cells().zip_with_position()", &all, ozip(table(m).into_cells().zip_with_position(), lim))?;
    // the look-ahead position agrees with the next cell, from every point of the iteration
    let mut it = t.cells();
    for (at, _) in &all { let p = (it.row(), it.col()); if p != *at { return Err(format!("cells() announces {p:?} before the cell at {at:?}")); } it.next(); }
    if it.next().is_some() || it.next().is_some() { return Err("cells() goes on after its end".into()); }
    let content = |v: &[((usize, usize), u8)]| v.iter().any(|x| x.1 == 0);
    if t.cells().has_content() != content(&all) || table(m).into_cells().has_content() != content(&all) { return Err("cells().has_content()".into()); }
    for r in 0..rc + 2 {
        let w = of(&|a| a.0 == r, false);
        cmp(&format!("row({r})"), &w, plain(t.row(r), lim))?;
        cmp(&format!("row({r}).zip_with_position()"), &w, zip(t.row(r).zip_with_position(), lim))?;
        cmp(&format!("into_row({r})"), &w, own(table(m).into_row(r), lim))?;
        cmp(&format!("into_row({r}).zip_with_position()"), &w, ozip(table(m).into_row(r).zip_with_position(), lim))?;
        let d = m.get(&(r, 0)).map_or(false, |k| *k >= 3);
        if t.row(r).is_divider_row() != d || table(m).into_row(r).is_divider_row() != d { return Err(format!("row({r}).is_divider_row()")); }
        if t.row(r).has_content() != content(&w) || table(m).into_row(r).has_content() != content(&w) { return Err(format!("row({r}).has_content()")); }
        let mut it = t.row(r); it.next();
        if it.has_content() != w.iter().skip(1).any(|x| x.1 == 0) { return Err(format!("row({r}) past its first cell: has_content()")); }
    }
    for c in 0..cc + 2 {
        let w = of(&|a| a.1 == c, false);
        cmp(&format!("column({c})"), &w, plain(t.column(c), lim))?;
        cmp(&format!("column({c}).zip_with_position()"), &w, zip(t.column(c).zip_with_position(), lim))?;
        cmp(&format!("into_column({c})"), &w, own(table(m).into_column(c), lim))?;
        cmp(&format!("into_column({c}).zip_with_position()"), &w, ozip(table(m).into_column(c).zip_with_position(), lim))?;
        if t.column(c).has_content() != content(&w) || table(m).into_column(c).has_content() != content(&w) { return Err(format!("column({c}).has_content()")); }
        let a = w.iter().find(|x| x.1 >= 3).map_or(ColumnAlign::None, |x| align(x.1));
        if t.get_column_alignment(c) != a { return Err(format!("get_column_alignment({c}) is {:?}, expected {a:?}", t.get_column_alignment(c))); }
    }
    let is_div = |r: usize| m.get(&(r, 0)).map_or(false, |k| *k >= 3);
    let div = (0..rc).find(|r| is_div(*r));
    if t.get_divider_row_index() != div || t.has_divider_row() != div.is_some() { return Err(format!("get_divider_row_index() is {:?}, expected {div:?}", t.get_divider_row_index())); }
    let head: Vec<usize> = (0..div.unwrap_or(0)).collect();
    let body: Vec<usize> = (div.map_or(0, |d| d + 1)..rc).filter(|r| !is_div(*r)).collect();
    let rows: Vec<usize> = (0..rc).collect();
    let idx = |v: Vec<Row>| v.iter().map(|r| r.row()).collect::<Vec<_>>();
    for (what, want, got) in [("rows()", &rows, idx(t.rows().take(lim).collect())), ("header_rows()", &head, idx(t.header_rows().take(lim).collect())), ("body_rows()", &body, idx(t.body_rows().take(lim).collect()))] {
        if *want != got { return Err(format!("{what} yields rows {got:?}, expected {want:?}")); }
    }
    let any = |v: &[usize]| all.iter().any(|x| x.1 == 0 && v.contains(&x.0 .0));
    if t.rows().has_content() != any(&rows) || t.header_rows().has_content() != any(&head) || t.body_rows().has_content() != any(&body) { return Err("has_content() of rows".into()); }
    if t.has_header_rows() == head.is_empty() || t.has_body_rows() == body.is_empty() { return Err("has_header_rows()/has_body_rows()".into()); }
    let cols: Vec<usize> = t.columns().take(lim).map(|c| c.col()).collect();
    if cols != (0..cc).collect::<Vec<_>>() { return Err(format!("columns() yields {cols:?}")); }
    if t.columns().has_content() != content(&all) { return Err("columns().has_content()".into()); }
    for r in 0..rc + 1 { for c in 0..cc + 1 {
        let k = m.get(&(r, c)).copied();
        if t.get_cell(r, c).map(|x| same((r, c), k.unwrap_or(99), x.as_inner())) != k.map(|_| true) { return Err(format!("get_cell({r}, {c})")); }
        let run = |step: &dyn Fn(usize) -> (usize, usize), s: u8| if k == Some(0) { let mut n = 1; while m.get(&step(n)) == Some(&s) { n += 1; } n } else { 0 };
        let (rs, cs) = (run(&|n| (r + n, c), 2), run(&|n| (r, c + n), 1));
        if t.get_cell_rowspan(r, c) != rs { return Err(format!("get_cell_rowspan({r}, {c}) is {}, expected {rs}", t.get_cell_rowspan(r, c))); }
        if t.get_cell_colspan(r, c) != cs { return Err(format!("get_cell_colspan({r}, {c}) is {}, expected {cs}", t.get_cell_colspan(r, c))); }
    } }
    for (&(r, c), _) in m { let p = CellPos::new(r, c); if p.to_string().parse::<CellPos>() != Ok(p) { return Err(format!("CellPos {p} does not parse back")); } }
    Ok(())
}
impl Prop for Tables {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        // every table of up to 4 cells with content, both spans and one alignment; larger ones with fewer kinds
        let a = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)].into_iter().flat_map(|(r, c)| (0..5u64.pow((r * c) as u32)).map(move |k| format!("{r} {c} {k} 4")));
        let b = [(2, 3), (3, 2)].into_iter().flat_map(|(r, c)| (0..4u64.pow(6)).map(move |k| format!("{r} {c} {k} 3")));
        let c = (0..1u64 << 9).map(|k| format!("3 3 {k} 1"));
        Box::new(a.chain(b).chain(c))
    }
    fn random(&self, r: &mut Rng) -> String { { let n = if r.chance(1, 6) { 13 } else { 5 }; format!("{} {} {} {}", 1 + r.below(n), 1 + r.below(n), r.next() >> 1, [7, 7, 3, 1][r.below(4)]) } }
    fn text_case(&self) -> bool { false }
    fn check(&self, s: &str) -> Result<(), String> {
        let w: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if w.len() != 4 || w[0] > 40 || w[1] > 40 { return Ok(()); }
        let m = model(w[0] as usize, w[1] as usize, w[2], w[3].clamp(1, 7));
        check(&m).map_err(|e| format!("table {m:?}: {e}"))
    }
}
