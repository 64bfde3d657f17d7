//! P06: prefixes, todo state and todo progress of list items
use crate::{rng::Rng, Prop};
use std::borrow::Cow;
use vimwiki_core::*;

pub struct Lists;
const POS: &[usize] = &[0, 1, 2, 3, 4, 8, 9, 25, 26, 27, 38, 48, 51, 52, 88, 98, 99, 389, 398, 399, 499, 675, 676, 701, 702, 703, 998, 999, 1000, 1001, 1443, 1993, 2998, 3998, 3999, 4000, 18277, 18278, 32765, 32766, 32767, 32768, 65534, 65535, 65536, 99998, 99999, 1 << 20];
const BIG: &[usize] = &[475253, 475254, 12356629, 12356630, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, usize::MAX / 2, usize::MAX - 1];

fn suffix(k: usize) -> (ListItemSuffix, &'static str) { match k % 3 { 0 => (ListItemSuffix::None, ""), 1 => (ListItemSuffix::Period, "."), _ => (ListItemSuffix::Paren, ")") } }
fn letters(mut n: u128, base: u8) -> String {
    // bijective base 26 of n = pos + 1
    let mut v = vec![];
    while n > 0 { n -= 1; v.push(base + (n % 26) as u8); n /= 26; }
    v.reverse();
    String::from_utf8(v).unwrap()
}
fn roman(n: usize) -> String {
    let mut s = "M".repeat(n / 1000);
    let d = |d: usize, a: &str, b: &str, c: &str| -> String { match d { 0..=3 => a.repeat(d), 4 => format!("{a}{b}"), 5..=8 => format!("{b}{}", a.repeat(d - 5)), _ => format!("{a}{c}") } };
    s += &d(n / 100 % 10, "C", "D", "M");
    s += &d(n / 10 % 10, "X", "L", "C");
    s += &d(n % 10, "I", "V", "X");
    s
}
fn status(k: usize) -> Option<ListItemTodoStatus> {
    use ListItemTodoStatus::*;
    match k % 7 { 0 => None, 1 => Some(Incomplete), 2 => Some(PartiallyComplete1), 3 => Some(PartiallyComplete2), 4 => Some(PartiallyComplete3), 5 => Some(Complete), _ => Some(Rejected) }
}
fn ty(k: usize) -> ListItemType<'static> {
    use OrderedListItemType::*;
    match k % 9 {
        0 => Number.into(), 1 => Pound.into(), 2 => LowercaseAlphabet.into(), 3 => UppercaseAlphabet.into(), 4 => LowercaseRoman.into(), 5 => UppercaseRoman.into(),
        6 => UnorderedListItemType::Hyphen.into(), 7 => UnorderedListItemType::Asterisk.into(), _ => UnorderedListItemType::Other(Cow::Borrowed("é+")).into(),
    }
}
/// an item tree drawn from a seed; returns the item and the expected progress
fn tree(r: &mut Rng, depth: usize) -> (ListItem<'static>, Option<f64>) {
    let st = r.below(7);
    let mut contents = vec![];
    let mut vals: Vec<f64> = vec![];
    let n = if depth == 0 { 0 } else { r.below(4) };
    for _ in 0..n {
        if r.chance(1, 3) {
            contents.push(Located::from(BlockElement::from(Paragraph::new(vec![]))));
        } else {
            let mut items = vec![];
            for _ in 0..r.below(4) {
                let (i, p) = tree(r, depth - 1);
                if let Some(p) = p { vals.push(p) }
                items.push(Located::from(i));
            }
            contents.push(Located::from(BlockElement::from(List::new(items))));
        }
    }
    let own = match st { 1 => Some(0.0), 2 => Some(0.25), 3 => Some(0.5), 4 => Some(0.75), 5 => Some(1.0), _ => None };
    let want = if vals.is_empty() { own } else { Some(vals.iter().sum::<f64>() / vals.len() as f64) };
    (ListItem::new(ty(r.below(9)), suffix(r.below(3)).0, r.below(50), ListItemContents::new(contents), ListItemAttributes { todo_status: status(st) }), want)
}

impl Prop for Lists {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let a = (0..9).flat_map(|t| (0..3).flat_map(move |s| POS.iter().map(move |p| format!("item {t} {s} {p} {}", (p + s) % 7)).chain(BIG.iter().filter(move |_| t != 4 && t != 5).map(move |p| format!("item {t} {s} {p} 0")))));
        let b = (0..8).flat_map(|t| (0..5000usize).map(move |p| format!("item {t} {} {p} {}", p % 3, p % 7)));
        let c = (0..3000).map(|k| format!("tree {k}"));
        Box::new(a.chain(b).chain(c))
    }
    fn random(&self, r: &mut Rng) -> String {
        if r.chance(1, 2) { return format!("tree {}", r.next() >> 8); }
        let t = r.below(9);
        let k = 1 + r.below(62);
        let p = (r.next() >> k) as usize;
        let p = if t == 4 || t == 5 { p % 300_000 } else { p };
        format!("item {t} {} {p} {}", r.below(3), r.below(7))
    }
    fn text_case(&self) -> bool { false }
    fn check(&self, s: &str) -> Result<(), String> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let n = |k: usize| w.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        if w.first() == Some(&"tree") {
            let (item, want) = tree(&mut Rng::new(n(1) as u64), 3);
            let got = item.compute_todo_progress();
            return match (got, want) {
                (None, None) => Ok(()),
                (Some(g), Some(e)) if (g as f64 - e).abs() < 1e-4 && (0.0..=1.0).contains(&g) => Ok(()),
                _ => Err(format!("compute_todo_progress gives {got:?}, expected {want:?} for {item:?}")),
            };
        }
        let (t, pos, st) = (ty(n(1)), n(3), status(n(4)));
        let (sf, st_text) = suffix(n(2));
        let item = ListItem::new(t.clone(), sf, pos, ListItemContents::default(), ListItemAttributes { todo_status: st });
        let one = pos as u128 + 1;
        let body = match n(1) % 9 { 0 => one.to_string(), 1 => "#".into(), 2 => letters(one, b'a'), 3 => letters(one, b'A'), 4 => roman(pos + 1).to_lowercase(), 5 => roman(pos + 1), 6 => "-".into(), 7 => "*".into(), _ => "é+".into() };
        let want = if n(1) % 9 == 6 || n(1) % 9 == 7 { body } else { body + st_text };
        let show = |x: &str| if x.len() > 60 { format!("{}... ({} bytes)", &x[..20], x.len()) } else { x.to_string() };
        for (w, got) in [("ListItem::to_prefix", item.to_prefix()), ("ListItemType::to_prefix", t.to_prefix(pos, sf)), ("owned", item.clone().into_owned().to_prefix()), ("borrowed", item.to_borrowed().to_prefix())] {
            if got != want { return Err(format!("{w} of {t:?} at position {pos} is {:?}, expected {:?}", show(&got), show(&want))); }
        }
        let ord = n(1) % 9 < 6;
        if item.is_ordered() != ord || item.is_unordered() == ord || t.is_ordered() != ord || t.is_unordered() == ord { return Err(format!("is_ordered/is_unordered of {t:?}")); }
        use ListItemTodoStatus::*;
        let flags = [item.is_todo_incomplete(), item.is_todo_partially_complete_1(), item.is_todo_partially_complete_2(), item.is_todo_partially_complete_3(), item.is_todo_complete(), item.is_todo_rejected()];
        let exp = [Incomplete, PartiallyComplete1, PartiallyComplete2, PartiallyComplete3, Complete, Rejected].map(|x| st == Some(x));
        if flags != exp || item.is_todo() != st.is_some() || item.is_todo_partially_complete() != (exp[1] || exp[2] || exp[3]) { return Err(format!("todo state of {st:?}: {flags:?}")); }
        let p = item.compute_todo_progress();
        let e = match st { Some(Incomplete) => Some(0.0), Some(PartiallyComplete1) => Some(0.25), Some(PartiallyComplete2) => Some(0.5), Some(PartiallyComplete3) => Some(0.75), Some(Complete) => Some(1.0), _ => None };
        if p != e { return Err(format!("progress of a lone {st:?} is {p:?}")); }
        Ok(())
    }
}
