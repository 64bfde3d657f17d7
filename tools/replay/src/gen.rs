//! Generators of vimwiki text.
use crate::rng::Rng;

pub const TOK: &[&str] = &[
    "a", "b c", "é", "\u{3000}", "𝄞", " ", "  ", "\t", "\n", "\r\n", "\r", "=", "==", "-", "*", "_", "`", "$", "%", "%%", "[[", "]]", "{{", "}}", "|", "||", ":", "::", "#", ">",
    "&", "1.", "- ", "* ", "# ", "[ ] ", "[X] ", "{{{", "}}}", "{{$", "}}$", "%%+", "+%%", "~~", "^", ",,", "TODO", "DONE", "http:", "https://x.y", "diary:2021-01-01", "wiki1:", "wn.X:", "%title", "%date 2021-01-01", "%nohtml", "%template", "----",
    "|---|", "\\/", "0", "i) ", "a. ", "\"", "k=\"v\"", "x.md", "//", "<", ">", "'", ":t:", "**", "__",
];
/// one-byte-ish alphabet for dense enumeration
pub const CH: &[&str] = &["a", "é", " ", "\n", "\r\n", "=", "-", "*", "_", "`", "$", "%", "[", "]", "{", "}", "|", ":", "#", ">", "~", "^", ",", "+", "1", ".", "\"", "\t"];

pub fn tokens(k: usize) -> impl Iterator<Item = String> { seqs(TOK, k) }
pub fn chars(k: usize) -> impl Iterator<Item = String> { seqs(CH, k) }
/// all sequences of at most k pieces
pub fn seqs(t: &'static [&'static str], k: usize) -> impl Iterator<Item = String> {
    (0..=k).flat_map(move |n| {
        let total = t.len().pow(n as u32);
        (0..total).map(move |mut i| { let mut s = String::new(); for _ in 0..n { s.push_str(t[i % t.len()]); i /= t.len(); } s })
    })
}
const W: &[&str] = &["a", "foo", "é", "日本", "x1", "b-c", "TODO", "DONE", "w w", "\u{3000}", "𝄞", "&", "<i>", "q\"", "'", "100", "%", "|", "*", "_", "\\"];
/// characters of every UTF-8 shape: both ends of each range of lead bytes, and arbitrary ones
pub fn uni(r: &mut Rng) -> char {
    const E: &[char] = &['\u{0}', '\u{b}', '\u{c}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{a3}', '\u{bf}', '\u{c0}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{cfff}', '\u{d7ff}', '\u{e000}',
        '\u{feff}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}'];
    match r.below(4) {
        0 => E[r.below(E.len())],
        1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or('x'),
        2 => char::from_u32(r.below(0x10000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('x'),
    }
}
pub fn word(r: &mut Rng) -> &'static str { r.pick(W) }
pub fn words(r: &mut Rng, n: usize) -> String { let mut s = String::new(); for i in 0..1 + r.below(n) { if i > 0 { s.push(' ') } s.push_str(word(r)); } s }
pub fn inline(r: &mut Rng, d: usize) -> String {
    let mut s = String::new();
    let n = 1 + r.below(if d == 0 { 2 } else { 4 });
    for i in 0..n {
        if i > 0 && r.chance(2, 3) { s.push(' '); }
        match r.below(if d == 0 { 6 } else { 22 }) {
            0 | 1 | 2 => s.push_str(&words(r, 3)),
            3 => s.push_str(&format!("`{}`", words(r, 2))),
            4 => s.push_str(&format!("${}$", words(r, 2))),
            5 => s.push_str(&format!(":{}:", word(r))),
            6 => s.push_str(&format!(":{}:{}:", word(r), word(r))),
            7 => s.push_str(&format!("*{}*", inline(r, d - 1))),
            8 => s.push_str(&format!("_{}_", inline(r, d - 1))),
            9 => s.push_str(&format!("~~{}~~", inline(r, d - 1))),
            10 => s.push_str(&format!("^{}^", inline(r, d - 1))),
            11 => s.push_str(&format!(",,{},,", inline(r, d - 1))),
            12 => s.push_str(&format!("*_{}_*", inline(r, d - 1))),
            13 => s.push_str(&link(r)),
            14 => s.push_str(&link(r)),
            15 => s.push_str(&format!("{{{{{}|{}}}}}", uri(r), words(r, 2))),
            16 => s.push_str(&format!("{{{{{}|{}|style=\"{}\" k=\"v\"}}}}", uri(r), words(r, 2), word(r))),
            17 => s.push_str("https://example.com/x?y=1#z"),
            18 => s.push_str(&format!("http:{}:{}", word(r), word(r))),
            19 => s.push_str(&format!("%%+{}+%%", words(r, 2))),
            20 => s.push_str(r.pick(&["TODO", "DONE", "FIXED", "FIXME", "STARTED", "XXX"])),
            _ => s.push_str(r.pick(TOK)),
        }
    }
    s
}
pub fn uri(r: &mut Rng) -> String {
    match r.below(12) {
        0 => words(r, 2), 1 => "a/b/".into(), 2 => "/abs/p".into(), 3 => "x#y".into(), 4 => "#anchor".into(), 5 => "../up.wiki".into(),
        6 => "file:/x/y".into(), 7 => "local:img.png".into(), 8 => "https://h.i/j".into(), 9 => format!("x#{}#{}", word(r), word(r)), 10 => "//host/p".into(), _ => word(r).into(),
    }
}
pub fn link(r: &mut Rng) -> String {
    let u = uri(r);
    let d = match r.below(5) { 0 => format!("|{}", words(r, 2)), 1 => "|{{img.png}}".into(), 2 => "|".into(), _ => String::new() };
    match r.below(8) {
        0 => format!("[[wiki{}:{}{}]]", r.below(3), u, d),
        1 => format!("[[wn.{}:{}{}]]", word(r), u, d),
        2 => format!("[[diary:{}{}]]", r.pick(&["2021-01-01", "2021-13-01", "x", "2021-1-1", "2021-02-28#a b", "0000-00-00"]), d),
        _ => format!("[[{}{}]]", u, d),
    }
}
pub fn indent(r: &mut Rng) -> String { match r.below(6) { 0 => " ".into(), 1 => "  ".into(), 2 => "    ".into(), 3 => "\t".into(), _ => String::new() } }
pub fn block(r: &mut Rng, out: &mut String, eol: &str) {
    let ind = indent(r);
    match r.below(17) {
        0 => { let e = "=".repeat(1 + r.below(7)); let e2 = if r.chance(1, 8) { "=".repeat(1 + r.below(7)) } else { e.clone() }; out.push_str(&format!("{ind}{e} {} {e2}{eol}", inline(r, 1))) }
        1 => out.push_str(&format!("{}{eol}", "-".repeat(2 + r.below(6)))),
        2 | 3 => { for _ in 0..1 + r.below(3) { out.push_str(&format!("{}{}{eol}", if r.chance(1, 5) { ind.as_str() } else { "" }, inline(r, 2))) } }
        4 => {
            out.push_str(&format!("{ind}{{{{{{{}{eol}", r.pick(&["", "py", " py", "c++ k=\"v\" w=\"é x\"", "k=\"v\"", "rust k='v'"])));
            for _ in 0..r.below(4) { out.push_str(&format!("{}{}{eol}", indent(r), r.pick(&["", "code", "é", "\u{3000}x", "= h =", " }}}", "{{{", "日本"]))) }
            out.push_str(&format!("{}}}}}}}{eol}", if r.chance(1, 5) { "" } else { ind.as_str() }));
        }
        5 => {
            out.push_str(&format!("{ind}{{{{${}{eol}", r.pick(&["", "%align%", "%a b%", "%%", " %x%"])));
            for _ in 0..r.below(4) { out.push_str(&format!("{}{}{eol}", indent(r), r.pick(&["", "x^2", "é", "\u{3000}x", "= h =", "}} $", "日本"]))) }
            out.push_str(&format!("{ind}}}}}${eol}"));
        }
        6 => { for _ in 0..1 + r.below(3) { out.push_str(&format!("{} {}{eol}", if r.chance(1, 6) { "" } else { ">" }, words(r, 3))) } }
        7 => { for _ in 0..1 + r.below(2) { out.push_str(&format!("    {}{eol}", words(r, 3))) } }
        8 | 9 => {
            for _ in 0..1 + r.below(5) {
                let k = r.below(3);
                let p = r.pick(&["- ", "* ", "# ", "1. ", "2. ", "1) ", "a. ", "b) ", "i. ", "ii) ", "I) ", "A. ", "• ", "12. ", "z) ", "-", "1.x "]);
                let t = r.pick(&["", "", "[ ] ", "[.] ", "[o] ", "[O] ", "[X] ", "[-] ", "[x] "]);
                out.push_str(&format!("{}{p}{t}{}{eol}", "  ".repeat(k), inline(r, 1)));
                if r.chance(1, 3) { out.push_str(&format!("{}{}{eol}", "  ".repeat(k + 1), inline(r, 1))); }
                if r.chance(1, 8) { out.push_str(&format!("  {{{{{{{eol}  x{eol}  }}}}}}{eol}")); }
            }
        }
        10 | 11 => {
            let c = 1 + r.below(3);
            for row in 0..1 + r.below(4) {
                if (row == 1 && r.chance(1, 2)) || r.chance(1, 12) { out.push_str(&ind); for _ in 0..c { out.push_str(r.pick(&["|---", "|:--", "|--:", "|:-:", "| --- ", "|-"])); } out.push_str(&format!("|{eol}")); continue; }
                out.push_str(&ind);
                for _ in 0..(if r.chance(1, 5) { 1 + r.below(4) } else { c }) {
                    out.push('|');
                    let x = match r.below(6) { 0 => " > ".to_string(), 1 => " \\/ ".into(), 2 => "".into(), 3 => " ".into(), _ => format!(" {} ", inline(r, 1)) };
                    out.push_str(&x.replace('|', ""));
                }
                out.push_str(&format!("|{eol}"));
            }
        }
        12 => {
            out.push_str(&format!("{}{eol}", r.pick(&["term::", "term:: def", "t *b*:: d", "a:b::", "::", ":: x", "é::é", "t::d", "a :: b :: c"])));
            for _ in 0..r.below(3) { out.push_str(&format!("::{}{eol}", r.pick(&[" d", " d *b*", "", " ", "x"]))); }
        }
        13 => out.push_str(&format!("{}{eol}", r.pick(&["%title", "%title x", "%title  a b", "%nohtml", "%date 2021-05-06", "%date 2021-99-06", "%date", "%template t", "%template", "%other x y", "%x", "%title\té", "%date  2021-05-06 "]))),
        14 => out.push_str(&format!("%% {}{eol}", words(r, 3))),
        15 => out.push_str(&format!("%%+ {}{eol}{} +%%{eol}", words(r, 2), words(r, 2))),
        _ => out.push_str(eol),
    }
    if r.chance(1, 3) { out.push_str(eol); }
}
pub fn doc(r: &mut Rng) -> String {
    let mut s = String::new();
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    for _ in 0..1 + r.below(3) { block(r, &mut s, eol); }
    if r.chance(1, 3) { s.truncate(s.trim_end_matches(|c| c == '\n' || c == '\r').len()); }
    s
}
/// a proper document, perhaps with other line ends or something put in or left out
fn document(r: &mut Rng) -> String {
    let mut s = crate::canon::page(r).1;
    if r.chance(1, 4) { s = s.replace('\n', "\r\n"); }
    for _ in 0..r.below(4) { let i = r.below(s.chars().count() + 1); let b = s.char_indices().nth(i).map_or(s.len(), |x| x.0); if r.chance(1, 3) { if let Some(c) = s[b..].chars().next() { s.replace_range(b..b + c.len_utf8(), ""); } } else { let u = uni(r); s.insert(b, u); } }
    s
}
/// structured document, token soup, or a mutated document
pub fn any(r: &mut Rng) -> String {
    if r.chance(1, 6) { return document(r); }
    match r.below(8) {
        0 => { let mut s = String::new(); for _ in 0..1 + r.below(14) { s.push_str(r.pick(TOK)); } s }
        1 => inline(r, 3),
        2 => { let mut s = String::new(); for _ in 0..1 + r.below(12) { s.push_str(r.pick(CH)); } s }
        3 | 4 => { let d = doc(r); mutate(r, &d) }
        _ => doc(r),
    }
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { break; }
        let i = r.below(c.len());
        match r.below(5) {
            0 => { c.remove(i); }
            4 => { for k in 0..1 + r.below(3) { let u = uni(r); c.insert(i + k.min(c.len() - i), u); } }
            1 => { let t: Vec<char> = r.pick(TOK).chars().collect(); for (k, x) in t.into_iter().enumerate() { c.insert(i + k, x); } }
            2 => { let j = r.below(c.len()); c.swap(i, j); }
            _ => { let j = (i + 1 + r.below(6)).min(c.len()); c.drain(i..j); }
        }
    }
    c.into_iter().collect()
}
