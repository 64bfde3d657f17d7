//! P16: a page is its template with every variable filled in, once
use crate::{gen, rng::Rng, Prop};
use std::path::PathBuf;
use vimwiki_core::*;

pub struct Pages;
const TPL: &[&str] = &["%title%", "%date%", "%content%", "%css%", "%root_path%", "%wiki_path%", "%encoding%", "%", "%%", "%foo%", "title", "content", "%title", "date%", " ", "\n", "x", "<b>", "é", "%Title%", "% title%", "%css%content%"];
const TITLES: &[&str] = &["My page", "%content%", "a %date% b", "<script>", "x & y", "\"q\"", "%css%", "é`'", "100%", "%title%"];
const LINES: &[&str] = &["text", "%title% in text", "%content%", "= h =", "%nohtml", "%date 2020-02-29", "%date 1999-12-31", "%date 99", "%template t", "%template none", "%other x", "  %title indented", "<raw> & %css%", "- item", "| a | b |", "%title", ""];
/// wiki directories, the active one, the page, a style sheet
const CONF: &[(&[&str], Option<usize>, &str)] = &[
    (&[], None, ""), (&[], None, "page.wiki"), (&[], None, "some/where/p.q.wiki"), (&[], Some(0), "x/<t>.wiki"),
    (&["w"], Some(0), "w/page.wiki"), (&["w"], Some(0), "w/a/b/page.wiki"), (&["/w", "/w/a"], Some(1), "/w/a/b/%content%.wiki"), (&["/w", "/w/a"], Some(0), "/w/a/b/c d"),
    (&["some/path"], Some(0), "some/path"), (&["/w"], Some(3), "/w/a/page.wiki"), (&["/w"], None, "/w/a/pé.wiki"),
];
const CSS: &[&str] = &["style.css", "s/%content%.css", "a&b.css", ""];

/// the same thing another way: cut the template at each percent sign, then look at every second one
fn fill(t: &str, v: &dyn Fn(&str) -> Option<String>) -> String {
    let p: Vec<&str> = t.split('%').collect();
    let mut o = p[0].to_string();
    let mut i = 1;
    while i < p.len() {
        // p[i] stands after a percent sign; if another follows it may be a variable
        match if i + 1 < p.len() { v(p[i]) } else { None } {
            Some(x) => { o += &x; o += p[i + 1]; i += 2; }
            None => { o.push('%'); o += p[i]; i += 1; }
        }
    }
    o
}
fn esc(s: &str) -> String { s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&#x27;".into(), '`' => "&#x60;".into(), c => c.to_string() }).collect() }
thread_local! { static DIR: PathBuf = { let d = std::env::temp_dir().join(format!("p16-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "")); std::fs::create_dir_all(&d).unwrap(); d }; }
struct Rm(PathBuf);
impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(self.0.join("t")); let _ = std::fs::remove_dir(&self.0); } }

impl Pages {
    fn page(r: &mut Rng) -> String {
        let mut s = String::new();
        for _ in 0..r.below(5) {
            match r.below(8) { 0..=2 => { s += "%title "; s += r.pick(TITLES); } 3 | 4 => s += &gen::words(r, 3), _ => s += r.pick(LINES) }
            s.push('\n');
        }
        if r.chance(1, 6) { gen::block(r, &mut s, "\n"); }
        s
    }
    fn tpl(r: &mut Rng) -> String { let n = r.below(7); let mut s = String::new(); for _ in 0..n { s += r.pick(TPL); } s }
}
fn titles(e: &BlockElement, t: &mut (Option<String>, Option<String>, Option<String>)) {
    if let BlockElement::Placeholder(p) = e { match p { Placeholder::Title(x) => t.0 = Some(x.to_string()), Placeholder::Date(d) => t.1 = Some(d.format("%Y-%m-%d").to_string()), Placeholder::Template(x) => t.2 = Some(x.to_string()), _ => {} } }
}
impl Prop for Pages {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let n = if thorough { 4 } else { 3 };
        let a = (0..=n).flat_map(|k| gen::seqs(TPL, k)).enumerate().map(|(i, t)| format!("{t}\u{1}{t}\u{1}{}\u{1}%title {}\n%title {}\ntext %date%\n", i % (CONF.len() * CSS.len()), TITLES[i / 7 % TITLES.len()], TITLES[i % TITLES.len()]));
        let b = (0..CONF.len() * CSS.len()).flat_map(|c| LINES.iter().flat_map(move |l| LINES.iter().map(move |m| format!("[%title%|%date%|%root_path%|%wiki_path%|%css%|%encoding%|%content%]\u{1}file: %title% %content%\u{1}{c}\u{1}{l}\n{m}\n"))));
        Box::new(b.chain(a))
    }
    fn random(&self, r: &mut Rng) -> String { format!("{}\u{1}{}\u{1}{}\u{1}{}", Self::tpl(r), Self::tpl(r), r.below(CONF.len() * CSS.len()), Self::page(r)) }
    fn check(&self, case: &str) -> Result<(), String> {
        let p: Vec<&str> = case.split('\u{1}').collect();
        let (tpl, file, c, text) = match p[..] { [a, b, c, d] => (a, b, match c.parse::<usize>() { Ok(x) => x % (CONF.len() * CSS.len()), Err(_) => return Ok(()) }, d), _ => return Ok(()) };
        let (wikis, active, pg) = CONF[c % CONF.len()];
        let css = CSS[c / CONF.len()];
        let page = match Pages::parse(text) { Some(x) => x, None => return Ok(()) };
        let dir = DIR.with(|d| d.clone());
        std::fs::create_dir_all(&dir).unwrap();
        let _rm = Rm(dir.clone());
        std::fs::write(dir.join("t"), file).unwrap();
        let config = || HtmlConfig {
            runtime: HtmlRuntimeConfig { wiki_index: active, page: PathBuf::from(pg) },
            wikis: wikis.iter().map(|w| HtmlWikiConfig { path: PathBuf::from(w), css_name: css.into(), ..Default::default() }).collect(),
            template: HtmlTemplateConfig { dir: dir.clone(), text: tpl.into(), ..Default::default() },
            ..Default::default()
        };
        let content = page.to_html_string(config());
        let mut t = (None, None, None);
        for e in page.elements() { titles(e.as_inner(), &mut t); }
        let comps: Vec<&str> = pg.split('/').filter(|x| !x.is_empty()).collect();
        let stem = comps.last().map(|n| match n.rfind('.') { Some(k) if k > 0 => n[..k].to_string(), _ => n.to_string() }).unwrap_or_default();
        let w = active.and_then(|k| wikis.get(k));
        let depth = w.map_or(comps.len().saturating_sub(1), |w| w.split('/').filter(|x| !x.is_empty()).count());
        let title = esc(&t.0.unwrap_or(stem));
        let day = || chrono::Local::now().naive_local().date().format("%Y-%m-%d").to_string();
        let value = |d: &str, n: &str| Some(match n {
            "title" => title.clone(), "date" => d.to_string(), "encoding" => "utf-8".into(),
            "css" => if w.is_some() { css.into() } else { "style.css".into() },
            "root_path" => if w.is_some() { "../".repeat(comps.len().saturating_sub(depth + 1)) } else { String::new() },
            "wiki_path" => { let v = &comps[depth.min(comps.len())..]; if depth == 0 && pg.starts_with('/') { format!("/{}", v.join("/")) } else { v.join("/") } }
            "content" => content.as_ref().ok()?.clone(), _ => return None,
        });
        let tpl = match t.2.as_deref() { None => Some(tpl), Some("t") => Some(file), Some(_) => None };
        let before = day();
        let got = page.to_html_page(config());
        let after = day();
        match (got, tpl, &content) {
            (Err(_), None, _) | (Err(_), _, Err(_)) => Ok(()),
            (Ok(g), Some(tpl), Ok(_)) => {
                let days = match t.1 { Some(d) => vec![d], None => vec![before, after] };
                let want: Vec<String> = days.iter().map(|d| fill(tpl, &|n| value(d, n))).collect();
                if want.contains(&g) { Ok(()) } else { Err(format!("template {tpl:?} and page {text:?} (file {pg:?}) give {g:?}, expected {:?}", want[0])) }
            }
            (Ok(_), None, _) => Err("page made although its template cannot be read".into()),
            (g, _, c) => Err(format!("page {:?} but content {:?}", g.map_err(|e| e.to_string()), c.as_ref().map_err(|e| e.to_string()))),
        }
    }
}
impl Pages { fn parse(t: &str) -> Option<Page<'_>> { Language::from_vimwiki_str(t).parse::<vimwiki_core::Page>().ok() } }
