//! P18: converting never crashes and vimwiki text is always made
use crate::{gen, rng::Rng, Prop};
use std::path::PathBuf;
use uriparse::URI;
use std::convert::TryFrom;
use vimwiki_core::*;

pub struct Conv;
const DIRS: &[&str] = &["/w", "/w/a", "w", "/", "", "/w x/é", "..", "/w/../v", "%x", "/w/a/b"];
const PAGES: &[&str] = &["", "/w/p.wiki", "/w/a/b/p.wiki", "/w", "/w/a", "p", "/", "/v/q.wiki", "w/x.y.z", "/w x/é/ü .wiki", "../p.wiki", "/w/a/../p.wiki", "/w/.wiki", "%x/p", "/w/a:b/p.wiki", "/w/a/b/diary/2020-01-01.wiki"];
const EXTS: &[&str] = &["wiki", "", "md", "a.b"];
const LINKS: &[&str] = &["[[p]]", "[[/p]]", "[[../../../p#a#b|d]]", "[[a/]]", "[[#]]", "[[#a]]", "[[|d]]", "[[wiki0:p]]", "[[wiki1:a/b#c]]", "[[wiki99999999999999999999:p]]", "[[wn.n:p]]", "[[wn.:p]]", "[[wn.x y:p]]", "[[diary:2021-02-28]]", "[[diary:2021-02-28#x|y]]", "[[diary:2021-13-40]]", "[[local:/a/b]]", "[[file:../c]]", "[[//x/y]]", "[[http://x/[y]]]", "http://x.y", "{{a.png}}", "{{local:a b.png|alt|class=\"x\"|y=\"z\"}}", "{{http://x}}", "[[a%ff]]", "[[%]]", "[[a:b]]", "[[a/b:c]]", "[[é/世#ü]]", "[[.]]", "[[..]]", "[[./]]", "[[//]]", "[[///]]", "[[a//b]]", "[[p.]]", "[[.p]]", "[[a|{{b}}]]", "[[p?q]]", "[[mailto:x]]"];
const DOCS: &[&str] = &["= a =\n====== b ======\n= a =\n", "{{{rust\nfn x() {}\n}}}\n", "{{{none x=\"y\"\n\n}}}\n", "{{{\n\n\n}}}\n", "{{$%x%\n\\a\n}}$\n", "- [ ] a\n  - [X] b\n    text\n1) c\n", "|a|b|\n|-|:-:|\n|>|\\/|\n", "|\\/|>|\n|>|>|\n", "a::b\n::c\n", "> a\n> b\n", "    a\n\n    b\n", "%title x\n%date 2020-02-29\n%template t\n%nohtml\n%foo bar\n", "----\n", "%% c\n%%+ d\n e +%%\n", "*a _b `c` d_* ~~x~~ ^y^ ,,z,, $m$ :t:u: TODO\n", ""];
struct C { wikis: Vec<(usize, usize)>, index: Option<usize>, page: usize, bits: usize }
impl C {
    fn read(s: &str) -> Option<C> {
        let v: Vec<usize> = s.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let [n, a, b, i, p, bits] = v[..] else { return None };
        Some(C { wikis: [a, b][..n.min(2)].iter().map(|x| (x % DIRS.len(), x / DIRS.len() % EXTS.len())).collect(), index: if i == 0 { None } else { Some(i - 1) }, page: p % PAGES.len(), bits })
    }
    fn b(&self, k: usize) -> bool { self.bits >> k & 1 == 1 }
    fn html(&self) -> HtmlConfig {
        let mut c = HtmlConfig {
            runtime: HtmlRuntimeConfig { wiki_index: self.index, page: PathBuf::from(PAGES[self.page]) },
            wikis: self.wikis.iter().enumerate().map(|(i, (d, e))| HtmlWikiConfig { path: PathBuf::from(DIRS[*d]), path_html: PathBuf::from(if self.b(0) { "/out" } else { DIRS[*d] }), name: if i == 0 { Some("n".into()) } else { Some("x y".into()) }, ext: EXTS[*e].into(), ..Default::default() }).collect(),
            ..Default::default()
        };
        // the active wiki is one the page lies in
        if let Some(i) = self.index { if c.wikis.get(i).map_or(false, |w| !c.runtime.page.starts_with(&w.path)) { c.runtime.wiki_index = None; } }
        c.list.ignore_newline = self.b(1);
        c.paragraph.ignore_newline = self.b(2);
        c.link.canonicalize = self.b(3);
        c.link.use_ugly_urls = self.b(4);
        if self.b(5) { c.link.base_url = URI::try_from("https://x.y/a/b?c").unwrap().into_owned(); }
        if self.b(6) { c.header.table_of_contents = "a".into(); }
        c.code.server_side = self.b(7) && self.b(8);
        if self.b(9) { c.code.theme = "no such theme".into(); }
        if self.b(10) { c.code.theme_dir = Some("/no/such/dir".into()); }
        c.comment.include = self.b(11);
        if self.b(12) { c.template.text = "%content%%%title%%x%".into(); }
        c
    }
    fn text(&self) -> VimwikiConfig {
        let mut c = VimwikiConfig::default();
        c.page.separate_block_elements = self.b(0);
        if self.b(1) { c.page.indent_str = "\t".into(); }
        c.blockquote.prefer_indented_blockquote = self.b(2);
        c.blockquote.trim_lines = self.b(3);
        c.comment.no_padding = self.b(4);
        c.comment.trim_content = self.b(5);
        c.definition_list.term_on_line_by_itself = self.b(6);
        c.definition_list.trim_terms = self.b(7);
        c.definition_list.trim_definitions = self.b(8);
        c.header.no_padding = self.b(9);
        c.header.trim_content = self.b(10);
        if self.b(11) { c.list.todo.incomplete_char = 'é'; c.list.todo.complete_char = ']'; }
        c.paragraph.no_line_wrap = self.b(12);
        c.paragraph.line_wrap_column = [0, 1, 5, 80][self.bits & 3];
        c.paragraph.trim_lines = self.b(13);
        c.table.no_padding = self.b(14);
        c
    }
}
impl Prop for Conv {
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let n = DIRS.len() * EXTS.len();
        let conf = move |i: usize| format!("{} {} {} {} {} {}", i % 3, i / 3 % n, i / 7 % n, i % 5, i / 5, (i.wrapping_mul(2654435761)) >> 7 & 0x7fff);
        let a = (0..PAGES.len() * DIRS.len() * 9).flat_map(move |k| (0..LINKS.len()).map(move |l| format!("{} {} {} {} {} {}\u{1}{}\n", 1 + k % 2, k / 9 % DIRS.len(), (k / 3 + 1) % DIRS.len(), k % 3, k / (9 * DIRS.len()), (l * 8191 + k * 131) & 0x7fff, LINKS[l])));
        let b = (0..if th { 4000 } else { 600 }).flat_map(move |i| DOCS.iter().map(move |d| format!("{}\u{1}{d}", conf(i * 37))));
        let c = gen::tokens(2).enumerate().map(move |(i, t)| format!("{}\u{1}{t}", conf(i)));
        let u = ["[[p]]", "text", "[[#a]]", "http://x.y", "= a =\n", "%title x\n"].iter().map(|x| format!("\u{2}{x}"));
        Box::new(u.chain(a).chain(b).chain(c))
    }
    fn random(&self, r: &mut Rng) -> String {
        let mut d = gen::any(r);
        for _ in 0..r.below(3) { d.push_str(r.pick(LINKS)); d.push('\n'); }
        if r.chance(1, 3) { d = format!("{}{d}", r.pick(DOCS)); }
        format!("{} {} {} {} {} {}\u{1}{d}", r.below(3), r.below(40), r.below(40), r.below(5), r.below(PAGES.len()), r.below(1 << 15))
    }
    fn check(&self, s: &str) -> Result<(), String> {
        #[cfg(unix)]
        if let Some(d) = s.strip_prefix('\u{2}') {
            use std::os::unix::ffi::OsStrExt;
            let Ok(page) = Language::from_vimwiki_str(d).parse::<Page>() else { return Ok(()) };
            let c = || HtmlConfig { runtime: HtmlRuntimeConfig { page: std::ffi::OsStr::from_bytes(b"/w/\xff.wiki").into(), ..Default::default() }, ..Default::default() };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = page.to_html_string(c()); let _ = page.to_html_page(c()); })).is_ok();
            // only what leads somewhere else by a path is part of the known finding
            return if ok { Ok(()) } else if d == "[[p]]" { Err("page path that is not UTF-8: [[p]] panics".into()) } else { Err(format!("a page path that is no Unicode: {d:?} panics")) };
        }
        let Some((c, d)) = s.split_once('\u{1}') else { return Ok(()) };
        let Some(c) = C::read(c) else { return Ok(()) };
        let Ok(page) = Language::from_vimwiki_str(d).parse::<Page>() else { return Ok(()) };
        let _ = page.to_html_string(c.html());
        let _ = page.to_html_page(c.html());
        let one = page.to_vimwiki_string(c.text()).map_err(|e| format!("no vimwiki text: {e}"))?;
        let two = page.to_vimwiki_string(c.text()).map_err(|e| format!("no vimwiki text: {e}"))?;
        if one != two { return Err(format!("two conversions differ: {one:?} and {two:?}")); }
        for e in page.elements() {
            let _ = e.to_html_string(c.html());
            e.to_vimwiki_string(c.text()).map_err(|e| format!("no vimwiki text of an element: {e}"))?;
        }
        Ok(())
    }
}
