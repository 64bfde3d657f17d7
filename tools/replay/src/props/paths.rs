//! P11: output paths and hrefs of links; P12: which wiki a page belongs to
use crate::{rng::Rng, Prop};
use std::path::{Component, Path, PathBuf};
use vimwiki_core::*;

const NAMES: &[&str] = &["a", "b", "sub", "index", "a.b", "page.wiki", "x y", "é", ".hid", "html", "wiki", "v1.2", "c#", "q?", "a[1]", "<&>", "a\"b", "s\\t", "p;q", "k:v", "~u", "a+b", "{x}^`"];
const SEGS: &[&str] = &["a", "b", "sub", "index", "x%20y", "page.wiki", ".", "..", "..", "%C3%A9", "v1.2", ""];
fn pick<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str { v[r.below(v.len())] }
fn wiki_dir(r: &mut Rng) -> String { let n = r.below(3); let mut s = String::new(); for _ in 0..n { s.push('/'); s += pick(r, NAMES); } if s.is_empty() { "/".into() } else { s } }
fn rel_page(r: &mut Rng) -> String { let n = 1 + r.below(3); (0..n).map(|_| pick(r, NAMES)).collect::<Vec<_>>().join("/") }
fn raw_path(r: &mut Rng) -> String {
    let n = r.below(6);
    let mut s = String::from(if r.chance(1, 2) { "/" } else { "" });
    for k in 0..n { if k > 0 { s.push('/'); } s += if r.chance(1, 2) { [".", "..", ""][r.below(3)] } else { pick(r, NAMES) }; }
    if r.chance(1, 5) { s.push('/'); }
    s
}
fn link_path(r: &mut Rng) -> String {
    if r.chance(1, 20) { return String::new(); }
    let n = 1 + r.below(4);
    let mut s = String::from(if r.chance(1, 5) { "/" } else { "" });
    for k in 0..n { if k > 0 { s.push('/'); } s += pick(r, SEGS); }
    if r.chance(1, 4) { s.push('/'); }
    s
}

fn join(dir: &str, rel: &str) -> String { if dir == "/" { format!("/{rel}") } else { format!("{dir}/{rel}") } }
/// names of a path, `..` resolved (never above the root) and `.` dropped; independent of std::path
fn resolve(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in s.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x.to_string()) } }
    v
}
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        let h = if b[i] == b'%' && i + 2 < b.len() { std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|x| u8::from_str_radix(x, 16).ok()) } else { None };
        match h { Some(x) => { o.push(x); i += 3 } None => { o.push(b[i]); i += 1 } }
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// file name with its extension replaced
fn with_ext(name: &str, ext: &str) -> String {
    let stem = match name.rfind('.') { Some(k) if k > 0 => &name[..k], _ => name };
    if ext.is_empty() { stem.into() } else { format!("{stem}.{ext}") }
}
fn ext_of(name: &str) -> &str { match name.rfind('.') { Some(k) if k > 0 => &name[k + 1..], _ => "" } }
/// the file a page of a wiki is written to: the last component of the page's text gets the extension, `..` kept
fn out_file(html: &str, page: &str, ext: &str) -> String { out_in("", html, page, ext) }
/// same, but an absolute page path inside the wiki's own directory is taken as that file
fn out_in(w: &str, html: &str, page: &str, ext: &str) -> String {
    let w: Vec<&str> = w.split('/').filter(|x| !x.is_empty()).collect();
    let pc: Vec<&str> = page.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
    let page = &if page.starts_with('/') && pc.len() >= w.len() && pc[..w.len()] == w[..] { pc[w.len()..].join("/") } else { page.to_string() };
    let page = page.trim_start_matches('/').trim_end_matches('/');
    let mut v: Vec<String> = page.split('/').filter(|c| !c.is_empty() && *c != ".").map(|x| x.to_string()).collect();
    if let Some(l) = v.last_mut() { if l != ".." { *l = with_ext(l, ext); } }
    join(html, &v.join("/"))
}
fn wiki(path: &str, html: &str, name: Option<&str>) -> HtmlWikiConfig {
    HtmlWikiConfig { path: PathBuf::from(path), path_html: PathBuf::from(html), name: name.map(|x| x.to_string()), ..Default::default() }
}
fn below(p: &Path, w: &str) -> bool { let (a, b): (Vec<_>, Vec<_>) = (p.components().collect(), Path::new(w).components().collect()); a.len() >= b.len() && a[..b.len()] == b[..] }

pub struct Paths;
impl Paths {
    #[cfg(feature = "hooks")]
    fn check_path(&self, s: &str) -> Result<(), String> {
        use vimwiki_core::verif::html_utils::*;
        let p = Path::new(s);
        let want: PathBuf = { let v = resolve(s); let t = v.join("/"); PathBuf::from(if s.starts_with('/') { format!("/{t}") } else { t }) };
        let got = normalize_path(p);
        if got != want || got.as_os_str() != want.as_os_str() { return Err(format!("normalize_path({s:?}) = {got:?}, expected {want:?}")); }
        if normalize_path(&got) != got { return Err(format!("normalize_path is not idempotent on {s:?}")); }
        let rel = make_path_relative(p);
        let want: PathBuf = p.components().filter(|c| *c != Component::RootDir).collect();
        if rel != want || rel.is_absolute() { return Err(format!("make_path_relative({s:?}) = {rel:?}")); }
        let u = path_to_uri_string(p);
        let want = { let v: Vec<&str> = s.split('/').enumerate().filter(|(k, c)| !c.is_empty() && (*c != "." || (*k == 0 && !s.starts_with('/')))).map(|x| x.1).collect(); format!("{}{}", if s.starts_with('/') { "/" } else { "" }, v.join("/")) };
        if u != want { return Err(format!("path_to_uri_string({s:?}) = {u:?}, expected {want:?}")); }
        Ok(())
    }
    #[cfg(not(feature = "hooks"))]
    fn check_path(&self, _: &str) -> Result<(), String> { Ok(()) }
    fn check_out(&self, w: &str, html: &str, page: &str, ext: &str) -> Result<(), String> {
        let c = wiki(w, html, None);
        for (input, what) in [(page.to_string(), "relative"), (join(w, page), "absolute")] {
            let got = c.make_output_path(Path::new(&input), ext);
            let want = PathBuf::from(out_file(html, page, ext));
            if got != want { return Err(format!("make_output_path of {what} {input:?} in wiki {w:?} -> {html:?} ({ext:?}) is {got:?}, expected {want:?}")); }
        }
        let full = PathBuf::from(join(w, page));
        if c.path_within(&full) != Some(Path::new(page)) { return Err(format!("path_within({full:?}) in {w:?} is {:?}", c.path_within(&full))); }
        let n = page.split('/').count();
        let up: PathBuf = std::iter::repeat("..").take(n - 1).collect();
        if c.path_to_root(&full) != Some(up.clone()) { return Err(format!("path_to_root({full:?}) in {w:?} is {:?}, expected {up:?}", c.path_to_root(&full))); }
        if w != "/" && (c.path_within(Path::new("/not/there")).is_some() != below(Path::new("/not/there"), w)) { return Err(format!("path_within of a foreign path in {w:?}")); }
        Ok(())
    }
    #[cfg(feature = "hooks")]
    #[allow(clippy::too_many_arguments)]
    fn check_link(&self, kind: &str, w: &str, html: &str, w2: &str, html2: &str, src: &str, link: &str, frag: &str) -> Result<(), String> {
        use vimwiki_core::verif::html_utils::*;
        if link.starts_with("//") { return Ok(()); }
        let diary = ["diary", "journal", "j/d d", "."][(w.len() + src.len() + link.len()) % 4];
        // the link belongs to the wiki it is resolved for, whichever page is active
        let runtime = HtmlRuntimeConfig { wiki_index: [None, Some(1), Some(2)][src.len() % 3], page: PathBuf::from("/elsewhere/p.wiki") };
        let mut config = HtmlConfig { runtime, wikis: vec![wiki(w, html, Some("main")), wiki("/z1", "/z1h", Some("dup")), wiki(w2, html2, Some("other")), wiki("/z2", "/z2h", Some("dup"))], ..Default::default() };
        config.wikis[0].diary_rel_path = PathBuf::from(diary);
        let here = &config.wikis[0];
        let uri = if frag.is_empty() { link.to_string() } else { format!("{link}#{frag}") };
        let is_dir = link.ends_with('/');
        let page = |l: &str| if is_dir { format!("{l}index") } else { l.to_string() };
        let dir = match src.rfind('/') { Some(k) => &src[..k], None => "" };
        let here_page = |l: &str| if l.starts_with('/') { l.to_string() } else { format!("{dir}/{l}") };
        // a link that names no file at all
        let in_page = kind == "wiki" && link.split('/').all(|x| x.is_empty()) && !frag.is_empty();
        if link.split('/').all(|x| x.is_empty() || x == ".") && !is_dir && !in_page { return Ok(()); }
        let (l, want): (Link, Option<String>) = match kind {
            "wiki" => { let Ok(x) = Link::try_new_wiki_link(uri.as_str(), None) else { return Ok(()) }; (x, Some(out_in(if link.starts_with('/') { w } else { "" }, html, &here_page(&page(link)), "html"))) }
            "trans" => {
                let Ok(x) = Link::try_new_transclusion_link(uri.as_str(), None, None) else { return Ok(()) };
                let last = link.split('/').filter(|x| !x.is_empty() && *x != ".").last().unwrap_or("");
                let e = if last == ".." { "" } else { ext_of(last) };
                (x, Some(out_in(if link.starts_with('/') { w } else { "" }, html, &here_page(link), e)))
            }
            "index" => { let Ok(x) = Link::try_new_indexed_interwiki_link(2, uri.as_str(), None) else { return Ok(()) }; (x, Some(out_in(w2, html2, &page(link), "html"))) }
            "noindex" => { let Ok(x) = Link::try_new_indexed_interwiki_link(9, uri.as_str(), None) else { return Ok(()) }; (x, None) }
            "name" => { let Ok(x) = Link::try_new_named_interwiki_link("other", uri.as_str(), None) else { return Ok(()) }; (x, Some(out_in(w2, html2, &page(link), "html"))) }
            "dup" => { let Ok(x) = Link::try_new_named_interwiki_link("dup", uri.as_str(), None) else { return Ok(()) }; (x, Some(out_in("/z1", "/z1h", &page(link), "html"))) }
            "noname" => { let Ok(x) = Link::try_new_named_interwiki_link("nope", uri.as_str(), None) else { return Ok(()) }; (x, None) }
            "diary" => {
                let (y, m, day) = some_date(src.len() + 7 * w.len() + 31 * link.len() + 3 * html.len());
                let d = vimwiki_core::vendor::chrono::NaiveDate::from_ymd(y, m, day);
                let a = if frag.is_empty() { None } else { Some(Anchor::new(vec![frag.to_string().into()])) };
                (Link::new_diary_link(d, None, a), Some(out_file(html, &format!("{diary}/{y:04}-{m:02}-{day:02}"), "html")))
            }
            _ => { let Ok(x) = Link::try_new_raw_link(uri.as_str()) else { return Ok(()) }; let keep = x.data().uri_ref.to_string(); return match resolve_link(&config, here, Path::new(src), &x) { Ok(u) if u.to_string() == keep => Ok(()), r => Err(format!("raw link {uri:?} resolved to {r:?}")) } }
        };
        let got = resolve_link(&config, here, Path::new(src), &l);
        let Some(want) = want else { return if got.is_err() { Ok(()) } else { Err(format!("{kind} link {uri:?} to a missing wiki resolved to {got:?}")) } };
        // an anchor within the page itself stays as it is
        if in_page { return match got { Ok(u) if u.to_string() == uri => Ok(()), g => Err(format!("local anchor {uri:?} resolved to {g:?}")) }; }
        if want.ends_with('/') { return Ok(()); }
        let from = out_file(html, src, "html");
        let u = match got { Ok(u) => u, Err(e) => return Err(format!("{kind} link {uri:?} from {src:?} in wiki {w:?} -> {html:?} (other {html2:?}) fails: {e}")) };
        if u.is_absolute_path_reference() || u.scheme().is_some() { return Err(format!("{kind} link {uri:?} resolved to {u}, not relative")); }
        let f = u.fragment().map(|x| decode(x.as_str()));
        let wf = if frag.is_empty() || kind == "trans" { None } else { Some(frag.split("%23").map(decode).collect::<Vec<_>>().join("-")) };
        if f != wf { return Err(format!("{kind} link {uri:?} resolved to {u}: fragment {f:?}, expected {wf:?}")); }
        let href = u.path().to_string();
        let wr: Vec<String> = resolve(&want).iter().map(|x| decode(x)).collect();
        let fr = resolve(&from);
        if href.is_empty() && wr == fr { return Ok(()); }
        // a page file as a directory of the target cannot be told apart from its own directory
        if wr.len() > fr.len() && wr[..fr.len()] == fr[..] { return Ok(()); }
        let (d, _) = from.rsplit_once('/').unwrap();
        let gr: Vec<String> = resolve(&format!("{d}/{href}")).iter().map(|x| decode(x)).collect();
        if gr != wr { return Err(format!("{kind} link {uri:?} on page {src:?} of wiki {w:?} -> {html:?} (other -> {html2:?}) resolved to {u}, which leads to {gr:?}, expected {wr:?}")); }
        Ok(())
    }
    #[cfg(not(feature = "hooks"))]
    #[allow(clippy::too_many_arguments)]
    fn check_link(&self, _: &str, _: &str, _: &str, _: &str, _: &str, _: &str, _: &str, _: &str) -> Result<(), String> { Ok(()) }
}
#[cfg(feature = "hooks")]
/// days around the turn of years and in the middle of months
fn some_date(k: usize) -> (i32, u32, u32) { let y = 987 + (k % 53) as i32 * 23; match k % 4 { 0 => (y, 1, 1 + (k / 4 % 3) as u32), 1 => (y, 12, 29 + (k / 4 % 3) as u32), _ => (y, 1 + (k % 12) as u32, 1 + (k % 28) as u32) } }
const KINDS: &[&str] = &["wiki", "wiki", "wiki", "trans", "trans", "index", "index", "name", "dup", "diary", "raw", "noindex", "noname"];
impl Prop for Paths {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let cs = ["", ".", "..", "a", "b.c"];
        let a = ["", "/"].iter().flat_map(move |h| (0..625usize).map(move |k| format!("path|{h}{}", (0..4).map(|j| cs[k / 5usize.pow(j) % 5]).collect::<Vec<_>>().join("/"))));
        let links = ["", "a", "a/", "../a", "../../a", "/a", "/sub/", "a/b", "./a", "sub/../a", "sub/b", "a.wiki", "..", "../", "x%20y/z", "sub/index"];
        let dirs = [("/w", "/h", "/o", "/oh"), ("/", "/h", "/o", "/h/o"), ("/w/x y", "/h/x y", "/o", "/h/é"), ("/w", "/w/html", "/w/sub", "/w/sub/html"), ("/w", "/", "/o", "/p"), ("/c#", "/h/c#", "/q?", "/h/q?"), ("/w/a[1]", "/h/<&>", "/k:v", "/h/k:v/s\\t")];
        let srcs = ["a.wiki", "c#/q?.wiki", "sub/a.wiki", "sub/deep/x y.wiki", "index.wiki", "sub/index"];
        let mut b = vec![];
        for k in KINDS.iter().skip(2) { for l in links { for d in dirs { for s in srcs { for f in ["", "top"] { b.push(format!("link|{k}|{}|{}|{}|{}|{s}|{l}|{f}", d.0, d.1, d.2, d.3)); } } } } }
        Box::new(a.chain(b))
    }
    fn random(&self, r: &mut Rng) -> String {
        match r.below(4) {
            0 => format!("path|{}", raw_path(r)),
            1 => format!("out|{}|{}|{}|{}", wiki_dir(r), wiki_dir(r), rel_page(r), pick(r, &["html", "", "x"])),
            _ => format!("link|{}|{}|{}|{}|{}|{}|{}|{}", pick(r, KINDS), wiki_dir(r), wiki_dir(r), wiki_dir(r), wiki_dir(r), rel_page(r), link_path(r), pick(r, &["", "", "top", "a%23b", "x%20y"])),
        }
    }
    fn text_case(&self) -> bool { false }
    fn check(&self, s: &str) -> Result<(), String> {
        let f: Vec<&str> = s.split('|').collect();
        match (f[0], f.len()) {
            ("path", 2) => self.check_path(f[1]),
            ("out", 5) => self.check_out(f[1], f[2], f[3], f[4]),
            ("link", 9) => self.check_link(f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]),
            _ => Ok(()),
        }
    }
}

pub struct Wikis;
impl Prop for Wikis {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let ps = ["/", "/a", "/a/b", "/ab", "/a/b/c", "/b"];
        let pages = ["/a", "/a/b", "/a/b/x.wiki", "/ab/x.wiki", "/a/bc/x.wiki", "/x.wiki", "/b/a/x.wiki", "/", "/a/b/c/d/e"];
        Box::new((0..216usize * pages.len()).flat_map(move |q| { let (k, p) = (q % 216, pages[q / 216]); (0..4).map(move |a| format!("{p}|{a}|{}:n|{}:|{}:n", ps[k % 6], ps[k / 6 % 6], ps[k / 36])) }))
    }
    fn random(&self, r: &mut Rng) -> String {
        let n = r.below(5);
        let page = join(&wiki_dir(r), &rel_page(r));
        let ws: Vec<String> = (0..n).map(|_| {
            // prefixes of the page, and others
            let d = if r.chance(1, 2) { let v = resolve(&page); format!("/{}", v[..r.below(v.len() + 1)].join("/")) } else { wiki_dir(r) };
            // a directory may be written in more than one way
            let d = match r.below(5) { 0 => d.replace('/', "//").replacen("//", "/", 1), 1 => format!("{}/", d.replace('/', "/./")), _ => d };
            format!("{d}:{}", pick(r, &["", "n", "m", "N", " n", "n ", "nn"]))
        }).collect();
        format!("{page}|{}|{}", r.below(n + 2), ws.join("|"))
    }
    fn text_case(&self) -> bool { false }
    fn check(&self, s: &str) -> Result<(), String> {
        let f: Vec<&str> = s.split('|').collect();
        if f.len() < 2 { return Ok(()); }
        let (page, act) = (Path::new(f[0]), f[1].parse::<usize>().unwrap_or(0));
        let ws: Vec<(&str, &str)> = f[2..].iter().filter_map(|x| x.rsplit_once(':')).collect();
        let wikis: Vec<HtmlWikiConfig> = ws.iter().map(|(p, n)| wiki(p, "/h", if n.is_empty() { None } else { Some(n) })).collect();
        let active = if act == 0 { None } else { Some(act - 1) };
        let c = HtmlConfig { runtime: HtmlRuntimeConfig { wiki_index: active, page: page.to_path_buf() }, wikis, ..Default::default() };
        let depth = |w: &str| w.split('/').filter(|x| !x.is_empty() && *x != ".").count();
        let best = ws.iter().filter(|w| below(page, w.0)).map(|w| depth(w.0)).max();
        let got = c.find_wiki_index_by_path(page);
        match (got, best) {
            (None, None) => {}
            (Some(i), Some(d)) if i < ws.len() && below(page, ws[i].0) && depth(ws[i].0) == d => {}
            _ => return Err(format!("find_wiki_index_by_path({page:?}) = {got:?} among {ws:?}")),
        }
        if c.find_wiki_by_path(page).map(|w| w.path.clone()) != got.map(|i| PathBuf::from(ws[i].0)) { return Err(format!("find_wiki_by_path({page:?}) among {ws:?}")); }
        for n in ["n", "m", "N", " n", "n ", "nn", ""] {
            let want = if n.is_empty() { None } else { ws.iter().position(|w| w.1 == n) };
            if c.find_wiki_index_by_name(n) != want { return Err(format!("find_wiki_index_by_name({n:?}) = {:?} among {ws:?}", c.find_wiki_index_by_name(n))); }
            if c.find_wiki_by_name(n).map(|w| w.path.clone()) != want.map(|i| PathBuf::from(ws[i].0)) { return Err(format!("find_wiki_by_name({n:?}) among {ws:?}")); }
        }
        for i in 0..ws.len() + 2 { if c.find_wiki_by_index(i).map(|w| w.path.clone()) != ws.get(i).map(|w| PathBuf::from(w.0)) { return Err(format!("find_wiki_by_index({i}) among {ws:?}")); } }
        let aw = active.and_then(|i| ws.get(i));
        if c.find_active_wiki().map(|w| w.path.clone()) != aw.map(|w| PathBuf::from(w.0)) { return Err(format!("find_active_wiki with index {active:?} among {ws:?}")); }
        let dir = page.parent().map(|x| x.to_path_buf()).unwrap_or_default();
        let cur = c.to_current_wiki();
        if cur.path != aw.map(|w| PathBuf::from(w.0)).unwrap_or(dir.clone()) { return Err(format!("to_current_wiki().path = {:?} for page {page:?}, index {active:?} among {ws:?}", cur.path)); }
        let up = match aw { Some(w) if below(page, w.0) => std::iter::repeat("..").take((page.components().count() - Path::new(w.0).components().count()).saturating_sub(1)).collect(), _ => PathBuf::new() };
        if c.to_active_page_path_to_wiki_root() != up { return Err(format!("to_active_page_path_to_wiki_root() = {:?} for page {page:?}, index {active:?} among {ws:?}", c.to_active_page_path_to_wiki_root())); }
        if aw.map_or(page.parent().is_some(), |w| below(page, w.0)) {
            let k = aw.map(|w| Path::new(w.0).components().count()).unwrap_or(dir.components().count());
            let want: PathBuf = page.components().skip(k).collect();
            if c.as_active_page_path_within_wiki() != want { return Err(format!("as_active_page_path_within_wiki() = {:?} for page {page:?}, index {active:?} among {ws:?}", c.as_active_page_path_within_wiki())); }
        }
        Ok(())
    }
}
