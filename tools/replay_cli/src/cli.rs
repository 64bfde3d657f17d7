//! P17: the command line loads, converts and formats the pages of the selected
//! wikis from what their files hold now. A case is a script of commands run in a
//! scratch directory; after every run of the tool the whole directory is compared
//! with a model of it.
use crate::{gen, rng::Rng, Prop};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use structopt::StructOpt;
use vimwiki_cli::{run, Opt};
use vimwiki_core::*;

static N: AtomicU64 = AtomicU64::new(0);
const PAGES: &[&str] = &["a.wiki", "b.wiki", "sub/a.wiki", "sub/deep/c.wiki", "d.wiki/e.wiki", "a.md", "noext", "A.WIKI", "x.wiki.bak", "x.bak.wiki", ".wiki", "\u{fc}ber.wiki", "in/a.wiki", "in/b.md"];
const TEXTS: &[&str] = &["", "one\n", "two\n", "= T =\n\npara *b*\n", "- a\n    - b\n", "| a | b |\n|---|---|\n| c | d |\n", "term:: def\n:: def 2\n", "{{{rust k=\"v\"\nfn x\n}}}\n", "> q\n", "{{$\nx\n}}$\n", "%title t & t\n\nbody\n", "%date 2020-01-02\n%nohtml\n", "%% c\ntext :tag:x:\n", "[[p|d]] [[b#c]] {{i.png|alt}} https://x.y\n", "\u{e9}\u{1F600} text\n", "text %title% here\n", "----\n", "1. x\n2. y\n"];

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue }
        match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} }
    }
    o
}

/// JSON of a page, with the cells of tables (an unordered map) in order
fn canon(mut v: Value) -> Value {
    match &mut v {
        Value::Array(a) => for x in a.iter_mut() { *x = canon(x.take()) },
        Value::Object(m) => for (k, x) in m.iter_mut() {
            *x = canon(x.take());
            if k == "cells" { if let Value::Array(a) = x { a.sort_by_key(|c| c.to_string()) } }
        },
        _ => {}
    }
    v
}

/// HTML with the attributes of every tag in order: theirs is not fixed
fn attrs_sorted(h: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < h.len() {
        if h[i] != b'<' { o.push(h[i]); i += 1; continue }
        let (mut j, mut q, mut w, mut parts) = (i, false, vec![], vec![]);
        while j < h.len() && (q || h[j] != b'>') {
            if h[j] == b'"' { q = !q }
            if h[j] == b' ' && !q { parts.push(std::mem::take(&mut w)) } else { w.push(h[j]) }
            j += 1;
        }
        parts.push(w);
        parts[1..].sort();
        for p in parts { o.extend(p); o.push(b' ') }
        i = j;
    }
    o
}

struct W { path: PathBuf, html: PathBuf, name: Option<String>, ext: String }
type Files = BTreeMap<PathBuf, Vec<u8>>;
fn read_tree(dir: &Path, out: &mut Files) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.filter_map(|e| e.ok()) {
            let p = e.path();
            if p.is_dir() { read_tree(&p, out) } else { out.insert(p.clone(), std::fs::read(&p).unwrap_or_default()); }
        }
    }
}
fn ext_of(p: &Path) -> Option<&str> {
    let n = p.file_name()?.to_str()?;
    let k = n.rfind('.')?;
    if k == 0 { None } else { Some(&n[k + 1..]) }
}
fn parsed(t: &str) -> Option<Page<'static>> { Language::from_vimwiki_str(t).parse::<Page>().ok().map(|p| p.into_owned()) }
/// the tool must accept the page: others end the script
fn usable(t: &str) -> bool { parsed(t).map_or(false, |p| p.to_vimwiki_string(VimwikiConfig::default()).is_ok() && p.to_html_string(HtmlConfig::default()).is_ok() && !t.contains("%template")) }

struct World { root: PathBuf, cache: PathBuf, home: PathBuf, wikis: Vec<W>, files: Files, extra_out: BTreeSet<PathBuf> }
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
        for p in &self.extra_out { let _ = std::fs::remove_file(p); }
    }
}
impl World {
    fn config(&self) -> HtmlConfig {
        HtmlConfig {
            wikis: self.wikis.iter().map(|w| HtmlWikiConfig { path: w.path.clone(), path_html: w.html.clone(), name: w.name.clone(), ext: w.ext.clone(), ..Default::default() }).collect(),
            template: HtmlTemplateConfig { text: TPL.into(), ..Default::default() },
            ..Default::default()
        }
    }
    fn toml(&self) -> String {
        let q = |p: &Path| format!("'{}'", p.to_str().unwrap());
        let mut s = format!("[template]\ntext = '{TPL}'\n");
        for w in &self.wikis {
            s += &format!("[[wikis]]\npath = {}\npath_html = {}\next = '{}'\n", q(&w.path), q(&w.html), w.ext);
            if let Some(n) = &w.name { s += &format!("name = '{n}'\n"); }
        }
        s
    }
    fn pages(&self, dir: &Path, ext: &str) -> Vec<PathBuf> { self.files.keys().filter(|p| p.starts_with(dir) && ext_of(p) == Some(ext)).cloned().collect() }
    fn selected(&self, inc: &[String]) -> Vec<usize> {
        (0..self.wikis.len()).filter(|i| inc.is_empty() || inc.iter().any(|x| match x.parse::<usize>() { Ok(k) => k == *i, Err(_) => self.wikis[*i].name.as_deref() == Some(x.as_str()) })).collect()
    }
    fn text(&self, p: &Path) -> Option<String> { String::from_utf8(self.files.get(p)?.clone()).ok() }
    /// the directory holds what the model says (the cache is judged apart)
    fn same(&self, what: &str) -> Result<(), String> {
        let mut now = Files::new();
        read_tree(&self.root, &mut now);
        now.retain(|p, _| !p.starts_with(&self.cache) && p.file_name().map_or(true, |n| n != "config.toml" && n != "out.json"));
        let rel = |p: &Path| p.strip_prefix(&self.root).unwrap_or(p).display().to_string();
        for (p, c) in &self.files {
            match now.get(p) {
                None => return Err(format!("{what}: {} is missing", rel(p))),
                Some(d) if d != c && (p.extension().map_or(true, |e| e != "html") || attrs_sorted(d) != attrs_sorted(c)) => return Err(format!("{what}: {} holds {:?}, should hold {:?}", rel(p), String::from_utf8_lossy(d), String::from_utf8_lossy(c))),
                _ => {}
            }
        }
        for p in now.keys() { if !self.files.contains_key(p) { return Err(format!("{what}: {} should not exist", rel(p))) } }
        Ok(())
    }
    fn cache_files(&self) -> Files { let mut f = Files::new(); read_tree(&self.cache, &mut f); f }
    fn common(&self, inc: &[String], flags: &str) -> Vec<String> {
        let mut a = vec!["vimwiki".to_string()];
        for i in inc { a.push(format!("--include={i}")); }
        a.push(format!("--config={}", self.root.join("config.toml").display()));
        a.push(format!("--cache={}", self.cache.display()));
        if flags.contains('n') { a.push("--no-cache".into()); }
        if flags.contains('p') { a.push("--no-prune-cache".into()); }
        a
    }
    /// all pages the tool has to load; None when one of them is not text
    fn to_load(&self, inc: &[String], extra: &[PathBuf]) -> (Vec<(usize, Vec<PathBuf>)>, bool) {
        let mut v: Vec<(usize, Vec<PathBuf>)> = self.selected(inc).into_iter().map(|i| (i, self.pages(&self.wikis[i].path, &self.wikis[i].ext))).collect();
        if inc.is_empty() { for (k, e) in extra.iter().enumerate() { let d = if e.is_dir() { e.clone() } else { e.parent().unwrap().to_path_buf() }; v.push((self.wikis.len() + k, self.pages(&d, "wiki"))); } }
        let ok = v.iter().all(|(_, ps)| ps.iter().all(|p| self.text(p).is_some()));
        (v, ok)
    }
    /// entries of the cache after a run that loaded `sums`
    fn judge_cache(&self, what: &str, before: &Files, sums: &BTreeMap<String, Value>, flags: &str) -> Result<(), String> {
        let now = self.cache_files();
        if flags.contains('n') {
            if &now != before { return Err(format!("{what}: the cache changed although it is not to be used")) }
            return Ok(());
        }
        for (s, v) in sums {
            match now.get(&self.cache.join(s)) {
                None => return Err(format!("{what}: no cache entry for a page in use")),
                Some(d) => match serde_json::from_slice::<Value>(d) {
                    Ok(x) if &canon(x.clone()) == v => {}
                    _ => return Err(format!("{what}: the cache entry of a page holds something else: {:?}", String::from_utf8_lossy(d))),
                },
            }
        }
        for p in now.keys() {
            let n = p.file_name().unwrap().to_str().unwrap_or("").to_string();
            if !sums.contains_key(&n) && (!flags.contains('p') || !before.contains_key(p)) { return Err(format!("{what}: a cache entry that is not in use is left or new: {n}")) }
        }
        if flags.contains('p') { for p in before.keys() { if !now.contains_key(p) { return Err(format!("{what}: a cache entry is gone although pruning is off")) } } }
        Ok(())
    }
    fn load(&mut self, inc: &[String], flags: &str) -> Result<(), String> {
        let what = format!("load {inc:?} {flags}");
        let out = self.root.join("out.json");
        let _ = std::fs::remove_file(&out);
        let before = self.cache_files();
        let mut a = self.common(inc, flags);
        a.extend(["inspect".into(), format!("--output={}", out.display()), "$".into()]);
        let r = run(Opt::from_iter_safe(&a).map_err(|e| format!("{what}: arguments refused: {e}"))?);
        let (want, ok) = self.to_load(inc, &[]);
        if r.is_ok() != ok { return Err(format!("{what}: {}", if ok { "failed" } else { "succeeded on a file that is not text" })) }
        self.same(&what)?;
        if !ok { return Ok(()) }
        let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap_or_default()).map_err(|e| format!("{what}: no output: {e}"))?;
        let ws = v[0]["wikis"].as_array().cloned().unwrap_or_default();
        if ws.len() != want.len() { return Err(format!("{what}: {} wikis loaded instead of {}", ws.len(), want.len())) }
        let mut sums: BTreeMap<String, Value> = BTreeMap::new();
        let mut text_of: BTreeMap<String, String> = BTreeMap::new();
        for (w, (i, ps)) in ws.iter().zip(&want) {
            let m = &self.wikis[*i];
            if w["index"].as_u64() != Some(*i as u64) || w["name"].as_str() != m.name.as_deref() || w["path"].as_str() != m.path.to_str() { return Err(format!("{what}: wiki {i} loaded as {} {} {}", w["index"], w["name"], w["path"])) }
            let fs = w["files"].as_array().cloned().unwrap_or_default();
            let mut have: Vec<String> = fs.iter().map(|f| f["path"].as_str().unwrap_or("").to_string()).collect();
            have.sort();
            let mut exp: Vec<String> = ps.iter().map(|p| p.to_str().unwrap().to_string()).collect();
            exp.sort();
            if have != exp { return Err(format!("{what}: wiki {i} has files {have:?} instead of {exp:?}")) }
            for f in &fs {
                let p = Path::new(f["path"].as_str().unwrap());
                let t = self.text(p).unwrap();
                let page = match parsed(&t) { Some(p) => canon(serde_json::to_value(&p).map_err(|e| format!("{what}: page {t:?} has no JSON: {e}"))?), None => return Ok(()) };
                if canon(f["data"].clone()) != page { return Err(format!("{what}: {} holds {t:?} and was loaded as {}", p.strip_prefix(&self.root).unwrap().display(), f["data"])) }
                let c = f["checksum"].as_str().unwrap_or("").to_string();
                if let Some(o) = text_of.insert(c.clone(), t.clone()) { if o != t { return Err(format!("{what}: {o:?} and {t:?} have the same checksum")) } }
                // what was cached reads back as the page
                let back: Result<Page, _> = serde_json::from_value(page.clone());
                match back { Ok(b) => if Some(&b) != parsed(&t).as_ref() { return Err(format!("{what}: page {t:?} reads back from JSON as another page")) }, Err(e) => return Err(format!("{what}: page {t:?} does not read back from JSON: {e}")) }
                sums.insert(c, page);
            }
        }
        self.judge_cache(&what, &before, &sums, flags)
    }
    fn convert(&mut self, inc: &[String], flags: &str, extra: &[PathBuf]) -> Result<(), String> {
        let what = format!("convert {inc:?} {flags} {:?}", extra.iter().map(|p| p.strip_prefix(&self.root).unwrap_or(p)).collect::<Vec<_>>());
        let mut a = self.common(inc, flags);
        a.push("convert".into());
        if flags.contains('o') { a.push("--stdout".into()); }
        if flags.contains('c') { a.push("--include-vimwiki-css".into()); }
        for e in extra { a.push(e.display().to_string()); }
        let before = self.cache_files();
        let exist = extra.iter().all(|e| e.exists());
        let (_, ok) = self.to_load(inc, extra);
        let mut cfg = self.config();
        for e in extra { cfg.wikis.push(HtmlWikiConfig { path: if e.is_dir() { e.clone() } else { e.parent().unwrap().to_path_buf() }, ..Default::default() }); }
        let mut todo: Vec<PathBuf> = vec![];
        if extra.is_empty() { for i in self.selected(inc) { todo.extend(self.pages(&self.wikis[i].path, &self.wikis[i].ext)); } }
        for e in extra { todo.extend(self.pages(e, "wiki")); }
        let ok = ok && exist && todo.iter().all(|p| self.text(p).is_some());
        let r = run(Opt::from_iter_safe(&a).map_err(|e| format!("{what}: arguments refused: {e}"))?);
        if !ok {
            if r.is_ok() { return Err(format!("{what}: succeeded although a file is missing or not text")) }
            // pages before the faulty one may have been written: start over from what is there
            let mut now = Files::new();
            read_tree(&self.root, &mut now);
            now.retain(|p, _| !p.starts_with(&self.cache) && p.file_name().map_or(true, |n| n != "config.toml" && n != "out.json"));
            for (p, c) in &self.files { if !p.starts_with(self.root.join("h")) && now.get(p) != Some(c) { return Err(format!("{what}: {} changed", p.display())) } }
            self.files = now;
            return Ok(());
        }
        if r.is_err() { return Err(format!("{what}: failed")) }
        if !flags.contains('o') {
            for p in &todo {
                let t = self.text(p).unwrap();
                let page = match parsed(&t) { Some(p) => p, None => return Ok(()) };
                // the deepest wiki that holds the page, the last of them
                let wi = (0..cfg.wikis.len()).filter(|k| p.starts_with(&cfg.wikis[*k].path)).max_by_key(|k| (cfg.wikis[*k].path.components().count(), *k));
                let mut c = cfg.clone();
                c.runtime = HtmlRuntimeConfig { page: p.clone(), wiki_index: wi };
                let html = match page.to_html_page(c) { Ok(h) => h, Err(_) => return Ok(()) };
                let w = match wi { Some(k) => &cfg.wikis[k], None => return Err(format!("{what}: internal: page without wiki")) };
                let rel = p.strip_prefix(&w.path).unwrap();
                let mut out = w.path_html.join(rel);
                out.set_extension("html");
                if out.starts_with(&self.root) { self.files.insert(out, html.into_bytes()); } else {
                    match std::fs::read_to_string(&out) { Ok(h) if attrs_sorted(h.as_bytes()) == attrs_sorted(html.as_bytes()) => {}, x => return Err(format!("{what}: {} holds {x:?}, should hold {html:?}", out.display())) }
                    self.extra_out.insert(out);
                }
            }
            if flags.contains('c') && extra.is_empty() {
                let mut css = None;
                for i in self.selected(inc) {
                    let p = self.wikis[i].html.join("style.css");
                    let d = match std::fs::read(&p) { Ok(d) => d, Err(_) => return Err(format!("{what}: no style sheet for wiki {i}")) };
                    if d.len() < 100 || css.as_ref().map_or(false, |c| c != &d) { return Err(format!("{what}: style sheet of wiki {i} is not the standard one")) }
                    css = Some(d.clone());
                    self.files.insert(p, d);
                }
            }
        }
        self.same(&what)?;
        if flags.contains('n') && before != self.cache_files() { return Err(format!("{what}: the cache changed although it is not to be used")) }
        Ok(())
    }
    fn format(&mut self, flags: &str, exts: &[String], paths: &[PathBuf]) -> Result<(), String> {
        let what = format!("format {flags} {exts:?} {:?}", paths.iter().map(|p| p.strip_prefix(&self.root).unwrap_or(p)).collect::<Vec<_>>());
        let mut a = vec!["vimwiki".to_string(), "format".into()];
        for e in exts { a.push(format!("--ext={e}")); }
        a.push(format!("--cache={}", self.cache.display()));
        if flags.contains('i') { a.push("--inline".into()); }
        for p in paths { a.push(p.display().to_string()); }
        let before = self.cache_files();
        let missing = paths.iter().any(|p| !p.exists());
        let one = ["wiki".to_string()];
        let exts: &[String] = if exts.is_empty() { &one } else { exts };
        let mut todo = BTreeSet::new();
        for p in paths { if p.is_dir() { for e in exts { todo.extend(self.pages(p, e)); } } else { todo.insert(p.clone()); } }
        let r = run(Opt::from_iter_safe(&a).map_err(|e| format!("{what}: arguments refused: {e}"))?);
        let mut new = Files::new();
        let mut bad = missing;
        for p in &todo {
            let t = match self.text(p) { Some(t) => t, None => { bad = true; continue } };
            match Language::from_vimwiki_str(&t).parse::<Page>().ok().and_then(|g| g.to_vimwiki_string(VimwikiConfig::default()).ok()) { Some(f) => { new.insert(p.clone(), f.into_bytes()); }, None => return Ok(()) }
        }
        if r.is_ok() == bad { return Err(format!("{what}: {}", if bad { "succeeded although a file is missing or not text" } else { "failed" })) }
        if flags.contains('i') {
            if bad {
                // any part of the files may have been done
                for (p, n) in &new { if let Ok(d) = std::fs::read(p) { if &d == n { self.files.insert(p.clone(), d); } } }
            } else { self.files.extend(new); }
        }
        self.same(&what)?;
        if before != self.cache_files() { return Err(format!("{what}: the cache changed")) }
        let _ = &self.home;
        Ok(())
    }
}
const TPL: &str = "T=%title% R=%root_path% S=%css% C=%content%";

fn list(s: &str) -> Vec<String> { if s == "-" { vec![] } else { s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() } }
fn clean(p: &str) -> Option<&str> { if p.is_empty() || p.starts_with('/') || p.split('/').any(|c| c.is_empty() || c == "." || c == ".." || c.contains(['\'', '\0', '='])) || p.starts_with("cache") || p == "config.toml" || p == "out.json" { None } else { Some(p) } }

pub struct Cli;
impl Prop for Cli {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        let base = "wiki w0 - wiki\nwiki w1 n wiki\nwiki w2 m md\nwiki w1/in n wiki\nw w0/a.wiki one\\n\nw w0/sub/b.wiki two\\n\nw w0/c.md other\\n\nw w1/a.wiki = T =\\n\nw w1/in/a.wiki one\\n\nw w2/a.md - x\\n\nw w2/b.wiki no\\n\n";
        let mut v: Vec<String> = vec![];
        for inc in ["-", "0", "1", "2", "3", "9", "n", "m", "N", "0,2", "n,0", "2,m", "1,3"] {
            for fl in ["-", "n", "p", "np"] {
                v.push(format!("{base}i {inc} {fl}\ni {inc} {fl}\nw w0/a.wiki two\\n\nd w1/a.wiki\ni {inc} {fl}\n"));
                v.push(format!("{base}c {inc} {fl}c\nw w0/a.wiki three\\n\nw w2/a.md x\\n\nc {inc} {fl}\nc {inc} {fl}o\ni - -\n"));
            }
            v.push(format!("{base}i - -\ni {inc} -\ni - -\ni {inc} p\ni - n\n"));
        }
        for t in TEXTS {
            v.push(format!("wiki w0 - wiki\nw w0/a.wiki {0}\nw w0/b.wiki {0}\ni - -\ni - -\nx 0 g\ni - -\nc - -\nf i - w0\ni - -\n", esc(t)));
            for k in 0..40 { v.push(format!("wiki w0 - wiki\nw w0/a.wiki {}\ni - -\nx 0 t{}\ni - -\ni - -\n", esc(t), k * k)); }
        }
        for p in PAGES { for q in ["wiki", "md", "WIKI", "bak"] {
            v.push(format!("wiki w0 - {q}\nw w0/{p} one\\n\nw w0/z.wiki two\\n\ni - -\nc - c\nf i wiki,md w0\nf i bak w0\nf i {q} w0/{p}\n"));
        } }
        v.push("wiki w0 - wiki\nwiki w1 n wiki\nb w0/a.wiki\nw w1/a.wiki x\\n\ni - -\ni n -\nc n -\nc - -\nf i - w0\nf i - w1\n".into());
        v.push("wiki w0 - wiki\nwiki w1 n wiki\nw w0/a.wiki x\\n\nc - c\n".into());
        Box::new(v.into_iter())
    }
    fn random(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        let nw = 1 + r.below(4);
        let dirs = ["w0", "w1", "w2", "w1/in", "w0/sub", "w1/in/x"];
        let mut used: Vec<&str> = vec![];
        for _ in 0..nw {
            let d = r.pick(&dirs);
            used.push(d);
            s += &format!("wiki {d} {} {}\n", r.pick(&["-", "-", "n", "m", "n", "1", "a b"]), r.pick(&["wiki", "wiki", "wiki", "md", "WIKI"]));
        }
        let text = |r: &mut Rng| loop { let t = match r.below(4) { 0 => gen::doc(r), 1 => format!("{}\n", gen::words(r, 4)), _ => r.pick(TEXTS).to_string() }; if usable(&t) { return esc(&t) } };
        let inc = |r: &mut Rng| match r.below(4) { 0 => "-".to_string(), 1 => r.pick(&["0", "1", "2", "3"]).to_string(), 2 => r.pick(&["n", "m", "1", "N"]).to_string(), _ => format!("{},{}", r.pick(&["n", "m", "0", "9"]), r.pick(&["1", "n", "3"])) };
        let fl = |r: &mut Rng, o: &str| { let mut f = String::from("-"); for c in o.chars() { if r.chance(1, 4) { f.push(c); } } f };
        for _ in 0..3 + r.below(10) {
            let d = if r.chance(1, 6) { "x" } else { used[r.below(used.len())] };
            let u = if d == "x" { "{u}" } else { "" };
            let f = if d == "x" { r.pick(&["a.wiki", "b.wiki"]) } else { r.pick(PAGES) };
            match r.below(10) {
                0..=3 => { let t = text(r); s += &format!("w {d}/{u}{f} {t}\n"); }
                4 => s += &format!("d {d}/{u}{f}\n"),
                5 => s += &format!("x {} {}\n", r.below(5), match r.below(4) { 0 => "g".into(), 1 => "r".into(), 2 => "j".to_string(), _ => format!("t{}", r.below(400)) }),
                6 | 7 => { let (i, g) = (inc(r), fl(r, "np")); s += &format!("i {i} {g}\n"); }
                8 => { let (i, g) = (inc(r), fl(r, "npco")); s += &format!("c {i} {g}{}\n", if r.chance(1, 4) { " x" } else { "" }); }
                _ => { let g = if r.chance(3, 4) { "i" } else { "-" }; let p = if r.chance(1, 2) { d.to_string() } else { format!("{d}/{u}{f}") }; s += &format!("f {g} {} {p}\n", r.pick(&["-", "wiki", "md,wiki", "bak"])); }
            }
        }
        if r.chance(1, 12) { s += &format!("b {}/a.wiki\ni - -\nc n -\nf i - {}\n", used[0], used[0]); }
        let (i, g) = (inc(r), fl(r, "np"));
        s += &format!("i {i} {g}\nc {i} {g}\ni - -\n");
        s
    }
    fn check(&self, case: &str) -> Result<(), String> {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let home = std::env::var_os("HOME").map(PathBuf::from).unwrap_or_default();
        let base = std::env::var_os("REPLAY_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let root = base.join(format!("p17-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).map_err(|e| format!("internal: no scratch directory: {e}"))?;
        let root = root.canonicalize().unwrap();
        let scratch_home = home.starts_with(&base);
        let mut w = World { cache: root.join("cache"), home, wikis: vec![], files: Files::new(), extra_out: BTreeSet::new(), root };
        let uniq = format!("u{}_{n}_", std::process::id());
        for line in case.lines() {
            let line = line.replace("{u}", &uniq);
            let f: Vec<&str> = line.splitn(4, ' ').collect();
            match f.as_slice() {
                ["wiki", p, name, ext] if w.wikis.len() < 6 => {
                    let p = match clean(p) { Some(p) => p, None => continue };
                    if ext.contains(['\'', '/']) || ext.is_empty() || name.contains('\'') { continue }
                    let k = w.wikis.len();
                    let _ = std::fs::create_dir_all(w.root.join(p));
                    w.wikis.push(W { path: w.root.join(p), html: w.root.join("h").join(k.to_string()), name: if *name == "-" { None } else { Some(name.to_string()) }, ext: ext.to_string() });
                    std::fs::write(w.root.join("config.toml"), w.toml()).unwrap();
                }
                ["w", p, rest @ ..] => {
                    let p = match clean(p) { Some(p) => w.root.join(p), None => continue };
                    let t = unesc(&rest.join(" "));
                    if !usable(&t) || p.is_dir() || p.starts_with(w.root.join("h")) || std::fs::create_dir_all(p.parent().unwrap()).is_err() { continue }
                    std::fs::write(&p, &t).unwrap();
                    w.files.insert(p, t.into_bytes());
                }
                ["b", p] => {
                    let p = match clean(p) { Some(p) => w.root.join(p), None => continue };
                    if p.is_dir() || p.starts_with(w.root.join("h")) || std::fs::create_dir_all(p.parent().unwrap()).is_err() { continue }
                    std::fs::write(&p, b"\xff\xfe").unwrap();
                    w.files.insert(p, b"\xff\xfe".to_vec());
                }
                ["d", p] => { if let Some(p) = clean(p) { let p = w.root.join(p); if w.files.remove(&p).is_some() { let _ = std::fs::remove_file(p); } } }
                ["x", k, m] => {
                    let c = w.cache_files();
                    if c.is_empty() { continue }
                    let (p, d) = c.iter().nth(k.parse::<usize>().unwrap_or(0) % c.len()).unwrap();
                    match m.as_bytes().first() {
                        Some(b'g') => std::fs::write(p, "garbage").unwrap(),
                        Some(b'r') => std::fs::remove_file(p).unwrap(),
                        Some(b'j') => std::fs::write(w.cache.join("junk"), "{}").unwrap(),
                        Some(b't') => { let n = m[1..].parse::<usize>().unwrap_or(0); if n + 1 < d.len() { std::fs::write(p, &d[..n]).unwrap() } }
                        _ => {}
                    }
                }
                ["i", inc, fl] if !w.wikis.is_empty() => w.load(&list(inc), fl)?,
                ["c", inc, fl, extra @ ..] if !w.wikis.is_empty() => {
                    let e: Vec<PathBuf> = extra.iter().flat_map(|x| x.split(' ')).filter_map(clean).map(|p| w.root.join(p)).collect();
                    if !e.is_empty() && (!scratch_home || fl.contains('c')) { continue }
                    // a path that is a wiki or holds one is ambiguous
                    if e.iter().any(|p| w.wikis.iter().any(|k| k.path.starts_with(p) || p.starts_with(&k.path))) { continue }
                    w.convert(&list(inc), fl, &e)?
                }
                ["f", fl, exts, paths] => {
                    let e: Vec<PathBuf> = paths.split(' ').filter_map(clean).map(|p| w.root.join(p)).collect();
                    if e.is_empty() || e.iter().any(|p| p.starts_with(w.root.join("h"))) { continue }
                    w.format(fl, &list(exts), &e)?
                }
                _ => {}
            }
        }
        Ok(())
    }
}
