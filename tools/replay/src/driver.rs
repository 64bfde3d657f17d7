//! Runs one property over its fixed and random cases, and reports what fails.
use crate::rng::Rng;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One property: `fixed` lists enumerated cases, `random` draws one, `check` judges one.
pub trait Prop: Sync {
    fn fixed(&self, thorough: bool) -> Box<dyn Iterator<Item = String> + Send + '_>;
    fn random(&self, r: &mut Rng) -> String;
    fn check(&self, case: &str) -> Result<(), String>;
    /// is the case worth keeping as a seed for mutation
    fn text_case(&self) -> bool { true }
}

thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

fn run_case(p: &dyn Prop, case: &str) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| p.check(case))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

/// shorten a failing case by removing pieces while it keeps failing
fn shrink(p: &dyn Prop, case: &str) -> String {
    if !p.text_case() { return case.to_string(); }
    let mut cur: Vec<char> = case.chars().collect();
    let t0 = Instant::now();
    let mut step = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < Duration::from_secs(10) {
            let j = (i + step).min(cur.len());
            let cand: String = cur[..i].iter().chain(cur[j..].iter()).collect();
            if run_case(p, &cand).is_err() {
                cur = cand.chars().collect();
                changed = true;
            } else {
                i += step;
            }
        }
        if step == 1 && !changed { break; }
        if !changed { step = (step / 2).max(1); }
        if t0.elapsed() >= Duration::from_secs(10) { break; }
    }
    cur.into_iter().collect()
}

pub fn main(find: fn(&str) -> Option<Box<dyn Prop>>) {
    let a: Vec<String> = std::env::args().collect();
    let pid = a[1].clone();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let p = match find(&pid) { Some(p) => p, None => { eprintln!("unknown property {pid}"); std::process::exit(3) } };
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|c| *c.borrow_mut() = format!("{m} at {l}"));
    }));
    if let Some(f) = get("--case") {
        let c = std::fs::read_to_string(&f).unwrap();
        match run_case(p.as_ref(), &c) {
            Ok(()) => { println!("OK"); std::process::exit(0) }
            Err(e) => { println!("FAIL {e}"); std::process::exit(1) }
        }
    }
    // development aid: the shortest failures among the first N cases
    if let Some(n) = get("--triage").and_then(|x| x.parse::<usize>().ok()) {
        let mut v: Vec<(usize, String, String)> = p.fixed(false).take(n).filter_map(|c| run_case(p.as_ref(), &c).err().map(|e| (e.len(), c, e))).collect();
        v.sort();
        println!("{} failures", v.len());
        for (_, c, e) in v.iter().take(get("--show").and_then(|x| x.parse().ok()).unwrap_or(6)) { println!("##### {c}\n{e}"); }
        return;
    }
    let ms: u64 = get("--ms").and_then(|x| x.parse().ok()).unwrap_or(5000);
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let threads: usize = get("--threads").and_then(|x| x.parse().ok()).unwrap_or(6);
    let thorough = a.iter().any(|x| x == "--thorough");
    let dir = get("--dir").unwrap_or_else(|| "/tmp".into());
    let known: Vec<String> = get("--known").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    let pr = p.as_ref();
    let evals = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let knowns: Mutex<std::collections::BTreeMap<String, String>> = Mutex::new(Default::default());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fixed_n = AtomicU64::new(0);
    let fixed_done = AtomicBool::new(false);
    let fixed = Mutex::new(pr.fixed(thorough));
    let start = Instant::now();
    let cur: Vec<Mutex<(Instant, String)>> = (0..threads).map(|_| Mutex::new((Instant::now(), String::new()))).collect();
    let hang: Mutex<Option<String>> = Mutex::new(None);
    let active = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (evals, stop, found, knowns, samples, fixed_n, fixed_done, fixed, cur, active) = (&evals, &stop, &found, &knowns, &samples, &fixed_n, &fixed_done, &fixed, &cur, &active);
            let known = &known;
            let dir = dir.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut f = std::fs::File::create(format!("{dir}/cur-{t}.txt")).unwrap();
                let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (t as u64 + 1));
                let mut batch: Vec<String> = vec![];
                loop {
                    if stop.load(Ordering::Relaxed) { break; }
                    if batch.is_empty() && !fixed_done.load(Ordering::Relaxed) {
                        let mut g = fixed.lock().unwrap();
                        for _ in 0..256 { match g.next() { Some(x) => batch.push(x), None => { fixed_done.store(true, Ordering::Relaxed); break } } }
                        fixed_n.fetch_add(batch.len() as u64, Ordering::Relaxed);
                    }
                    let case = match batch.pop() {
                        Some(c) => c,
                        None => {
                            if start.elapsed().as_millis() as u64 > ms { break; }
                            pr.random(&mut r)
                        }
                    };
                    if start.elapsed().as_millis() as u64 > ms * 4 { break; }
                    { *cur[t].lock().unwrap() = (Instant::now(), case.clone()); }
                    f.seek(SeekFrom::Start(0)).ok();
                    f.write_all(case.as_bytes()).ok();
                    f.set_len(case.len() as u64).ok();
                    let n = evals.fetch_add(1, Ordering::Relaxed);
                    if n % 50021 == 77 { let mut s = samples.lock().unwrap(); if s.len() < 8 { s.push(case.chars().take(200).collect()); } }
                    if let Err(e) = run_case(pr, &case) {
                        if let Some(k) = known.iter().find(|k| !k.is_empty() && e.contains(k.as_str())) {
                            let mut g = knowns.lock().unwrap();
                            g.entry(k.clone()).or_insert(case.clone());
                            continue;
                        }
                        let mut g = found.lock().unwrap();
                        if g.is_empty() {
                            let small = shrink(pr, &case);
                            let e2 = run_case(pr, &small).err().unwrap_or(e);
                            if known.iter().any(|k| !k.is_empty() && e2.contains(k.as_str())) { g.push((case.clone(), e2)); } else { g.push((small, e2)); }
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                { *cur[t].lock().unwrap() = (Instant::now(), String::new()); }
                active.fetch_sub(1, Ordering::Relaxed);
            }).unwrap();
        }
        // watchdog
        let (cur, hang, active) = (&cur, &hang, &active);
        let (evals, fixed_n) = (&evals, &fixed_n);
        let dir2 = dir.clone();
        s.spawn(move || {
            while active.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(100));
                for c in cur.iter() {
                    let g = c.lock().unwrap();
                    if !g.1.is_empty() && g.0.elapsed() > Duration::from_secs(60) {
                        *hang.lock().unwrap() = Some(g.1.clone());
                        let o = serde_json::json!({"evaluations": evals.load(Ordering::Relaxed), "fixed": fixed_n.load(Ordering::Relaxed), "violations": [{"input": g.1, "message": "no answer within 60 s"}], "known": {}, "samples": []});
                        std::fs::write(format!("{dir2}/result.json"), o.to_string()).unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
    });
    let v: Vec<_> = found.lock().unwrap().iter().map(|(i, m)| serde_json::json!({"input": i, "message": m})).collect();
    let o = serde_json::json!({"evaluations": evals.load(Ordering::Relaxed), "fixed": fixed_n.load(Ordering::Relaxed), "fixed_complete": fixed_done.load(Ordering::Relaxed), "violations": v, "known": *knowns.lock().unwrap(), "samples": *samples.lock().unwrap(), "wall_ms": start.elapsed().as_millis() as u64});
    std::fs::write(format!("{dir}/result.json"), o.to_string()).unwrap();
}
