//! Runs the real functions of /repo on generated inputs against independent oracles.
mod gen; mod oracle; mod props;
use gen::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Fail { pub expected: String, pub actual: String }
pub struct Ctx { pub desc: String, pub nontrivial: bool, live: Option<Arc<Mutex<String>>>, trace: Option<String>, idx: u64, pub thorough: bool }
impl Ctx {
    /// announces the input before the code under test runs
    pub fn input(&mut self, s: String, nontrivial: bool) {
        if let Some(l) = &self.live { *l.lock().unwrap() = s.clone(); }
        if let Some(t) = &self.trace { std::fs::write(t, format!("{}\n{}", self.idx, s)).unwrap(); }
        self.desc = s; self.nontrivial = nontrivial;
    }
    pub fn eq<A: std::fmt::Display, B: std::fmt::Display>(&self, what: &str, ok: bool, expected: A, actual: B) -> Result<(), Fail> {
        if ok { Ok(()) } else { Err(Fail { expected: format!("{}: {}", what, expected), actual: format!("{}", actual) }) }
    }
}
thread_local!(static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn run_case(pid: &str, seed: u64, idx: u64, lits: &Lits, cx: &mut Ctx) -> Result<(), Fail> {
    let mut rng = Rng::new(seed, idx, pid);
    cx.idx = idx;
    match catch_unwind(AssertUnwindSafe(|| props::case(pid, &mut rng, lits, idx, cx))) {
        Ok(r) => r,
        Err(_) => Err(Fail { expected: "a result".into(), actual: format!("panic: {}", MSG.with(|m| m.borrow().clone())) }),
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|i| { let s = format!("{}", i); MSG.with(|m| *m.borrow_mut() = s); }));
    let pid = a[2].clone();
    let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let lits = Arc::new(Lits::load(opt("--lits")));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if a[1] == "one" {
        let idx: u64 = a[3].parse().unwrap();
        let mut cx = Ctx { desc: String::new(), nontrivial: false, live: None, trace: None, idx, thorough };
        let r = run_case(&pid, seed, idx, &lits, &mut cx);
        println!("input: {}", cx.desc);
        match r { Ok(()) => println!("ok"), Err(f) => { println!("expected: {}\nactual: {}", f.expected, f.actual); std::process::exit(1); } }
        return;
    }
    let out = opt("--out");
    let ms: u64 = opt("--ms").unwrap().parse().unwrap();
    let trace = opt("--trace");
    let nth: u64 = if trace.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8) };
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let viol: Arc<Mutex<Option<(u64, String, Fail)>>> = Arc::new(Mutex::new(None));
    let cnt = Arc::new(AtomicU64::new(0));
    let distinct: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let max = props::max_cases(&pid, thorough);
    let mut lives = vec![];
    let mut hs = vec![];
    for _ in 0..nth {
        let live = Arc::new(Mutex::new(String::new()));
        let started = Arc::new(AtomicU64::new(0));
        let cur = Arc::new(AtomicU64::new(0));
        lives.push((live.clone(), started.clone(), cur.clone()));
        let (stop, next, viol, cnt, distinct, samples, lits, pid, trace) = (stop.clone(), next.clone(), viol.clone(), cnt.clone(), distinct.clone(), samples.clone(), lits.clone(), pid.clone(), trace.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            loop {
                if stop.load(SeqCst) || t0.elapsed() > Duration::from_millis(ms) { break; }
                let idx = next.fetch_add(1, SeqCst);
                if idx >= max { break; }
                cur.store(idx, SeqCst);
                started.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                let mut cx = Ctx { desc: String::new(), nontrivial: false, live: Some(live.clone()), trace: trace.clone(), idx, thorough };
                let r = run_case(&pid, seed, idx, &lits, &mut cx);
                started.store(0, SeqCst);
                cnt.fetch_add(1, SeqCst);
                if cx.nontrivial {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new(); cx.desc.hash(&mut h);
                    distinct.lock().unwrap().insert(h.finish());
                    if idx % 7 == 3 { let mut s = samples.lock().unwrap(); if s.len() < 5 { s.push(cx.desc.chars().take(300).collect()); } }
                }
                if let Err(f) = r {
                    let mut v = viol.lock().unwrap();
                    if v.as_ref().map(|x| x.0 > idx).unwrap_or(true) { *v = Some((idx, cx.desc.clone(), f)); }
                    stop.store(true, SeqCst);
                }
            }
        }).unwrap());
    }
    let hang: u64 = opt("--hang").map(|s| s.parse().unwrap()).unwrap_or(60_000);
    let mut hung = None;
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for (l, s, c) in &lives { let st = s.load(SeqCst); if st > 0 && now > st + hang { hung = Some((c.load(SeqCst), l.lock().unwrap().clone())); } }
        if hung.is_some() { break; }
    }
    let mut v = viol.lock().unwrap();
    if v.is_none() { if let Some((i, d)) = hung { *v = Some((i, d, Fail { expected: "termination".into(), actual: format!("no result after {} s", hang / 1000) })); } }
    let vs = match &*v { Some((i, d, f)) => format!("{{\"index\": {}, \"case\": {}, \"expected\": {}, \"actual\": {}}}", i, js(d), js(&f.expected), js(&f.actual)), None => "null".into() };
    let sm: Vec<String> = samples.lock().unwrap().iter().map(|s| js(s)).collect();
    let line = format!("{{\"cases\": {}, \"distinct\": {}, \"samples\": [{}], \"violation\": {}}}", cnt.load(SeqCst), distinct.lock().unwrap().len(), sm.join(", "), vs);
    match out { Some(p) => std::fs::write(p, line).unwrap(), None => println!("{}", line) }
    std::process::exit(0);
}
