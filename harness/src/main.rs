//! Concrete oracles for the properties: replays a violation on the real code, and stands in
//! (bounded, never counted as proof) for a function the verifier cannot reach.
mod rng;
mod base;
mod features;
mod optim;
mod kernels;
mod bases;
mod approx;
mod copies;
mod wide;
use rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;
pub type Check = (&'static str, &'static str, usize, fn(&mut Rng) -> R);

#[macro_export]
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn run(c: &Check, seed: u64, case: u64) -> R {
    let mut r = Rng::new(seed, c.1, case);
    match catch_unwind(AssertUnwindSafe(|| (c.3)(&mut r))) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let all: Vec<Check> = [features::CHECKS, optim::CHECKS, kernels::CHECKS, bases::CHECKS, approx::CHECKS, copies::CHECKS, wide::CHECKS].concat();
    if a.get(1).map_or(false, |s| s == "wider") { wide::child(a[2].parse().unwrap_or(1), a[3].parse().unwrap_or(1)); }
    let prop = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = a.get(4).cloned();
    let onecase: Option<u64> = a.get(5).and_then(|s| s.parse().ok());
    // seconds that each check may take (only the number of cases depends on it)
    let budget: f64 = std::env::var("LFA_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let mut bad = false;
    let (mut total, mut n) = (0u64, 0);
    for c in all.iter().filter(|c| prop == "all" || c.0 == prop).filter(|c| only.as_deref().map_or(true, |o| o == c.1)) {
        n += 1;
        let cases: Vec<u64> = match onecase { Some(k) => vec![k], None => (0..(c.2 as f64 * scale) as u64).collect() };
        // the lowest failing case, searched by several threads
        let best = std::sync::atomic::AtomicU64::new(u64::MAX);
        let found = std::sync::Mutex::new(Vec::<(u64, String)>::new());
        let done = std::sync::atomic::AtomicU64::new(0);
        let start = std::time::Instant::now();
        let threads = if cases.len() < 16 { 1 } else { 8 };
        std::thread::scope(|s| for t in 0..threads {
            let (cases, best, found, done, start) = (&cases, &best, &found, &done, &start);
            s.spawn(move || for k in cases.iter().skip(t).step_by(threads) {
                if *k > best.load(std::sync::atomic::Ordering::Relaxed) { break; }
                if start.elapsed().as_secs_f64() > budget { break; }
                done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if let Err(m) = run(c, seed, *k) {
                    best.fetch_min(*k, std::sync::atomic::Ordering::Relaxed);
                    found.lock().unwrap().push((*k, m));
                    break;
                }
            });
        });
        total += done.into_inner();
        let fail = found.into_inner().unwrap().into_iter().min_by_key(|x| x.0);
        if let Some((k, m)) = fail {
            bad = true;
            println!("FAIL {} {} seed={} case={}: {}", c.0, c.1, seed, k, m.replace('\n', " "));
        } else { println!("ok {} {}", c.0, c.1); }
    }
    println!("DONE checks={} cases={}", n, total);
    std::process::exit(if bad { 1 } else { 0 });
}
