//! up4h PROPERTY SEED CASES SECONDS | up4h PROPERTY --case N
//! Prints one line of JSON: cases run, distinct cases, and the first failing case.
use crate::common::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static RUN: AtomicU64 = AtomicU64::new(0);
static FOUND: Mutex<Option<String>> = Mutex::new(None);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}
fn report(id: &str, cases: u64, distinct: u64, fail: Option<(u64, String)>) {
    let f = match fail { Some((c, m)) => format!("{{\"case\":{c},\"message\":\"{}\"}}", esc(&m)), None => "null".into() };
    println!("{{\"property\":\"{id}\",\"cases\":{cases},\"distinct\":{distinct},\"failure\":{f}}}");
}
fn one(f: fn(&mut Rng) -> R, case: u64) -> R { guard(|| f(&mut Rng::new(case))).unwrap_or_else(Err) }
pub fn main(table: &[(&'static str, fn(&mut Rng) -> R)]) {
    let a: Vec<String> = std::env::args().collect();
    let (id, f) = *table.iter().find(|t| t.0 == a[1]).expect("unknown property");
    std::panic::set_hook(Box::new(|_| {}));
    let replay = a[2] == "--case";
    let seed: u64 = if replay { 0 } else { a[2].parse().unwrap() };
    let first: u64 = if replay { a[3].parse().unwrap() } else { seed.wrapping_mul(1_000_000_007) };
    let cases: u64 = if replay { 1 } else { a[3].parse().unwrap() };
    let secs: f64 = if replay { 60. } else { a[4].parse().unwrap() };
    let begin = Instant::now();
    let done = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut seen = std::collections::HashSet::new();
        let mut n = 0;
        while n < cases && begin.elapsed().as_secs_f64() < secs {
            let c = first.wrapping_add(n);
            CASE.store(c, Ordering::SeqCst);
            RUN.fetch_add(1, Ordering::SeqCst);
            let mut r = Rng::new(c);
            seen.insert((r.u(), r.u()));
            if let Err(m) = one(f, c) { *FOUND.lock().unwrap() = Some(m); return (n + 1, seen.len() as u64, Some(c)); }
            n += 1;
        }
        (n, seen.len() as u64, None)
    }).unwrap();
    let mut last = (u64::MAX, Instant::now());
    while !done.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let c = RUN.load(Ordering::SeqCst);
        if c != last.0 { last = (c, Instant::now()); }
        if last.1.elapsed().as_secs_f64() > 20. {
            report(id, c, c, Some((CASE.load(Ordering::SeqCst), "does not end (20 s)".into())));
            std::process::exit(0);
        }
    }
    let (n, d, f) = done.join().unwrap();
    report(id, n, d, f.map(|c| (c, FOUND.lock().unwrap().clone().unwrap_or_default())));
}
