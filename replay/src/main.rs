//! search <PROP> --seed S --cases N --secs T [--out FILE]   explores N cases (or until T seconds passed)
//! case <PROP> --seed S --case I                            runs one case again
//! Exit 0: held. Exit 1: a case failed; FILE (JSON) describes it. Exit 3: usage.
mod gen;
mod modes;
mod oracle;
mod util;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Counting;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
fn note(d: isize) {
    let _ = CUR.try_with(|c| { let v = c.get() + d; c.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
}
pub fn alloc_reset() { CUR.with(|c| c.set(0)); PEAK.with(|c| c.set(0)) }
pub fn alloc_peak() -> usize { PEAK.with(|c| c.get().max(0) as usize) }
#[global_allocator]
static A: Counting = Counting;

fn rng_for(prop: &str, seed: u64, case: u64) -> util::Rng {
    let mut h = seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(case.wrapping_mul(0xd6e8_feb8_6659_fd93));
    for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3) }
    util::Rng::new(h)
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    if a.len() < 3 { eprintln!("usage: replay search|case PROP ..."); std::process::exit(3) }
    let prop = a[2].clone();
    if a[1] == "finding" { std::process::exit(if modes::finding(&prop) { 1 } else { 0 }) }
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let cases: u64 = get("--cases", "1000").parse().unwrap_or(1000);
    let secs: f64 = get("--secs", "10").parse().unwrap_or(10.0);
    let one: Option<u64> = get("--case", "").parse().ok();
    let outf = get("--out", "");
    let hints: Vec<u64> = get("--hints", "").split(',').filter_map(|x| x.parse().ok()).collect();
    let words: Vec<Vec<u8>> = get("--words", "").split(',').filter(|x| !x.is_empty()).map(|x| (0..x.len() / 2).map(|k| u8::from_str_radix(&x[2 * k..2 * k + 2], 16).unwrap_or(0)).collect()).collect();
    let hinted = !hints.is_empty() || !words.is_empty();
    let _ = util::WORDS.set(words);
    let _ = util::HINTS.set(hints);
    std::panic::set_hook(Box::new(|_| {}));
    let threads: usize = get("--threads", "8").parse().unwrap_or(8);
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(one.unwrap_or(0)));
    let end = one.map(|x| x + 1).unwrap_or(cases);
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let nontrivial = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(u64, modes::Fail)>>> = Arc::new(Mutex::new(None));
    let nthreads = if one.is_some() { 1 } else { threads };
    // (case + 1, start in ms) of every worker, for the watchdog and for aborts
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let report = |case: u64, f: &modes::Fail, outf: &str| {
        let s = format!("{{\n \"property\": \"{}\",\n \"seed\": {},\n \"case\": {},\n \"input\": \"{}\",\n \"expected\": \"{}\",\n \"actual\": \"{}\"\n}}\n", prop, seed, case, esc(&f.input), esc(&f.expected), esc(&f.actual));
        if outf.is_empty() { print!("{}", s) } else { let _ = std::fs::write(outf, s); }
    };
    // for the driver: where an abort happened
    let trace = get("--trace", "");
    let mut hs = vec![];
    for t in 0..nthreads {
        let (next, stop, done, nontrivial, found, slots, prop, trace) = (next.clone(), stop.clone(), done.clone(), nontrivial.clone(), found.clone(), slots.clone(), prop.clone(), trace.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            use std::io::{Seek, SeekFrom, Write};
            let mut tf = if trace.is_empty() { None } else { std::fs::File::create(format!("{}.{}", trace, t)).ok() };
            loop {
                if stop.load(SeqCst) { break }
                let i = next.fetch_add(1, SeqCst);
                if i >= end { break }
                if start.elapsed().as_secs_f64() > secs && one.is_none() { break }
                slots[t].1.store(start.elapsed().as_millis() as u64, SeqCst);
                slots[t].0.store(i + 1, SeqCst);
                if let Some(f) = tf.as_mut() { let _ = f.seek(SeekFrom::Start(0)); let _ = write!(f, "{:020}", i); }
                util::HINTED.with(|h| h.set(hinted && i % 2 == 1));
                let mut r = rng_for(&prop, seed, i);
                let res = modes::run(&prop, &mut r, i);
                slots[t].0.store(0, SeqCst);
                done.fetch_add(1, SeqCst);
                match res {
                    Ok(true) => { nontrivial.fetch_add(1, SeqCst); }
                    Ok(false) => {}
                    Err(f) => {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map_or(true, |x| x.0 > i) { *g = Some((i, f)) }
                        stop.store(true, SeqCst);
                    }
                }
            }
            if let Some(f) = tf.as_mut() { let _ = f.set_len(0); }
        }).unwrap());
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break }
        let now = start.elapsed().as_millis() as u64;
        for s in slots.iter() {
            let c = s.0.load(SeqCst);
            if c > 0 && now.saturating_sub(s.1.load(SeqCst)) > 30_000 && s.0.load(SeqCst) == c {
                let f = modes::Fail { input: format!("case {}", c - 1), expected: "an end".into(), actual: "no result after 30 seconds".into() };
                report(c - 1, &f, &outf);
                println!("FOUND case={}", c - 1);
                std::process::exit(1);
            }
        }
    }
    for h in hs { if h.join().is_err() { eprintln!("harness error"); std::process::exit(4) } }
    println!("STATS cases={} nontrivial={} secs={:.2}", done.load(SeqCst), nontrivial.load(SeqCst), start.elapsed().as_secs_f64());
    let g = found.lock().unwrap();
    if let Some((i, f)) = g.as_ref() {
        report(*i, f, &outf);
        println!("FOUND case={}", i);
        std::process::exit(1);
    }
}
