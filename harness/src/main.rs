//! Bounded differential harness for ethereum_ssz: replays/searches concrete inputs against the real crate.
//!   ssz-harness run --prop C05 --seed 1 --out FILE --rounds 1 --secs 60
//!   ssz-harness replay FILE | one CASE HEX
mod alloc;
mod bits;
mod case;
mod codecs;
mod derived;
mod misc;
mod model;
mod types;

use case::Case;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn all_cases() -> Vec<Case> {
    let lib: Vec<_> = types::registry().into_iter().map(Arc::new).collect();
    let der: Vec<_> = derived::registry().into_iter().map(Arc::new).collect();
    let mut v = codecs::cases(&lib, &der);
    v.extend(bits::cases());
    v.extend(misc::cases());
    v
}

const HANG: Duration = Duration::from_secs(20);

fn exec(c: &Case, input: &[u8]) -> Result<(), String> {
    alloc::arm(&c.name, input);
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(input)));
    alloc::disarm();
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

/// Smaller inputs first: try to shrink a failing byte string while the same case still fails.
fn shrink(c: &Case, mut b: Vec<u8>) -> Vec<u8> {
    if c.name.contains("/value") || b.len() == 8 || b.len() > 4096 {
        return b;
    }
    let t = Instant::now();
    loop {
        let mut better = false;
        let mut k = b.len();
        while k > 0 && t.elapsed() < Duration::from_secs(3) {
            k -= 1;
            let mut d = b.clone();
            d.remove(k);
            if exec(c, &d).is_err() {
                b = d;
                better = true;
                k = k.min(b.len());
            }
        }
        for k in 0..b.len() {
            if b[k] != 0 && t.elapsed() < Duration::from_secs(3) {
                let mut d = b.clone();
                d[k] = 0;
                if exec(c, &d).is_err() {
                    b = d;
                    better = true;
                }
            }
        }
        if !better || t.elapsed() > Duration::from_secs(3) {
            return b;
        }
    }
}

fn main() {
    alloc::install_signals();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| {
        args.iter()
            .position(|a| a == n)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(
            &opt("--prop").expect("--prop"),
            opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
            opt("--rounds").map(|s| s.parse().unwrap()).unwrap_or(1),
            opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(300),
            opt("--out"),
        ),
        Some("one") => {
            let cs = all_cases();
            let c = cs.iter().find(|c| c.name == args[2]).expect("no such case");
            match exec(c, &unhex(args.get(3).map(|s| s.as_str()).unwrap_or(""))) {
                Ok(()) => println!("HOLDS {}", c.name),
                Err(e) => {
                    println!("FAILS {}: {e}", c.name);
                    std::process::exit(1)
                }
            }
        }
        Some("list") => {
            for c in all_cases() {
                println!("{} {} {}", c.name, c.fixed, c.random);
            }
        }
        _ => panic!("usage"),
    }
}

fn run(prop: &str, seed: u64, rounds: u64, secs: u64, out: Option<String>) {
    let start = Instant::now();
    let deadline = start + Duration::from_secs(secs);
    let cases: Vec<Case> = all_cases().into_iter().filter(|c| c.prop == prop).collect();
    let mut jobs: Vec<(usize, u64, u64, u64)> = vec![]; // case, from, to, seed
    const CH: u64 = 4096;
    for r in 0..rounds {
        for (k, c) in cases.iter().enumerate() {
            let lo = if r == 0 { 0 } else { c.fixed };
            let hi = c.fixed + c.random;
            let mut x = lo;
            while x < hi {
                let y = (x + CH).min(hi);
                jobs.push((k, x, y, seed.wrapping_add(r.wrapping_mul(1_000_003))));
                x = y;
            }
        }
    }
    let next = AtomicUsize::new(0);
    let evals = AtomicU64::new(0);
    let workers = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    // what every worker is running (job + 1, index), for the watchdog
    let slots: Vec<(AtomicUsize, AtomicU64)> = (0..workers).map(|_| Default::default()).collect();
    let done = AtomicUsize::new(0);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let enums = AtomicU64::new(0);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let fails: Mutex<BTreeMap<usize, (Vec<u8>, String)>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut seen = vec![(0, 0, Instant::now()); workers];
            while done.load(Ordering::SeqCst) < workers {
                std::thread::sleep(Duration::from_millis(20));
                for (w, s) in slots.iter().enumerate() {
                    let now = (s.0.load(Ordering::Relaxed), s.1.load(Ordering::Relaxed));
                    if now != (seen[w].0, seen[w].1) {
                        seen[w] = (now.0, now.1, Instant::now());
                    } else if now.0 != 0 && seen[w].2.elapsed() > HANG {
                        let (k, _, _, sd) = jobs[now.0 - 1];
                        println!(
                            "\nHANG {} {}",
                            cases[k].name,
                            hex(&(cases[k].input)(now.1, sd))
                        );
                        std::process::exit(78);
                    }
                }
            }
        });
        for w in 0..workers {
            let (slots, done, distinct, samples, jobs, cases) =
                (&slots, &done, &distinct, &samples, &jobs, &cases);
            let (enums, next, stop, cut, fails, evals) =
                (&enums, &next, &stop, &cut, &fails, &evals);
            s.spawn(move || {
                let mut mine: HashSet<u64> = HashSet::new();
                let mut enumerated = 0;
                loop {
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if Instant::now() > deadline {
                        cut.store(true, Ordering::Relaxed);
                        break;
                    }
                    let (k, lo, hi, sd) = jobs[j];
                    let c = &cases[k];
                    for i in lo..hi {
                        slots[w].0.store(j + 1, Ordering::Relaxed);
                        slots[w].1.store(i, Ordering::Relaxed);
                        let input = (c.input)(i, sd);
                        evals.fetch_add(1, Ordering::Relaxed);
                        if i < c.fixed {
                            // enumerated without repetition
                            enumerated += !input.is_empty() as u64;
                        } else if !input.is_empty() {
                            let mut h = DefaultHasher::new();
                            (k, &input).hash(&mut h);
                            mine.insert(h.finish());
                        }
                        if i == lo && j % (jobs.len() / 6 + 1) == 0 {
                            samples.lock().unwrap().push(format!(
                                "{} {}",
                                c.name,
                                hex(&input[..input.len().min(64)])
                            ));
                        }
                        if let Err(_) = exec(c, &input) {
                            let small = shrink(c, input);
                            let why = exec(c, &small)
                                .err()
                                .unwrap_or_else(|| "not reproducible".into());
                            let mut f = fails.lock().unwrap();
                            f.entry(k).or_insert((small, why));
                            if f.len() >= 12 {
                                stop.store(true, Ordering::Relaxed);
                            }
                            break;
                        }
                        if i % 256 == 0 && Instant::now() > deadline {
                            cut.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
                slots[w].0.store(0, Ordering::Relaxed);
                distinct.lock().unwrap().extend(mine);
                enums.fetch_add(enumerated, Ordering::Relaxed);
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
    });
    let f = fails.into_inner().unwrap();
    let list: Vec<_> = f
        .iter()
        .map(|(k, (b, why))| serde_json::json!({"property": prop, "case": cases[*k].name, "input": hex(b), "why": why}))
        .collect();
    let rep = serde_json::json!({
        "property": prop, "seed": seed, "rounds": rounds, "cases": cases.len(), "evaluations": evals.load(Ordering::Relaxed),
        "jobs": jobs.len(), "cut_by_time": cut.load(Ordering::Relaxed), "wall_s": start.elapsed().as_secs_f64(), "failures": list,
        "distinct": distinct.lock().unwrap().len() as u64 + enums.load(Ordering::Relaxed), "samples": *samples.lock().unwrap(),
    });
    if let Some(o) = out {
        std::fs::write(o, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    }
    for x in &list {
        println!("FAIL {x}");
    }
    println!(
        "{prop}: {} cases, {} evaluations, {} failures, {:.1}s",
        cases.len(),
        evals.load(Ordering::Relaxed),
        f.len(),
        start.elapsed().as_secs_f64()
    );
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
