use harness::checks::*;
use harness::rng::mix;
use harness::runner::quiet_panics;
use harness::sys::*;
use serde_json::{json, Value};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[cfg(not(sanitized))]
#[global_allocator]
static A: harness::alloc::Counting = harness::alloc::Counting;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map_or(d, |x| x.parse().unwrap())
}

type CaseFn = fn(u64, u64, bool, &mut Cov) -> Option<Viol>;

fn case_fn(check: &str) -> Box<dyn Fn(u64, u64, bool, &mut Cov) -> Option<Viol> + Sync> {
    if let Some(id) = check.strip_suffix("GRID") {
        let sp = spec(id).unwrap();
        return Box::new(move |i, s, k, c| grid_case(sp, i, s, k, c));
    }
    let sp = spec(check);
    let special: Option<(u64, CaseFn)> = harness::special::case(check);
    match (sp, special) {
        (Some(sp), None) => Box::new(move |i, s, k, c| history_case(sp, i, s, k, c)),
        (None, Some((_, f))) => Box::new(f),
        (Some(sp), Some((every, f))) => Box::new(move |i, s, k, c| if i % every == 0 { f(i / every, s, k, c) } else { history_case(sp, i, s, k, c) }),
        _ => panic!("no such check {check}"),
    }
}

/// A panic that escapes a case is a panic of the library in a place where none may be
fn guarded(f: &(dyn Fn(u64, u64, bool, &mut Cov) -> Option<Viol> + Sync), check: &str, i: u64, seed: u64, shrink: bool, cov: &mut Cov) -> Option<Viol> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, seed, shrink, cov))) {
        Ok(v) => v,
        Err(_) => Some(Viol {
            msg: format!("case {i}: panicked: {}", harness::runner::last_panic()),
            replay: json!({"kind": "case", "check": check, "idx": i, "seed": seed}),
        }),
    }
}

fn main() {
    quiet_panics();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "run" => run_all(),
        "case" => {
            let check = arg("--check").unwrap();
            let f = case_fn(&check);
            let mut cov = Cov::default();
            if let Some(v) = guarded(&*f, &check, num("--idx", 0), num("--seed", 1), false, &mut cov) {
                println!("VIOLATED {}", v.msg);
                std::process::exit(1);
            }
            println!("held");
        }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(arg("--file").unwrap()).unwrap()).unwrap();
            let m = match v["kind"].as_str().unwrap() {
                "history" => replay_history(&v),
                _ => {
                    let check = v["check"].as_str().unwrap().to_string();
                    // "special": the number is one of the special case function
                    let f: Box<dyn Fn(u64, u64, bool, &mut Cov) -> Option<Viol> + Sync> = match harness::special::case(&check) {
                        Some((_, f)) if v["special"] == true => Box::new(f),
                        _ => case_fn(&check),
                    };
                    if let Some(n) = v["pairings"].as_u64() {
                        std::env::set_var("PAIRINGS", n.to_string());
                        std::env::set_var("LONG_SECS", "100000");
                    }
                    guarded(&*f, &check, v["idx"].as_u64().unwrap(), v["seed"].as_u64().unwrap(), false, &mut Cov::default()).map(|v| v.msg)
                }
            };
            match m {
                Some(m) => {
                    println!("VIOLATED {m}");
                    std::process::exit(1);
                }
                None => println!("held"),
            }
        }
        "known" => {
            for (p, finding, status, what) in harness::known::probes() {
                println!("{}", json!({"property": p, "finding": finding, "status": status, "what": what}));
            }
        }
        "k4" => harness::known::k4(&std::env::args().nth(2).unwrap_or_default()),
        _ => {
            eprintln!("usage: harness run|case|replay|known");
            std::process::exit(2);
        }
    }
}

/// Runs cases 0..n on all threads and writes what was seen to --out
fn run_all() {
    let check = arg("--check").unwrap();
    let (seed, n, secs, threads) = (num("--seed", 1), num("--cases", 100), num("--secs", 60), num("--threads", 8));
    let journal = arg("--journal");
    let f = case_fn(&check);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let covs: Mutex<Vec<Cov>> = Mutex::new(Vec::new());
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let t0 = Instant::now();
    let seed = mix(seed ^ check.bytes().fold(0, |h, b| h * 131 + b as u64));
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (f, next, stop, covs, viols, journal, check, done) = (&*f, &next, &stop, &covs, &viols, &journal, &check, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let j = journal.as_ref().map(|j| std::fs::File::create(format!("{j}.{t}")).unwrap());
                    let mut cov = Cov::default();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || stop.load(Relaxed) || t0.elapsed().as_secs() >= secs {
                            break;
                        }
                        if let Some(j) = &j {
                            j.write_all_at(format!("{i:020} {seed:020}").as_bytes(), 0).unwrap();
                        }
                        let at = Instant::now();
                        let r = guarded(f, check, i, seed, true, &mut cov);
                        if at.elapsed().as_secs() >= 4 {
                            eprintln!("case {i} took {:.1} s", at.elapsed().as_secs_f32());
                        }
                        if let Some(v) = r {
                            viols.lock().unwrap().push(v);
                            stop.store(true, Relaxed);
                        }
                        done.fetch_add(1, Relaxed);
                    }
                    if let Some(j) = &j {
                        j.set_len(0).unwrap();
                    }
                    covs.lock().unwrap().push(cov);
                })
                .unwrap();
        }
    });
    let mut all = Cov::default();
    for c in covs.into_inner().unwrap() {
        all.steps += c.steps;
        all.histories += c.histories;
        all.audits += c.audits;
        all.facts += c.facts;
        all.tuples.extend(c.tuples);
        all.states.extend(c.states);
        all.max_len = all.max_len.max(c.max_len);
        for (k, v) in c.extra {
            *all.extra.entry(k).or_insert(0) += v;
        }
        all.samples.extend(c.samples);
    }
    all.samples.truncate(6);
    let out = json!({
        "cases": done.into_inner(), "histories": all.histories, "steps": all.steps, "audits": all.audits, "facts": all.facts,
        "distinct": all.tuples.len(), "states": all.states.len(), "max_len": all.max_len, "extra": all.extra, "samples": all.samples,
        "violations": viols.into_inner().unwrap().iter().map(|v| json!({"msg": v.msg, "replay": v.replay})).collect::<Vec<_>>(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    match arg("--out") {
        Some(p) => std::fs::write(p, out.to_string()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
}
