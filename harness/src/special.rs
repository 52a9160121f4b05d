//! Checks that aren't a single monitored history.
use crate::checks::Viol;
use crate::hasher::MODES;
use crate::key;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::sys::*;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// C07: one history under many hashers; everything returned and all contents must be the same.
/// A deviation from the model counts only by the step at which it shows.
fn trace<S: Sys>(h: &History, mode: u8, hseed: u64) -> (Vec<String>, u64) {
    key::reset();
    let mut c = h.cfg.clone();
    c.mode = mode;
    c.hseed = hseed;
    let mut cov = Cov::default();
    let mut rng = Rng::new(h.aseed);
    trace_on();
    let mut s = S::new(&c);
    let mut bad = false;
    for (i, op) in h.ops.iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| s.step(op, &mut cov))) {
            Ok(Ok(())) => {}
            Ok(Err(_)) => {
                note(|| format!("step {i}: deviates from the model"));
                bad = true;
            }
            Err(_) => {
                note(|| format!("step {i}: panics"));
                bad = true;
            }
        }
        if bad {
            break;
        }
        if (i as u32 + 1) % h.every == 0 || i + 1 == h.ops.len() {
            match catch_unwind(AssertUnwindSafe(|| s.audit(EFF, (i as u32 + 1) % h.full_every == 0 || i + 1 == h.ops.len(), &mut rng, &mut cov))) {
                Ok(Ok(())) => {}
                Ok(Err(_)) => {
                    note(|| format!("contents after step {i}: deviate from the model"));
                    bad = true;
                }
                Err(_) => {
                    note(|| format!("contents after step {i}: panics"));
                    bad = true;
                }
            }
        }
        if bad {
            break;
        }
    }
    if bad {
        std::mem::forget(s);
    }
    (trace_take(), cov.steps + cov.facts)
}
fn differ<S: Sys>(h: &History, modes: &[(u8, u64)], facts: &mut u64) -> Option<Failure> {
    let (a, n) = trace::<S>(h, modes[0].0, modes[0].1);
    *facts += n;
    for (m, s) in &modes[1..] {
        let (b, n) = trace::<S>(h, *m, *s);
        *facts += n + a.len() as u64;
        if a != b {
            let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let none = "nothing".to_string();
            return Some(Failure {
                at: h.ops.len(),
                class: 0,
                msg: format!(
                    "under hasher {}: {}; under hasher {} (seed {s}): {}",
                    MODES[modes[0].0 as usize],
                    a.get(i).unwrap_or(&none),
                    MODES[*m as usize],
                    b.get(i).unwrap_or(&none)
                ),
            });
        }
    }
    None
}
pub fn hashers_differ<S: Sys>(h: &History, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(h.aseed ^ 0x77);
    let big = h.ops.len() > 400;
    let mut modes: Vec<(u8, u64)> = vec![(0, 1)];
    let n = if big { 3 } else { MODES.len() };
    for m in 1..n as u64 {
        let m = if big { rng.below(MODES.len() as u64) } else { m };
        modes.push((m as u8, rng.next()));
    }
    if !big {
        for s in 0..6 {
            modes.push((1, s));
        }
    }
    cov.steps += (h.ops.len() * modes.len()) as u64;
    cov.audits += modes.len() as u64;
    for o in &h.ops {
        cov.tuple(&[h.cfg.ul.min(50) as u64, h.cfg.ur.min(50) as u64, o.k as u64, o.a as u64, o.b as u64, o.c as u64]);
    }
    for (m, _) in &modes {
        cov.bump(&format!("runs_under_{}", MODES[*m as usize]), 1);
    }
    let mut facts = 0;
    let x = differ::<S>(h, &modes, &mut facts);
    cov.facts += facts;
    let x = x?;
    let (h, x) = if shrinking {
        shrink_by(h, x, |g| differ::<S>(g, &modes, &mut 0))
    } else {
        (h.clone(), x)
    };
    Some(Viol {
        msg: format!("{} | {}", x.msg, show_ops::<S>(&h, 60)),
        replay: json!({"kind": "history", "check": "C07", "history": history_json::<S>(&h), "what": x.msg}),
    })
}

type CaseFn = fn(u64, u64, bool, &mut Cov) -> Option<Viol>;
/// The special case function of a check and how often (every n-th case) it runs
pub fn case(check: &str) -> Option<(u64, CaseFn)> {
    Some(match check {
        "C15ODD" => (1, crate::odd::types),
        "C15" => (3, crate::odd::types),
        "C20" => (1, crate::aging::rounds),
        "C18" => (1, crate::shared::threads),
        "C21" => (1, crate::panics::injected),
        "C22" => (4, crate::long::history),
        "C17" => (1, crate::opt::pairs),
        "C14" => (1, crate::serdec::serde_case),
        "C13" => (2, |i, s, sh, c| if mix(i ^ 0x4b) % 4 == 0 { crate::kinds::compared("C13", i, s, c) } else { crate::collect::collected(i, s, sh, c) }),
        "C16" => (2, |i, s, sh, c| if mix(i ^ 0x4b) % 6 == 0 { crate::kinds::compared("C16", i, s, c) } else { crate::plain::capacity(i, s, sh, c) }),
        "C01" => (6, |i, s, _, c| crate::kinds::compared("C01", i, s, c)),
        "C02" => (6, |i, s, _, c| crate::kinds::compared("C02", i, s, c)),
        "C03" => (6, |i, s, _, c| crate::kinds::compared("C03", i, s, c)),
        "C04" => (6, |i, s, _, c| crate::kinds::compared("C04", i, s, c)),
        "C05" => (6, |i, s, _, c| crate::kinds::compared("C05", i, s, c)),
        "C06" => (6, |i, s, _, c| crate::kinds::compared("C06", i, s, c)),
        "C08" => (6, |i, s, _, c| crate::kinds::compared("C08", i, s, c)),
        "C09" => (6, |i, s, _, c| crate::kinds::compared("C09", i, s, c)),
        "C10" => (6, |i, s, _, c| crate::kinds::compared("C10", i, s, c)),
        "C11" => (6, |i, s, _, c| crate::kinds::compared("C11", i, s, c)),
        "C12" => (6, |i, s, _, c| crate::kinds::compared("C12", i, s, c)),
        _ => return None,
    })
}
