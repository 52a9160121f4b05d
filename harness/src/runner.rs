//! Generates histories, runs them under the monitors, attributes and shrinks failures.
use crate::hasher::MODES;
use crate::key;
use crate::rng::{mix, Rng};
use crate::sys::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Panics are recorded instead of printed
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if std::env::var_os("SHOW_PANICS").is_some() {
            eprintln!("panic: {m} at {:?}", i.location());
        }
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

#[derive(Clone, Debug)]
pub struct History {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    pub aseed: u64,
    /// run the audits every so many steps
    pub every: u32,
    pub full_every: u32,
    pub teardown: bool,
}
#[derive(Clone, Debug)]
pub struct Failure {
    pub at: usize,
    pub class: u32,
    pub msg: String,
}

/// What a check answers for
#[derive(Clone, Copy)]
pub struct Focus {
    pub aud: u32,
    /// failures of these classes are violations
    pub accept: u32,
    /// failures of these classes are violations if they come from an earlier operation of class
    /// `from`: that is, if they disappear when the map is rebuilt after each of these
    pub indirect: u32,
    pub from: u32,
}

pub fn run<S: Sys>(h: &History, f: &Focus, rebuild: u32, cov: &mut Cov) -> Option<Failure> {
    key::reset();
    let mut s = S::new(&h.cfg);
    let mut rng = Rng::new(h.aseed);
    let mut done = false;
    let mut fail: Option<Failure> = None;
    let mut after_from = false;
    'steps: for (i, op) in h.ops.iter().enumerate() {
        let cl = S::class_of(op.k);
        cov.steps += 1;
        if cov.by_op.len() < S::OPS.len() {
            cov.by_op.resize(S::OPS.len(), 0);
        }
        cov.by_op[op.k as usize] += 1;
        let r = catch_unwind(AssertUnwindSafe(|| s.step(op, cov)));
        if cl & f.from != 0 {
            after_from = true;
        }
        // Only what follows an operation of interest can fail because of it
        let accept2 = |class: u32| class & f.accept != 0 || (class & f.indirect != 0 && after_from);
        match r {
            Err(_) => {
                key::disarm();
                if accept2(PANIC) || (cl & f.accept != 0) {
                    fail = Some(Failure { at: i, class: PANIC, msg: format!("{}: panicked: {}", S::OPS[op.k as usize], last_panic()) });
                } else {
                    cov.bump("histories_cut_short_by_other_deviations", 1);
                }
                done = true;
            }
            Ok(Err(m)) => {
                let class = class_of_msg(&m, cl);
                if accept2(class) {
                    fail = Some(Failure { at: i, class, msg: m });
                    done = true;
                } else {
                    cov.bump("deviations_of_other_properties", 1);
                    if std::env::var_os("SHOW_OTHER").is_some() {
                        eprintln!("{m} | {}", show_ops::<S>(&History { ops: h.ops[..=i].to_vec(), ..h.clone() }, 500));
                    }
                    if !catch_unwind(AssertUnwindSafe(|| s.resync())).unwrap_or(false) {
                        done = true;
                        // The queries may well disagree already
                        if accept2(COH) {
                            match catch_unwind(AssertUnwindSafe(|| s.audit(COH, true, &mut rng, cov))) {
                                Ok(Ok(())) => {}
                                Ok(Err(m)) => fail = Some(Failure { at: i, class: class_of_msg(&m, COH), msg: m }),
                                Err(_) => fail = Some(Failure { at: i, class: PANIC, msg: format!("audit COH panicked: {}", last_panic()) }),
                            }
                        }
                    }
                }
            }
            Ok(Ok(())) => {}
        }
        if done {
            break;
        }
        if rebuild & cl != 0 {
            s.rebuild();
        }
        let last = i + 1 == h.ops.len();
        if last || (i as u32 + 1) % h.every == 0 || (cl & (DRN | FLT | RET | CAP | CLONE | EXT) != 0 && i % 4 == 0) {
            let full = last || (i as u32 + 1) % h.full_every == 0;
            for a in AUDITS {
                if h.cfg.aud & a == 0 {
                    continue;
                }
                if a == CLONE && !catch_unwind(AssertUnwindSafe(|| s.resync())).unwrap_or(false) {
                    cov.bump("histories_cut_short_by_other_deviations", 1);
                    done = true;
                    break 'steps;
                }
                match catch_unwind(AssertUnwindSafe(|| s.audit(a, full, &mut rng, cov))) {
                    Ok(Ok(())) => {}
                    Ok(Err(_)) if a == ITER && !catch_unwind(AssertUnwindSafe(|| s.lookups_agree())).unwrap_or(false) => {
                        // The map itself is off: not for the iterators to answer
                        cov.bump("histories_cut_short_by_other_deviations", 1);
                        done = true;
                    }
                    Ok(Err(m)) => {
                        let class = class_of_msg(&m, a);
                        if accept2(class) {
                            fail = Some(Failure { at: i, class, msg: m });
                        } else {
                            cov.bump("histories_cut_short_by_other_deviations", 1);
                        }
                        done = true;
                    }
                    Err(_) => {
                        if accept2(a) || accept2(PANIC) {
                            fail = Some(Failure { at: i, class: PANIC, msg: format!("audit {} panicked: {}", names(a), last_panic()) });
                        }
                        done = true;
                    }
                }
                if done {
                    break 'steps;
                }
            }
            if cov.states.len() < 3_000_000 {
                cov.states.insert(mix(s.model_hash() ^ (h.cfg.mode as u64) << 50));
            }
        }
        cov.max_len = cov.max_len.max(s.model_len() as u64);
        if let Some(m) = key::fault() {
            if f.accept & OWN != 0 {
                fail = Some(Failure { at: i, class: OWN, msg: m });
                done = true;
                break;
            }
        }
    }
    if !done && h.teardown {
        let at = h.ops.len();
        match catch_unwind(AssertUnwindSafe(|| s.teardown(&mut rng, cov))) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                if f.accept & COH != 0 || (f.indirect & COH != 0 && after_from) {
                    fail = Some(Failure { at, class: COH, msg: format!("taking the map apart: {m}") });
                }
                done = true;
            }
            Err(_) => {
                if f.accept & PANIC != 0 || (f.indirect & PANIC != 0 && after_from) {
                    fail = Some(Failure { at, class: PANIC, msg: format!("taking the map apart: panicked: {}", last_panic()) });
                }
                done = true;
            }
        }
        if !done && f.accept & OWN != 0 {
            if let Err(m) = s.audit(OWN, true, &mut rng, cov) {
                fail = Some(Failure { at, class: OWN, msg: m });
                done = true;
            }
        }
    }
    if done {
        std::mem::forget(s);
        return fail;
    }
    drop(s);
    if f.accept & OWN != 0 {
        let at = h.ops.len();
        if let Some(m) = key::fault() {
            return Some(Failure { at, class: OWN, msg: m });
        }
        if key::alive() != 0 {
            return Some(Failure { at, class: OWN, msg: format!("{} items still alive after the map was dropped", key::alive()) });
        }
    }
    None
}

/// A failure counts if it is directly of an accepted class, or comes from an operation of `from`
fn attributed<S: Sys>(h: &History, f: &Focus, x: Failure) -> Option<Failure> {
    if x.class & f.accept != 0 {
        return Some(x);
    }
    // A panic or error in the operation of interest itself
    if x.at < h.ops.len() && S::class_of(h.ops[x.at].k) & f.accept != 0 {
        return Some(x);
    }
    let mut c = Cov::default();
    match run::<S>(h, f, f.from, &mut c) {
        Some(y) if y.at == x.at => None,
        _ => Some(x),
    }
}
pub fn check<S: Sys>(h: &History, f: &Focus, cov: &mut Cov) -> Option<Failure> {
    let x = run::<S>(h, f, 0, cov)?;
    let r = attributed::<S>(h, f, x);
    if r.is_none() {
        cov.bump("failures_attributed_elsewhere", 1);
    }
    r
}

pub fn shrink<S: Sys>(h: &History, f: &Focus, x: Failure) -> (History, Failure) {
    shrink_by(h, x, |h| check::<S>(h, f, &mut Cov::default()))
}
pub fn shrink_by(h: &History, x: Failure, mut test: impl FnMut(&History) -> Option<Failure>) -> (History, Failure) {
    let t0 = Instant::now();
    let mut best = h.clone();
    let mut bx = x;
    if bx.at + 1 < best.ops.len() {
        let mut c = best.clone();
        c.ops.truncate(bx.at + 1);
        if let Some(y) = test(&c) {
            best = c;
            bx = y;
        }
    }
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && t0.elapsed().as_secs() < 15 {
            let mut c = best.clone();
            let e = (i + chunk).min(c.ops.len());
            c.ops.drain(i..e);
            if let Some(y) = test(&c) {
                if y.at + 1 < c.ops.len() {
                    c.ops.truncate(y.at + 1);
                }
                best = c;
                bx = y;
                any = true;
            } else {
                i = e;
            }
        }
        if t0.elapsed().as_secs() >= 15 || (chunk == 1 && !any) {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    (best, bx)
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub u: (u32, u32),
    pub steps: (u32, u32),
    pub every: u32,
    pub full_every: u32,
    pub share: u64,
}
/// Histories too slow to be frequent: more items than fit in 16 bits
const HUGE: Profile = Profile { name: "huge", u: (66_000, 110_000), steps: (0, 0), every: 1 << 30, full_every: 1 << 30, share: 0 };
const HUGE_ONE_IN: u64 = 10_000;
/// Histories that fill a map, or one group, or one set, with exactly 2^k - 1, 2^k or 2^k + 1 items and
/// then do a few operations
const EXACT: Profile = Profile { name: "exact", u: (0, 0), steps: (1, 8), every: 1 << 30, full_every: 1 << 30, share: 0 };
const EXACT_SMALL_ONE_IN: u64 = 150;
const EXACT_LARGE_ONE_IN: u64 = 6_000;

fn gen_exact<S: Sys>(rng: &mut Rng, mixp: &Mix, aud: u32, bits: u32) -> (History, &'static str) {
    let ul = (1u32 << bits) - 1 + rng.u32(3);
    let what = rng.u32(LAYOUTS);
    let n = EXACT.steps.0 + rng.u32(EXACT.steps.1 - EXACT.steps.0 + 1);
    (exact_history::<S>(rng, mixp, aud, ul, what, None, n), EXACT.name)
}
const LAYOUTS: u32 = 4;
const GRID_SIZES: [u32; 6] = [256, 65_536, 257, 65_537, 255, 65_535];
/// Number `idx` of the grid of sizes x layouts x operations
pub fn grid<S: Sys>(idx: u64, seed: u64, mixp: &Mix, aud: u32) -> Option<History> {
    let ops = (0..S::OPS.len()).filter(|k| !mixp.never.contains(&S::OPS[*k]) && (mixp.focus == 0 || S::class_of(*k as u8) & mixp.focus & !EFF != 0));
    let ops: Vec<usize> = ops.collect();
    if ops.is_empty() {
        return None;
    }
    let (idx, k) = (idx / ops.len() as u64, ops[idx as usize % ops.len()]);
    let layouts = if S::NAME == "cycle" { 1 } else { LAYOUTS as u64 };
    let (idx, what) = (idx / layouts, (idx % layouts) as u32);
    let env = |k: &str, d: usize| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    // A part of the operations only, another one for each size
    let (sizes, step) = (env("GRID_SIZES", GRID_SIZES.len()), env("GRID_STEP", 1));
    if (k + idx as usize + what as usize) % step != 0 {
        return None;
    }
    let n = *GRID_SIZES[..sizes].get(idx as usize)?;
    Some(exact_history::<S>(&mut Rng::new(seed), mixp, aud, n, what, Some(k), 5))
}
/// Fills a map with `ul` items; then `n` operations, most of them of kind `k`
fn exact_history<S: Sys>(rng: &mut Rng, mixp: &Mix, aud: u32, ul: u32, what: u32, k: Option<usize>, n: u32) -> History {
    let mode = *rng.pick(&[0u8, 10, 11, 13]);
    // Everything in one group, in a few, or each item with its own
    let groups = if S::NAME == "group" { [1, 2, ul, 1][what as usize] } else { ul };
    // What is put in: pairs, or only left items, or only right ones
    let what = match (S::NAME, what) {
        ("group", 3) => 3,
        ("partial", w) => w,
        _ => 0,
    };
    let groups = if what == 3 { ul } else { groups };
    let named = |x: &str| S::OPS.iter().position(|o| *o == x);
    let pair = named("insert_remove").or(named("insert")).unwrap();
    let mut ops: Vec<Op> = Vec::new();
    if S::NAME == "group" && what != 3 {
        ops.extend((0..groups).map(|b| Op { k: named("insert_right").unwrap() as u8, a: b, b: 0, c: 0 }));
    }
    for i in 0..ul {
        let b = (i as u64 * 7919 % groups as u64) as u32;
        let b = if groups == ul { i } else { b };
        let k = match what {
            2 => named("insert_left").unwrap(),
            3 => named("insert_right").unwrap(),
            _ if S::NAME == "group" => named("insert_left").unwrap(),
            _ => pair,
        };
        let (a, b) = if what == 3 { (b, 0) } else { (i, b) };
        ops.push(Op { k: k as u8, a, b, c: 0 });
    }
    let cap = if rng.chance(1, 3) { ul - 1 + rng.u32(3) } else { 0 };
    let cfg = Cfg { ul: ul + 1 + rng.u32(3), ur: groups + 1 + rng.u32(3), mode, hseed: rng.next(), cap, aud };
    let w: Vec<u32> = S::OPS
        .iter()
        .enumerate()
        .map(|(k, name)| match S::class_of(k as u8) {
            _ if mixp.never.contains(name) => 0,
            c if c & mixp.focus & !EFF != 0 => 25 * mixp.boost,
            _ => 25,
        })
        .collect();
    let filled = ops.len() as u32;
    let only: Vec<u32> = (0..S::OPS.len()).map(|x| (Some(x) == k) as u32).collect();
    for i in 0..n {
        let w = if k.is_some() && i + 1 < n { &only } else { &w };
        if w.iter().all(|x| *x == 0) {
            break;
        }
        let mut op = S::gen(rng, &cfg, w);
        if mixp.plain_preds && S::class_of(op.k) & (FLT | RET) != 0 && (4..=6).contains(&(op.a % 12)) {
            op.a += 3;
        }
        if k.is_some() && i == 0 && ["swap", "pair", "insert", "remove"].iter().any(|x| S::OPS[op.k as usize].starts_with(x)) {
            // Something that is there, and something new where it fits
            op = Op { a: if rng.chance(1, 2) { 0 } else { op.b % groups.min(ul) }, b: if S::OPS[op.k as usize].starts_with("swap_left") { cfg.ul - 1 } else { cfg.ur - 1 }, ..op };
        }
        ops.push(op);
    }
    let tear = rng.chance(1, 2);
    // with a look at everything after the first of them
    let every = if k.is_some() { filled + 1 } else { EXACT.every };
    History { cfg, ops, aseed: rng.next(), every, full_every: every, teardown: tear }
}

pub const PROFILES: [Profile; 5] = [
    Profile { name: "tiny", u: (2, 4), steps: (10, 60), every: 1, full_every: 1, share: 50 },
    Profile { name: "small", u: (5, 14), steps: (30, 160), every: 1, full_every: 2, share: 30 },
    Profile { name: "lopsided", u: (2, 40), steps: (40, 200), every: 2, full_every: 6, share: 12 },
    Profile { name: "medium", u: (40, 200), steps: (200, 900), every: 8, full_every: 60, share: 6 },
    Profile { name: "large", u: (500, 2500), steps: (2000, 9000), every: 200, full_every: 3000, share: 1 },
];

/// Base weight of an operation in a phase (0 grow, 1 churn, 2 shrink)
fn base(name: &str, phase: usize) -> u32 {
    let w: [u32; 3] = match name {
        "insert" => [300, 100, 25],
        "insert_left" | "insert_right" | "insert_remove" => [120, 50, 15],
        "pair" => [60, 60, 20],
        "pair_forced" => [60, 60, 20],
        "pair_forced_remove" => [15, 30, 40],
        "unpair" => [20, 40, 40],
        "remove" | "remove_left" | "remove_right" | "remove_via_left" | "remove_via_right" => [10, 40, 110],
        "clear" => [1, 2, 4],
        "drain" | "drain_filter" | "drain_filter_panic" => [1, 3, 5],
        "retain" | "retain_paired" | "retain_unpaired" | "retain_panic" => [1, 3, 4],
        "reserve" | "try_reserve" | "shrink_to" | "shrink_to_fit" => [4, 4, 8],
        "replace_by_clone" => [2, 3, 2],
        "skip_ids" => [5, 8, 3],
        "extend" | "extend_opt" => [12, 4, 1],
        _ => [25, 45, 25], // swaps
    };
    w[phase]
}

/// Generation parameters of a check: class of operations to do more often, which ops never
#[derive(Clone, Copy)]
pub struct Mix {
    pub focus: u32,
    pub boost: u32,
    pub never: &'static [&'static str],
    pub plain_preds: bool,
    pub max_profile: usize,
}

pub fn gen_history<S: Sys>(seed: u64, mixp: &Mix, aud: u32) -> (History, &'static str) {
    let mut rng = Rng::new(seed);
    let avail = &PROFILES[..=(mixp.max_profile % 10)];
    let total: u64 = avail.iter().map(|p| p.share).sum();
    let mut x = rng.below(total);
    let mut p = avail[0];
    for q in avail {
        if x < q.share {
            p = *q;
            break;
        }
        x -= q.share;
    }
    if mixp.max_profile >= 10 && rng.below(HUGE_ONE_IN) == 0 {
        p = HUGE;
    }
    if !cfg!(miri) && mixp.max_profile % 10 >= 3 && rng.below(EXACT_SMALL_ONE_IN) == 0 {
        let bits = 6 + rng.u32(5);
        return gen_exact::<S>(&mut rng, mixp, aud, bits);
    }
    if mixp.max_profile >= 10 && rng.below(EXACT_LARGE_ONE_IN) == 0 {
        let bits = *rng.pick(&[12, 14, 15, 16, 16, 16]);
        return gen_exact::<S>(&mut rng, mixp, aud, bits);
    }
    if cfg!(miri) {
        p = Profile { name: "tiny", u: (2, 5), steps: (8, 40), every: 20, full_every: 20, share: 1 };
    }
    let dim = |rng: &mut Rng| p.u.0 + rng.u32(p.u.1 - p.u.0 + 1);
    let mut mode = if rng.chance(2, 5) { 0 } else { rng.u32(MODES.len() as u32) as u8 };
    if matches!(p.name, "large" | "huge") && !matches!(mode, 0 | 10 | 11 | 13) {
        mode = [0, 10, 11, 13][mode as usize % 4];
    }
    // ahash has random keys: deterministic replay needs a mode of our own
    if mode == 13 && rng.chance(3, 4) {
        mode = 0;
    }
    let ul = dim(&mut rng);
    let ur = if p.name == "lopsided" || rng.chance(1, 5) { dim(&mut rng).min(p.u.1) } else { ul };
    let ur = if rng.chance(1, 8) { 1 + rng.u32(3) } else { ur };
    let cfg = Cfg { ul, ur, mode, hseed: rng.next(), cap: if rng.chance(1, 3) { rng.u32(ul * 2) } else { 0 }, aud };
    let (ur, fill) = if p.name == "huge" { (*rng.pick(&[ul, ul, ul, 40_000, 300, 3]), ul - ul / 16) } else { (ur, 0) };
    let cfg = Cfg { ur, ..cfg };
    let n = p.steps.0 + rng.u32(p.steps.1 - p.steps.0 + 1);
    let mut ops = Vec::with_capacity(n as usize);
    let named = |x: &str| S::OPS.iter().position(|o| *o == x);
    let group = S::NAME == "group";
    if fill > 0 && group {
        // Right items first: a left item is added to a group only with insert_left
        ops.extend((0..ur - ur / 16).map(|b| Op { k: named("insert_right").unwrap() as u8, a: b, b: 0, c: 0 }));
    }
    for i in 0..fill {
        let k = match i % 16 {
            0 if !group => named("insert_right"),
            1 if S::NAME == "partial" => named("insert_left"),
            _ if group => named("insert_left"),
            _ => None,
        };
        let k = k.or(named("insert")).unwrap();
        // one item for the operations of one side, on their own
        let (a, b) = (i, ((i as u64 * 7919 + 13) % ur as u64) as u32);
        let a = if S::OPS[k] == "insert_right" { b } else { a };
        ops.push(Op { k: k as u8, a, b, c: 0 });
    }
    let n = if fill > 0 { ops.len() as u32 + 150 } else { n };
    let heavy_cut = if p.name == "large" { 12 } else if p.name == "medium" { 3 } else { 1 };
    let mut phase = 0;
    let mut left = 0;
    let mut w: Vec<u32> = Vec::new();
    while (ops.len() as u32) < n {
        if left == 0 {
            phase = match phase {
                0 => 1 + rng.u32(2) as usize,
                _ => rng.u32(3) as usize,
            };
            if ops.is_empty() {
                phase = 0;
            }
            left = 1 + ul / 2 + rng.u32(ul * 2 + 8);
            w = S::OPS
                .iter()
                .enumerate()
                .map(|(k, name)| {
                    if mixp.never.contains(name) {
                        return 0;
                    }
                    let b = base(name, phase);
                    let c = S::class_of(k as u8);
                    let b = if c & mixp.focus & !EFF != 0 { b * mixp.boost } else { b };
                    // swarm: each phase leaves out or prefers some operations
                    let b = match rng.below(8) {
                        0 => 0,
                        1 => b * 4,
                        _ => b,
                    };
                    if c & (DRN | FLT | RET | CLONE) != 0 { b.div_ceil(heavy_cut) } else { b }
                })
                .collect();
            if w.iter().all(|x| *x == 0) {
                left = 0;
                continue;
            }
        }
        left -= 1;
        let mut op = S::gen(&mut rng, &cfg, &w);
        if mixp.plain_preds && S::class_of(op.k) & (FLT | RET) != 0 && (4..=6).contains(&(op.a % 12)) {
            op.a += 3;
        }
        ops.push(op);
    }
    let tear = rng.chance(1, 2);
    (History { cfg, ops, aseed: rng.next(), every: p.every, full_every: p.full_every, teardown: tear }, p.name)
}

pub fn show_ops<S: Sys>(h: &History, max: usize) -> String {
    let mut v: Vec<String> = h.ops.iter().take(max).map(|o| format!("{}({},{},{})", S::OPS[o.k as usize], show(o.a), show(o.b), show(o.c))).collect();
    if h.ops.len() > max {
        v.push(format!("... {} more", h.ops.len() - max));
    }
    format!("{} {}x{} hasher {} cap {}: {}", S::NAME, h.cfg.ul, h.cfg.ur, MODES[h.cfg.mode as usize], h.cfg.cap, v.join(" "))
}
fn show(x: u32) -> String {
    if x & AIM != 0 {
        format!("partner|{}", x & !AIM)
    } else {
        x.to_string()
    }
}

pub fn history_json<S: Sys>(h: &History) -> Value {
    json!({
        "sys": S::NAME, "ul": h.cfg.ul, "ur": h.cfg.ur, "mode": h.cfg.mode, "hseed": h.cfg.hseed.to_string(), "cap": h.cfg.cap,
        "aud": h.cfg.aud, "aseed": h.aseed.to_string(), "every": h.every, "full_every": h.full_every, "teardown": h.teardown,
        "ops": h.ops.iter().map(|o| json!([S::OPS[o.k as usize], o.a, o.b, o.c])).collect::<Vec<_>>(),
    })
}
pub fn history_from<S: Sys>(v: &Value) -> History {
    let n = |k: &str| v[k].as_u64().unwrap();
    let s = |k: &str| v[k].as_str().unwrap().parse::<u64>().unwrap();
    History {
        cfg: Cfg { ul: n("ul") as u32, ur: n("ur") as u32, mode: n("mode") as u8, hseed: s("hseed"), cap: n("cap") as u32, aud: n("aud") as u32 },
        ops: v["ops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| Op {
                k: S::OPS.iter().position(|x| Some(*x) == o[0].as_str()).unwrap() as u8,
                a: o[1].as_u64().unwrap() as u32,
                b: o[2].as_u64().unwrap() as u32,
                c: o[3].as_u64().unwrap() as u32,
            })
            .collect(),
        aseed: s("aseed"),
        every: n("every") as u32,
        full_every: n("full_every") as u32,
        teardown: v["teardown"].as_bool().unwrap(),
    }
}
