//! What each history-based check looks for, and the case runner shared by all checks.
use crate::cycle::Cycle;
use crate::group::Group;
use crate::partial::Partial;
use crate::rng::mix;
use crate::runner::*;
use crate::sys::*;
use serde_json::{json, Value};

pub struct Spec {
    pub id: &'static str,
    pub systems: &'static [&'static str],
    pub focus: Focus,
    pub mix: Mix,
}

const PANICKY: &[&str] = &["drain_filter_panic", "retain_panic"];
const WHOLE: &[&str] = &[
    "drain", "drain_filter", "drain_filter_panic", "retain", "retain_paired", "retain_unpaired", "retain_panic", "reserve", "try_reserve",
    "shrink_to", "shrink_to_fit", "replace_by_clone", "extend", "extend_opt",
];
const ALL: &[&str] = &["cycle", "partial", "group"];
const DRAINS: &[&str] = &["cycle", "partial"];

const fn focus(aud: u32, accept: u32, from: u32) -> Focus {
    Focus { aud, accept, indirect: if from == 0 { 0 } else { EFF | COH | PANIC }, from }
}
const fn mixed(focus: u32, boost: u32, never: &'static [&'static str], max_profile: usize) -> Mix {
    Mix { focus, boost, never, plain_preds: false, max_profile }
}
pub const SPECS: &[Spec] = &[
    Spec { id: "C01", systems: &["cycle"], focus: focus(COH, COH | PANIC, 0), mix: mixed(0, 1, &[], 14) },
    Spec { id: "C02", systems: &["partial"], focus: focus(COH, COH | PANIC, 0), mix: mixed(0, 1, &[], 14) },
    Spec { id: "C03", systems: &["group"], focus: focus(COH, COH | PANIC, 0), mix: mixed(0, 1, &[], 14) },
    Spec { id: "C04", systems: &["cycle"], focus: focus(EFF, EFF | PANIC, 0), mix: mixed(0, 1, WHOLE, 14) },
    Spec { id: "C05", systems: &["partial"], focus: focus(EFF, EFF | PANIC, 0), mix: mixed(0, 1, WHOLE, 14) },
    Spec { id: "C06", systems: &["group"], focus: focus(EFF, EFF | PANIC, 0), mix: mixed(0, 1, WHOLE, 14) },
    Spec { id: "C07", systems: ALL, focus: focus(EFF, 0, 0), mix: Mix { focus: 0, boost: 1, never: &["drain_filter_panic", "retain_panic", "replace_by_clone"], plain_preds: true, max_profile: 3 } },
    Spec { id: "C08", systems: ALL, focus: focus(ITER, ITER, 0), mix: mixed(0, 1, &[], 13) },
    Spec { id: "C09", systems: DRAINS, focus: focus(EFF | COH, DRN, DRN), mix: mixed(DRN, 14, PANICKY, 14) },
    Spec { id: "C10", systems: DRAINS, focus: focus(EFF | COH, FLT, FLT), mix: mixed(FLT, 14, &[], 14) },
    Spec { id: "C11", systems: ALL, focus: focus(EFF | COH, RET, RET), mix: mixed(RET, 14, &[], 14) },
    Spec { id: "C12", systems: ALL, focus: focus(CLONE | EFF | COH, CLONE, CLONE), mix: mixed(CLONE, 4, PANICKY, 13) },
    Spec { id: "C13", systems: ALL, focus: focus(EFF | COH, EXT, EXT), mix: mixed(EXT, 20, PANICKY, 14) },
    Spec { id: "C15", systems: ALL, focus: focus(OWN, OWN, 0), mix: mixed(0, 1, &[], 14) },
    Spec { id: "C16", systems: ALL, focus: focus(EFF | COH, CAP, CAP), mix: mixed(CAP, 10, PANICKY, 14) },
    Spec { id: "C22", systems: ALL, focus: focus(EFF | COH, EFF | COH | PANIC | DRN | FLT | RET | CLONE | CAP | EXT, 0), mix: mixed(DRN | FLT | RET | CLONE | CAP, 3, PANICKY, 3) },
    Spec { id: "C19", systems: ALL, focus: focus(FORM, FORM, 0), mix: mixed(0, 1, PANICKY, 4) },
];
pub fn spec(id: &str) -> Option<&'static Spec> {
    SPECS.iter().find(|s| s.id == id)
}

/// A violation and what is needed to see it again
pub struct Viol {
    pub msg: String,
    pub replay: Value,
}

fn one<S: Sys>(sp: &Spec, seed: u64, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
    let (h, profile) = gen_history::<S>(seed, &sp.mix, sp.focus.aud);
    judge::<S>(sp, h, profile, seed, shrinking, cov)
}
fn judge<S: Sys>(sp: &Spec, h: History, profile: &str, seed: u64, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
    cov.bump(&format!("profile_{profile}"), 1);
    if std::env::var_os("SHOW_HISTORY").is_some() {
        let skip = h.ops.len().saturating_sub(20);
        eprintln!("{profile}: {skip} operations, then {}", show_ops::<S>(&History { ops: h.ops[skip..].to_vec(), ..h.clone() }, 20));
    }
    cov.bump(&format!("system_{}", S::NAME), 1);
    cov.histories += 1;
    if cov.samples.len() < 2 {
        cov.samples.push(show_ops::<S>(&h, 25));
    }
    if sp.id == "C07" {
        return crate::special::hashers_differ::<S>(&h, shrinking, cov);
    }
    if sp.id == "C22" {
        // Only where hashes collide does it matter how pairings are told apart
        let mut h = h;
        h.cfg.mode = [1, 2, 6, 7, 12, 1, 3, 8][seed as usize % 8];
        let x = ambiguous::<S>(&h, &sp.focus, cov)?;
        let (h, x) = if shrinking { shrink_by(&h, x, |h| ambiguous::<S>(h, &sp.focus, &mut Cov::default())) } else { (h, x) };
        return Some(viol::<S>(sp, &h, &x));
    }
    let x = check::<S>(&h, &sp.focus, cov);
    if sp.id == "C15" && x.is_none() && !cfg!(sanitized) && seed % 3 == 0 {
        cov.bump("histories_measured_for_leaked_memory", 1);
        let x = leaks::<S>(&h, &sp.focus)?;
        let (h, x) = if shrinking { shrink_by(&h, x, |h| leaks::<S>(h, &sp.focus)) } else { (h, x) };
        return Some(viol::<S>(sp, &h, &x));
    }
    let x = x?;
    let (h, x) = if shrinking { shrink::<S>(&h, &sp.focus, x) } else { (h, x) };
    Some(viol::<S>(sp, &h, &x))
}
/// Memory, other than items, that stays allocated when the map is gone
fn leaks<S: Sys>(h: &History, f: &Focus) -> Option<Failure> {
    if h.ops.iter().any(|o| PANICKY.contains(&S::OPS[o.k as usize])) {
        return None;
    }
    let n = crate::alloc::leaks(|| {
        let mut c = Cov::default();
        run::<S>(h, f, 0, &mut c).is_none() && !c.extra.keys().any(|k| k.contains("deviations"))
    })?;
    Some(Failure { at: h.ops.len(), class: OWN, msg: format!("{n} bytes stay allocated each time this runs") })
}
/// A failure that isn't there when the same history runs without collisions
fn ambiguous<S: Sys>(h: &History, f: &Focus, cov: &mut Cov) -> Option<Failure> {
    let x = check::<S>(h, f, cov)?;
    let mut good = h.clone();
    good.cfg.mode = 0;
    if check::<S>(&good, f, &mut Cov::default()).is_some() {
        cov.bump("failures_without_collisions", 1);
        return None;
    }
    Some(x)
}
fn viol<S: Sys>(sp: &Spec, h: &History, x: &Failure) -> Viol {
    Viol {
        msg: format!("[{}] step {}: {} | {}", names(x.class), x.at, x.msg, show_ops::<S>(h, 60)),
        replay: json!({"kind": "history", "check": sp.id, "history": history_json::<S>(h), "what": x.msg}),
    }
}
pub fn history_case(sp: &Spec, idx: u64, seed: u64, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
    let seed = mix(seed ^ mix(idx ^ 0xabcdef));
    match sp.systems[(mix(idx ^ 0x515) % sp.systems.len() as u64) as usize] {
        "cycle" => one::<Cycle>(sp, seed, shrinking, cov),
        "partial" => one::<Partial>(sp, seed, shrinking, cov),
        _ => one::<Group>(sp, seed, shrinking, cov),
    }
}
/// One case of the grid of exact sizes
pub fn grid_case(sp: &Spec, idx: u64, seed: u64, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
    fn go<S: Sys>(sp: &Spec, idx: u64, seed: u64, shrinking: bool, cov: &mut Cov) -> Option<Viol> {
        let h = grid::<S>(idx, seed, &sp.mix, sp.focus.aud)?;
        judge::<S>(sp, h, "grid", seed, shrinking, cov)
    }
    let seed = mix(seed ^ mix(idx ^ 0x9e1d));
    let n = sp.systems.len() as u64;
    match sp.systems[(idx % n) as usize] {
        "cycle" => go::<Cycle>(sp, idx / n, seed, shrinking, cov),
        "partial" => go::<Partial>(sp, idx / n, seed, shrinking, cov),
        _ => go::<Group>(sp, idx / n, seed, shrinking, cov),
    }
}
pub fn replay_history(v: &Value) -> Option<String> {
    fn go<S: Sys>(v: &Value) -> Option<String> {
        let sp = spec(v["check"].as_str().unwrap()).unwrap();
        let h = history_from::<S>(&v["history"]);
        let mut cov = Cov::default();
        if sp.id == "C07" {
            return crate::special::hashers_differ::<S>(&h, false, &mut cov).map(|x| x.msg);
        }
        if sp.id == "C22" {
            return ambiguous::<S>(&h, &sp.focus, &mut cov).map(|x| format!("step {}: {}", x.at, x.msg));
        }
        if sp.id == "C15" && v["what"].as_str().is_some_and(|w| w.contains("stay allocated")) {
            return leaks::<S>(&h, &sp.focus).map(|x| x.msg);
        }
        check::<S>(&h, &sp.focus, &mut cov).map(|x| format!("step {}: {}", x.at, x.msg))
    }
    match v["history"]["sys"].as_str().unwrap() {
        "cycle" => go::<Cycle>(v),
        "partial" => go::<Partial>(v),
        _ => go::<Group>(v),
    }
}
