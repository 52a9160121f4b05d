//! C20, age: a map that goes through the same operations again and again must not need more and more
//! memory or work. A list of operations on a small universe is run for a thousand rounds; what the map
//! holds is bounded by the universe, so its memory is, and a late round must cost what an early one did.
use crate::alloc;
use crate::checks::Viol;
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use serde_json::json;
use std::cell::Cell;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::time::Instant;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn called() {
    CALLS.with(|c| c.set(c.get() + 1))
}
#[derive(Clone, Debug)]
struct K(u64);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        called();
        h.write_u64(self.0)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        called();
        self.0 == o.0
    }
}
impl Eq for K {}
#[derive(Default, Clone)]
struct Mixer(u64);
impl Hasher for Mixer {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type S = BuildHasherDefault<Mixer>;

trait Ages {
    const NAME: &'static str;
    fn new() -> Self;
    /// False if the operation was left out
    fn run(&mut self, k: u8, a: u64, b: u64, c: u64);
    fn items(&self) -> usize;
}
impl Ages for CycleMap<K, K, S> {
    const NAME: &'static str = "CycleMap";
    fn new() -> Self {
        CycleMap::with_hasher(S::default())
    }
    fn run(&mut self, k: u8, a: u64, b: u64, c: u64) {
        match k {
            0..=3 => drop(self.insert(K(a), K(b))),
            4 => drop(self.remove(&K(a), &K(b))),
            5 => drop(self.remove_via_left(&K(a))),
            6 => drop(self.remove_via_right(&K(b))),
            7 => drop(self.swap_left(&K(a), K(c))),
            8 => drop(self.swap_right(&K(b), K(c))),
            9 => drop(self.swap_left_or_insert(&K(a), K(c), K(b))),
            10 => drop(self.swap_right_or_insert(&K(b), K(c), K(a))),
            11 => self.retain(|l, _| l.0 % 3 != a % 3),
            12 => drop(self.drain_filter(|l, _| l.0 % 3 == a % 3).count()),
            13 => drop(self.drain().take(a as usize).count()),
            14 => self.clear(),
            _ => drop((self.get_right(&K(a)).is_some(), self.get_left(&K(b)).is_some(), self.are_paired(&K(a), &K(b)))),
        }
    }
    fn items(&self) -> usize {
        self.len()
    }
}
impl Ages for PartialCycleMap<K, K, S> {
    const NAME: &'static str = "PartialCycleMap";
    fn new() -> Self {
        PartialCycleMap::with_hasher(S::default())
    }
    fn run(&mut self, k: u8, a: u64, b: u64, c: u64) {
        match k {
            0 | 1 => drop(self.insert(K(a), K(b))),
            2 | 3 => drop(self.insert_left(K(a))),
            4 | 5 => drop(self.insert_right(K(b))),
            6 => drop(self.pair(&K(a), &K(b))),
            7 => drop(self.pair_forced(&K(a), &K(b))),
            8 => drop(self.pair_forced_remove(&K(a), &K(b))),
            9 => drop(self.unpair(&K(a), &K(b))),
            10 => drop(self.remove(&K(a), &K(b))),
            11 => drop(self.remove_left(&K(a))),
            12 => drop(self.remove_right(&K(b))),
            13 => drop(self.remove_via_left(&K(a))),
            14 => drop(self.remove_via_right(&K(b))),
            15 => drop(self.swap_left(&K(a), K(c))),
            16 => drop(self.swap_right(&K(b), K(c))),
            17 => drop(self.swap_left_or_insert(&K(a), K(c), K(b))),
            18 => drop(self.swap_right_or_insert(&K(b), K(c), K(a))),
            19 => self.retain_paired(|l, _| l.0 % 3 != a % 3),
            20 => drop(self.drain_filter(|i| i.get_left().is_some_and(|l| l.0 % 3 == a % 3)).count()),
            21 => drop(self.drain().take(a as usize).count()),
            22 => self.clear(),
            _ => drop((self.get_right(&K(a)).is_some(), self.get_left(&K(b)).is_some(), self.are_paired(&K(a), &K(b)))),
        }
    }
    fn items(&self) -> usize {
        self.len_left() + self.len_right()
    }
}
impl Ages for GroupMap<K, K, S> {
    const NAME: &'static str = "GroupMap";
    fn new() -> Self {
        GroupMap::with_hasher(S::default())
    }
    fn run(&mut self, k: u8, a: u64, b: u64, c: u64) {
        match k {
            // finding K3
            0 | 1 if self.are_paired(&K(a), &K(b)) => {}
            0 | 1 => drop(self.insert(K(a), K(b))),
            2 => drop(self.insert_remove(K(a), K(b))),
            3 | 4 => drop(self.insert_left(K(a), &K(b))),
            5 => drop(self.insert_right(K(b))),
            6 | 7 => drop(self.pair(&K(a), &K(b))),
            8 => drop(self.remove(&K(a), &K(b))),
            9 | 10 => drop(self.remove_left(&K(a))),
            11 => drop(self.remove_right(&K(b))),
            12 => self.swap_right(&K(b), K(c)),
            13 => self.retain_paired(|l, _| l.0 % 3 == a % 3),
            14 => self.clear(),
            _ => drop((self.get_right(&K(a)).is_some(), self.get_left_iter(&K(b)).is_some(), self.are_paired(&K(a), &K(b)))),
        }
    }
    fn items(&self) -> usize {
        self.len_left() + self.len_right()
    }
}

const ROUNDS: usize = 800;
const EARLY: usize = 80;

struct Seen {
    /// bytes held by the map, at most, at the end of a round
    bytes: (i64, i64),
    /// calls of Hash and Eq in a round
    calls: (u64, u64),
    /// the shortest time of a round, in nanoseconds
    nanos: (u128, u128),
}
fn go<M: Ages>(ops: &[(u8, u64, u64, u64)], early: usize, rounds: usize) -> Seen {
    let base = alloc::stats().live;
    let mut m = M::new();
    let mut s = Seen { bytes: (0, 0), calls: (0, 0), nanos: (u128::MAX, u128::MAX) };
    for i in 0..rounds {
        CALLS.with(|c| c.set(0));
        let t = Instant::now();
        for (k, a, b, c) in ops {
            m.run(*k, *a, *b, *c);
        }
        let (t, calls, bytes) = (t.elapsed().as_nanos(), CALLS.with(|c| c.get()), alloc::stats().live - base);
        if i < early {
            s.bytes.0 = s.bytes.0.max(bytes);
            s.calls.0 = s.calls.0.max(calls);
            s.nanos.0 = s.nanos.0.min(t);
        }
        if i >= rounds - early {
            s.bytes.1 = s.bytes.1.max(bytes);
            s.calls.1 = s.calls.1.max(calls);
            s.nanos.1 = s.nanos.1.min(t);
        }
    }
    std::hint::black_box(m.items());
    s
}
fn judge<M: Ages>(ops: &[(u8, u64, u64, u64)], u: u64, cov: &mut Cov) -> Res {
    let rounds = if cfg!(miri) { 20 } else { ROUNDS };
    let early = rounds * EARLY / ROUNDS;
    let s = go::<M>(ops, early, rounds);
    cov.steps += (ops.len() * rounds) as u64;
    cov.facts += 3;
    cov.bump(&format!("rounds_of_{}", M::NAME), rounds as u64);
    // The tables of both sides at four times the needed size, and a set of all left items for each right one
    let bound = (s.bytes.0 * 4 + 4096).max(4096 + 400 * u as i64 + u as i64 * (64 + 40 * u as i64));
    let per = |n: u64| n as f64 / ops.len() as f64;
    if s.bytes.1 > bound {
        return Err(format!("{}: {} bytes after {EARLY} rounds of {} operations on {u} items a side, {} bytes after {rounds}", M::NAME, s.bytes.0, ops.len(), s.bytes.1));
    }
    if per(s.calls.1) > per(s.calls.0) * 10.0 + 60.0 + 10.0 * u as f64 {
        return Err(format!("{}: {:.1} calls of Hash and Eq per operation in the first rounds, {:.1} in the last of {rounds}", M::NAME, per(s.calls.0), per(s.calls.1)));
    }
    // Time is no measure on a busy machine: only a gross difference counts, and only if it is there each time
    let slow = |s: &Seen| s.nanos.1 > s.nanos.0 * 25 + 20_000 + 2_000 * ops.len() as u128;
    if slow(&s) && (0..4).all(|_| slow(&go::<M>(ops, early, rounds))) {
        return Err(format!("{}: a round of {} operations takes {} ns at first, {} ns after {rounds} rounds", M::NAME, ops.len(), s.nanos.0, s.nanos.1));
    }
    Ok(())
}

pub fn rounds(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0xa9e)));
    let u = [3, 8, 20, 60][rng.below(4) as usize];
    let which = idx % 3;
    let kinds = [16, 24, 16][which as usize];
    // some operations only, so that what another one would tidy up stays
    let mut pool: Vec<u8> = (0..kinds).filter(|_| rng.chance(1, 3)).collect();
    if rng.chance(3, 4) {
        let whole: &[u8] = [&[11, 12, 13, 14][..], &[19, 20, 21, 22], &[13, 14]][which as usize];
        pool.retain(|k| !whole.contains(k));
    }
    pool.push(rng.below(3) as u8);
    let n = 4 + rng.u32(150);
    let ops: Vec<(u8, u64, u64, u64)> = (0..n).map(|_| (*rng.pick(&pool), rng.below(u), rng.below(u), rng.below(u))).collect();
    cov.histories += 1;
    cov.tuple(&[which, u, ops.iter().fold(3, |h, o| mix(h ^ (o.0 as u64) << 24 ^ o.1 << 16 ^ o.2 << 8 ^ o.3))]);
    let msg = match which {
        0 => judge::<CycleMap<K, K, S>>(&ops, u, cov),
        1 => judge::<PartialCycleMap<K, K, S>>(&ops, u, cov),
        _ => judge::<GroupMap<K, K, S>>(&ops, u, cov),
    }
    .err()?;
    Some(Viol {
        msg: format!("{msg} | operations (kind, left, right, other) {:?}", &ops[..ops.len().min(40)]),
        replay: json!({"kind": "case", "check": "C20", "idx": idx, "seed": seed, "what": msg}),
    })
}
