//! What the monitors of the three maps have in common.
use crate::rng::{mix, Rng};
use cycle_map::OptionalPair;
use std::collections::HashSet;
use std::fmt::Debug;

/// One operation: a kind (index into `Sys::OPS`) and its arguments
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

/// What an observation is about: bits of the audits run after the steps of a history, and of the
/// failures a check answers for
pub const COH: u32 = 1; // all queries agree with each other (no model involved)
pub const EFF: u32 = 2; // return values and contents agree with the model, by instance
pub const ITER: u32 = 4; // every iterator at every position
pub const OWN: u32 = 8; // drop ledger agrees with the contents
pub const CLONE: u32 = 16; // clones and equality
pub const FORM: u32 = 32; // lookups by borrowed form
pub const DRN: u32 = 64; // drain
pub const FLT: u32 = 128; // drain_filter
pub const RET: u32 = 256; // retain family
pub const CAP: u32 = 512; // capacity calls
pub const EXT: u32 = 1024; // extend
pub const PANIC: u32 = 2048; // a panic that was not injected
pub const AUDITS: [u32; 6] = [COH, EFF, ITER, OWN, CLONE, FORM];
pub const TAGS: [(&str, u32); 12] = [
    ("COH", COH), ("EFF", EFF), ("ITER", ITER), ("OWN", OWN), ("CLONE", CLONE), ("FORM", FORM),
    ("DRN", DRN), ("FLT", FLT), ("RET", RET), ("CAP", CAP), ("EXT", EXT), ("PANIC", PANIC),
];
pub fn names(c: u32) -> String {
    TAGS.iter().filter(|t| c & t.1 != 0).map(|t| t.0).collect::<Vec<_>>().join("+")
}
/// Class of a failure message: its `[TAG]` if it has one
pub fn class_of_msg(m: &str, default: u32) -> u32 {
    TAGS.iter().find(|t| m.starts_with(&format!("[{}]", t.0))).map_or(default, |t| t.1)
}

/// In an argument: take the partner of the other argument, if there is one
pub const AIM: u32 = 1 << 31;

thread_local! {
    /// Order and hasher independent observations of one history, when recording
    static TRACE: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
}
pub fn trace_on() {
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::new()))
}
pub fn trace_take() -> Vec<String> {
    TRACE.with(|t| t.borrow_mut().take().unwrap_or_default())
}
pub fn note(f: impl FnOnce() -> String) {
    TRACE.with(|t| {
        if let Some(v) = &mut *t.borrow_mut() {
            v.push(f())
        }
    })
}

/// Pairings to skip: near a power of two, so that ids differ from earlier ones in high bits only
pub fn skip_args(rng: &mut Rng) -> (u32, u32, u32) {
    (*rng.pick(&[8, 16, 16, 20, 24, 31, 32, 32, 33, 48]), rng.u32(24), 0)
}
pub fn skip_by(op: &Op) -> u64 {
    (1u64 << op.a) - op.b as u64
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ul: u32,
    pub ur: u32,
    pub mode: u8,
    pub hseed: u64,
    pub cap: u32,
    pub aud: u32,
}

#[derive(Default)]
pub struct Cov {
    pub steps: u64,
    pub histories: u64,
    pub audits: u64,
    pub facts: u64,
    pub tuples: HashSet<u64>,
    pub states: HashSet<u64>,
    pub by_op: Vec<u64>,
    pub max_len: u64,
    pub samples: Vec<String>,
    pub extra: std::collections::BTreeMap<String, u64>,
}
impl Cov {
    pub fn tuple(&mut self, parts: &[u64]) {
        if self.tuples.len() < 2_000_000 {
            let mut h = 17u64;
            for p in parts {
                h = mix(h ^ p);
            }
            self.tuples.insert(h);
        }
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
}

pub type Res = Result<(), String>;

/// Own mirror of OptionalPair, so that oracles don't rest on the code under test
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Opt<A, B> {
    N,
    L(A),
    R(B),
    B(A, B),
}
impl<A, B> Opt<A, B> {
    pub fn of(a: Option<A>, b: Option<B>) -> Self {
        match (a, b) {
            (None, None) => Opt::N,
            (Some(a), None) => Opt::L(a),
            (None, Some(b)) => Opt::R(b),
            (Some(a), Some(b)) => Opt::B(a, b),
        }
    }
}
pub fn view<A: Eq, B: Eq, X, Y>(
    o: &OptionalPair<A, B>,
    f: impl FnOnce(&A) -> X,
    g: impl FnOnce(&B) -> Y,
) -> Opt<X, Y> {
    match o {
        OptionalPair::Neither => Opt::N,
        OptionalPair::SomeLeft(a) => Opt::L(f(a)),
        OptionalPair::SomeRight(b) => Opt::R(g(b)),
        OptionalPair::SomeBoth(a, b) => Opt::B(f(a), g(b)),
    }
}

/// (value, instance)
pub type Id = (u32, u32);

pub fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        let cut = |s: String| if s.len() > 600 { format!("{}...", &s[..s.char_indices().take_while(|(i, _)| *i < 600).count()]) } else { s };
        Err(format!("{what}: got {}, expected {}", cut(format!("{got:?}")), cut(format!("{want:?}"))))
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Deterministic predicates for drain_filter and the retain family
pub fn pred(p: u32, ncall: u32, l: Option<u32>, r: Option<u32>) -> bool {
    let (lv, rv) = (l.unwrap_or(1000), r.unwrap_or(2000));
    match p % 12 {
        0 => true,
        1 => false,
        2 => lv % 2 == 0,
        3 => rv % 2 == 0,
        4 => ncall == 0,
        5 => ncall != 0,
        6 => ncall % 2 == 1,
        7 => l.is_some() && r.is_some(),
        8 => l.is_none() || r.is_none(),
        _ => mix(p as u64 ^ ((lv as u64) << 32 | rv as u64)) & 1 == 1,
    }
}

pub trait Sys: Sized {
    const NAME: &'static str;
    const OPS: &'static [&'static str];
    fn new(cfg: &Cfg) -> Self;
    /// What an operation belongs to (one class bit)
    fn class_of(k: u8) -> u32;
    /// Runs `op` on the map and the model and compares what is returned
    fn step(&mut self, op: &Op, cov: &mut Cov) -> Res;
    /// Compares what can be seen of the map (one audit bit), for all keys or for a sample
    fn audit(&mut self, what: u32, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res;
    fn gen(rng: &mut Rng, cfg: &Cfg, weights: &[u32]) -> Op;
    /// Removes everything through the public interface
    fn teardown(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res;
    /// Whether all lookups by key agree with the model
    fn lookups_agree(&self) -> bool;
    /// Makes the model say what the map says; false if the map contradicts itself
    fn resync(&mut self) -> bool;
    /// Replaces the map by a new one with the same contents
    fn rebuild(&mut self);
    fn model_len(&self) -> usize;
    fn model_hash(&self) -> u64;
}

pub fn pick_weighted(rng: &mut Rng, w: &[u32]) -> u8 {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut x = rng.below(total);
    for (i, n) in w.iter().enumerate() {
        if x < *n as u64 {
            return i as u8;
        }
        x -= *n as u64;
    }
    0
}

/// Checks one iterator at all (or, when long, some) positions against the items it has to yield.
/// Returns the sequence as seen.
pub fn check_iter<I, K, F>(what: &str, it: I, key: F, mut want: Vec<K>, rng: &mut Rng, cov: &mut Cov) -> Result<Vec<K>, String>
where
    I: ExactSizeIterator + Clone + std::iter::FusedIterator + Debug,
    K: Ord + Clone + Debug,
    F: Fn(&I::Item) -> K,
{
    let n = want.len();
    // The whole sequence, never running away
    let seq: Vec<K> = it.clone().take(n + 8).map(|x| key(&x)).collect();
    let mut sorted = seq.clone();
    sorted.sort();
    want.sort();
    same(&format!("{what}: items yielded"), &sorted, &want)?;
    let all: Vec<usize> = if n <= 12 {
        (0..=n).collect()
    } else {
        let mut v: Vec<usize> = (0..6).map(|_| rng.below(n as u64 + 1) as usize).collect();
        v.extend([0, 1, n / 2, n - 1, n]);
        v.sort();
        v.dedup();
        v
    };
    let mut i = it.clone();
    let mut at = 0;
    for p in all {
        while at < p {
            let x = i.next();
            ensure!(x.as_ref().map(&key).as_ref() == Some(&seq[at]), "{what}: item {at} differs between two passes");
            at += 1;
        }
        cov.facts += 6;
        let left = n - p;
        same(&format!("{what}: len at position {p} of {n}"), &i.len(), &left)?;
        same(&format!("{what}: size_hint at position {p} of {n}"), &i.size_hint(), &(left, Some(left)))?;
        let c: Vec<K> = i.clone().take(left + 8).map(|x| key(&x)).collect();
        same(&format!("{what}: rest of a clone taken at position {p} of {n}"), &c, &seq[p..].to_vec())?;
        match rng.below(6) {
            0 => same(&format!("{what}: count at position {p} of {n}"), &i.clone().count(), &left)?,
            1 => same(&format!("{what}: last at position {p} of {n}"), &i.clone().last().map(|x| key(&x)), &seq[p..].last().cloned())?,
            2 => {
                let k = rng.below(left as u64 + 2) as usize;
                let mut c = i.clone();
                same(&format!("{what}: nth({k}) at position {p} of {n}"), &c.nth(k).map(|x| key(&x)), &seq[p..].get(k).cloned())?;
                same(&format!("{what}: len after nth({k}) at position {p} of {n}"), &c.len(), &left.saturating_sub(k + 1))?;
            }
            3 => {
                let c = i.clone().fold(Vec::new(), |mut v, x| {
                    v.push(key(&x));
                    v
                });
                same(&format!("{what}: fold at position {p} of {n}"), &c, &seq[p..].to_vec())?;
            }
            4 => {
                let mut c = i.clone();
                let k = rng.below(left as u64 + 1) as usize;
                let _ = c.by_ref().take(k).count();
                same(&format!("{what}: size_hint after taking {k} from a clone at {p} of {n}"), &c.size_hint(), &(left - k, Some(left - k)))?;
            }
            _ => {
                let mut c = i.clone();
                c.try_for_each(|_| Some(()));
                ensure!(c.next().is_none(), "{what}: items after try_for_each at position {p} of {n}");
            }
        }
        // A clone must not have disturbed the original
        same(&format!("{what}: len at position {p} of {n} after using a clone"), &i.len(), &left)?;
    }
    for k in 0..3 {
        ensure!(i.next().is_none(), "{what}: item yielded after the end (call {k})");
        same(&format!("{what}: size_hint after the end"), &i.size_hint(), &(0, Some(0)))?;
    }
    Ok(seq)
}

/// The item tokens (`L1#2;`) of a Debug text, sorted
pub fn tokens(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if (b[i] == b'L' || b[i] == b'R') && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let start = i;
            while i < b.len() && b[i] != b';' {
                i += 1;
            }
            out.push(s[start..i].to_string());
        }
        i += 1;
    }
    out.sort();
    out
}

/// The tokens of each entry of a Debug text, where entries are what commas separate inside `depth` brackets
fn entries(s: &str, depth: usize) -> Vec<Vec<String>> {
    let (mut out, mut at, mut from) = (Vec::new(), 0, 0);
    for (i, b) in s.bytes().enumerate() {
        match b {
            b'(' | b'[' | b'{' => {
                at += 1;
                if at <= depth {
                    from = i + 1;
                }
            }
            b')' | b']' | b'}' | b',' => {
                if at == depth {
                    out.push(tokens(&s[from..i]));
                    from = i + 1;
                }
                if b != b',' {
                    at = usize::saturating_sub(at, 1);
                }
            }
            _ => {}
        }
    }
    out.retain(|x| !x.is_empty());
    out.sort();
    out
}
/// The Debug text of `x` must list exactly these entries, however it lays them out
pub fn check_debug<T: Debug>(what: &str, x: &T, mut want: Vec<Vec<String>>, rng: &mut Rng) -> Res {
    let alt = rng.chance(1, 4);
    let text = if alt { format!("{x:#?}") } else { format!("{x:?}") };
    let mut all = want.concat();
    all.sort();
    same(&format!("items in the Debug text of {what}"), &tokens(&text), &all)?;
    want.iter_mut().for_each(|w| w.sort());
    want.sort();
    if all.is_empty() || (1..4).any(|d| entries(&text, d) == want) {
        return Ok(());
    }
    Err(format!("Debug of {what} shows other entries: {:?}, expected {want:?}", entries(&text, 1)))
}

pub fn aim(x: u32, partner: Option<u32>, n: u32) -> u32 {
    if x & AIM != 0 {
        partner.unwrap_or((x & !AIM) % n)
    } else {
        x % n
    }
}
/// A random argument that aims at the partner once in `d` times
pub fn aimed(rng: &mut Rng, n: u32, d: u64) -> u32 {
    let x = rng.u32(n);
    if rng.chance(1, d) {
        x | AIM
    } else {
        x
    }
}

pub fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}
/// Compares a returned value with the model's, and records it
pub fn ret<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Res {
    note(|| format!("{what} = {got:?}"));
    same(what, got, want)
}
/// The size hints an iterator gave before each item (and after the last) must be true
pub fn hints_ok(what: &str, hints: &[(usize, Option<usize>)], total: usize) -> Res {
    for (i, h) in hints.iter().enumerate() {
        let left = total.saturating_sub(i);
        if h.0 > left || h.1.is_some_and(|x| x < left) {
            return Err(format!("{what}: size_hint {h:?} after {i} items but {left} more came"));
        }
    }
    Ok(())
}

impl Opt<Id, Id> {
    pub fn values(&self) -> Opt<u32, u32> {
        match self {
            Opt::N => Opt::N,
            Opt::L(l) => Opt::L(l.0),
            Opt::R(r) => Opt::R(r.0),
            Opt::B(l, r) => Opt::B(l.0, r.0),
        }
    }
}

/// How an iterator that removes items is used after some calls of next
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Finish {
    Drop,
    Nth(usize),
    Count(usize),
    Last,
    Fold,
    Collect,
    ForEach,
}
impl Finish {
    pub fn name(self) -> &'static str {
        match self {
            Finish::Drop => "drop",
            Finish::Nth(_) => "nth",
            Finish::Count(_) => "count",
            Finish::Last => "last",
            Finish::Fold => "fold",
            Finish::Collect => "collect",
            Finish::ForEach => "for_each",
        }
    }
    pub fn of(op: &Op, take: usize) -> Finish {
        let x = mix(op.k as u64 ^ (op.a as u64) << 8 ^ (op.b as u64) << 28 ^ mix(op.c as u64) ^ 0xf1);
        match x % 16 {
            0 | 1 => Finish::Nth((x >> 8) as usize % (take.min(40) + 4)),
            2 => Finish::Nth((x >> 8) as usize % 3),
            3 => Finish::Count(0),
            4 => Finish::Last,
            5 => Finish::Fold,
            6 => Finish::Collect,
            7 => Finish::ForEach,
            _ => Finish::Drop,
        }
    }
    /// Consumes the iterator; what it hands out goes to `got`
    pub fn apply<I: Iterator>(self, mut it: I, got: &mut Vec<I::Item>) -> Finish {
        match self {
            Finish::Drop => drop(it),
            Finish::Nth(k) => {
                let x = it.nth(k);
                drop(it);
                got.extend(x);
            }
            Finish::Count(_) => return Finish::Count(it.count()),
            Finish::Last => got.extend(it.last()),
            Finish::Fold => {
                let v = it.fold(Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                });
                got.extend(v);
            }
            Finish::Collect => {
                let v: Vec<I::Item> = it.collect();
                got.extend(v);
            }
            Finish::ForEach => it.for_each(|x| got.push(x)),
        }
        self
    }
    /// Which of `total` items are handed out, when `take` came by next
    pub fn expected(self, total: usize, take: usize) -> Result<Vec<usize>, String> {
        let take = take.min(total);
        let mut v: Vec<usize> = (0..take).collect();
        match self {
            Finish::Drop => {}
            Finish::Nth(k) => v.extend((take + k < total).then_some(take + k)),
            Finish::Count(n) => {
                if n != total - take {
                    return Err(format!("count() after {take} items is {n}, expected {}", total - take));
                }
            }
            Finish::Last => v.extend((take < total).then_some(total.wrapping_sub(1))),
            Finish::Fold | Finish::Collect | Finish::ForEach => v.extend(take..total),
        }
        Ok(v)
    }
}
