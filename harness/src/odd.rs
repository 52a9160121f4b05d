//! C15: ownership with item types of every shape (zero sized, over-aligned, large, with niches,
//! owning heap memory), and one that is plain bytes. Every item is counted, carries a pattern that
//! is looked at whenever the map hands it to user code, and must lie at an aligned address.
use crate::checks::Viol;
use crate::ensure;
use crate::hasher::TB;
use crate::rng::{mix, Rng};
use crate::sys::{Cov, Res};
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
    static FAULT: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn born() {
    ALIVE.with(|a| a.set(a.get() + 1))
}
fn gone() {
    ALIVE.with(|a| a.set(a.get() - 1))
}
fn fault(m: String) {
    FAULT.with(|f| {
        f.borrow_mut().get_or_insert(m);
    });
}
const GOOD: u32 = 0x600d_600d;
const DEAD: u32 = 0xdead_dead;

pub trait Odd: Hash + Eq + Clone + Debug {
    const NAME: &'static str;
    /// Has a destructor and so can be counted
    const COUNTED: bool = true;
    fn make(v: u32) -> Self;
    fn v(&self) -> u32;
}
macro_rules! odd {
    ($name:ident, $text:literal, { $($def:tt)* }, $make:expr, $v:expr, $poison:expr) => {
        $($def)*
        impl Odd for $name {
            const NAME: &'static str = $text;
            fn make(v: u32) -> Self {
                born();
                let f: fn(u32) -> $name = $make;
                f(v)
            }
            fn v(&self) -> u32 {
                if self as *const Self as usize % std::mem::align_of::<Self>() != 0 {
                    fault(format!("{} at unaligned address", $text));
                }
                let f: fn(&$name) -> Result<u32, String> = $v;
                match f(self) {
                    Ok(v) => v,
                    Err(m) => {
                        fault(format!("{}: {m}", $text));
                        0
                    }
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                self.v();
                gone();
                let f: fn(&mut $name) = $poison;
                f(self)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                Self::make(self.v())
            }
        }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v())
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.v() == o.v()
            }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u64(self.v() as u64)
            }
        }
    };
}
fn tag(t: u32) -> Result<(), String> {
    match t {
        GOOD => Ok(()),
        DEAD => Err("used after drop".into()),
        t => Err(format!("is garbage ({t:#x})")),
    }
}
odd!(Zst, "zero sized", { pub struct Zst; }, |_| Zst, |_| Ok(0), |_| {});
odd!(Wide, "aligned to 64", { #[repr(align(64))] pub struct Wide { t: u32, v: u32, b: u8 } }, |v| Wide { t: GOOD, v, b: v as u8 },
    |s| { tag(s.t)?; if s.b == s.v as u8 { Ok(s.v) } else { Err("torn".into()) } },
    |s| unsafe { std::ptr::write_volatile(&mut s.t, DEAD) });
odd!(Page, "aligned to 1024", { #[repr(align(1024))] pub struct Page { t: u32, v: u32 } }, |v| Page { t: GOOD, v },
    |s| { tag(s.t)?; Ok(s.v) }, |s| unsafe { std::ptr::write_volatile(&mut s.t, DEAD) });
odd!(Large, "large", { pub struct Large { t: u32, p: [u32; 75] } }, |v| Large { t: GOOD, p: [v; 75] },
    |s| { tag(s.t)?; if s.p.iter().all(|x| *x == s.p[0]) { Ok(s.p[0]) } else { Err("torn".into()) } },
    |s| unsafe { std::ptr::write_volatile(&mut s.t, DEAD) });
odd!(Byte, "one byte", { pub struct Byte(u8); }, |v| Byte(v as u8), |s| Ok(s.0 as u32), |_| {});
odd!(Heap, "owning heap memory", { pub struct Heap { t: u32, s: String, b: Option<Box<u32>> } }, |v| Heap { t: GOOD, s: format!("item {v}"), b: Some(Box::new(v)) },
    |s| { tag(s.t)?; match &s.b { Some(b) if s.s == format!("item {b}") => Ok(**b), _ => Err("torn".into()) } },
    |s| unsafe { std::ptr::write_volatile(&mut s.t, DEAD) });
odd!(Niche, "with niches", { pub enum Niche { A(Box<u32>), B(std::num::NonZeroU32), C } },
    |v| if v == 0 { Niche::C } else if v % 2 == 0 { Niche::A(Box::new(v)) } else { Niche::B(v.try_into().unwrap()) },
    |s| Ok(match s { Niche::A(b) => **b, Niche::B(n) => n.get(), Niche::C => 0 }), |_| {});

/// No destructor: the maps must not conclude anything from that for the other side
#[derive(Clone, Debug)]
pub struct Bits {
    t: u32,
    v: u32,
}
impl Odd for Bits {
    const NAME: &'static str = "without destructor";
    const COUNTED: bool = false;
    fn make(v: u32) -> Self {
        Bits { t: GOOD, v }
    }
    fn v(&self) -> u32 {
        if let Err(m) = tag(self.t) {
            fault(format!("without destructor: {m}"));
        }
        self.v
    }
}
impl PartialEq for Bits {
    fn eq(&self, o: &Self) -> bool {
        self.v() == o.v()
    }
}
impl Eq for Bits {}
impl Hash for Bits {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.v() as u64)
    }
}

fn opt<A: Odd, B: Odd>(o: OptionalPair<&A, &B>) -> (u32, u32) {
    match o {
        OptionalPair::Neither => (0, 0),
        OptionalPair::SomeLeft(a) => (a.v(), 0),
        OptionalPair::SomeRight(b) => (0, b.v()),
        OptionalPair::SomeBoth(a, b) => (a.v(), b.v()),
    }
}

struct Run {
    rng: Rng,
    u: u32,
    /// alive before the map was made
    log: Vec<String>,
}
impl Run {
    fn x(&mut self) -> u32 {
        let u = self.u;
        self.rng.u32(u)
    }
    /// What lives must be what is stored plus what is held
    fn balance(&self, what: &str, stored: usize, held: usize, cov: &mut Cov) -> Res {
        cov.facts += 1;
        if let Some(m) = FAULT.with(|f| f.borrow_mut().take()) {
            return Err(format!("{what}: {m}"));
        }
        let a = ALIVE.with(|a| a.get());
        ensure!(a == (stored + held) as i64, "{what}: {a} items are alive, {stored} are stored and {held} are held outside");
        Ok(())
    }
}

fn cycle<L: Odd, R: Odd>(c: &mut Run, tb: TB, cov: &mut Cov, steps: u32) -> Res {
    let w = L::COUNTED as usize + R::COUNTED as usize;
    let cap = c.x() as usize;
    let mut m: CycleMap<L, R, TB> = CycleMap::with_capacity_and_hasher(cap, tb);
    for _ in 0..steps {
        let (a, b, d, e) = (c.x(), c.x(), c.x(), c.x());
        let k = c.rng.below(26);
        let (l, r) = (L::make(a), R::make(b));
        let mut held = w;
        let mut dup: Option<CycleMap<L, R, TB>> = None;
        match k {
            0..=5 => {
                drop(m.insert(l.clone(), r.clone()));
            }
            6 => drop(m.remove(&l, &r)),
            7 => drop(m.remove_via_left(&l)),
            8 => drop(m.remove_via_right(&r)),
            9 => drop(m.swap_left(&l, L::make(d))),
            10 => drop(m.swap_right(&r, R::make(d))),
            11 => drop(m.swap_left_checked(&l, &r, L::make(d))),
            12 => drop(m.swap_right_checked(&r, &l, R::make(d))),
            13 => drop(m.swap_left_or_insert(&l, L::make(d), R::make(e))),
            14 => drop(m.swap_right_or_insert(&r, R::make(d), L::make(e))),
            15 => {
                let n = d as usize % (m.len() + 1);
                let v: Vec<(L, R)> = m.drain().take(n).collect();
                c.balance(&format!("drain, {n} taken"), m.len(), w + w * n, cov)?;
                ensure!(m.len() == 0, "drain left {} pairs", m.len());
                drop(v);
            }
            16 => {
                let v: Vec<(L, R)> = m.drain_filter(|x, y| (x.v() + y.v()) % 3 == d % 3).take(e as usize).collect();
                held += w * v.len();
                c.balance("drain_filter, before what it gave is dropped", w * m.len(), held, cov)?;
                held = w;
            }
            17 => m.retain(|x, y| (x.v() + 3 * y.v() + d) % 4 != 0),
            18 => {
                let q = m.clone();
                held += w * q.len();
                ensure!(q == m, "a clone differs from its original");
                dup = Some(q);
            }
            19 => m.clear(),
            20 => m.shrink_to_fit(),
            21 => m.reserve(d as usize),
            22 => m.shrink_to(d as usize),
            23 => {
                let v: Vec<(L, R)> = (0..d % 5).map(|i| (L::make((a + i) % c.u), R::make((b + i) % c.u))).collect();
                m.extend(v);
            }
            24 => {
                // Looked at from everywhere
                let mut s = 0u64;
                m.iter().for_each(|(x, y)| s += (x.v() + y.v()) as u64);
                m.iter_left().for_each(|x| s += x.v() as u64);
                m.iter_right().for_each(|x| s += x.v() as u64);
                s += m.get_left(&r).map_or(0, |x| x.v() as u64) + m.get_right(&l).map_or(0, |x| x.v() as u64);
                std::hint::black_box((s, format!("{m:?}").len()));
            }
            _ => {
                let x = m.swap_left(&l, l.clone());
                let y = m.swap_right(&r, r.clone());
                drop(x);
                drop(y);
            }
        }
        c.log.push(format!("op{k}({a},{b},{d},{e})"));
        cov.steps += 1;
        cov.tuple(&[1, k, a as u64, b as u64, m.len().min(9) as u64, L::NAME.len() as u64 * 64 + R::NAME.len() as u64]);
        c.balance(&format!("after operation {k}"), w * m.len(), held, cov)?;
        drop(dup);
        drop((l, r));
        c.balance(&format!("after operation {k} and dropping its arguments"), w * m.len(), 0, cov)?;
    }
    if c.rng.chance(1, 3) {
        let mut i = m.drain();
        let x = i.next();
        drop(i);
        drop(x);
    }
    drop(m);
    c.balance("after dropping the map", 0, 0, cov)
}

fn partial<L: Odd, R: Odd>(c: &mut Run, tb: TB, cov: &mut Cov, steps: u32) -> Res {
    let (wl, wr) = (L::COUNTED as usize, R::COUNTED as usize);
    let cap = c.x() as usize;
    let mut m: PartialCycleMap<L, R, TB> = PartialCycleMap::with_capacity_and_hasher(cap, tb);
    let n = |m: &PartialCycleMap<L, R, TB>| wl * m.len_left() + wr * m.len_right();
    let pieces = |o: &OptionalPair<L, R>| match o {
        OptionalPair::Neither => 0,
        OptionalPair::SomeBoth(..) => wl + wr,
        OptionalPair::SomeLeft(_) => wl,
        OptionalPair::SomeRight(_) => wr,
    };
    for _ in 0..steps {
        let (a, b, d, e) = (c.x(), c.x(), c.x(), c.x());
        let k = c.rng.below(38);
        let (l, r) = (L::make(a), R::make(b));
        let mut held = wl + wr;
        let mut dup: Option<PartialCycleMap<L, R, TB>> = None;
        match k {
            0..=5 => drop(m.insert(l.clone(), r.clone())),
            6 | 7 => drop(m.insert_left(l.clone())),
            8 | 9 => drop(m.insert_right(r.clone())),
            10 => drop(m.pair(&l, &r)),
            11 => {
                let o = m.pair_forced(&l, &r);
                std::hint::black_box(opt(o));
            }
            12 => drop(m.pair_forced_remove(&l, &r)),
            13 => drop(m.unpair(&l, &r)),
            14 => drop(m.remove(&l, &r)),
            15 => drop(m.remove_left(&l)),
            16 => drop(m.remove_right(&r)),
            17 => drop(m.remove_via_left(&l)),
            18 => drop(m.remove_via_right(&r)),
            19 => drop(m.swap_left(&l, L::make(d))),
            20 => drop(m.swap_right(&r, R::make(d))),
            21 => drop(m.swap_left_checked(&l, &r, L::make(d))),
            22 => drop(m.swap_right_checked(&r, &l, R::make(d))),
            23 => drop(m.swap_left_or_insert(&l, L::make(d), R::make(e))),
            24 => drop(m.swap_right_or_insert(&r, R::make(d), L::make(e))),
            25 => {
                let v: Vec<OptionalPair<L, R>> = m.drain().take(d as usize).collect();
                held += v.iter().map(pieces).sum::<usize>();
                ensure!(n(&m) == 0, "drain left {} items", n(&m));
                c.balance("drain, before what it gave is dropped", 0, held, cov)?;
                held = wl + wr;
            }
            26 => {
                let v: Vec<OptionalPair<L, R>> = m.drain_filter(|o| { let (x, y) = look(&o); (x + y) % 3 == d % 3 }).take(e as usize).collect();
                held += v.iter().map(pieces).sum::<usize>();
                c.balance("drain_filter, before what it gave is dropped", n(&m), held, cov)?;
                held = wl + wr;
            }
            27 => m.retain(|o| { let (x, y) = look(o); (x + 3 * y + d) % 4 == 0 }),
            28 => m.retain_paired(|x, y| (x.v() + 3 * y.v() + d) % 4 == 0),
            29 => m.retain_unpaired(|o| { let (x, y) = look(o); (x + 3 * y + d) % 4 == 0 }),
            30 => {
                let q = m.clone();
                held += n(&q);
                ensure!(q == m, "a clone differs from its original");
                dup = Some(q);
            }
            31 => m.clear(),
            32 => m.shrink_to_fit(),
            33 => {
                m.reserve_left(d as usize);
                m.reserve_right(e as usize);
            }
            34 => {
                m.shrink_to_left(d as usize);
                m.shrink_to_right(e as usize);
            }
            35 => {
                let v: Vec<OptionalPair<L, R>> = (0..d % 5)
                    .map(|i| match (i + e) % 4 {
                        0 => OptionalPair::SomeLeft(L::make((a + i) % c.u)),
                        1 => OptionalPair::SomeRight(R::make((b + i) % c.u)),
                        2 => OptionalPair::Neither,
                        _ => OptionalPair::SomeBoth(L::make((a + i) % c.u), R::make((b + i) % c.u)),
                    })
                    .collect();
                m.extend(v);
            }
            36 => {
                let mut s = 0u64;
                m.iter().for_each(|o| s += opt(o).0 as u64);
                m.iter_paired().for_each(|(x, y)| s += (x.v() + y.v()) as u64);
                m.iter_unpaired().for_each(|o| s += opt(o).1 as u64);
                m.iter_left().for_each(|x| s += x.v() as u64);
                m.iter_right().for_each(|x| s += x.v() as u64);
                s += m.get_left(&r).map_or(0, |x| x.v() as u64) + m.get_right(&l).map_or(0, |x| x.v() as u64);
                std::hint::black_box((s, format!("{m:?}").len()));
            }
            _ => {
                drop(m.swap_left(&l, l.clone()));
                drop(m.swap_right(&r, r.clone()));
            }
        }
        c.log.push(format!("op{k}({a},{b},{d},{e})"));
        cov.steps += 1;
        cov.tuple(&[2, k, a as u64, b as u64, m.len_left().min(9) as u64, m.len_right().min(9) as u64, L::NAME.len() as u64 * 64 + R::NAME.len() as u64]);
        c.balance(&format!("after operation {k}"), n(&m), held, cov)?;
        drop(dup);
        drop((l, r));
        c.balance(&format!("after operation {k} and dropping its arguments"), n(&m), 0, cov)?;
    }
    if c.rng.chance(1, 3) {
        let mut i = m.drain();
        let x = i.next();
        drop(i);
        drop(x);
    }
    drop(m);
    c.balance("after dropping the map", 0, 0, cov)
}
fn look<L: Odd, R: Odd>(o: &OptionalPair<&L, &R>) -> (u32, u32) {
    match o {
        OptionalPair::Neither => (0, 0),
        OptionalPair::SomeLeft(a) => (a.v(), 0),
        OptionalPair::SomeRight(b) => (0, b.v()),
        OptionalPair::SomeBoth(a, b) => (a.v(), b.v()),
    }
}

fn group<L: Odd, R: Odd>(c: &mut Run, tb: TB, cov: &mut Cov, steps: u32) -> Res {
    let (wl, wr) = (L::COUNTED as usize, R::COUNTED as usize);
    let cap = c.x() as usize;
    let mut m: GroupMap<L, R, TB> = GroupMap::with_capacity_and_hasher(cap, tb);
    let n = |m: &GroupMap<L, R, TB>| wl * m.len_left() + wr * m.len_right();
    for _ in 0..steps {
        let (a, b, d, e) = (c.x(), c.x(), c.x(), c.x());
        let k = c.rng.below(26);
        let (l, r) = (L::make(a), R::make(b));
        let mut held = wl + wr;
        let mut dup: Option<GroupMap<L, R, TB>> = None;
        // A pair that is paired already is a known finding of insert
        match k {
            0..=5 => {
                if m.get_right(&l) != Some(&r) {
                    m.insert(l.clone(), r.clone())
                }
            }
            6 | 7 => drop(m.insert_remove(l.clone(), r.clone())),
            8 | 9 => drop(m.insert_left(l.clone(), &r)),
            10 => drop(m.insert_right(r.clone())),
            11 => m.swap_right(&r, R::make(d)),
            12 => drop(m.swap_right_remove(&r, R::make(d))),
            13 | 14 => drop(m.pair(&l, &r)),
            15 => {
                if let Some((s, x)) = m.remove(&l, &r) {
                    c.balance("remove, before the group it gave is dropped", n(&m), held + wl * s.len() + wr, cov)?;
                    drop((s, x));
                }
            }
            16 => drop(m.remove_left(&l)),
            17 => drop(m.remove_right(&r)),
            18 => m.retain_paired(|x, y| (x.v() + 3 * y.v() + d) % 4 == 0),
            19 => m.retain_unpaired(|x| (x.v() + d) % 2 == 0),
            20 => {
                let q = m.clone();
                held += n(&q);
                ensure!(q == m, "a clone differs from its original");
                dup = Some(q);
            }
            21 => m.clear(),
            22 => {
                for i in 0..d % 5 {
                    let (x, y) = ((a + i) % c.u, (b + i) % c.u);
                    if m.get_right(&L::make(x)) != Some(&R::make(y)) {
                        m.extend([(L::make(x), R::make(y))]);
                    }
                }
            }
            23 => m.swap_right(&r, r.clone()),
            24 => drop(m.swap_right_remove(&r, r.clone())),
            _ => {
                let mut s = 0u64;
                m.iter().for_each(|(x, y)| s += x.map_or(0, |x| x.v() as u64) + y.v() as u64);
                m.iter_paired().for_each(|(x, y)| s += (x.v() + y.v()) as u64);
                m.iter_unpaired().for_each(|x| s += x.v() as u64);
                m.iter_left().for_each(|x| s += x.v() as u64);
                m.iter_right().for_each(|x| s += x.v() as u64);
                s += m.get_right(&l).map_or(0, |x| x.v() as u64);
                if let Some(i) = m.get_left_iter(&r) {
                    i.for_each(|x| s += x.v() as u64)
                }
                std::hint::black_box((s, format!("{m:?}").len()));
            }
        }
        c.log.push(format!("op{k}({a},{b},{d},{e})"));
        cov.steps += 1;
        cov.tuple(&[3, k, a as u64, b as u64, m.len_left().min(9) as u64, m.len_right().min(9) as u64, L::NAME.len() as u64 * 64 + R::NAME.len() as u64]);
        c.balance(&format!("after operation {k}"), n(&m), held, cov)?;
        drop(dup);
        drop((l, r));
        c.balance(&format!("after operation {k} and dropping its arguments"), n(&m), 0, cov)?;
    }
    drop(m);
    c.balance("after dropping the map", 0, 0, cov)
}

fn sides<L: Odd, R: Odd>(which: u64, c: &mut Run, tb: TB, cov: &mut Cov, steps: u32) -> (Res, &'static str, &'static str, &'static str) {
    let (x, m) = match which {
        0 => (cycle::<L, R>(c, tb, cov, steps), "CycleMap"),
        1 => (partial::<L, R>(c, tb, cov, steps), "PartialCycleMap"),
        _ => (group::<L, R>(c, tb, cov, steps), "GroupMap"),
    };
    (x, m, L::NAME, R::NAME)
}

pub fn types(i: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    if mix(i ^ 0x1eaf) % 8 == 0 {
        return crate::panics::leaked(i, seed, cov);
    }
    let x = types_once(i, seed, cov);
    if x.is_some() || cfg!(sanitized) || i % 3 != 0 {
        return x;
    }
    cov.bump("cases_measured_for_leaked_memory", 1);
    let n = crate::alloc::leaks(|| {
        let mut c = Cov::default();
        types_once(i, seed, &mut c).is_none() && !c.extra.contains_key("cut_short_by_panics")
    })?;
    let text = format!("case {i}: {n} bytes stay allocated each time it runs");
    Some(Viol { msg: text, replay: json!({"kind": "case", "check": "C15", "special": true, "idx": i, "seed": seed}) })
}
fn types_once(i: u64, seed: u64, cov: &mut Cov) -> Option<Viol> {
    ALIVE.with(|a| a.set(0));
    FAULT.with(|f| *f.borrow_mut() = None);
    let mut rng = Rng::new(mix(seed ^ mix(i) ^ 0x0dd));
    let tb = TB::new(if rng.chance(1, 2) { 0 } else { rng.below(13) as u8 }, rng.next());
    let u = *rng.pick(&[1, 2, 3, 5, 12]);
    let steps = if cfg!(miri) { 25 } else { 20 + rng.u32(100) };
    let which = rng.below(3);
    let pick = if std::env::var("PICK").is_ok() { 10 } else { rng.below(16) };
    let mut c = Run { rng, u, log: Vec::new() };
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match pick {
        0 => sides::<Zst, Zst>(which, &mut c, tb, cov, steps),
        1 => sides::<Zst, Heap>(which, &mut c, tb, cov, steps),
        2 => sides::<Large, Zst>(which, &mut c, tb, cov, steps),
        3 => sides::<Wide, Byte>(which, &mut c, tb, cov, steps),
        4 => sides::<Heap, Wide>(which, &mut c, tb, cov, steps),
        5 => sides::<Page, Niche>(which, &mut c, tb, cov, steps),
        6 => sides::<Byte, Page>(which, &mut c, tb, cov, steps),
        7 => sides::<Large, Large>(which, &mut c, tb, cov, steps),
        8 => sides::<Heap, Heap>(which, &mut c, tb, cov, steps),
        9 => sides::<Niche, Niche>(which, &mut c, tb, cov, steps),
        10 => sides::<Byte, Byte>(which, &mut c, tb, cov, steps),
        11 => sides::<Niche, Large>(which, &mut c, tb, cov, steps),
        12 => sides::<Bits, Heap>(which, &mut c, tb, cov, steps),
        13 => sides::<Large, Bits>(which, &mut c, tb, cov, steps),
        14 => sides::<Bits, Bits>(which, &mut c, tb, cov, steps),
        _ => sides::<Wide, Zst>(which, &mut c, tb, cov, steps),
    })) {
        Ok(r) => r,
        // what a panic leaves undropped isn't judged here; other checks are about panics
        Err(_) => {
            cov.bump("cut_short_by_panics", 1);
            return None;
        }
    };
    cov.histories += 1;
    cov.bump(&format!("items {} / {}", r.2, r.3), 1);
    let m = r.0.err()?;
    let text = format!("case {i}: {} with items {} and {}, universe {u}: {m} | {}", r.1, r.2, r.3, c.log.join(" "));
    Some(Viol { msg: text, replay: json!({"kind": "case", "check": "C15", "special": true, "idx": i, "seed": seed}) })
}
