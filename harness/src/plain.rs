//! C16: maps of plain items (which allocate nothing themselves) under a watched allocator.
use crate::alloc;
use crate::checks::Viol;
use crate::ensure;
use crate::hasher::{MODES, TB};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An item large enough for the allocation of a table of them to stand out
#[derive(Clone, Copy)]
pub struct Big {
    v: u32,
    _pad: [u32; 63],
}
fn big(v: u32) -> Big {
    Big { v, _pad: [v; 63] }
}
impl PartialEq for Big {
    fn eq(&self, o: &Big) -> bool {
        self.v == o.v
    }
}
impl Eq for Big {}
impl Hash for Big {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.v as u64)
    }
}

struct Case {
    rng: Rng,
    u: u32,
    log: Vec<String>,
    /// in an operation this check answers for
    own: bool,
}
impl Case {
    fn v(&mut self) -> u32 {
        self.rng.u32(self.u)
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.log.len() < 3000 {
            self.log.push(f())
        }
    }
}
type M = CycleMap<Big, Big, TB>;
type P = PartialCycleMap<Big, Big, TB>;
type G = GroupMap<Big, Big, TB>;

/// The allocations a table of `n` Bigs needs are at least this big
fn table_bytes(n: usize) -> usize {
    n * 256
}

/// Runs `f` while watching the allocator: no single allocation of a table for `n` items may happen
fn no_table_alloc(what: &str, n: usize, f: impl FnOnce()) -> Res {
    alloc::reset_largest();
    f();
    let got = alloc::largest();
    ensure!(got < table_bytes(n.max(4)), "{what}: allocated {got} bytes, so a set was reallocated");
    Ok(())
}

/// A map that was shrunk to `k` holds no more memory than one made for as many pairs. Now and then it is
/// measured by taking it apart, and made anew.
fn shrunk(m: &mut M, k: usize, tb: TB, rng: &mut Rng) -> Res {
    if rng.chance(1, 2) {
        return Ok(());
    }
    let live = || alloc::stats().live;
    let size = k.max(m.len());
    let pairs: Vec<(Big, Big)> = m.iter().map(|(l, r)| (*l, *r)).collect();
    let full = live();
    drop(std::mem::replace(m, M::with_hasher(tb.clone())));
    let none = live();
    *m = M::with_capacity_and_hasher(size, tb);
    let fresh = live() - none;
    m.extend(pairs);
    ensure!(full - none <= fresh + fresh / 4 + 256, "{} bytes after shrinking to {k} with {} pairs, a map with that capacity takes {fresh}", full - none, m.len());
    Ok(())
}

fn cycle(c: &mut Case, tb: TB, cov: &mut Cov) -> Res {
    let start = if c.rng.chance(1, 2) { c.rng.u32(200) as usize } else { 0 };
    let mut m = M::with_capacity_and_hasher(start, tb.clone());
    ensure!(m.capacity() >= start, "with_capacity({start}) has capacity {}", m.capacity());
    let shot = |m: &M| -> BTreeMap<u32, u32> { m.iter().take(m.len() + 8).map(|(l, r)| (l.v, r.v)).collect() };
    let mut fresh = 1 << 20;
    for round in 0..1 + c.rng.u32(4) {
        for _ in 0..c.rng.u32(3 * c.u + 10) {
            let (a, b) = (c.v(), c.v());
            match c.rng.below(9) {
                0..=3 => {
                    c.note(|| format!("insert({a},{b})"));
                    m.insert(big(a), big(b));
                }
                4 | 5 => {
                    c.note(|| format!("remove_via_left({a})"));
                    m.remove_via_left(&big(a));
                }
                6 => {
                    c.note(|| format!("remove_via_right({b})"));
                    m.remove_via_right(&big(b));
                }
                7 => {
                    c.note(|| format!("swap_left({a},{b})"));
                    m.swap_left(&big(a), big(b));
                }
                _ => {
                    c.note(|| format!("swap_right({a},{b})"));
                    m.swap_right(&big(a), big(b));
                }
            }
        }
        let mut before = shot(&m);
        c.own = true;
        let what = match c.rng.below(10) {
            0 | 1 => {
                let k = c.rng.u32(300) as usize;
                m.reserve(k);
                ensure!(m.capacity() >= m.len() + k, "capacity {} after reserve({k}) with {} pairs", m.capacity(), m.len());
                format!("reserve({k})")
            }
            2 => {
                let k = c.rng.u32(300) as usize;
                ensure!(m.try_reserve(k).is_ok(), "try_reserve({k}) failed");
                ensure!(m.capacity() >= m.len() + k, "capacity {} after try_reserve({k}) with {} pairs", m.capacity(), m.len());
                format!("try_reserve({k})")
            }
            3 => {
                let k = c.rng.u32(300) as usize;
                let (cap, live) = (m.capacity(), alloc::stats().live);
                m.shrink_to(k);
                ensure!(m.capacity() >= k.min(cap).max(m.len()), "capacity {} after shrink_to({k}) of {cap} with {} pairs", m.capacity(), m.len());
                ensure!(alloc::stats().live <= live, "shrink_to({k}) took more memory");
                shrunk(&mut m, k, tb.clone(), &mut c.rng)?;
                format!("shrink_to({k})")
            }
            4 => {
                let live = alloc::stats().live;
                m.shrink_to_fit();
                ensure!(alloc::stats().live <= live, "shrink_to_fit took more memory");
                ensure!(m.capacity() >= m.len(), "capacity {} below len {}", m.capacity(), m.len());
                shrunk(&mut m, 0, tb.clone(), &mut c.rng)?;
                format!("shrink_to_fit")
            }
            5 => {
                let cap = m.capacity();
                no_table_alloc("clear", 1, || m.clear())?;
                before.clear();
                ensure!(m.capacity() >= cap, "clear lowered the capacity from {cap} to {}", m.capacity());
                "clear".into()
            }
            6 => {
                let cap = m.capacity();
                let k = c.rng.u32(5) as usize;
                no_table_alloc("drain", 1, || m.drain().take(k).for_each(drop))?;
                before.clear();
                ensure!(m.capacity() >= cap, "drain lowered the capacity from {cap} to {}", m.capacity());
                "drain".into()
            }
            7 => {
                // An allocator that refuses
                let k = 400 + c.rng.u32(4000) as usize;
                alloc::set_limit(table_bytes(m.capacity() + 8).min(60_000));
                let r = m.try_reserve(m.capacity() - m.len() + k);
                alloc::set_limit(usize::MAX);
                ensure!(r.is_err(), "try_reserve({k}) succeeded without memory");
                "failed try_reserve".into()
            }
            8 => {
                let n = usize::MAX >> c.rng.below(6);
                let r = m.try_reserve(n);
                ensure!(r.is_err(), "try_reserve({n}) succeeded");
                format!("try_reserve({n})")
            }
            _ => "nothing".into(),
        };
        c.note(|| what.clone());
        cov.bump(what.split('(').next().unwrap(), 1);
        c.own = false;
        same(&format!("contents after {what}"), &shot(&m), &before)?;
        // What is reported to fit must fit
        let (cap, len) = (m.capacity(), m.len());
        ensure!(cap >= len, "capacity {cap} below len {len}");
        let room = cap - len;
        cov.facts += room as u64;
        cov.tuple(&[1, cap as u64, len as u64, round as u64, what.len() as u64]);
        if round == 0 || c.rng.chance(2, 3) {
            no_table_alloc(&format!("inserting {room} new pairs into a map of {len} with capacity {cap} after {what}"), cap, || {
                for _ in 0..room {
                    m.insert(big(fresh), big(fresh + 7));
                    fresh += 1;
                }
            })?;
            c.note(|| format!("{room} new pairs"));
        }
    }
    Ok(())
}

fn partial(c: &mut Case, tb: TB, cov: &mut Cov) -> Res {
    let start = if c.rng.chance(1, 2) { c.rng.u32(200) as usize } else { 0 };
    let mut m = P::with_capacity_and_hasher(start, tb.clone());
    ensure!(m.capacity_left() >= start && m.capacity_right() >= start, "with_capacity({start}) has capacities {} {}", m.capacity_left(), m.capacity_right());
    let shot = |m: &P| -> Vec<Opt<u32, u32>> {
        let n = m.len_left() + m.len_right() + 8;
        let mut v: Vec<_> = m.iter().take(n).map(|o| view(&o, |l| l.v, |r| r.v)).collect();
        v.sort();
        v
    };
    let mut fresh = 1 << 20;
    for round in 0..1 + c.rng.u32(4) {
        for _ in 0..c.rng.u32(3 * c.u + 10) {
            let (a, b) = (c.v(), c.v());
            let k = c.rng.below(10);
            c.note(|| format!("op{k}({a},{b})"));
            match k {
                0 | 1 => drop(m.insert(big(a), big(b))),
                2 => drop(m.insert_left(big(a))),
                3 => drop(m.insert_right(big(b))),
                4 => drop(m.remove_left(&big(a))),
                5 => drop(m.remove_right(&big(b))),
                6 => drop(m.remove_via_left(&big(a))),
                7 => drop(m.pair_forced(&big(a), &big(b))),
                8 => drop(m.swap_left(&big(a), big(b))),
                _ => drop(m.swap_right(&big(a), big(b))),
            }
        }
        let mut before = shot(&m);
        c.own = true;
        let left = c.rng.chance(1, 2);
        let cap = |m: &P| if left { m.capacity_left() } else { m.capacity_right() };
        let len = |m: &P| if left { m.len_left() } else { m.len_right() };
        let caps = (m.capacity_left(), m.capacity_right());
        let what = match c.rng.below(10) {
            0 | 1 => {
                let k = c.rng.u32(300) as usize;
                if left { m.reserve_left(k) } else { m.reserve_right(k) };
                ensure!(cap(&m) >= len(&m) + k, "capacity {} after reserve({k}) with {} items, left {left}", cap(&m), len(&m));
                "reserve"
            }
            2 => {
                let k = c.rng.u32(300) as usize;
                ensure!(if left { m.try_reserve_left(k) } else { m.try_reserve_right(k) }.is_ok(), "try_reserve({k}) failed");
                ensure!(cap(&m) >= len(&m) + k, "capacity {} after try_reserve({k}) with {} items, left {left}", cap(&m), len(&m));
                "try_reserve"
            }
            3 => {
                let k = c.rng.u32(300) as usize;
                let (old, live) = (cap(&m), alloc::stats().live);
                let other = if left { m.capacity_right() } else { m.capacity_left() };
                if left { m.shrink_to_left(k) } else { m.shrink_to_right(k) };
                ensure!(cap(&m) >= k.min(old).max(len(&m)), "capacity {} after shrink_to({k}) of {old} with {} items", cap(&m), len(&m));
                ensure!(alloc::stats().live <= live, "shrink_to({k}) took more memory");
                let most = cap(&P::with_capacity_and_hasher(k.max(len(&m)), tb.clone()));
                ensure!(cap(&m) <= most, "capacity {} after shrink_to({k}) of {old} with {} items, {most} would do", cap(&m), len(&m));
                same("capacity of the other side after a one-sided shrink", &if left { m.capacity_right() } else { m.capacity_left() }, &other)?;
                "shrink_to"
            }
            4 => {
                let live = alloc::stats().live;
                m.shrink_to_fit();
                ensure!(alloc::stats().live <= live, "shrink_to_fit took more memory");
                let most = (P::with_capacity_and_hasher(m.len_left(), tb.clone()).capacity_left(), P::with_capacity_and_hasher(m.len_right(), tb.clone()).capacity_right());
                ensure!(m.capacity_left() <= most.0 && m.capacity_right() <= most.1, "capacities {} and {} after shrink_to_fit with {} and {} items, {most:?} would do", m.capacity_left(), m.capacity_right(), m.len_left(), m.len_right());
                "shrink_to_fit"
            }
            5 => {
                no_table_alloc("clear", 1, || m.clear())?;
                before.clear();
                "clear"
            }
            6 => {
                let k = c.rng.u32(5) as usize;
                no_table_alloc("drain", 1, || m.drain().take(k).for_each(drop))?;
                before.clear();
                "drain"
            }
            7 => {
                let k = 400 + c.rng.u32(4000) as usize + cap(&m) - len(&m);
                alloc::set_limit(table_bytes(cap(&m) + 8).min(60_000));
                let r = if left { m.try_reserve_left(k) } else { m.try_reserve_right(k) };
                alloc::set_limit(usize::MAX);
                ensure!(r.is_err(), "try_reserve({k}) succeeded without memory");
                "failed try_reserve"
            }
            8 => {
                let n = usize::MAX >> c.rng.below(6);
                let r = if left { m.try_reserve_left(n) } else { m.try_reserve_right(n) };
                ensure!(r.is_err(), "try_reserve({n}) succeeded");
                "impossible try_reserve"
            }
            _ => "nothing",
        };
        if !what.starts_with("shrink") {
            ensure!(m.capacity_left() >= caps.0 && m.capacity_right() >= caps.1, "{what} lowered the capacities from {caps:?}");
        }
        c.own = false;
        c.note(|| format!("{what} left {left}"));
        cov.bump(what, 1);
        same(&format!("contents after {what}"), &shot(&m), &before)?;
        let (lc, rc) = (m.capacity_left(), m.capacity_right());
        ensure!(lc >= m.len_left() && rc >= m.len_right(), "capacities {lc} {rc} below the lens {} {}", m.len_left(), m.len_right());
        let (lroom, rroom) = (lc - m.len_left(), rc - m.len_right());
        cov.facts += (lroom + rroom) as u64;
        cov.tuple(&[2, lc as u64, rc as u64, lroom as u64, rroom as u64]);
        if round == 0 || c.rng.chance(2, 3) {
            let both = lroom.min(rroom);
            let pairs = if c.rng.chance(1, 2) { both } else { 0 };
            no_table_alloc(&format!("inserting {lroom} left and {rroom} right items ({pairs} of them paired) into a map with room for these after {what}"), lc.min(rc), || {
                for _ in 0..pairs {
                    m.insert(big(fresh), big(fresh));
                    fresh += 1;
                }
                for _ in pairs..lroom {
                    m.insert_left(big(fresh));
                    fresh += 1;
                }
                for _ in pairs..rroom {
                    m.insert_right(big(fresh));
                    fresh += 1;
                }
            })?;
            c.note(|| format!("{pairs} pairs, {lroom} left, {rroom} right"));
        }
    }
    Ok(())
}

fn group(c: &mut Case, tb: TB, cov: &mut Cov) -> Res {
    let start = if c.rng.chance(1, 2) { c.rng.u32(200) as usize } else { 0 };
    let mut m = G::with_capacity_and_hasher(start, tb);
    ensure!(m.capacity_left() >= start && m.capacity_right() >= start, "with_capacity({start}) has capacities {} {}", m.capacity_left(), m.capacity_right());
    let mut fresh = 1 << 20;
    for round in 0..1 + c.rng.u32(4) {
        for _ in 0..c.rng.u32(3 * c.u + 10) {
            let (a, b) = (c.v(), c.v());
            let k = c.rng.below(7);
            c.note(|| format!("op{k}({a},{b})"));
            match k {
                0 | 1 if !m.are_paired(&big(a), &big(b)) => m.insert(big(a), big(b)),
                2 => drop(m.insert_right(big(b))),
                3 => drop(m.insert_left(big(a), &big(b))),
                4 => drop(m.remove_left(&big(a))),
                5 => drop(m.remove_right(&big(b))),
                6 => drop(m.swap_right_remove(&big(a), big(b))),
                _ => {}
            }
        }
        let shot = |m: &G| -> BTreeSet<(Option<u32>, u32)> { m.iter().take(m.len_left() + m.len_right() + 8).map(|(l, r)| (l.map(|l| l.v), r.v)).collect() };
        let before = shot(&m);
        let caps = (m.capacity_left(), m.capacity_right());
        if c.rng.chance(1, 3) {
            c.own = true;
            no_table_alloc("clear", 1, || m.clear())?;
            c.own = false;
            ensure!(m.capacity_left() >= caps.0 && m.capacity_right() >= caps.1, "clear lowered the capacities from {caps:?}");
            ensure!(shot(&m).is_empty() && m.is_empty(), "clear left items behind");
            c.note(|| "clear".into());
            cov.bump("clear", 1);
        } else {
            same("contents seen twice", &shot(&m), &before)?;
        }
        let (lc, rc) = (m.capacity_left(), m.capacity_right());
        ensure!(lc >= m.len_left() && rc >= m.len_right(), "capacities {lc} {rc} below the lens {} {}", m.len_left(), m.len_right());
        let (lroom, rroom) = (lc - m.len_left(), rc - m.len_right());
        cov.facts += (lroom + rroom) as u64;
        cov.tuple(&[3, lc as u64, rc as u64, lroom as u64, rroom as u64]);
        if round == 0 || c.rng.chance(2, 3) {
            if rroom > 0 {
                no_table_alloc("inserting right items there is room for", rc, || {
                    for _ in 0..rroom {
                        m.insert_right(big(fresh));
                        fresh += 1;
                    }
                })?;
            }
            let at = m.iter_right().next().copied();
            if let Some(r) = at {
                // The group itself may grow, which takes a lot less
                no_table_alloc("inserting left items there is room for", lc, || {
                    for _ in 0..lroom {
                        m.insert_left(big(fresh), &r);
                        fresh += 1;
                    }
                })?;
            }
            c.note(|| format!("{lroom} left, {rroom} right"));
        }
    }
    Ok(())
}

/// Plain items of any size
pub trait Sized_: Copy + Eq + Hash {
    const SIZE: usize = std::mem::size_of::<Self>();
    fn of(v: u32) -> Self;
    fn v(&self) -> u32;
}
#[derive(Clone, Copy)]
pub struct Pad<const N: usize> {
    v: u32,
    _pad: [u32; N],
}
impl<const N: usize> PartialEq for Pad<N> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<const N: usize> Eq for Pad<N> {}
impl<const N: usize> Hash for Pad<N> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.v as u64)
    }
}
impl<const N: usize> Sized_ for Pad<N> {
    fn of(v: u32) -> Self {
        Pad { v, _pad: [v; N] }
    }
    fn v(&self) -> u32 {
        self.v
    }
}
impl Sized_ for u8 {
    fn of(v: u32) -> Self {
        v as u8
    }
    fn v(&self) -> u32 {
        *self as u32
    }
}

/// Sides of very different sizes: what fits one set may not fit the other
fn uneven<L: Sized_, R: Sized_>(c: &mut Case, tb: TB, cov: &mut Cov) -> Res {
    let mut m: CycleMap<L, R, TB> = CycleMap::with_hasher(tb.clone());
    let mut p: PartialCycleMap<L, R, TB> = PartialCycleMap::with_hasher(tb.clone());
    let fresh = |n: usize| {
        let m: PartialCycleMap<L, R, TB> = PartialCycleMap::with_capacity_and_hasher(n, tb.clone());
        (m.capacity_left(), m.capacity_right())
    };
    for _ in 0..c.rng.u32(60) {
        let (a, b) = (c.rng.u32(100), c.rng.u32(100));
        m.insert(L::of(a), R::of(b));
        match c.rng.below(3) {
            0 => drop(p.insert(L::of(a), R::of(b))),
            1 => drop(p.insert_left(L::of(a))),
            _ => drop(p.insert_right(R::of(b))),
        }
    }
    let see = |m: &CycleMap<L, R, TB>| -> BTreeMap<u32, u32> { m.iter().take(m.len() + 8).map(|(l, r)| (l.v(), r.v())).collect() };
    let seep = |p: &PartialCycleMap<L, R, TB>| -> Vec<Opt<u32, u32>> {
        let mut v: Vec<_> = p.iter().take(p.len_left() + p.len_right() + 8).map(|o| view(&o, |l| l.v(), |r| r.v())).collect();
        v.sort();
        v
    };
    let (was, wasp) = (see(&m), seep(&p));
    c.own = true;
    for _ in 0..1 + c.rng.u32(6) {
        // From little to more than any memory, at most 64 MiB of which the allocator gives
        let bits = c.rng.below(64);
        let k = (1u64 << bits | c.rng.next() & ((1 << bits) - 1)) as usize;
        let limit = *c.rng.pick(&[1usize << 16, 1 << 20, 1 << 22]);
        // Finding K4: tables of more than isize::MAX but at most usize::MAX bytes
        let k4 = |size: usize| (k as u128 + 100) * 3 * (size as u128 + 64) >= 1 << 63 && k as u128 * size as u128 <= 1 << 64;
        if k4(L::SIZE) || k4(R::SIZE) {
            cov.bump("excluded:K4", 1);
            continue;
        }
        let (l, lp) = (m.len(), (p.len_left(), p.len_right()));
        let caps = (p.capacity_left(), p.capacity_right(), m.capacity());
        let which = c.rng.below(8);
        let live = alloc::stats().live;
        let what = ["try_reserve", "try_reserve_left", "try_reserve_right", "shrink_to", "shrink_to_left", "shrink_to_right", "shrink_to_fit", "reserve"][which as usize];
        let d = format!("{what}({k}) with items of {} and {} bytes, {l} pairs resp. {lp:?} items, an allocator of {limit}", L::SIZE, R::SIZE);
        alloc::set_limit(limit);
        let r = match which {
            0 => m.try_reserve(k).is_ok(),
            1 => p.try_reserve_left(k).is_ok(),
            2 => p.try_reserve_right(k).is_ok(),
            _ => false,
        };
        alloc::set_limit(usize::MAX);
        match which {
            0 => ensure!(!r || m.capacity() >= l.saturating_add(k), "{d} succeeded, capacity {}", m.capacity()),
            1 => ensure!(!r || p.capacity_left() >= lp.0.saturating_add(k), "{d} succeeded, capacity {}", p.capacity_left()),
            2 => ensure!(!r || p.capacity_right() >= lp.1.saturating_add(k), "{d} succeeded, capacity {}", p.capacity_right()),
            3 => {
                m.shrink_to(k);
                ensure!(m.capacity() >= l.max(k.min(caps.2)), "{d}: capacity {} was {}", m.capacity(), caps.2);
            }
            4 => {
                p.shrink_to_left(k);
                ensure!(p.capacity_left() >= lp.0.max(k.min(caps.0)), "{d}: capacity {} was {}", p.capacity_left(), caps.0);
                let most = fresh(k.min(caps.0).max(lp.0)).0;
                ensure!(p.capacity_left() <= most, "{d}: capacity {} was {}, {most} would do", p.capacity_left(), caps.0);
                same("capacity of the right side after shrink_to_left", &p.capacity_right(), &caps.1)?;
            }
            5 => {
                p.shrink_to_right(k);
                ensure!(p.capacity_right() >= lp.1.max(k.min(caps.1)), "{d}: capacity {} was {}", p.capacity_right(), caps.1);
                let most = fresh(k.min(caps.1).max(lp.1)).1;
                ensure!(p.capacity_right() <= most, "{d}: capacity {} was {}, {most} would do", p.capacity_right(), caps.1);
                same("capacity of the left side after shrink_to_right", &p.capacity_left(), &caps.0)?;
            }
            6 => {
                m.shrink_to_fit();
                p.shrink_to_fit();
                ensure!(m.capacity() >= l && p.capacity_left() >= lp.0 && p.capacity_right() >= lp.1, "{d}: too little capacity is left");
                let most = (fresh(lp.0).0, fresh(lp.1).1);
                ensure!(p.capacity_left() <= most.0 && p.capacity_right() <= most.1, "{d}: capacities {} and {}, {most:?} would do", p.capacity_left(), p.capacity_right());
            }
            _ => {
                let k = k % 3000;
                m.reserve(k);
                p.reserve_left(k);
                p.reserve_right(k);
                ensure!(m.capacity() >= l + k && p.capacity_left() >= lp.0 + k && p.capacity_right() >= lp.1 + k, "{d}, by {k}: capacities {} {} {}", m.capacity(), p.capacity_left(), p.capacity_right());
            }
        }
        if (3..=6).contains(&which) {
            ensure!(alloc::stats().live <= live + d.capacity() as i64 + 4096, "{d} took more memory");
        }
        c.note(|| d.clone());
        same(&format!("contents after {d}"), &see(&m), &was)?;
        same(&format!("contents after {d}"), &seep(&p), &wasp)?;
        cov.facts += 3;
        cov.bump(&format!("uneven {what}{}", if which > 2 { "" } else if r { ": room was found" } else { ": refused" }), 1);
        cov.tuple(&[4, which, bits, r as u64, L::SIZE as u64, R::SIZE as u64]);
    }
    c.own = false;
    Ok(())
}

pub fn capacity(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0xcab)));
    let mode = if rng.chance(1, 2) { 0 } else { [0, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12][rng.below(11) as usize] };
    let tb = TB::new(mode, rng.next());
    let u = [6, 15, 40, 120, 400][rng.below(5) as usize];
    let which = idx % 4;
    let sizes = rng.below(6);
    let mut c = Case { rng, u, log: Vec::new(), own: false };
    cov.histories += 1;
    let r = catch_unwind(AssertUnwindSafe(|| match which {
        0 => cycle(&mut c, tb, cov),
        1 => partial(&mut c, tb, cov),
        2 => group(&mut c, tb, cov),
        _ => match sizes {
            0 => uneven::<u8, Pad<1000>>(&mut c, tb, cov),
            1 => uneven::<Pad<1000>, u8>(&mut c, tb, cov),
            2 => uneven::<Pad<0>, Pad<60>>(&mut c, tb, cov),
            3 => uneven::<Pad<60>, Pad<0>>(&mut c, tb, cov),
            4 => uneven::<Pad<10>, Pad<3000>>(&mut c, tb, cov),
            _ => uneven::<Pad<3000>, Pad<10>>(&mut c, tb, cov),
        },
    }));
    alloc::set_limit(usize::MAX);
    cov.steps += c.log.len() as u64;
    cov.bump("allocator_watch_cases", 1);
    let msg = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(_) => {
            // C16 answers for a panic only in what it does itself
            cov.bump("panicked", 1);
            if !c.own {
                return None;
            }
            format!("panicked: {}", crate::runner::last_panic())
        }
    };
    let name = ["CycleMap", "PartialCycleMap", "GroupMap", "CycleMap and PartialCycleMap"][which as usize];
    let n = c.log.len();
    Some(Viol {
        msg: format!("{name} hasher {}: {msg} | {}", MODES[mode as usize], c.log[n.saturating_sub(60)..].join(" ")),
        replay: json!({"kind": "case", "check": "C16", "idx": idx, "seed": seed, "special": true, "what": msg, "ops": c.log}),
    })
}
