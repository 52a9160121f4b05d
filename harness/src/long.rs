//! C22: very long histories on small maps whose items all collide, with items put in at the start
//! whose pairings must survive; every operation's outcome is compared with a tiny model.
use crate::checks::Viol;
use crate::ensure;
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde_json::json;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Same;
impl Hasher for Same {
    fn write(&mut self, _: &[u8]) {}
    fn write_u32(&mut self, _: u32) {}
    fn finish(&self) -> u64 {
        0x5151_5151_5151_5151
    }
}
type S = BuildHasherDefault<Same>;

/// Which pairings to look at closely: the first ones, those around powers of two, and every 4096th
fn close(n: u64) -> bool {
    if n < 512 || n % 4096 == 0 {
        return true;
    }
    let up = n.next_power_of_two();
    up - n < 20 || n - up / 2 < 20
}

#[derive(Clone, Copy)]
pub struct Plan {
    pub pairings: u64,
    /// After the old items are in, continue as if this many more pairings had been made
    pub skip: u64,
    pub deadline: Instant,
}

macro_rules! skip {
    ($m:ident, $p:ident) => {
        #[cfg(verif_hooks)]
        if $p.skip > 0 {
            $m.verif_skip_pairings($p.skip);
        }
    };
}

const OLD: u32 = 6;
/// rare whole-map operations that must not make pairings ambiguous
const EVENTS: u64 = 7;

fn timeout(p: &Plan, n: u64) -> bool {
    n & 0xfffff == 0 && Instant::now() > p.deadline
}

pub fn cycle(seed: u64, p: Plan, cov: &mut Cov) -> Res {
    let mut rng = Rng::new(seed);
    let mut m: CycleMap<u32, u32, S> = CycleMap::default();
    for i in 0..OLD {
        m.insert(i, 1000 + i);
    }
    skip!(m, p);
    // Young items: 100..102 paired with 200..202
    let mut partner: [Option<u32>; 2] = [None; 2];
    let mut n = OLD as u64;
    let mut bits = 0u64;
    while n < p.pairings && !timeout(&p, n) {
        if bits == 0 {
            bits = rng.next() | 1 << 63;
        }
        let (a, b) = ((bits & 1) as usize, (bits >> 1 & 1) as u32);
        bits = bits >> 2;
        let was_l = partner[a];
        let was_r = (0..2).find(|x| partner[*x] == Some(b));
        let r = m.insert(100 + a as u32, 200 + b);
        if close(n) {
            let want = {
                let l = was_l.map(|x| (100 + a as u32, 200 + x));
                let r = if was_l == Some(b) { None } else { was_r.map(|x| (100 + x as u32, 200 + b)) };
                (l, r)
            };
            use cycle_map::InsertOptional;
            let got = match r {
                InsertOptional::Neither => (None, None),
                OptionalPair::SomeLeft(x) => (Some(x), None),
                OptionalPair::SomeRight(x) => (None, Some(x)),
                OptionalPair::SomeBoth(x, y) => (Some(x), Some(y)),
            };
            same(&format!("pairing {n}: insert({}, {}) returned", 100 + a, 200 + b), &got, &want)?;
        }
        if let Some(x) = was_r {
            partner[x] = None;
        }
        partner[a] = Some(b);
        if close(n) {
            cov.facts += 20;
            for i in 0..OLD {
                ensure!(m.get_right(&i) == Some(&(1000 + i)), "pairing {n}: get_right({i}) = {:?}, paired with {} since the start", m.get_right(&i), 1000 + i);
                ensure!(m.get_left(&(1000 + i)) == Some(&i), "pairing {n}: get_left({}) = {:?}, paired with {i} since the start", 1000 + i, m.get_left(&(1000 + i)));
            }
            for (x, y) in partner.iter().enumerate() {
                let l = 100 + x as u32;
                same(&format!("pairing {n}: get_right({l})"), &m.get_right(&l).copied(), &y.map(|y| 200 + y))?;
                if let Some(y) = y {
                    same(&format!("pairing {n}: get_left({})", 200 + y), &m.get_left(&(200 + y)).copied(), &Some(l))?;
                }
            }
            let mut v: Vec<(u32, u32)> = m.iter().map(|(l, r)| (*l, *r)).collect();
            v.sort();
            let mut w: Vec<(u32, u32)> = (0..OLD).map(|i| (i, 1000 + i)).collect();
            w.extend(partner.iter().enumerate().filter_map(|(x, y)| y.map(|y| (100 + x as u32, 200 + y))));
            same(&format!("pairing {n}: contents"), &v, &w)?;
            cov.bump("close_looks", 1);
        }
        n += 1;
        if n & 0x3fff == 0 {
            match rng.below(EVENTS) {
                0 => m = m.clone(),
                1 => {
                    let mut c = m.clone();
                    let k = c.drain().count();
                    ensure!(k == m.len(), "pairing {n}: draining a clone gave {k} pairs");
                    for i in 0..3 {
                        c.insert(50 + i, 60 + i);
                    }
                    ensure!(c.len() == 3 && (0..3).all(|i| c.get_right(&(50 + i)) == Some(&(60 + i))), "pairing {n}: a drained clone mixes up its pairs");
                }
                2 => m.retain(|_, _| true),
                3 => ensure!(m.drain_filter(|_, _| false).next().is_none(), "pairing {n}: drain_filter yields"),
                4 => m.shrink_to_fit(),
                5 => m.reserve(rng.u32(40) as usize),
                _ => {
                    m.drain_filter(|l, _| *l >= 100).for_each(drop);
                    partner = [None; 2];
                }
            }
            cov.bump("events", 1);
        }
    }
    if p.skip == 0 {
        cov.bump("pairings_cycle", n);
    }
    cov.steps += n;
    cov.max_len = cov.max_len.max(n);
    Ok(())
}

pub fn partial(seed: u64, p: Plan, cov: &mut Cov) -> Res {
    let mut rng = Rng::new(seed);
    let mut m: PartialCycleMap<u32, u32, S> = PartialCycleMap::default();
    for i in 0..OLD {
        m.insert(i, 1000 + i);
    }
    m.insert_left(90);
    m.insert_right(91);
    skip!(m, p);
    for i in 0..2 {
        m.insert_left(100 + i);
        m.insert_right(200 + i);
    }
    let mut partner: [Option<u32>; 2] = [None; 2];
    let mut n = OLD as u64 + 6;
    let mut bits = 0u64;
    while n < p.pairings && !timeout(&p, n) {
        if bits == 0 {
            bits = rng.next() | 1 << 63;
        }
        let (a, b, k) = ((bits & 1) as usize, (bits >> 1 & 1) as u32, bits >> 2 & 3);
        bits >>= 4;
        let (l, r) = (100 + a as u32, 200 + b);
        let was_r = (0..2).find(|x| partner[*x] == Some(b));
        match k {
            0 | 1 => {
                m.insert(l, r);
                if let Some(x) = was_r {
                    partner[x] = None;
                }
                let old = partner[a];
                partner[a] = Some(b);
                // insert removes the old partners: put them back
                if let Some(o) = old {
                    if o != b {
                        m.insert_right(200 + o);
                        n += 1;
                    }
                }
                if let Some(x) = was_r {
                    if x != a {
                        m.insert_left(100 + x as u32);
                        n += 1;
                    }
                }
            }
            2 => {
                // puts a new, unpaired right item in the place of an old one
                m.insert_right(r);
                if let Some(x) = was_r {
                    partner[x] = None;
                    if !m.contains_left(&(100 + x as u32)) {
                        m.insert_left(100 + x as u32);
                        n += 1;
                    }
                }
            }
            _ => {
                let ok = m.pair_forced(&l, &r);
                let un = match ok {
                    OptionalPair::Neither => 0,
                    OptionalPair::SomeBoth(..) => 2,
                    _ => 1,
                };
                let want = if partner[a] == Some(b) { 0 } else { partner[a].is_some() as u32 + was_r.is_some() as u32 };
                ensure!(un == want, "pairing {n}: pair_forced({l}, {r}) unpaired {un} items instead of {want}");
                if let Some(x) = was_r {
                    partner[x] = None;
                }
                partner[a] = Some(b);
            }
        }
        if close(n) {
            cov.facts += 20;
            for i in 0..OLD {
                ensure!(m.get_right(&i) == Some(&(1000 + i)), "pairing {n}: get_right({i}) = {:?}, paired with {} since the start", m.get_right(&i), 1000 + i);
                ensure!(m.get_left(&(1000 + i)) == Some(&i), "pairing {n}: get_left({}) = {:?}, paired with {i} since the start", 1000 + i, m.get_left(&(1000 + i)));
            }
            ensure!(!m.is_left_paired(&90) && !m.is_right_paired(&91), "pairing {n}: an item unpaired since the start is paired");
            for (x, y) in partner.iter().enumerate() {
                let l = 100 + x as u32;
                same(&format!("pairing {n}: get_right({l})"), &m.get_right(&l).copied(), &y.map(|y| 200 + y))?;
                for r in 0..2 {
                    same(&format!("pairing {n}: are_paired({l}, {})", 200 + r), &m.are_paired(&l, &(200 + r)), &(*y == Some(r)))?;
                    same(&format!("pairing {n}: are_paired({r}, {})", 200 + r), &m.are_paired(&r, &(200 + r)), &false)?;
                }
                if let Some(y) = y {
                    same(&format!("pairing {n}: get_left({})", 200 + y), &m.get_left(&(200 + y)).copied(), &Some(l))?;
                }
            }
            let mut v: Vec<(u32, u32)> = m.iter_paired().map(|(l, r)| (*l, *r)).collect();
            v.sort();
            let mut w: Vec<(u32, u32)> = (0..OLD).map(|i| (i, 1000 + i)).collect();
            w.extend(partner.iter().enumerate().filter_map(|(x, y)| y.map(|y| (100 + x as u32, 200 + y))));
            same(&format!("pairing {n}: pairs"), &v, &w)?;
            same(&format!("pairing {n}: numbers of items"), &(m.len_left(), m.len_right()), &(OLD as usize + 3, OLD as usize + 3))?;
            cov.bump("close_looks", 1);
        }
        n += 1;
        if n & 0x3ffe == 0 {
            match rng.below(EVENTS - 1) {
                0 => m = m.clone(),
                1 => {
                    let mut c = m.clone();
                    let k = c.drain().count();
                    ensure!(k == m.iter().count(), "pairing {n}: draining a clone gave {k} items");
                    for i in 0..3 {
                        c.insert(50 + i, 60 + i);
                    }
                    ensure!(c.len_left() == 3 && (0..3).all(|i| c.get_right(&(50 + i)) == Some(&(60 + i))), "pairing {n}: a drained clone mixes up its pairs");
                }
                2 => {
                    m.shrink_to_fit();
                }
                3 => ensure!(m.drain_filter(|_| false).next().is_none(), "pairing {n}: drain_filter yields"),
                4 => m.reserve_left(rng.u32(40) as usize),
                _ => m.reserve_right(rng.u32(40) as usize),
            }
            cov.bump("events", 1);
        }
    }
    if p.skip == 0 {
        cov.bump("pairings_partial", n);
    }
    cov.steps += n;
    cov.max_len = cov.max_len.max(n);
    Ok(())
}

pub fn group(seed: u64, p: Plan, cov: &mut Cov) -> Res {
    let mut rng = Rng::new(seed);
    let mut m: GroupMap<u32, u32, S> = GroupMap::default();
    // Groups of two
    for i in 0..OLD {
        m.insert(i, 1000 + i / 2);
    }
    m.insert_right(1090);
    skip!(m, p);
    for i in 0..2 {
        m.insert_right(200 + i);
    }
    let mut partner: [Option<u32>; 3] = [None; 3];
    let mut n = OLD as u64 + 3;
    let mut bits = 0u64;
    while n < p.pairings && !timeout(&p, n) {
        if bits == 0 {
            bits = rng.next() | 1 << 63;
        }
        let (a, b, k) = ((bits & 3) as usize % 3, (bits >> 2 & 1) as u32, bits >> 3 & 7);
        bits >>= 6;
        let (l, r) = (100 + a as u32, 200 + b);
        match k {
            0 => {
                // a new right item in place of an old one: its group goes
                m.insert_right(r);
                for x in &mut partner {
                    if *x == Some(b) {
                        *x = None
                    }
                }
            }
            1 => {
                // the group moves to a new item
                m.swap_right_remove(&r, 300 + b);
                m.swap_right_remove(&(300 + b), r);
                n += 1;
            }
            2 if partner[a] != Some(b) => {
                m.insert(l, r);
                partner[a] = Some(b);
            }
            _ => {
                m.insert_left(l, &r);
                partner[a] = Some(b);
            }
        }
        if close(n) {
            cov.facts += 20;
            for i in 0..OLD {
                ensure!(m.get_right(&i) == Some(&(1000 + i / 2)), "pairing {n}: get_right({i}) = {:?}, paired with {} since the start", m.get_right(&i), 1000 + i / 2);
            }
            for i in 0..OLD / 2 {
                let mut v: Vec<u32> = m.get_left_iter(&(1000 + i)).map(|x| x.copied().collect()).unwrap_or_default();
                v.sort();
                same(&format!("pairing {n}: group of {}", 1000 + i), &v, &vec![2 * i, 2 * i + 1])?;
            }
            ensure!(!m.is_right_paired(&1090), "pairing {n}: an item unpaired since the start is paired");
            for (x, y) in partner.iter().enumerate() {
                let l = 100 + x as u32;
                same(&format!("pairing {n}: get_right({l})"), &m.get_right(&l).copied(), &y.map(|y| 200 + y))?;
                for r in 0..2 {
                    same(&format!("pairing {n}: are_paired({l}, {})", 200 + r), &m.are_paired(&l, &(200 + r)), &(*y == Some(r)))?;
                }
            }
            for r in 0..2 {
                let mut v: Vec<u32> = m.get_left_iter(&(200 + r)).map(|x| x.copied().collect()).unwrap_or_default();
                v.sort();
                let w: Vec<u32> = partner.iter().enumerate().filter(|(_, y)| **y == Some(r)).map(|(x, _)| 100 + x as u32).collect();
                same(&format!("pairing {n}: group of {}", 200 + r), &v, &w)?;
            }
            same(
                &format!("pairing {n}: numbers of items"),
                &(m.len_left(), m.len_right()),
                &(OLD as usize + partner.iter().flatten().count(), OLD as usize / 2 + 3),
            )?;
            cov.bump("close_looks", 1);
        }
        n += 1;
        if n & 0x3ffe == 0 {
            if rng.chance(1, 2) {
                m = m.clone();
            }
            cov.bump("events", 1);
        }
    }
    if p.skip == 0 {
        cov.bump("pairings_group", n);
    }
    cov.steps += n;
    cov.max_len = cov.max_len.max(n);
    Ok(())
}

/// Cases 0..3 are the long histories of the three maps, the others skip most of one
pub fn history(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let deadline = Instant::now() + Duration::from_secs(env("LONG_SECS", 60));
    let mut p = Plan { pairings: env("PAIRINGS", 1 << 22), skip: 0, deadline };
    if idx >= 3 {
        if !cfg!(verif_hooks) {
            return None;
        }
        let i = (idx - 3) / 3;
        let bits = [32, 31, 16, 24, 33, 40, 48, 53, 56, 62, 63, 8, 20, 28, 36][(i % 15) as usize];
        // Meets the numbers of the old items again if only `bits` bits of them are told apart
        p = Plan { pairings: 100, skip: (1u64 << bits) - (i / 15) % 64, deadline };
        cov.bump(&format!("skipped_to_2^{bits}"), 1);
    }
    let s = mix(seed ^ mix(idx));
    cov.histories += 1;
    cov.tuple(&[idx % 3, p.skip, p.pairings]);
    let r = catch_unwind(AssertUnwindSafe(|| match idx % 3 {
        0 => cycle(s, p, cov),
        1 => partial(s, p, cov),
        _ => group(s, p, cov),
    }));
    let msg = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(_) => format!("panicked: {}", crate::runner::last_panic()),
    };
    let name = ["CycleMap", "PartialCycleMap", "GroupMap"][idx as usize % 3];
    let after = if p.skip > 0 { format!(", {} pairings skipped after the first", p.skip) } else { String::new() };
    Some(Viol {
        msg: format!("{name}, all items with the same hash{after}: {msg}"),
        replay: json!({"kind": "case", "check": "C22", "idx": idx, "seed": seed, "special": true, "pairings": p.pairings, "what": msg}),
    })
}
