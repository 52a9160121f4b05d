//! CycleMap against its sequential model.
use crate::ensure;
use crate::hasher::TB;
use crate::key::{self, call, Call, Form, L, R};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::{CycleMap, OptionalPair};
use std::collections::{BTreeMap, BTreeSet};

pub type Map = CycleMap<L, R, TB>;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Model {
    pub l: BTreeMap<u32, (u32, u32)>, // value -> (instance, right value)
    pub r: BTreeMap<u32, (u32, u32)>, // value -> (instance, left value)
}
type Pair = (Id, Id);

impl Model {
    pub fn pairs(&self) -> Vec<Pair> {
        self.l.iter().map(|(l, (i, r))| ((*l, *i), (*r, self.r[r].0))).collect()
    }
    pub fn rm_l(&mut self, l: u32) -> Option<Pair> {
        let (i, r) = self.l.remove(&l)?;
        let (j, _) = self.r.remove(&r).unwrap();
        Some(((l, i), (r, j)))
    }
    pub fn rm_r(&mut self, r: u32) -> Option<Pair> {
        let l = self.r.get(&r)?.1;
        self.rm_l(l)
    }
    pub fn ins(&mut self, l: Id, r: Id) -> Opt<Pair, Pair> {
        let a = self.rm_l(l.0);
        let b = self.rm_r(r.0);
        self.l.insert(l.0, (l.1, r.0));
        self.r.insert(r.0, (r.1, l.0));
        Opt::of(a, b)
    }
    fn paired(&self, l: u32, r: u32) -> bool {
        self.l.get(&l).map(|x| x.1) == Some(r)
    }
    fn sw_l(&mut self, old: u32, new: Id) -> Opt<Id, Pair> {
        let Some(&(oi, r)) = self.l.get(&old) else { return Opt::N };
        let gone = if new.0 != old { self.rm_l(new.0) } else { None };
        self.l.remove(&old);
        self.l.insert(new.0, (new.1, r));
        self.r.get_mut(&r).unwrap().1 = new.0;
        Opt::of(Some((old, oi)), gone)
    }
    fn sw_r(&mut self, old: u32, new: Id) -> Opt<Id, Pair> {
        let Some(&(oi, l)) = self.r.get(&old) else { return Opt::N };
        let gone = if new.0 != old { self.rm_r(new.0) } else { None };
        self.r.remove(&old);
        self.r.insert(new.0, (new.1, l));
        self.l.get_mut(&l).unwrap().1 = new.0;
        Opt::of(Some((old, oi)), gone)
    }
}

pub struct Cycle {
    pub map: Map,
    pub m: Model,
    pl: Vec<L>,
    pr: Vec<R>,
    mode: u8,
    ul: u32,
    ur: u32,
    touched: Vec<(u32, u32)>,
}

fn pid(p: &(L, R)) -> Pair {
    (p.0.id(), p.1.id())
}

impl Cycle {
    fn class(&self, cov: &mut Cov, op: &Op) {
        let l = |x: u32| match self.m.l.get(&x) {
            None => 0u64,
            Some(_) => 1,
        };
        let r = |x: u32| match self.m.r.get(&x) {
            None => 0u64,
            Some(_) => 1,
        };
        let c = match op.k {
            0 | 1 => l(op.a) | r(op.b) << 1 | (self.m.paired(op.a, op.b) as u64) << 2,
            2 => l(op.a),
            3 => r(op.a),
            4 => l(op.a) | l(op.b) << 1 | ((op.a == op.b) as u64) << 2,
            5 | 6 => l(op.a) | l(op.b) << 1 | r(op.c) << 2 | ((op.a == op.b) as u64) << 3 | (self.m.paired(op.a, op.c) as u64) << 4 | (self.m.paired(op.b, op.c) as u64) << 5,
            7 => r(op.a) | r(op.b) << 1 | ((op.a == op.b) as u64) << 2,
            8 | 9 => r(op.a) | r(op.b) << 1 | l(op.c) << 2 | ((op.a == op.b) as u64) << 3 | (self.m.paired(op.c, op.a) as u64) << 4 | (self.m.paired(op.c, op.b) as u64) << 5,
            11 => (op.a as u64).min(self.m.l.len() as u64 + 1).min(6),
            12 => (op.a % 12) as u64 | ((op.b.min(self.m.l.len() as u32 + 1).min(6)) as u64) << 8,
            13 | 14 => (op.a % 12) as u64,
            _ => 0,
        };
        let size = (usize::BITS - self.m.l.len().leading_zeros()) as u64;
        cov.tuple(&[1, op.k as u64, c, self.mode as u64, size]);
    }

    pub fn contents<S>(m: &CycleMap<L, R, S>, bound: usize) -> Vec<Pair>
    where
        S: std::hash::BuildHasher,
    {
        let mut v: Vec<Pair> = m.iter().take(bound).map(|(l, r)| (l.id(), r.id())).collect();
        v.sort();
        v
    }

    /// A copy by clone, or by clone_from over a map with a hasher and contents of its own
    fn copy(&self, how: u64, cov: &mut Cov) -> Map {
        if how % 2 == 0 {
            return self.map.clone();
        }
        let how = mix(how);
        let mut t: Map = CycleMap::with_hasher(TB::new((how % 14) as u8, how >> 7));
        let n = [0, 1, 3, 9, (self.m.l.len() as u64 + 5).min(300)][(how >> 20) as usize % 5];
        for i in 0..n {
            let (x, y) = ((mix(how ^ i) % (self.ul as u64 + 2)) as u32, (mix(how ^ i ^ 77) % (self.ur as u64 + 2)) as u32);
            t.insert(L::new(x), R::new(y));
        }
        if how >> 40 & 1 == 1 {
            t.clear();
        }
        t.clone_from(&self.map);
        cov.bump("clone_from", 1);
        t
    }

    fn check_clone(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let n = self.m.l.len();
        let mut c = self.copy(rng.next() >> 9, cov);
        ensure!(c.hasher().seed == self.map.hasher().seed && c.hasher().mode == self.map.hasher().mode, "clone has another hasher");
        let vals = |m: &Map| {
            let mut v: Vec<(u32, u32)> = m.iter().take(n + 8).map(|(l, r)| (l.value(), r.value())).collect();
            v.sort();
            v
        };
        let want: Vec<(u32, u32)> = self.m.l.iter().map(|(l, (_, r))| (*l, *r)).collect();
        same("contents of a clone", &vals(&c), &want)?;
        ensure!(c == self.map && self.map == c, "a clone differs from its original under ==");
        #[allow(clippy::eq_op)]
        {
            ensure!(self.map == self.map, "map differs from itself under ==");
        }
        ensure!(!(c != self.map), "clone != original");
        // A map with the same contents built in another way and order, with another hasher state
        let mut o: Map = CycleMap::with_hasher(TB::new(if n > 1000 { 0 } else { (mix(rng.next()) % 14) as u8 }, rng.next()));
        let mut order = want.clone();
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
        for (l, r) in &order {
            o.insert(L::new(*l), R::new(*r));
        }
        ensure!(o == self.map && self.map == o, "maps with equal contents {want:?} differ under ==");
        cov.facts += 6;
        // Near misses: one change away
        for _ in 0..3 {
            let mut d = c.clone();
            let (l, r) = (rng.u32(self.ul), rng.u32(self.ur));
            match rng.below(5) {
                0 => drop(d.insert(L::new(l), R::new(r))),
                1 => drop(d.remove_via_left(&self.pl[l as usize])),
                2 if n >= 2 => {
                    // exchange the partners of two pairs: same items on both sides
                    let a = want[rng.below(n as u64) as usize];
                    let b = want[rng.below(n as u64) as usize];
                    d.remove_via_left(&self.pl[a.0 as usize]);
                    d.remove_via_left(&self.pl[b.0 as usize]);
                    d.insert(L::new(a.0), R::new(b.1));
                    if a != b {
                        d.insert(L::new(b.0), R::new(a.1));
                    }
                }
                3 => drop(d.swap_left(&self.pl[l as usize], L::new(rng.u32(self.ul)))),
                _ => drop(d.swap_right(&self.pr[r as usize], R::new(rng.u32(self.ur)))),
            }
            let dv = vals(&d);
            let eq = dv == want;
            cov.facts += 2;
            cov.tuple(&[77, eq as u64, n.min(9) as u64, dv.len().min(9) as u64]);
            ensure!((d == self.map) == eq, "== says {} for {:?} and {:?}", !eq, dv, want);
            ensure!((self.map == d) == eq, "== (flipped) says {} for {:?} and {:?}", !eq, want, dv);
            // d was changed: neither c nor the original may show it
            same("clone after its clone changed", &vals(&c), &want)?;
        }
        same("original after its clones changed", &vals(&self.map), &want)?;
        // The clone must be fully usable on its own
        for (l, r) in &want {
            if rng.chance(1, 2) {
                let p = c.remove_via_left(&self.pl[*l as usize]);
                same("remove_via_left in a clone", &p.as_ref().map(|p| (p.0.value(), p.1.value())), &Some((*l, *r)))?;
            } else {
                let p = c.remove_via_right(&self.pr[*r as usize]);
                same("remove_via_right in a clone", &p.as_ref().map(|p| (p.0.value(), p.1.value())), &Some((*l, *r)))?;
            }
        }
        ensure!(c.is_empty(), "clone not empty after removing everything");
        ensure!((c == self.map) == (n == 0), "== of an empty map and one with {n} pairs");
        same("original after emptying its clone", &vals(&self.map), &want)?;
        Ok(())
    }

    fn check_iters(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let pairs = self.m.pairs();
        let seq = check_iter("CycleMap::iter", self.map.iter(), |(l, r)| (l.id(), r.id()), pairs.clone(), rng, cov)?;
        check_iter("CycleMap::iter_left", self.map.iter_left(), |l| l.id(), pairs.iter().map(|p| p.0).collect(), rng, cov)?;
        check_iter("CycleMap::iter_right", self.map.iter_right(), |r| r.id(), pairs.iter().map(|p| p.1).collect(), rng, cov)?;
        for (l, r) in self.map.iter().take(pairs.len()) {
            ensure!(self.map.get_left(r).map(|x| x as *const L) == Some(l as *const L), "iter yields a reference to another left instance");
        }
        let tok = |v: &[Pair]| v.iter().map(|(l, r)| vec![format!("L{}#{}", l.0, l.1), format!("R{}#{}", r.0, r.1)]).collect::<Vec<_>>();
        check_debug("CycleMap", &self.map, tok(&pairs), rng)?;
        let k = rng.below(seq.len() as u64 + 1) as usize;
        let mut i = self.map.iter();
        let mut il = self.map.iter_left();
        let mut ir = self.map.iter_right();
        for _ in 0..k {
            i.next();
            il.next();
            ir.next();
        }
        check_debug("CycleMap Iter", &i, tok(&seq[k..]), rng)?;
        let rest = il.clone().map(|l| vec![format!("L{}#{}", l.v, l.inst)]).collect();
        check_debug("CycleMap SingleIter", &il, rest, rng)?;
        let rest = ir.clone().map(|l| vec![format!("R{}#{}", l.v, l.inst)]).collect();
        check_debug("CycleMap SingleIter", &ir, rest, rng)?;
        cov.facts += 4;
        Ok(())
    }

    fn coherence(&mut self, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        let m = &self.map;
        let n = m.len();
        let bound = n + 8;
        let it: Vec<(&L, &R)> = m.iter().take(bound).collect();
        let il: Vec<&L> = m.iter_left().take(bound).collect();
        let ir: Vec<&R> = m.iter_right().take(bound).collect();
        ensure!(it.len() == n && il.len() == n && ir.len() == n, "len {n} but iter/iter_left/iter_right yield {}/{}/{}", it.len(), il.len(), ir.len());
        ensure!(m.is_empty() == (n == 0), "is_empty {} with len {n}", m.is_empty());
        let mut byl: BTreeMap<u32, (&L, &R)> = BTreeMap::new();
        let mut byr: BTreeMap<u32, (&L, &R)> = BTreeMap::new();
        for &(l, r) in &it {
            ensure!(byl.insert(l.value(), (l, r)).is_none(), "two stored left items equal {}", l.value());
            ensure!(byr.insert(r.value(), (l, r)).is_none(), "two stored right items equal {} (or one paired twice)", r.value());
        }
        for l in &il {
            ensure!(byl.get(&l.value()).map(|p| p.0 as *const L) == Some(*l as *const L), "iter_left yields {} which iter doesn't", l.value());
        }
        for r in &ir {
            ensure!(byr.get(&r.value()).map(|p| p.1 as *const R) == Some(*r as *const R), "iter_right yields {} which iter doesn't", r.value());
        }
        let keys = |u: u32, rng: &mut Rng, t: Vec<u32>| -> Vec<u32> {
            if full {
                (0..u).collect()
            } else {
                let mut v: Vec<u32> = (0..12).map(|_| rng.u32(u)).collect();
                v.extend(t);
                v
            }
        };
        let kl = keys(self.ul, rng, self.touched.iter().map(|t| t.0).collect());
        let kr = keys(self.ur, rng, self.touched.iter().map(|t| t.1).collect());
        for &l in &kl {
            let p = &self.pl[l as usize];
            let g = m.get_right(p);
            let want = byl.get(&l);
            ensure!(m.contains_left(p) == want.is_some(), "contains_left({l}) is {} but iterated: {}", m.contains_left(p), want.is_some());
            ensure!(g.map(|r| r as *const R) == want.map(|w| w.1 as *const R), "get_right({l}) = {:?} but iter pairs it with {:?}", g, want.map(|w| w.1));
            if let Some((sl, sr)) = want {
                ensure!(m.get_left(*sr).map(|x| x as *const L) == Some(*sl as *const L), "get_left(get_right({l})) isn't {l}");
                ensure!(m.get_left(&self.pr[sr.value() as usize]).map(|x| x.value()) == Some(l), "get_left({}) isn't {l}", sr.value());
                ensure!(m.are_paired(sl, sr), "are_paired is false for the iterated pair ({l}, {})", sr.value());
            }
        }
        for &r in &kr {
            let p = &self.pr[r as usize];
            let want = byr.get(&r);
            ensure!(m.contains_right(p) == want.is_some(), "contains_right({r}) is {} but iterated: {}", m.contains_right(p), want.is_some());
            let g = m.get_left(p);
            ensure!(g.map(|x| x as *const L) == want.map(|w| w.0 as *const L), "get_left({r}) = {:?} but iter pairs it with {:?}", g, want.map(|w| w.0));
        }
        cov.facts += (kl.len() * 4 + kr.len() * 2) as u64;
        let mut pairs: Vec<(u32, u32)> = Vec::new();
        if full && (self.ul as u64 * self.ur as u64) <= 120 {
            for l in 0..self.ul {
                for r in 0..self.ur {
                    pairs.push((l, r));
                }
            }
        } else {
            for _ in 0..12 {
                pairs.push((rng.u32(self.ul), rng.u32(self.ur)));
            }
        }
        for (l, r) in pairs {
            cov.facts += 1;
            let want = byl.get(&l).is_some_and(|p| p.1.value() == r);
            ensure!(m.are_paired(&self.pl[l as usize], &self.pr[r as usize]) == want, "are_paired({l}, {r}) is {} but iter says {want}", !want);
        }
        Ok(())
    }

    fn effects(&mut self, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        let n = self.m.l.len();
        same("len", &self.map.len(), &n)?;
        if full {
            same("contents", &Self::contents(&self.map, n + 8), &self.m.pairs())?;
        }
        let mut kl: Vec<u32> = self.touched.iter().map(|t| t.0).collect();
        let mut kr: Vec<u32> = self.touched.iter().map(|t| t.1).collect();
        if full && self.ul <= 24 && self.ur <= 24 {
            kl = (0..self.ul).collect();
            kr = (0..self.ur).collect();
        } else {
            kl.extend((0..6).map(|_| rng.u32(self.ul)));
            kr.extend((0..6).map(|_| rng.u32(self.ur)));
        }
        cov.facts += (kl.len() + kr.len()) as u64 * 3;
        self.lookups(&kl, &kr)
    }

    /// Compares lookups by key with the model
    fn lookups(&self, kl: &[u32], kr: &[u32]) -> Res {
        for &l in kl {
            let want = self.m.l.get(&l).map(|x| (x.1, self.m.r[&x.1].0));
            same(&format!("get_right({l})"), &self.map.get_right(&self.pl[l as usize]).map(|r| r.id()), &want)?;
            same(&format!("contains_left({l})"), &self.map.contains_left(&self.pl[l as usize]), &want.is_some())?;
            if let Some(w) = want {
                same(&format!("are_paired({l}, {})", w.0), &self.map.are_paired(&self.pl[l as usize], &self.pr[w.0 as usize]), &true)?;
            }
        }
        for &r in kr {
            let want = self.m.r.get(&r).map(|x| (x.1, self.m.l[&x.1].0));
            same(&format!("get_left({r})"), &self.map.get_left(&self.pr[r as usize]).map(|l| l.id()), &want)?;
            same(&format!("contains_right({r})"), &self.map.contains_right(&self.pr[r as usize]), &want.is_some())?;
        }
        Ok(())
    }
}

impl Sys for Cycle {
    const NAME: &'static str = "cycle";
    const OPS: &'static [&'static str] = &[
        "insert", "remove", "remove_via_left", "remove_via_right", "swap_left", "swap_left_checked", "swap_left_or_insert",
        "swap_right", "swap_right_checked", "swap_right_or_insert", "clear", "drain", "drain_filter", "retain", "drain_filter_panic",
        "reserve", "try_reserve", "shrink_to", "shrink_to_fit", "replace_by_clone", "extend", "retain_panic", "skip_ids",
    ];

    fn new(cfg: &Cfg) -> Self {
        let b = TB::new(cfg.mode, cfg.hseed);
        Cycle {
            map: if cfg.cap == 0 { CycleMap::with_hasher(b) } else { CycleMap::with_capacity_and_hasher(cfg.cap as usize, b) },
            m: Model::default(),
            pl: (0..cfg.ul).map(L::new).collect(),
            pr: (0..cfg.ur).map(R::new).collect(),
            mode: cfg.mode,
            ul: cfg.ul,
            ur: cfg.ur,
            touched: Vec::new(),
        }
    }

    fn gen(rng: &mut Rng, cfg: &Cfg, w: &[u32]) -> Op {
        let k = pick_weighted(rng, w);
        let (ul, ur) = (cfg.ul, cfg.ur);
        let (a, b, c) = match k {
            0 | 1 => (rng.u32(ul), aimed(rng, ur, if k == 1 { 2 } else { 12 }), 0),
            2 => (rng.u32(ul), 0, 0),
            3 => (rng.u32(ur), 0, 0),
            4..=6 => (rng.u32(ul), rng.u32(ul), aimed(rng, ur, 3)),
            7..=9 => (rng.u32(ur), rng.u32(ur), aimed(rng, ul, 3)),
            11 => (if rng.chance(1, 3) { 1 << 20 } else { rng.u32(ul + 2) }, 0, rng.u32(1 << 16)),
            12 | 14 => (rng.u32(1 << 16), if rng.chance(1, 2) { 1 << 20 } else { rng.u32(ul / 2 + 2) }, rng.u32(ul + 1)),
            13 => (rng.u32(1 << 16), 0, 0),
            21 => (rng.u32(1 << 16), 0, rng.u32(ul + 1)),
            15 | 16 | 17 => (if rng.chance(1, 4) { rng.u32(200) } else { rng.u32(ul * 2 + 2) }, 0, 0),
            20 => (rng.u32(1 << 30), rng.u32(ul.min(40) + 2), 0),
            19 => (rng.u32(1 << 30), 0, 0),
            22 => skip_args(rng),
            _ => (0, 0, 0),
        };
        Op { k, a, b, c }
    }

    fn step(&mut self, op: &Op, cov: &mut Cov) -> Res {
        let op = &self.aim(op);
        self.class(cov, op);
        self.touched.clear();
        let (a, b, c) = (op.a, op.b, op.c);
        let (ul, ur) = (self.ul, self.ur);
        let name = Self::OPS[op.k as usize];
        match op.k {
            22 => {
                #[cfg(verif_hooks)]
                self.map.verif_skip_pairings(skip_by(op));
            }
            0 => {
                let (l, r) = (L::new(a), R::new(b));
                let want = self.m.ins(l.id(), r.id());
                let got = self.map.insert(l, r);
                self.touched.push((a, b));
                ret(&format!("insert({a}, {b})"), &view(&got, pid, pid), &want)?;
            }
            1 => {
                let want = if self.m.paired(a, b) { self.m.rm_l(a) } else { None };
                let got = self.map.remove(&self.pl[a as usize], &self.pr[b as usize]);
                self.touched.push((a, b));
                ret(&format!("remove({a}, {b})"), &got.as_ref().map(pid), &want)?;
            }
            2 => {
                let want = self.m.rm_l(a);
                let got = self.map.remove_via_left(&self.pl[a as usize]);
                self.touched.push((a, want.map_or(0, |w| w.1 .0)));
                ret(&format!("remove_via_left({a})"), &got.as_ref().map(pid), &want)?;
            }
            3 => {
                let want = self.m.rm_r(a);
                let got = self.map.remove_via_right(&self.pr[a as usize]);
                self.touched.push((want.map_or(0, |w| w.0 .0), a));
                ret(&format!("remove_via_right({a})"), &got.as_ref().map(pid), &want)?;
            }
            4..=6 => {
                let new = L::new(b);
                let id = new.id();
                let old = &self.pl[a as usize];
                self.touched.extend([(a, c % ur), (b, c % ur)]);
                let (got, want) = match op.k {
                    4 => (self.map.swap_left(old, new), self.m.sw_l(a, id)),
                    5 => {
                        let want = if self.m.paired(a, c) { self.m.sw_l(a, id) } else { Opt::N };
                        (self.map.swap_left_checked(old, &self.pr[c as usize], new), want)
                    }
                    _ => {
                        let r = R::new(c);
                        let want = if self.m.l.contains_key(&a) {
                            self.m.sw_l(a, id)
                        } else {
                            match self.m.ins(id, r.id()) {
                                Opt::N => Opt::N,
                                Opt::L(p) | Opt::R(p) => Opt::R(p),
                                Opt::B(p, q) => Opt::B(q.0, p),
                            }
                        };
                        (self.map.swap_left_or_insert(old, new, r), want)
                    }
                };
                ret(&format!("{name}({a}, {b}, {c})"), &view(&got, |l| l.id(), pid), &want)?;
            }
            7..=9 => {
                let new = R::new(b);
                let id = new.id();
                let old = &self.pr[a as usize];
                self.touched.extend([(c % ul, a), (c % ul, b)]);
                let (got, want) = match op.k {
                    7 => (self.map.swap_right(old, new), self.m.sw_r(a, id)),
                    8 => {
                        let want = if self.m.paired(c, a) { self.m.sw_r(a, id) } else { Opt::N };
                        (self.map.swap_right_checked(old, &self.pl[c as usize], new), want)
                    }
                    _ => {
                        let l = L::new(c);
                        let want = if self.m.r.contains_key(&a) {
                            self.m.sw_r(a, id)
                        } else {
                            match self.m.ins(l.id(), id) {
                                Opt::N => Opt::N,
                                Opt::L(p) | Opt::R(p) => Opt::R(p),
                                Opt::B(p, q) => Opt::B(p.1, q),
                            }
                        };
                        (self.map.swap_right_or_insert(old, new, l), want)
                    }
                };
                ret(&format!("{name}({a}, {b}, {c})"), &view(&got, |r| r.id(), pid), &want)?;
            }
            10 => {
                let cap = self.map.capacity();
                let al = crate::alloc::stats();
                self.map.clear();
                ensure!(crate::alloc::stats().allocs == al.allocs, "[CAP] clear allocated memory");
                ensure!(self.map.capacity() >= cap, "[CAP] clear lowered the capacity from {cap} to {}", self.map.capacity());
                self.m = Model::default();
            }
            11 => {
                let pairs = self.m.pairs();
                let n = pairs.len();
                let take = (a as usize).min(n + 2);
                let cap = self.map.capacity();
                let mut got: Vec<(L, R)> = Vec::new();
                let mut fin = Finish::of(op, take);
                {
                    got.reserve(n + 2);

                    let mut d = self.map.drain();
                    for i in 0..take {
                        let left = n.saturating_sub(i);
                        same(&format!("drain: len after {i} of {n}"), &d.len(), &left)?;
                        same(&format!("drain: size_hint after {i} of {n}"), &d.size_hint(), &(left, Some(left)))?;
                        match d.next() {
                            Some(p) => got.push(p),
                            None => {
                                ensure!(i >= n, "drain ended after {i} of {n}");
                                ensure!(d.next().is_none(), "drain yielded after its end");
                            }
                        }
                        ensure!(got.len() <= n, "drain yielded more than {n} pairs");
                    }
                    fin = fin.apply(d, &mut got);
                }
                let want = fin.expected(n, take).map_err(|m| format!("drain: {m}"))?;
                cov.bump(&format!("drains_ended_by_{}", fin.name()), 1);
                let mut ids: Vec<Pair> = got.iter().map(pid).collect();
                ids.sort();
                let yielded = ids.len();
                same(&format!("drain: number of pairs yielded (ended by {fin:?})"), &yielded, &want.len())?;
                for p in &ids {
                    ensure!(pairs.binary_search(p).is_ok(), "drain yielded {p:?} which wasn't in the map {pairs:?}");
                }
                ids.dedup();
                same("drain: distinct pairs", &ids.len(), &yielded)?;
                for p in &pairs {
                    let out = ids.binary_search(p).is_ok();
                    ensure!(key::is_alive(p.0 .1) == out && key::is_alive(p.1 .1) == out, "drain: pair {p:?} not yielded wasn't dropped with the drain (or a yielded one was)");
                }
                self.m = Model::default();
                same("len after drain", &self.map.len(), &0)?;
                ensure!(self.map.is_empty(), "not empty after drain");
                ensure!(self.map.iter().next().is_none() && self.map.iter_left().next().is_none() && self.map.iter_right().next().is_none(), "items left after drain");
                for p in pairs.iter().take(40) {
                    ensure!(!self.map.contains_left(&self.pl[p.0 .0 as usize]) && !self.map.contains_right(&self.pr[p.1 .0 as usize]), "item of {p:?} still found after drain");
                }
                ensure!(self.map.capacity() >= cap, "drain lowered the capacity from {cap} to {}", self.map.capacity());
                cov.facts += n as u64 * 3;
            }
            12 | 14 => {
                let before = self.m.pairs();
                let n = before.len();
                let take = if b >= 1 << 20 { usize::MAX } else { b as usize };
                let boom = if op.k == 14 { Some(c) } else { None };
                let mut calls: Vec<(Pair, bool)> = Vec::new();
                let mut got: Vec<(L, R)> = Vec::new();
                let mut blown: Option<Pair> = None;
                let mut hints = Vec::new();
                let mut fin = Finish::of(op, take);
                let caught = {
                    let (map, calls, got, blown, hints, fin) = (&mut self.map, &mut calls, &mut got, &mut blown, &mut hints, &mut fin);
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Res {
                        let calls = std::cell::RefCell::new(calls);
                        let mut ncall = 0u32;
                        let mut d = map.drain_filter(|l, r| {
                            let p = (l.id(), r.id());
                            if boom == Some(ncall) && blown.is_none() {
                                *blown = Some(p);
                                std::panic::panic_any(key::INJECTED);
                            }
                            let v = pred(a, ncall, Some(l.value()), Some(r.value()));
                            ncall += 1;
                            calls.borrow_mut().push((p, v));
                            v
                        });
                        let mut i = 0;
                        while i < take {
                            hints.push(d.size_hint());
                            let Some(p) = d.next() else {
                                ensure!(d.next().is_none(), "drain_filter yielded after its end");
                                hints.push(d.size_hint());
                                break;
                            };
                            got.push(p);
                            i += 1;
                        }
                        *fin = fin.apply(d, got);
                        Ok(())
                    }))
                };
                match caught {
                    Ok(r) => r?,
                    Err(e) => {
                        if blown.is_none() {
                            std::panic::resume_unwind(e);
                        }
                    }
                }
                let mut seen: Vec<Pair> = calls.iter().map(|c| c.0).collect();
                seen.sort();
                let total = seen.len();
                let mut d = seen.clone();
                d.dedup();
                same("drain_filter: pairs seen twice by the closure", &(total - d.len()), &0)?;
                if blown.is_none() {
                    same("drain_filter: pairs subjected to the closure", &seen, &before)?;
                } else {
                    for s in &seen {
                        ensure!(before.binary_search(s).is_ok(), "drain_filter: closure saw {s:?}");
                    }
                    ensure!(before.binary_search(&blown.unwrap()).is_ok(), "drain_filter: closure saw {blown:?}");
                }
                let acc: Vec<Pair> = calls.iter().filter(|c| c.1).map(|c| c.0).collect();
                let ids: Vec<Pair> = got.iter().map(pid).collect();
                if blown.is_none() {
                    let want = fin.expected(acc.len(), take).map_err(|m| format!("drain_filter: {m}"))?;
                    cov.bump(&format!("drain_filters_ended_by_{}", fin.name()), 1);
                    same(&format!("drain_filter: yielded (ended by {fin:?})"), &ids, &want.iter().map(|i| acc[*i].clone()).collect::<Vec<_>>())?;
                    hints_ok("drain_filter", &hints, acc.len())?;
                } else {
                    let accepted: BTreeSet<_> = acc.iter().collect();
                    for i in &ids {
                        ensure!(accepted.contains(i), "drain_filter yielded {i:?} which the closure didn't accept");
                    }
                }
                let yielded: BTreeSet<_> = ids.iter().collect();
                for p in &acc {
                    let out = yielded.contains(p);
                    ensure!(key::is_alive(p.0 .1) == out && key::is_alive(p.1 .1) == out, "drain_filter: accepted pair {p:?} alive={} yielded={out}", key::is_alive(p.0 .1));
                    self.m.rm_l(p.0 .0);
                }
                note(|| format!("drain_filter {:?}", sorted(&acc)));
                cov.facts += n as u64 * 2;
                if blown.is_some() {
                    cov.bump("injected_closure_panics", 1);
                }
                same("contents after drain_filter", &Self::contents(&self.map, n + 8), &self.m.pairs())?;
                same("len after drain_filter", &self.map.len(), &self.m.l.len())?;
            }
            13 | 21 => {
                let before = self.m.pairs();
                let n = before.len();
                let boom = if op.k == 21 { Some(c) } else { None };
                let mut calls: Vec<(Pair, bool)> = Vec::new();
                let mut blown = false;
                let r = {
                    let (map, calls, blown) = (&mut self.map, &mut calls, &mut blown);
                    let mut ncall = 0;
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        map.retain(|l, r| {
                            call(Call::Pred);
                            if boom == Some(ncall) {
                                *blown = true;
                                std::panic::panic_any(key::INJECTED);
                            }
                            let v = pred(a, ncall, Some(l.value()), Some(r.value()));
                            ncall += 1;
                            calls.push(((l.id(), r.id()), v));
                            v
                        })
                    }))
                };
                if let Err(e) = r {
                    if !blown {
                        std::panic::resume_unwind(e);
                    }
                    cov.bump("injected_closure_panics", 1);
                }
                let mut seen: Vec<Pair> = calls.iter().map(|c| c.0).collect();
                seen.sort();
                if !blown {
                    same("retain: pairs shown to the closure", &seen, &before)?;
                    for (p, keep) in &calls {
                        if !keep {
                            self.m.rm_l(p.0 .0);
                        }
                    }
                    same("contents after retain", &Self::contents(&self.map, n + 8), &self.m.pairs())?;
                } else {
                    // Pairs rejected before the panic may or may not be gone; nothing else may be
                    let now = Self::contents(&self.map, n + 8);
                    let out: BTreeSet<_> = calls.iter().filter(|c| !c.1).map(|c| c.0).collect();
                    for p in &before {
                        let rejected = out.contains(p);
                        let there = now.binary_search(p).is_ok();
                        ensure!(there || rejected, "retain lost {p:?} when its closure panicked");
                        if !there {
                            self.m.rm_l(p.0 .0);
                        }
                    }
                    same("contents after a panic in retain", &now, &self.m.pairs())?;
                }
                for p in &before {
                    let there = self.m.paired(p.0 .0, p.1 .0);
                    ensure!(key::is_alive(p.0 .1) == there && key::is_alive(p.1 .1) == there, "retain: pair {p:?} in the map: {there}, alive: {}/{}", key::is_alive(p.0 .1), key::is_alive(p.1 .1));
                }
                cov.facts += n as u64 * 2;
            }
            15 => {
                self.map.reserve(a as usize);
                let want = self.m.l.len() + a as usize;
                ensure!(self.map.capacity() >= want, "capacity {} after reserve({a}) with {} pairs", self.map.capacity(), self.m.l.len());
            }
            16 => {
                let n = if a % 5 == 0 { usize::MAX / (1 + a as usize % 3) } else { a as usize };
                let r = self.map.try_reserve(n);
                if n > 1 << 40 {
                    ensure!(r.is_err(), "try_reserve({n}) succeeded");
                } else {
                    ensure!(r.is_ok(), "try_reserve({n}) failed: {r:?}");
                    ensure!(self.map.capacity() >= self.m.l.len() + n, "capacity {} after try_reserve({n}) with {} pairs", self.map.capacity(), self.m.l.len());
                }
            }
            17 | 18 => {
                let cap = self.map.capacity();
                let live = crate::alloc::stats().live;
                if op.k == 17 {
                    self.map.shrink_to(a as usize);
                } else {
                    self.map.shrink_to_fit();
                }
                let grown = crate::alloc::stats().live - live;
                ensure!(grown <= 0, "{name}({a}) made the map {grown} bytes larger");
                let min = if op.k == 17 { (a as usize).min(cap) } else { 0 }.max(self.m.l.len());
                ensure!(self.map.capacity() >= min, "capacity {} below {min} after {name}({a})", self.map.capacity());
            }
            19 => {
                let c = self.copy(a as u64, cov);
                same("hasher of a clone", &(c.hasher().seed, c.hasher().mode), &(self.map.hasher().seed, self.map.hasher().mode))?;
                // Instances change: learn them by value
                let mut m = Model::default();
                for (l, r) in c.iter().take(self.m.l.len() + 8) {
                    m.l.insert(l.value(), (l.inst, r.value()));
                    m.r.insert(r.value(), (r.inst, l.value()));
                }
                let vals = |m: &Model| m.l.iter().map(|(l, x)| (*l, x.1)).collect::<Vec<_>>();
                same("contents of a clone", &vals(&m), &vals(&self.m))?;
                same("len of a clone", &c.len(), &self.m.l.len())?;
                self.m = m;
                self.map = c;
            }
            20 => {
                let mut rng = Rng::new(a as u64);
                let items: Vec<(u32, u32)> = (0..b).map(|_| (rng.u32(ul), rng.u32(ur))).collect();
                let mut src = Vec::new();
                for (l, r) in items {
                    let p = (L::new(l), R::new(r));
                    self.m.ins(p.0.id(), p.1.id());
                    self.touched.push((l, r));
                    src.push(p);
                }
                self.map.extend(src);
            }
            _ => return Err(format!("unknown op {}", op.k)),
        }
        note(|| format!("{name} len {}", self.map.len()));
        Ok(())
    }

    fn audit(&mut self, what: u32, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        cov.audits += 1;
        match what {
            COH => self.coherence(full, rng, cov),
            EFF => self.effects(full, rng, cov),
            ITER => self.check_iters(rng, cov),
            CLONE => self.check_clone(rng, cov),
            FORM => {
                for _ in 0..8 {
                    let (l, r) = (rng.u32(self.ul), rng.u32(self.ur));
                    cov.facts += 2;
                    same(&format!("get_right of the borrowed form of {l}"), &self.map.get_right(&Form::<0>(l)).map(|x| x.id()), &self.map.get_right(&self.pl[l as usize]).map(|x| x.id()))?;
                    same(&format!("get_left of the borrowed form of {r}"), &self.map.get_left(&Form::<1>(r)).map(|x| x.id()), &self.map.get_left(&self.pr[r as usize]).map(|x| x.id()))?;
                    cov.tuple(&[9, self.mode as u64, self.m.l.contains_key(&l) as u64, self.m.r.contains_key(&r) as u64, self.m.l.len().min(40) as u64]);
                }
                Ok(())
            }
            _ => {
                cov.facts += 1;
                self.owned()
            }
        }
    }

    fn class_of(k: u8) -> u32 {
        match k {
            11 => DRN,
            12 | 14 => FLT,
            13 | 21 => RET,
            15..=18 => CAP,
            19 => CLONE,
            20 => EXT,
            _ => EFF,
        }
    }

    fn lookups_agree(&self) -> bool {
        let kl: Vec<u32> = (0..self.ul).collect();
        let kr: Vec<u32> = (0..self.ur).collect();
        self.lookups(&kl, &kr).is_ok()
    }

    fn resync(&mut self) -> bool {
        let bound = self.map.len() + 8;
        let v = Self::contents(&self.map, bound);
        let mut m = Model::default();
        for (l, r) in &v {
            if m.l.insert(l.0, (l.1, r.0)).is_some() || m.r.insert(r.0, (r.1, l.0)).is_some() {
                return false;
            }
        }
        self.m = m;
        v.len() == self.map.len()
    }

    fn rebuild(&mut self) {
        let mut map: Map = CycleMap::with_hasher(self.map.hasher().clone());
        for (l, x) in &mut self.m.l {
            let (nl, nr) = (L::new(*l), R::new(x.1));
            x.0 = nl.inst;
            self.m.r.get_mut(&x.1).unwrap().0 = nr.inst;
            map.insert(nl, nr);
        }
        std::mem::forget(std::mem::replace(&mut self.map, map));
    }

    fn teardown(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        // Everything stored must be removable from both sides
        let mut i = 0u32;
        loop {
            let Some((l, r)) = self.map.iter().next().map(|(l, r)| (l.value(), r.value())) else { break };
            let op = match rng.below(3) {
                0 => Op { k: 2, a: l, b: 0, c: 0 },
                1 => Op { k: 3, a: r, b: 0, c: 0 },
                _ => Op { k: 1, a: l, b: r, c: 0 },
            };
            let n = self.map.len();
            let gone = match op.k {
                2 => self.map.remove_via_left(&self.pl[l as usize]),
                3 => self.map.remove_via_right(&self.pr[r as usize]),
                _ => self.map.remove(&self.pl[l as usize], &self.pr[r as usize]),
            };
            ensure!(gone.as_ref().map(|p| (p.0.value(), p.1.value())) == Some((l, r)), "removing the stored pair ({l}, {r}) by {} returned {gone:?}", Self::OPS[op.k as usize]);
            ensure!(self.map.len() + 1 == n, "len {} after removing one of {n} pairs", self.map.len());
            cov.facts += 2;
            i += 1;
            ensure!(i < 1 << 22, "removing doesn't end");
            if i > 6_000 && self.map.len() > 10_000 {
                // Finding the next item takes ever longer
                self.m = Model::default();
                return Ok(());
            }
        }
        ensure!(self.map.len() == 0 && self.map.iter_left().next().is_none() && self.map.iter_right().next().is_none(), "items left after removing everything");
        self.m = Model::default();
        Ok(())
    }
    fn model_len(&self) -> usize {
        self.m.l.len()
    }
    fn model_hash(&self) -> u64 {
        self.m.l.iter().fold(3, |h, (l, x)| mix(h ^ ((*l as u64) << 32 | x.1 as u64)))
    }
}

impl Cycle {
    fn probes(&self) -> i64 {
        (self.pl.len() + self.pr.len()) as i64
    }
    /// Resolves arguments that aim at a partner
    fn aim(&self, op: &Op) -> Op {
        let mut o = *op;
        match o.k {
            0 | 1 => {
                let p = self.m.l.get(&o.a).map(|x| x.1);
                o.b = aim(o.b, p, self.ur)
            }
            5 | 6 => o.c = aim(o.c, self.m.l.get(&o.a).map(|x| x.1), self.ur),
            8 | 9 => o.c = aim(o.c, self.m.r.get(&o.a).map(|x| x.1), self.ul),
            _ => {}
        }
        o
    }
    fn owned(&self) -> Res {
        let (il, ir) = (self.map.iter_left(), self.map.iter_right());
        let n = il.len() + ir.len();
        let (mut k, mut dead) = (0, None);
        for (v, i) in il.map(|l| (l.v, l.inst)).take(n + 8).chain(ir.map(|r| (r.v, r.inst)).take(n + 8)) {
            k += 1;
            if !key::is_alive(i) {
                dead = dead.or(Some((v, i)));
            }
        }
        ensure!(dead.is_none(), "item {dead:?} (value, instance) was dropped while in the map");
        ensure!(k == n, "{k} items iterated, {n} announced");
        if let Some(f) = key::fault() {
            return Err(f);
        }
        let want = n as i64 + self.probes();
        ensure!(key::alive() == want, "{} items are alive but the map and the probes own {want}: leaked or lost items", key::alive());
        Ok(())
    }
}

pub fn tuple_ids(o: &OptionalPair<L, R>) -> Opt<Id, Id> {
    view(o, |l| l.id(), |r| r.id())
}
