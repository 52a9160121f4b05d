//! GroupMap against its sequential model.
use crate::ensure;
use crate::hasher::TB;
use crate::key::{self, Form, L, R};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::GroupMap;
use std::collections::{BTreeMap, BTreeSet};

pub type Map = GroupMap<L, R, TB>;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Model {
    pub l: BTreeMap<u32, (u32, u32)>,           // value -> (instance, right value)
    pub r: BTreeMap<u32, (u32, BTreeSet<u32>)>, // value -> (instance, left values)
}
/// What iter yields
type It = (Option<Id>, Id);
type Vals = (Option<u32>, u32);

impl Model {
    pub fn items(&self) -> Vec<It> {
        let mut v: Vec<It> = self.l.iter().map(|(l, (i, r))| (Some((*l, *i)), (*r, self.r[r].0))).collect();
        v.extend(self.r.iter().filter(|x| x.1 .1.is_empty()).map(|(r, x)| (None, (*r, x.0))));
        v.sort();
        v
    }
    pub fn values(&self) -> Vec<Vals> {
        sorted(&self.items().iter().map(|(l, r)| (l.map(|l| l.0), r.0)).collect::<Vec<_>>())
    }
    pub fn paired(&self, l: u32, r: u32) -> bool {
        self.l.get(&l).is_some_and(|x| x.1 == r)
    }
    pub fn rm_l(&mut self, l: u32) -> Option<Id> {
        let (i, r) = self.l.remove(&l)?;
        self.r.get_mut(&r).unwrap().1.remove(&l);
        Some((l, i))
    }
    pub fn rm_r(&mut self, r: u32) -> Option<(Vec<Id>, Id)> {
        let (i, ls) = self.r.remove(&r)?;
        Some((ls.iter().map(|l| (*l, self.l.remove(l).unwrap().0)).collect(), (r, i)))
    }
    fn home(&mut self, l: u32, r: u32) {
        let e = self.l.get_mut(&l).unwrap();
        let old = std::mem::replace(&mut e.1, r);
        if let Some(o) = self.r.get_mut(&old) {
            o.1.remove(&l);
        }
        self.r.get_mut(&r).unwrap().1.insert(l);
    }
    /// insert keeps stored items that are equal
    pub fn ins(&mut self, l: Id, r: Id) {
        self.r.entry(r.0).or_insert((r.1, BTreeSet::new()));
        if !self.l.contains_key(&l.0) {
            self.l.insert(l.0, (l.1, r.0));
        }
        self.home(l.0, r.0);
    }
    pub fn ins_r(&mut self, r: Id) -> Option<(Vec<Id>, Id)> {
        let gone = self.rm_r(r.0);
        self.r.insert(r.0, (r.1, BTreeSet::new()));
        gone
    }
    pub fn ins_rm(&mut self, l: Id, r: Id) -> (Option<Id>, Option<(Vec<Id>, Id)>) {
        let a = self.rm_l(l.0);
        let b = self.rm_r(r.0);
        self.l.insert(l.0, (l.1, r.0));
        self.r.insert(r.0, (r.1, BTreeSet::from([l.0])));
        (a, b)
    }
    /// Moves the whole group of `old` to the new item
    fn sw(&mut self, old: u32, new: Id, remove: bool) -> Option<Id> {
        if !self.r.contains_key(&old) {
            self.ins_r(new);
            return None;
        }
        if old != new.0 {
            self.rm_r(new.0);
        } else if !remove {
            return None;
        }
        let e = self.r.get_mut(&old).unwrap();
        let oi = e.0;
        let set = std::mem::take(&mut e.1);
        if remove {
            self.r.remove(&old);
        }
        for l in &set {
            self.l.get_mut(l).unwrap().1 = new.0;
        }
        self.r.insert(new.0, (new.1, set));
        remove.then_some((old, oi))
    }
}

pub struct Group {
    pub map: Map,
    pub m: Model,
    pl: Vec<L>,
    pr: Vec<R>,
    mode: u8,
    ul: u32,
    ur: u32,
    touched: Vec<(u32, u32)>,
}

fn iid(i: &(Option<&L>, &R)) -> It {
    (i.0.map(|l| l.id()), i.1.id())
}
pub fn vals(m: &Map, bound: usize) -> Vec<Vals> {
    let mut v: Vec<Vals> = m.iter().take(bound).map(|(l, r)| (l.map(|l| l.value()), r.value())).collect();
    v.sort();
    v
}
pub fn build(v: &[Vals], h: TB) -> Map {
    let mut m: Map = GroupMap::with_hasher(h);
    for (l, r) in v {
        match l {
            None => drop(m.insert_right(R::new(*r))),
            Some(l) => m.insert(L::new(*l), R::new(*r)),
        }
    }
    m
}
fn gid<'a>(v: &Option<(impl IntoIterator<Item = &'a L> + Clone, &'a R)>) -> Option<(Vec<Id>, Id)> {
    v.as_ref().map(|(ls, r)| (sorted(&ls.clone().into_iter().map(|l| l.id()).collect::<Vec<_>>()), r.id()))
}

impl Group {
    fn state_r(&self, x: u32) -> u64 {
        match self.m.r.get(&x) {
            None => 0,
            Some((_, s)) => 1 + s.len().min(3) as u64,
        }
    }
    fn class(&self, cov: &mut Cov, op: &Op) {
        let l = |x: u32| self.m.l.get(&x).map_or(0, |h| self.state_r(h.1));
        let r = |x: u32| self.state_r(x);
        let c = match op.k {
            0..=2 | 6 | 7 => l(op.a) | r(op.b) << 3 | (self.m.paired(op.a, op.b) as u64) << 6,
            3 | 9 => r(op.a),
            8 => l(op.a),
            4 | 5 => r(op.a) | r(op.b) << 3 | ((op.a == op.b) as u64) << 6,
            11..=13 => (op.a % 12) as u64,
            _ => 0,
        };
        let bits = |n: usize| (usize::BITS - n.leading_zeros()) as u64;
        cov.tuple(&[3, op.k as u64, c, self.mode as u64, bits(self.m.l.len()), bits(self.m.r.len())]);
    }

    pub fn contents(m: &Map, bound: usize) -> Vec<It> {
        let mut v: Vec<It> = m.iter().take(bound).map(|i| iid(&i)).collect();
        v.sort();
        v
    }

    /// A copy by clone, or by clone_from over a map with a hasher and contents of its own
    fn copy(&self, how: u64, cov: &mut Cov) -> Map {
        if how % 2 == 0 {
            return self.map.clone();
        }
        let how = mix(how);
        let mut t: Map = GroupMap::with_hasher(TB::new((how % 14) as u8, how >> 7));
        let n = [0, 1, 3, 9, (self.m.l.len() as u64 + 5).min(300)][(how >> 20) as usize % 5];
        for i in 0..n {
            let (x, y) = ((mix(how ^ i) % (self.ul as u64 + 2)) as u32, (mix(how ^ i ^ 77) % (self.ur as u64 + 2)) as u32);
            match i % 4 {
                0 => drop(t.insert_left(L::new(x), &R::new(y))),
                1 => drop(t.insert_right(R::new(y))),
                _ => drop(t.insert_remove(L::new(x), R::new(y))),
            }
        }
        if how >> 40 & 1 == 1 {
            t.clear();
        }
        t.clone_from(&self.map);
        cov.bump("clone_from", 1);
        t
    }

    fn check_clone(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let want = self.m.values();
        let n = want.len();
        let c = self.copy(rng.next() >> 9, cov);
        ensure!(c.hasher().seed == self.map.hasher().seed && c.hasher().mode == self.map.hasher().mode, "clone has another hasher");
        same("contents of a clone", &vals(&c, n + 8), &want)?;
        same("lengths of a clone", &(c.len_left(), c.len_right()), &(self.m.l.len(), self.m.r.len()))?;
        ensure!(c == self.map && self.map == c, "a clone differs from its original under ==");
        #[allow(clippy::eq_op)]
        {
            ensure!(self.map == self.map, "map differs from itself under ==");
        }
        ensure!(!(c != self.map), "clone != original");
        let mut order = want.clone();
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
        let o = build(&order, TB::new(if n > 1000 { 0 } else { (mix(rng.next()) % 14) as u8 }, rng.next()));
        ensure!(o == self.map && self.map == o, "maps with equal contents {want:?} differ under ==");
        cov.facts += 6;
        for _ in 0..4 {
            let mut d = c.clone();
            let (l, r, r2) = (rng.u32(self.ul), rng.u32(self.ur), rng.u32(self.ur));
            let (kl, kr) = (&self.pl[l as usize], &self.pr[r as usize]);
            let paired: Vec<(u32, u32)> = want.iter().filter_map(|(l, r)| l.map(|l| (l, *r))).collect();
            match rng.below(11) {
                8..=10 if paired.len() >= 2 => {
                    // two left items exchange their groups: same items, same sizes of groups
                    let a = paired[rng.below(paired.len() as u64) as usize];
                    let b = paired[rng.below(paired.len() as u64) as usize];
                    d.pair(&self.pl[a.0 as usize], &self.pr[b.1 as usize]);
                    d.pair(&self.pl[b.0 as usize], &self.pr[a.1 as usize]);
                }
                0 => drop(d.insert_remove(L::new(l), R::new(r))),
                1 => drop(d.insert_left(L::new(l), kr)),
                2 => drop(d.remove_left(kl)),
                3 => drop(d.remove_right(kr)),
                4 => drop(d.pair(kl, kr)),
                5 => drop(d.insert_right(R::new(r))),
                6 => drop(d.swap_right_remove(kr, R::new(r2))),
                _ => d.swap_right(kr, R::new(r2)),
            }
            let dv = vals(&d, n + 8);
            let eq = dv == want;
            cov.facts += 2;
            cov.tuple(&[79, eq as u64, n.min(9) as u64, dv.len().min(9) as u64]);
            ensure!((d == self.map) == eq, "== says {} for {:?} and {:?}", !eq, dv, want);
            ensure!((self.map == d) == eq, "== (flipped) says {} for {:?} and {:?}", !eq, want, dv);
            same("clone after its clone changed", &vals(&c, n + 8), &want)?;
        }
        same("original after its clones changed", &vals(&self.map, n + 8), &want)?;
        let mut c = c;
        for (l, r) in &want {
            if let Some(l) = l {
                same("remove_left from a clone", &c.remove_left(&self.pl[*l as usize]).map(|l| l.value()), &Some(*l))?;
            }
            if rng.chance(1, 3) || c.get_left_iter(&self.pr[*r as usize]).is_some_and(|i| i.len() == 0) {
                let g = c.remove_right(&self.pr[*r as usize]);
                same("remove_right from a clone", &g.is_some(), &true)?;
                for x in g.unwrap().0 {
                    c.insert_remove(x, R::new(u32::MAX));
                    // put it back under a right item that isn't a probe, to be removed below
                    let y = c.remove_right(&R::new(u32::MAX)).unwrap();
                    ensure!(y.0.len() == 1, "group of one has {} members", y.0.len());
                }
                break;
            }
        }
        drop(c);
        same("original after emptying its clone", &vals(&self.map, n + 8), &want)?;
        Ok(())
    }

    fn check_iters(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let items = self.m.items();
        let paired: Vec<(Id, Id)> = items.iter().filter_map(|(l, r)| l.map(|l| (l, *r))).collect();
        let unpaired: Vec<Id> = items.iter().filter(|x| x.0.is_none()).map(|x| x.1).collect();
        let lefts: Vec<Id> = self.m.l.iter().map(|x| (*x.0, x.1 .0)).collect();
        let rights: Vec<Id> = self.m.r.iter().map(|x| (*x.0, x.1 .0)).collect();
        let seq = check_iter("GroupMap::iter", self.map.iter(), iid, items.clone(), rng, cov)?;
        let pseq = check_iter("GroupMap::iter_paired", self.map.iter_paired(), |(l, r)| (l.id(), r.id()), paired, rng, cov)?;
        let useq = check_iter("GroupMap::iter_unpaired", self.map.iter_unpaired(), |r| r.id(), unpaired, rng, cov)?;
        let lseq = check_iter("GroupMap::iter_left", self.map.iter_left(), |l| l.id(), lefts, rng, cov)?;
        let rseq = check_iter("GroupMap::iter_right", self.map.iter_right(), |r| r.id(), rights, rng, cov)?;
        let tok = |v: &[It]| {
            let name = |(l, r): &It| {
                let mut t: Vec<String> = l.iter().map(|l| format!("L{}#{}", l.0, l.1)).collect();
                if r.0 != u32::MAX {
                    t.push(format!("R{}#{}", r.0, r.1));
                }
                t
            };
            v.iter().map(name).collect::<Vec<_>>()
        };
        check_debug("GroupMap", &self.map, tok(&items), rng)?;
        macro_rules! dbg_at {
            ($what:expr, $it:expr, $seq:expr) => {{
                let s: Vec<It> = $seq;
                let k = rng.below(s.len() as u64 + 1) as usize;
                let mut i = $it;
                for _ in 0..k {
                    i.next();
                }
                check_debug(concat!("GroupMap ", $what), &i, tok(&s[k..]), rng)?;
            }};
        }
        const NOT: Id = (u32::MAX, 0);
        dbg_at!("Iter", self.map.iter(), seq);
        dbg_at!("PairedIter", self.map.iter_paired(), pseq.iter().map(|p| (Some(p.0), p.1)).collect());
        dbg_at!("UnpairedIter", self.map.iter_unpaired(), useq.iter().map(|p| (None, *p)).collect());
        dbg_at!("LeftIter", self.map.iter_left(), lseq.iter().map(|p| (Some(*p), NOT)).collect());
        dbg_at!("RightIter", self.map.iter_right(), rseq.iter().map(|p| (None, *p)).collect());
        let groups: Vec<u32> = if self.m.r.len() <= 6 {
            self.m.r.keys().copied().collect()
        } else {
            let k: Vec<u32> = self.m.r.keys().copied().collect();
            (0..4).map(|_| *rng.pick(&k)).collect()
        };
        for r in groups {
            let Some(it) = self.map.get_left_iter(&self.pr[r as usize]) else { return Err(format!("get_left_iter({r}) is None for a stored item")) };
            let want: Vec<Id> = self.m.r[&r].1.iter().map(|l| (*l, self.m.l[l].0)).collect();
            let s = check_iter("GroupMap::get_left_iter", it.clone(), |l| l.id(), want, rng, cov)?;
            dbg_at!("PairIter", it.clone(), s.iter().map(|p| (Some(*p), NOT)).collect());
        }
        cov.facts += 6;
        Ok(())
    }

    fn coherence(&mut self, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        let m = &self.map;
        let (nl, nr) = (m.len_left(), m.len_right());
        let bound = nl + nr + 8;
        let it: Vec<(Option<&L>, &R)> = m.iter().take(bound).collect();
        let ip: Vec<(&L, &R)> = m.iter_paired().take(bound).collect();
        let iu: Vec<&R> = m.iter_unpaired().take(bound).collect();
        let il: Vec<&L> = m.iter_left().take(bound).collect();
        let ir: Vec<&R> = m.iter_right().take(bound).collect();
        ensure!(il.len() == nl && ir.len() == nr, "len_left {nl} len_right {nr} but iter_left/iter_right yield {}/{}", il.len(), ir.len());
        ensure!(m.is_empty() == (nl + nr == 0), "is_empty {} with lengths {nl}, {nr}", m.is_empty());
        let mut byl: BTreeMap<u32, (&L, &R)> = BTreeMap::new();
        let mut byr: BTreeMap<u32, (&R, BTreeSet<u32>)> = BTreeMap::new();
        for (l, r) in &it {
            let e = byr.entry(r.value());
            let new = matches!(e, std::collections::btree_map::Entry::Vacant(_));
            let e = e.or_insert((*r, BTreeSet::new()));
            ensure!(e.0 as *const R == *r as *const R, "iter yields two right items equal to {}", r.value());
            match l {
                None => ensure!(new, "iter yields {} as unpaired and again", r.value()),
                Some(l) => {
                    ensure!(new || !e.1.is_empty(), "iter yields {} as unpaired and paired", r.value());
                    e.1.insert(l.value());
                    ensure!(byl.insert(l.value(), (*l, *r)).is_none(), "iter yields the left item {} twice", l.value());
                }
            }
        }
        ensure!(byl.len() == nl && byr.len() == nr, "len_left {nl} len_right {nr} but iter yields {}/{} items", byl.len(), byr.len());
        for l in &il {
            ensure!(byl.get(&l.value()).map(|p| p.0 as *const L) == Some(*l as *const L), "iter_left yields {} which iter doesn't", l.value());
        }
        for r in &ir {
            ensure!(byr.get(&r.value()).map(|p| p.0 as *const R) == Some(*r as *const R), "iter_right yields {} which iter doesn't", r.value());
        }
        let nu = byr.values().filter(|x| x.1.is_empty()).count();
        ensure!(ip.len() == nl && iu.len() == nu, "iter_paired yields {} and iter_unpaired {} items, but iter has {nl} pairs and {nu} unpaired", ip.len(), iu.len());
        for (l, r) in &ip {
            ensure!(byl.get(&l.value()).is_some_and(|p| p.1 as *const R == *r as *const R), "iter_paired yields ({}, {}) but iter doesn't", l.value(), r.value());
        }
        for r in &iu {
            ensure!(byr.get(&r.value()).is_some_and(|p| p.1.is_empty()), "iter_unpaired yields {} which iter pairs", r.value());
        }
        let keys = |u: u32, rng: &mut Rng, t: Vec<u32>| -> Vec<u32> {
            if full {
                (0..u).collect()
            } else {
                let mut v: Vec<u32> = (0..12).map(|_| rng.u32(u)).collect();
                v.extend(t);
                v
            }
        };
        let kl = keys(self.ul, rng, self.touched.iter().map(|t| t.0).collect());
        let kr = keys(self.ur, rng, self.touched.iter().map(|t| t.1).collect());
        for &l in &kl {
            let p = &self.pl[l as usize];
            let want = byl.get(&l);
            let g = m.get_right(p);
            ensure!(m.contains_left(p) == want.is_some(), "contains_left({l}) is {} but iterated: {}", m.contains_left(p), want.is_some());
            ensure!(g.map(|r| r as *const R) == want.map(|w| w.1 as *const R), "get_right({l}) = {g:?} but iter pairs it with {:?}", want.map(|w| w.1));
            if let Some((sl, sr)) = want {
                ensure!(m.are_paired(sl, sr), "are_paired is false for the iterated pair ({l}, {})", sr.value());
                ensure!(m.is_right_paired(sr), "is_right_paired is false for {} which has {l}", sr.value());
            }
        }
        for &r in &kr {
            let p = &self.pr[r as usize];
            let want = byr.get(&r);
            ensure!(m.contains_right(p) == want.is_some(), "contains_right({r}) is {} but iterated: {}", m.contains_right(p), want.is_some());
            ensure!(m.is_right_paired(p) == want.is_some_and(|w| !w.1.is_empty()), "is_right_paired({r}) is {} but iter says {:?}", m.is_right_paired(p), want.map(|w| &w.1));
            let g: Option<Vec<u32>> = m.get_left_iter(p).map(|i| sorted(&i.take(bound).map(|l| l.value()).collect::<Vec<_>>()));
            let w: Option<Vec<u32>> = want.map(|w| w.1.iter().copied().collect());
            ensure!(g == w, "get_left_iter({r}) yields {g:?} but iter says {w:?}");
        }
        cov.facts += (kl.len() * 4 + kr.len() * 3) as u64;
        let mut pairs: Vec<(u32, u32)> = Vec::new();
        if full && (self.ul as u64 * self.ur as u64) <= 120 {
            for l in 0..self.ul {
                for r in 0..self.ur {
                    pairs.push((l, r));
                }
            }
        } else {
            for _ in 0..12 {
                pairs.push((rng.u32(self.ul), rng.u32(self.ur)));
            }
        }
        for (l, r) in pairs {
            cov.facts += 1;
            let want = byl.get(&l).is_some_and(|p| p.1.value() == r);
            ensure!(m.are_paired(&self.pl[l as usize], &self.pr[r as usize]) == want, "are_paired({l}, {r}) is {} but iter says {want}", !want);
        }
        Ok(())
    }

    fn effects(&mut self, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        same("len_left", &self.map.len_left(), &self.m.l.len())?;
        same("len_right", &self.map.len_right(), &self.m.r.len())?;
        if full {
            same("contents", &Self::contents(&self.map, self.m.l.len() + self.m.r.len() + 8), &self.m.items())?;
        }
        let mut kl: Vec<u32> = self.touched.iter().map(|t| t.0).collect();
        let mut kr: Vec<u32> = self.touched.iter().map(|t| t.1).collect();
        if full && self.ul <= 24 && self.ur <= 24 {
            kl = (0..self.ul).collect();
            kr = (0..self.ur).collect();
        } else {
            kl.extend((0..6).map(|_| rng.u32(self.ul)));
            kr.extend((0..4).map(|_| rng.u32(self.ur)));
        }
        cov.facts += (kl.len() + kr.len()) as u64 * 3;
        self.lookups(&kl, &kr)
    }

    /// Compares lookups by key with the model
    fn lookups(&self, kl: &[u32], kr: &[u32]) -> Res {
        for &l in kl {
            let p = &self.pl[l as usize];
            let want = self.m.l.get(&l).map(|x| (x.1, self.m.r[&x.1].0));
            same(&format!("get_right({l})"), &self.map.get_right(p).map(|r| r.id()), &want)?;
            same(&format!("contains_left({l})"), &self.map.contains_left(p), &want.is_some())?;
            if let Some(w) = want {
                same(&format!("are_paired({l}, {})", w.0), &self.map.are_paired(p, &self.pr[w.0 as usize]), &true)?;
            }
        }
        for &r in kr {
            let p = &self.pr[r as usize];
            let want = self.m.r.get(&r);
            same(&format!("contains_right({r})"), &self.map.contains_right(p), &want.is_some())?;
            same(&format!("is_right_paired({r})"), &self.map.is_right_paired(p), &want.is_some_and(|w| !w.1.is_empty()))?;
            let n = want.map_or(0, |w| w.1.len());
            if n < 60 || kl.len() as u32 == self.ul {
                let g = self.map.get_left_iter(p).map(|i| sorted(&i.take(n + 8).map(|l| l.id()).collect::<Vec<_>>()));
                same(&format!("get_left_iter({r})"), &g, &want.map(|w| w.1.iter().map(|l| (*l, self.m.l[l].0)).collect()))?;
            }
        }
        Ok(())
    }

    fn probes(&self) -> i64 {
        (self.pl.len() + self.pr.len()) as i64
    }
    fn owned(&self) -> Res {
        let (il, ir) = (self.map.iter_left(), self.map.iter_right());
        let n = il.len() + ir.len();
        let (mut k, mut dead) = (0, None);
        for (v, i) in il.map(|l| (l.v, l.inst)).take(n + 8).chain(ir.map(|r| (r.v, r.inst)).take(n + 8)) {
            k += 1;
            if !key::is_alive(i) {
                dead = dead.or(Some((v, i)));
            }
        }
        ensure!(dead.is_none(), "item {dead:?} (value, instance) was dropped while in the map");
        ensure!(k == n, "{k} items iterated, {n} announced");
        if let Some(f) = key::fault() {
            return Err(f);
        }
        let want = n as i64 + self.probes();
        ensure!(key::alive() == want, "{} items are alive but the map and the probes own {want}: leaked or lost items", key::alive());
        Ok(())
    }
    fn aim(&self, op: &Op) -> Op {
        let mut o = *op;
        if matches!(o.k, 0..=2 | 6 | 7) {
            o.b = aim(o.b, self.m.l.get(&o.a).map(|x| x.1), self.ur)
        }
        o
    }
    fn retain(&mut self, kind: u32, p: u32, boom: Option<u32>, cov: &mut Cov) -> Res {
        let name = ["retain_paired", "retain_unpaired"][kind as usize];
        let before = self.m.items();
        let n = before.len();
        let scope: Vec<It> = before.iter().filter(|i| i.0.is_some() == (kind == 0)).copied().collect();
        let mut calls: Vec<(It, bool)> = Vec::new();
        let mut blown = false;
        let r = {
            let (map, calls, blown) = (&mut self.map, &mut calls, &mut blown);
            let mut ncall = 0;
            let mut f = |i: It| {
                key::call(key::Call::Pred);
                if boom == Some(ncall) {
                    *blown = true;
                    std::panic::panic_any(key::INJECTED);
                }
                let v = pred(p, ncall, i.0.map(|l| l.0), Some(i.1 .0));
                ncall += 1;
                calls.push((i, v));
                v
            };
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
                0 => map.retain_paired(|l, r| f((Some(l.id()), r.id()))),
                _ => map.retain_unpaired(|r| f((None, r.id()))),
            }))
        };
        if let Err(e) = r {
            if !blown {
                std::panic::resume_unwind(e);
            }
            cov.bump("injected_closure_panics", 1);
        }
        let seen = sorted(&calls.iter().map(|c| c.0).collect::<Vec<_>>());
        let bound = n * 2 + 8;
        let rm = |m: &mut Model, i: &It| match i.0 {
            Some(l) => drop(m.rm_l(l.0)),
            None => drop(m.rm_r(i.1 .0)),
        };
        let lost_before: Vec<u32> = self.m.r.values().map(|x| x.0).collect();
        let lefts: Vec<Id> = self.m.l.iter().map(|(l, x)| (*l, x.0)).collect();
        if !blown {
            same(&format!("{name}: items shown to the closure"), &seen, &scope)?;
            // The tests pin that the items for which the closure returns true are dropped
            for (i, v) in &calls {
                if *v {
                    rm(&mut self.m, i);
                }
            }
        } else {
            let now: Vec<It> = Self::contents(&self.map, bound);
            let (out, now): (BTreeSet<_>, BTreeSet<_>) = (calls.iter().filter(|c| c.1).map(|c| c.0).collect(), now.into_iter().collect());
            for i in &scope {
                let rejected = out.contains(i);
                let there = now.contains(i);
                ensure!(there || rejected, "{name} lost {i:?} when its closure panicked");
                if !there {
                    rm(&mut self.m, i);
                }
            }
        }
        same(&format!("contents after {name}"), &Self::contents(&self.map, bound), &self.m.items())?;
        let kept: BTreeSet<u32> = self.m.r.values().map(|x| x.0).chain(self.m.l.values().map(|x| x.0)).collect();
        for i in lost_before.iter().copied().chain(lefts.iter().map(|l| l.1)) {
            ensure!(key::is_alive(i) == kept.contains(&i), "{name}: instance {i} in the map: {}, alive: {}", kept.contains(&i), key::is_alive(i));
        }
        cov.facts += n as u64 * 2;
        Ok(())
    }
}

impl Sys for Group {
    const NAME: &'static str = "group";
    const OPS: &'static [&'static str] = &[
        "insert", "insert_remove", "insert_left", "insert_right", "swap_right", "swap_right_remove", "pair", "remove", "remove_left",
        "remove_right", "clear", "retain_paired", "retain_unpaired", "retain_panic", "replace_by_clone", "extend", "extend_opt", "skip_ids",
    ];

    fn new(cfg: &Cfg) -> Self {
        let b = TB::new(cfg.mode, cfg.hseed);
        Group {
            map: if cfg.cap == 0 { GroupMap::with_hasher(b) } else { GroupMap::with_capacity_and_hasher(cfg.cap as usize, b) },
            m: Model::default(),
            pl: (0..cfg.ul).map(L::new).collect(),
            pr: (0..cfg.ur).map(R::new).collect(),
            mode: cfg.mode,
            ul: cfg.ul,
            ur: cfg.ur,
            touched: Vec::new(),
        }
    }

    fn class_of(k: u8) -> u32 {
        match k {
            11..=13 => RET,
            14 => CLONE,
            15 | 16 => EXT,
            _ => EFF,
        }
    }

    fn gen(rng: &mut Rng, cfg: &Cfg, w: &[u32]) -> Op {
        let k = pick_weighted(rng, w);
        let (ul, ur) = (cfg.ul, cfg.ur);
        let (a, b, c) = match k {
            0 => (rng.u32(ul), rng.u32(ur), 0),
            1 | 2 => (rng.u32(ul), aimed(rng, ur, 8), 0),
            6 | 7 => (rng.u32(ul), aimed(rng, ur, 4), 0),
            3 | 9 => (rng.u32(ur), 0, 0),
            8 => (rng.u32(ul), 0, 0),
            4 | 5 => (rng.u32(ur), rng.u32(ur), 0),
            11 | 12 => (rng.u32(1 << 16), 0, 0),
            13 => (rng.u32(1 << 16), rng.u32(2), rng.u32(ul + 1)),
            15 | 16 => (rng.u32(1 << 30), rng.u32(ul.min(40) + 2), 0),
            14 => (rng.u32(1 << 30), 0, 0),
            17 => skip_args(rng),
            _ => (0, 0, 0),
        };
        Op { k, a, b, c }
    }

    fn step(&mut self, op: &Op, cov: &mut Cov) -> Res {
        let op = &self.aim(op);
        self.class(cov, op);
        self.touched.clear();
        let (a, b, c) = (op.a, op.b, op.c);
        let (ul, ur) = (self.ul, self.ur);
        let name = Self::OPS[op.k as usize];
        let kl = |x: u32| &self.pl[x as usize];
        let kr = |x: u32| &self.pr[x as usize];
        match op.k {
            17 => {
                #[cfg(verif_hooks)]
                self.map.verif_skip_pairings(skip_by(op));
            }
            0 => {
                if self.m.paired(a, b) {
                    // Inserting a pair that is paired already is a known finding
                    cov.bump("excluded:K3", 1);
                    return Ok(());
                }
                let (l, r) = (L::new(a), R::new(b));
                self.touched.extend([(a, b), (a, self.m.l.get(&a).map_or(b, |x| x.1))]);
                self.m.ins(l.id(), r.id());
                self.map.insert(l, r);
            }
            1 => {
                let (l, r) = (L::new(a), R::new(b));
                self.touched.extend([(a, b), (a, self.m.l.get(&a).map_or(b, |x| x.1))]);
                let want = self.m.ins_rm(l.id(), r.id());
                let got = self.map.insert_remove(l, r);
                let got = (got.0.as_ref().map(|l| l.id()), gid(&got.1.as_ref().map(|x| (&x.0, &x.1))));
                ret(&format!("insert_remove({a}, {b})"), &got, &want)?;
            }
            2 => {
                let l = L::new(a);
                self.touched.extend([(a, b), (a, self.m.l.get(&a).map_or(b, |x| x.1))]);
                let mut want = None;
                if self.m.r.contains_key(&b) {
                    want = self.m.rm_l(a);
                    self.m.l.insert(a, (l.inst, b));
                    self.m.home(a, b);
                }
                let got = self.map.insert_left(l, kr(b));
                ret(&format!("insert_left({a}, {b})"), &got.map(|l| l.id()), &want)?;
            }
            3 => {
                let r = R::new(a);
                self.touched.push((0, a));
                let want = self.m.ins_r(r.id());
                let got = self.map.insert_right(r);
                ret(&format!("insert_right({a})"), &gid(&got.as_ref().map(|x| (&x.0, &x.1))), &want)?;
            }
            4 => {
                let new = R::new(b);
                self.touched.extend([(self.m.r.get(&a).and_then(|x| x.1.first().copied()).unwrap_or(0), a), (0, b)]);
                self.m.sw(a, new.id(), false);
                self.map.swap_right(kr(a), new);
            }
            5 => {
                let new = R::new(b);
                self.touched.extend([(self.m.r.get(&a).and_then(|x| x.1.first().copied()).unwrap_or(0), a), (0, b)]);
                let want = self.m.sw(a, new.id(), true);
                let got = self.map.swap_right_remove(kr(a), new);
                ret(&format!("swap_right_remove({a}, {b})"), &got.map(|r| r.id()), &want)?;
            }
            6 => {
                self.touched.extend([(a, b), (a, self.m.l.get(&a).map_or(b, |x| x.1))]);
                let want = self.m.l.contains_key(&a) && self.m.r.contains_key(&b);
                if want {
                    self.m.home(a, b);
                }
                let got = self.map.pair(kl(a), kr(b));
                ret(&format!("pair({a}, {b})"), &got, &want)?;
            }
            7 => {
                self.touched.push((a, b));
                let want = if self.m.paired(a, b) { self.m.rm_r(b) } else { None };
                let got = self.map.remove(kl(a), kr(b));
                ret(&format!("remove({a}, {b})"), &gid(&got.as_ref().map(|x| (&x.0, &x.1))), &want)?;
            }
            8 => {
                self.touched.push((a, self.m.l.get(&a).map_or(0, |x| x.1)));
                let want = self.m.rm_l(a);
                let got = self.map.remove_left(kl(a));
                ret(&format!("remove_left({a})"), &got.map(|l| l.id()), &want)?;
            }
            9 => {
                self.touched.push((self.m.r.get(&a).and_then(|x| x.1.first().copied()).unwrap_or(0), a));
                let want = self.m.rm_r(a);
                let got = self.map.remove_right(kr(a));
                ret(&format!("remove_right({a})"), &gid(&got.as_ref().map(|x| (&x.0, &x.1))), &want)?;
            }
            10 => {
                let cap = (self.map.capacity_left(), self.map.capacity_right());
                let al = crate::alloc::stats().allocs;
                self.map.clear();
                ensure!(crate::alloc::stats().allocs == al, "[CAP] clear allocated memory");
                ensure!(self.map.capacity_left() >= cap.0 && self.map.capacity_right() >= cap.1, "[CAP] clear lowered the capacity from {cap:?}");
                self.m = Model::default();
            }
            11 | 12 => self.retain(op.k as u32 - 11, a, None, cov)?,
            13 => self.retain(b % 2, a, Some(c), cov)?,
            14 => {
                let c = self.copy(a as u64, cov);
                same("hasher of a clone", &(c.hasher().seed, c.hasher().mode), &(self.map.hasher().seed, self.map.hasher().mode))?;
                let n = self.m.items().len();
                let mut m = Model::default();
                for (l, r) in c.iter().take(n + 8) {
                    m.r.entry(r.value()).or_insert((r.inst, BTreeSet::new()));
                    if let Some(l) = l {
                        m.l.insert(l.value(), (l.inst, r.value()));
                        m.home(l.value(), r.value());
                    }
                }
                same("contents of a clone", &m.values(), &self.m.values())?;
                same("lengths of a clone", &(c.len_left(), c.len_right()), &(self.m.l.len(), self.m.r.len()))?;
                self.m = m;
                self.map = c;
            }
            15 | 16 => {
                let mut rng = Rng::new(a as u64);
                let mut src = Vec::new();
                for _ in 0..b {
                    let (l, r) = (rng.u32(ul), rng.u32(ur));
                    let single = op.k == 16 && rng.chance(1, 4);
                    if !single && self.m.paired(l, r) {
                        continue;
                    }
                    self.touched.push((l, r));
                    let r = R::new(r);
                    if single {
                        self.m.ins_r(r.id());
                        src.push((None, r));
                    } else {
                        let l = L::new(l);
                        self.m.ins(l.id(), r.id());
                        src.push((Some(l), r));
                    }
                }
                if op.k == 16 {
                    self.map.extend(src);
                } else {
                    self.map.extend(src.into_iter().map(|(l, r)| (l.unwrap(), r)));
                }
            }
            _ => return Err(format!("unknown op {}", op.k)),
        }
        let _ = c;
        note(|| format!("{name} lens {} {}", self.map.len_left(), self.map.len_right()));
        Ok(())
    }

    fn audit(&mut self, what: u32, full: bool, rng: &mut Rng, cov: &mut Cov) -> Res {
        cov.audits += 1;
        match what {
            COH => self.coherence(full, rng, cov),
            EFF => self.effects(full, rng, cov),
            ITER => self.check_iters(rng, cov),
            CLONE => self.check_clone(rng, cov),
            FORM => {
                for _ in 0..8 {
                    let (l, r) = (rng.u32(self.ul), rng.u32(self.ur));
                    cov.facts += 2;
                    same(&format!("get_right of the borrowed form of {l}"), &self.map.get_right(&Form::<0>(l)).map(|x| x.id()), &self.map.get_right(&self.pl[l as usize]).map(|x| x.id()))?;
                    let f = |i: Vec<Id>| sorted(&i);
                    same(
                        &format!("get_left_iter of the borrowed form of {r}"),
                        &self.map.get_left_iter(&Form::<1>(r)).map(|i| f(i.map(|x| x.id()).collect())),
                        &self.map.get_left_iter(&self.pr[r as usize]).map(|i| f(i.map(|x| x.id()).collect())),
                    )?;
                    cov.tuple(&[11, self.mode as u64, self.m.l.contains_key(&l) as u64, self.state_r(r), self.m.l.len().min(40) as u64]);
                }
                Ok(())
            }
            _ => {
                cov.facts += 1;
                self.owned()
            }
        }
    }

    fn lookups_agree(&self) -> bool {
        let kl: Vec<u32> = (0..self.ul).collect();
        let kr: Vec<u32> = (0..self.ur).collect();
        self.lookups(&kl, &kr).is_ok()
    }

    fn resync(&mut self) -> bool {
        let (nl, nr) = (self.map.len_left(), self.map.len_right());
        let v = Self::contents(&self.map, nl + nr + 8);
        let mut m = Model::default();
        for (l, r) in &v {
            let e = m.r.entry(r.0).or_insert((r.1, BTreeSet::new()));
            if e.0 != r.1 {
                return false;
            }
            if let Some(l) = l {
                e.1.insert(l.0);
                if m.l.insert(l.0, (l.1, r.0)).is_some() {
                    return false;
                }
            }
        }
        self.m = m;
        self.m.l.len() == nl && self.m.r.len() == nr
    }

    fn rebuild(&mut self) {
        let map = build(&self.m.values(), self.map.hasher().clone());
        std::mem::forget(std::mem::replace(&mut self.map, map));
        self.resync();
    }

    fn teardown(&mut self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let mut i = 0u32;
        loop {
            let n = (self.map.len_left(), self.map.len_right());
            let Some((l, r)) = self.map.iter().next().map(|(l, r)| (l.map(|l| l.value()), r.value())) else { break };
            cov.facts += 2;
            i += 1;
            ensure!(i < 1 << 22, "removing doesn't end");
            if i > 6_000 && self.map.len_left() + self.map.len_right() > 10_000 {
                // Finding the next item takes ever longer
                self.m = Model::default();
                return Ok(());
            }
            match l {
                Some(l) if rng.chance(3, 4) => {
                    let g = self.map.remove_left(&self.pl[l as usize]).map(|l| l.value());
                    ensure!(g == Some(l), "remove_left({l}) of a stored item returned {g:?}");
                    let now = (self.map.len_left(), self.map.len_right());
                    ensure!(now == (n.0 - 1, n.1), "lengths {now:?} after removing one left item of {n:?}");
                }
                _ => {
                    let members = self.map.get_left_iter(&self.pr[r as usize]).map_or(0, |i| i.len());
                    ensure!((members > 0) == l.is_some(), "iter and get_left_iter disagree on the group of {r}");
                    let g = match l {
                        Some(l) if rng.chance(1, 2) => self.map.remove(&self.pl[l as usize], &self.pr[r as usize]),
                        _ => self.map.remove_right(&self.pr[r as usize]),
                    };
                    let Some(g) = g else { return Err(format!("removing the stored right item {r} returned None")) };
                    ensure!(g.1.value() == r && g.0.len() == members, "removing {r} with {members} members returned {} and {}", g.1.value(), g.0.len());
                    let now = (self.map.len_left(), self.map.len_right());
                    ensure!(now == (n.0 - members, n.1 - 1), "lengths {now:?} after removing a group of {members} from {n:?}");
                }
            }
        }
        ensure!(self.map.is_empty() && self.map.iter_left().next().is_none() && self.map.iter_right().next().is_none(), "items left after removing everything");
        self.m = Model::default();
        Ok(())
    }
    fn model_len(&self) -> usize {
        self.m.l.len() + self.m.r.len()
    }
    fn model_hash(&self) -> u64 {
        let h = self.m.l.iter().fold(3, |h, (l, x)| mix(h ^ ((*l as u64) << 32 | x.1 as u64)));
        self.m.r.iter().filter(|x| x.1 .1.is_empty()).fold(h, |h, (r, _)| mix(h ^ 7 ^ ((*r as u64) << 32)))
    }
}
