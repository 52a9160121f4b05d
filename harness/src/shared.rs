//! C18: maps read by many threads at once, independent maps changed by many threads at once, and
//! maps, iterators and drains that change threads. The items hold Arcs, so that what happens to
//! them on any thread can be counted, and their Hash and Eq give way to other threads at random.
use crate::checks::Viol;
use crate::rng::{mix, Rng};
use crate::sys::{Cov, Res};
use crate::ensure;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde_json::json;
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier};

thread_local! {
    /// One in so many calls of Hash and Eq yields the processor (0: never)
    static GIVE_WAY: Cell<u64> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(1) };
}
fn give_way() {
    let n = GIVE_WAY.with(|g| g.get());
    if n > 0 {
        let t = TICK.with(|t| {
            t.set(mix(t.get()));
            t.get()
        });
        if t % n == 0 {
            std::thread::yield_now();
        }
    }
}

/// left i and right i differ in type only by the flag
#[derive(Clone)]
pub struct It(Arc<u64>);
impl It {
    fn v(&self) -> u64 {
        *self.0
    }
}
impl Hash for It {
    fn hash<H: Hasher>(&self, h: &mut H) {
        give_way();
        h.write_u64(*self.0)
    }
}
impl PartialEq for It {
    fn eq(&self, o: &It) -> bool {
        give_way();
        *self.0 == *o.0
    }
}
impl Eq for It {}
impl std::fmt::Debug for It {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl serde::Serialize for It {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(*self.0)
    }
}

/// Sound on several threads: without state
#[derive(Clone)]
pub struct Hb {
    mode: u8,
    good: hashbrown::hash_map::DefaultHashBuilder,
}
pub struct Hr(u8, u64, Option<<hashbrown::hash_map::DefaultHashBuilder as BuildHasher>::Hasher>);
impl BuildHasher for Hb {
    type Hasher = Hr;
    fn build_hasher(&self) -> Hr {
        Hr(self.mode, 0, (self.mode == 0).then(|| self.good.build_hasher()))
    }
}
impl Hasher for Hr {
    fn write(&mut self, b: &[u8]) {
        b.iter().for_each(|x| self.write_u64(*x as u64))
    }
    fn write_u64(&mut self, x: u64) {
        if let Some(h) = &mut self.2 {
            h.write_u64(x)
        }
        self.1 = mix(self.1 ^ x)
    }
    fn finish(&self) -> u64 {
        match self.0 {
            0 => self.2.as_ref().unwrap().finish(),
            1 => 42,
            2 => self.1 % 3,
            _ => self.1,
        }
    }
}

type C = CycleMap<It, It, Hb>;
type P = PartialCycleMap<It, It, Hb>;
type G = GroupMap<It, It, Hb>;

/// All items of a case, so that they can be counted at its end
struct Pool {
    l: Vec<It>,
    r: Vec<It>,
}
impl Pool {
    fn new(n: u64) -> Pool {
        Pool { l: (0..n).map(|i| It(Arc::new(i))).collect(), r: (0..n).map(|i| It(Arc::new(1000 + i))).collect() }
    }
    fn n(&self) -> u64 {
        self.l.len() as u64
    }
    fn pick(&self, rng: &mut Rng) -> (&It, &It) {
        let n = self.n();
        let i = rng.below(n) as usize;
        let j = if rng.chance(1, 2) { i } else { rng.below(n) as usize };
        (&self.l[i], &self.r[j])
    }
}
fn v(o: Option<&It>) -> i64 {
    o.map_or(-1, |x| x.v() as i64)
}
fn op(o: &OptionalPair<&It, &It>) -> (i64, i64) {
    match o {
        OptionalPair::Neither => (-2, -2),
        OptionalPair::SomeLeft(l) => (l.v() as i64, -1),
        OptionalPair::SomeRight(r) => (-1, r.v() as i64),
        OptionalPair::SomeBoth(l, r) => (l.v() as i64, r.v() as i64),
    }
}
fn opo(o: &OptionalPair<It, It>) -> (i64, i64) {
    op(&match o {
        OptionalPair::Neither => OptionalPair::Neither,
        OptionalPair::SomeLeft(l) => OptionalPair::SomeLeft(l),
        OptionalPair::SomeRight(r) => OptionalPair::SomeRight(r),
        OptionalPair::SomeBoth(l, r) => OptionalPair::SomeBoth(l, r),
    })
}
fn set<T: Ord>(i: impl Iterator<Item = T>) -> Vec<T> {
    let mut x: Vec<T> = i.collect();
    x.sort();
    x
}
fn digits(s: &str) -> Vec<u64> {
    let mut x: Vec<u64> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    x.sort();
    x
}

/// Crosses threads whether or not the compiler likes it: what may is for `markers` to judge, and
/// this must compile for any tree
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

trait Shared: 'static + Sized + Clone {
    const NAME: &'static str;
    const READS: u64;
    fn empty(h: Hb) -> Self;
    /// one change; what it answers
    fn change(&mut self, k: u64, p: &Pool, rng: &mut Rng) -> String;
    /// one query; what it answers. `b` is another shared map
    fn read(&self, b: &Self, k: u64, p: &Pool, rng: &mut Rng) -> String;
    /// Takes everything out in some way on this thread; what came out and what stayed
    fn use_up(self, k: u64, n: usize) -> String;
    fn contents(&self) -> Vec<(i64, i64)>;
    fn moved_iterators(&self) -> bool;
}

/// The pieces of an iterator that may be used while others use theirs
fn walk<I: ExactSizeIterator + Clone>(mut i: I, rng: &mut Rng, f: impl Fn(I::Item) -> (i64, i64)) -> String {
    let n = i.len();
    let k = rng.below(n as u64 + 1) as usize;
    let first: Vec<_> = i.by_ref().take(k).map(&f).collect();
    give_way();
    let c = i.clone();
    let hint = i.size_hint();
    let mut all: Vec<_> = first;
    all.extend(i.map(&f));
    let rest = c.count();
    all.sort();
    format!("{n} {rest} {hint:?} {all:?}").replace(&format!("{rest} {:?}", (n - k, Some(n - k))), "ok")
}

impl Shared for C {
    const NAME: &'static str = "cycle";
    const READS: u64 = 14;
    fn empty(h: Hb) -> C {
        C::with_hasher(h)
    }
    fn change(&mut self, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        let (l2, r2) = p.pick(rng);
        match k % 9 {
            0..=3 => format!("{:?}", self.insert(l.clone(), r.clone())),
            4 => format!("{:?}", self.remove(l, r)),
            5 => format!("{:?}", self.remove_via_left(l)),
            6 => format!("{:?}", self.remove_via_right(r)),
            7 => format!("{:?}", self.swap_left(l, l2.clone())),
            _ => format!("{:?}", self.swap_right(r, r2.clone())),
        }
    }
    fn read(&self, b: &C, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        match k % Self::READS {
            0 | 1 => format!("{}", v(self.get_right(l))),
            2 | 3 => format!("{}", v(self.get_left(r))),
            4 => format!("{}{}", self.contains_left(l), self.contains_right(r)),
            5 => format!("{}", self.are_paired(l, r)),
            6 => format!("{}{}{}", self.len(), self.is_empty(), self.capacity()),
            7 => walk(self.iter(), rng, |(l, r)| (l.v() as i64, r.v() as i64)),
            8 => walk(self.iter_left(), rng, |l| (l.v() as i64, 0)),
            9 => walk(self.iter_right(), rng, |r| (0, r.v() as i64)),
            10 => {
                let c = self.clone();
                format!("{:?}{}", c.contents(), c == *self)
            }
            11 => format!("{}{}", self == b, b == self),
            12 => format!("{:?}", digits(&format!("{self:?}"))),
            _ => format!("{:?}", digits(&serde_json::to_string(self).unwrap())),
        }
    }
    fn use_up(mut self, k: u64, n: usize) -> String {
        match k % 5 {
            0 => format!("{:?}", set(self.drain().take(n).map(|(l, r)| (l.v(), r.v()))).len()),
            1 => format!("{:?}", set(self.drain().map(|(l, r)| (l.v(), r.v())))),
            2 => {
                self.retain(|l, _| l.v() % 2 == 0);
                format!("{:?}", self.contents())
            }
            3 => {
                let d = set(self.drain_filter(|_, r| r.v() % 3 == 0).map(|(l, r)| (l.v(), r.v())));
                format!("{d:?}{:?}", self.contents())
            }
            _ => {
                self.clear();
                self.shrink_to_fit();
                format!("{:?}", self.contents())
            }
        }
    }
    fn contents(&self) -> Vec<(i64, i64)> {
        set(self.iter().map(|(l, r)| (l.v() as i64, r.v() as i64)))
    }
    fn moved_iterators(&self) -> bool {
        let (a, b, c) = (self.iter(), self.iter_left(), self.iter_right());
        if !((&w(&a)).send() && (&w(&b)).send() && (&w(&c)).send()) {
            return true;
        }
        let f = Force((a, b, c));
        std::thread::scope(|s| {
            s.spawn(move || {
                let (a, b, c) = f.take();
                (a.count(), b.count(), c.count())
            })
            .join()
            .unwrap()
        }) == (self.len(), self.len(), self.len())
    }
}

impl Shared for P {
    const NAME: &'static str = "partial";
    const READS: u64 = 17;
    fn empty(h: Hb) -> P {
        P::with_hasher(h)
    }
    fn change(&mut self, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        let (l2, r2) = p.pick(rng);
        match k % 15 {
            0..=3 => format!("{:?}", self.insert(l.clone(), r.clone())),
            4 => format!("{:?}", self.insert_left(l.clone())),
            5 => format!("{:?}", self.insert_right(r.clone())),
            6 => format!("{:?}", self.pair(l, r)),
            7 => format!("{:?}", self.unpair(l, r)),
            8 => format!("{:?}", self.remove(l, r)),
            9 => format!("{:?}", self.remove_left(l)),
            10 => format!("{:?}", self.remove_right(r)),
            11 => format!("{:?}", self.remove_via_left(l)),
            12 => format!("{:?}", self.pair_forced_remove(l, r)),
            13 => format!("{:?}", self.swap_left(l, l2.clone())),
            _ => format!("{:?}", self.swap_right(r, r2.clone())),
        }
    }
    fn read(&self, b: &P, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        match k % Self::READS {
            0 | 1 => format!("{}", v(self.get_right(l))),
            2 | 3 => format!("{}", v(self.get_left(r))),
            4 => format!("{}{}", self.contains_left(l), self.contains_right(r)),
            5 => format!("{}{}{}", self.are_paired(l, r), self.is_left_paired(l), self.is_right_paired(r)),
            6 => format!("{}{}{}", self.len_left(), self.len_right(), self.is_empty()),
            7 => walk(self.iter(), rng, |o| op(&o)),
            8 => walk(self.iter_left(), rng, |l| (l.v() as i64, 0)),
            9 => walk(self.iter_right(), rng, |r| (0, r.v() as i64)),
            10 => {
                let c = self.clone();
                format!("{:?}{}", c.contents(), c == *self)
            }
            11 => format!("{}{}", self == b, b == self),
            12 => format!("{:?}", digits(&format!("{self:?}"))),
            13 => walk(self.iter_paired(), rng, |(l, r)| (l.v() as i64, r.v() as i64)),
            14 => walk(self.iter_unpaired(), rng, |o| op(&o)),
            15 => format!("{:?}", digits(&format!("{:?}", self.iter()))),
            _ => format!("{}{}", self.capacity_left(), self.capacity_right()),
        }
    }
    fn use_up(mut self, k: u64, n: usize) -> String {
        match k % 5 {
            0 => format!("{:?}", self.drain().take(n).count()),
            1 => format!("{:?}", set(self.drain().map(|o| opo(&o)))),
            2 => {
                self.retain_paired(|l, _| l.v() % 2 == 0);
                format!("{:?}", self.contents())
            }
            3 => {
                let d = set(self.drain_filter(|o| op(&o).0 % 3 == 0).map(|o| opo(&o)));
                format!("{d:?}{:?}", self.contents())
            }
            _ => {
                self.clear();
                self.shrink_to_fit();
                format!("{:?}", self.contents())
            }
        }
    }
    fn contents(&self) -> Vec<(i64, i64)> {
        set(self.iter().map(|o| op(&o)))
    }
    fn moved_iterators(&self) -> bool {
        let (a, b, c) = (self.iter(), self.iter_left(), self.iter_right());
        let (d, e) = (self.iter_paired(), self.iter_unpaired());
        if !((&w(&a)).send() && (&w(&b)).send() && (&w(&c)).send() && (&w(&d)).send() && (&w(&e)).send()) {
            return true;
        }
        let f = Force((a, b, c, d, e));
        std::thread::scope(|s| {
            s.spawn(move || {
                let (a, b, c, d, e) = f.take();
                (a.count() == d.count() + e.count(), b.count(), c.count())
            })
            .join()
            .unwrap()
        }) == (true, self.len_left(), self.len_right())
    }
}

impl Shared for G {
    const NAME: &'static str = "group";
    const READS: u64 = 17;
    fn empty(h: Hb) -> G {
        G::with_hasher(h)
    }
    fn change(&mut self, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        let (_, r2) = p.pick(rng);
        match k % 11 {
            0..=3 => {
                // not a pair that is paired already: known finding
                if self.get_right(l) != Some(r) {
                    self.insert(l.clone(), r.clone());
                }
                String::new()
            }
            4 => format!("{:?}", self.insert_right(r.clone()).map(|(s, r)| (r.v(), set(s.iter().map(|l| l.v()))))),
            5 => format!("{:?}", self.remove(l, r).map(|(s, r)| (r.v(), set(s.iter().map(|l| l.v()))))),
            6 => format!("{:?}", self.remove_left(l)),
            7 => format!("{:?}", self.remove_right(r).map(|(s, r)| (r.v(), set(s.iter().map(|l| l.v()))))),
            8 => {
                self.swap_right(r, r2.clone());
                String::new()
            }
            9 => format!("{:?}", self.insert_left(l.clone(), r)),
            _ => {
                if self.get_right(l) != Some(r) {
                    format!("{:?}", self.insert_remove(l.clone(), r.clone()).1.map(|(s, r)| (r.v(), set(s.iter().map(|l| l.v())))))
                } else {
                    String::new()
                }
            }
        }
    }
    fn read(&self, b: &G, k: u64, p: &Pool, rng: &mut Rng) -> String {
        let (l, r) = p.pick(rng);
        let pair = |(l, r): (Option<&It>, &It)| (v(l), r.v() as i64);
        match k % Self::READS {
            0 | 1 => format!("{}", v(self.get_right(l))),
            2 | 3 => self.get_left_iter(r).map_or("none".into(), |i| walk(i, rng, |l| (l.v() as i64, 0))),
            4 => format!("{}{}", self.contains_left(l), self.contains_right(r)),
            5 => format!("{}{}", self.are_paired(l, r), self.is_right_paired(r)),
            6 => format!("{}{}{}", self.len_left(), self.len_right(), self.is_empty()),
            7 => walk(self.iter(), rng, pair),
            8 => walk(self.iter_left(), rng, |l| (l.v() as i64, 0)),
            9 => walk(self.iter_right(), rng, |r| (0, r.v() as i64)),
            10 => {
                let c = self.clone();
                format!("{:?}{}", c.contents(), c == *self)
            }
            11 => format!("{}{}", self == b, b == self),
            12 => format!("{:?}", digits(&format!("{self:?}"))),
            13 => walk(self.iter_paired(), rng, |(l, r)| (l.v() as i64, r.v() as i64)),
            14 => walk(self.iter_unpaired(), rng, |r| (0, r.v() as i64)),
            15 => format!("{:?}", digits(&format!("{:?}", self.iter()))),
            _ => format!("{}{}", self.capacity_left(), self.capacity_right()),
        }
    }
    fn use_up(mut self, k: u64, n: usize) -> String {
        match k % 4 {
            0 => {
                let some: Vec<It> = self.iter_right().take(n).cloned().collect();
                let out: Vec<_> = some.iter().map(|r| self.remove_right(r).map(|(s, r)| (r.v(), set(s.iter().map(|l| l.v()))))).collect();
                format!("{}{}", out.len(), self.len_right())
            }
            1 => {
                self.retain_unpaired(|r| r.v() % 2 == 0);
                format!("{:?}", self.contents())
            }
            2 => {
                self.retain_paired(|l, _| l.v() % 2 == 0);
                format!("{:?}", self.contents())
            }
            _ => {
                self.clear();
                format!("{:?}", self.contents())
            }
        }
    }
    fn contents(&self) -> Vec<(i64, i64)> {
        set(self.iter().map(|(l, r)| (v(l), r.v() as i64)))
    }
    fn moved_iterators(&self) -> bool {
        let (a, b, c) = (self.iter(), self.iter_left(), self.iter_right());
        let (d, e) = (self.iter_paired(), self.iter_unpaired());
        if !((&w(&a)).send() && (&w(&b)).send() && (&w(&c)).send() && (&w(&d)).send() && (&w(&e)).send()) {
            return true;
        }
        let f = Force((a, b, c, d, e));
        std::thread::scope(|s| {
            s.spawn(move || {
                let (a, b, c, d, e) = f.take();
                (a.count() == d.count() + e.count(), b.count(), c.count())
            })
            .join()
            .unwrap()
        }) == (true, self.len_left(), self.len_right())
    }
}

fn grow<M: Shared>(h: Hb, steps: u64, p: &Pool, rng: &mut Rng) -> (M, Vec<String>) {
    let mut m = M::empty(h);
    let answers = (0..steps).map(|_| m.change(rng.next(), p, rng)).collect();
    (m, answers)
}

fn together<M: Shared>(rng: &mut Rng, cov: &mut Cov, slow: bool) -> Res {
    let n = [3, 8, 20, 40][rng.below(if slow { 2 } else { 4 }) as usize];
    let pool = Pool::new(n);
    let h = Hb { mode: [0, 0, 3, 1, 2][rng.below(5) as usize], good: Default::default() };
    let threads = 2 + rng.below(3);
    let steps = if slow { 12 } else { 20 + rng.below(60) };
    let (before, _) = grow::<M>(h.clone(), n * 3, &pool, rng);
    let other = if rng.chance(1, 2) { before.clone() } else { grow::<M>(h.clone(), n * 3, &pool, rng).0 };
    let script = |t: u64, s: u64| Rng::new(mix(s ^ t));
    let s0 = rng.next();

    // 1. one map, read by all
    let alone = |t: u64| {
        let mut r = script(t, s0);
        (0..steps).map(|_| { let k = r.next(); before.read(&other, k, &pool, &mut r) }).collect::<Vec<_>>()
    };
    let want: Vec<Vec<String>> = (0..threads).map(alone).collect();
    let order = AtomicUsize::new(0);
    let bar = Barrier::new(threads as usize);
    let give = 1 + rng.below(40);
    let got: Vec<(Vec<String>, Vec<usize>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (both, pool, order, bar) = (Force((&before, &other)), &pool, &order, &bar);
                s.spawn(move || {
                    let (before, other) = *both.get();
                    GIVE_WAY.with(|g| g.set(give));
                    TICK.with(|g| g.set(mix(s0 ^ t)));
                    let mut r = script(t, s0);
                    bar.wait();
                    let mut at = Vec::new();
                    let out = (0..steps)
                        .map(|_| {
                            // Relaxed: nothing becomes ordered by this
                            at.push(order.fetch_add(1, Relaxed));
                            let k = r.next();
                            before.read(other, k, pool, &mut r)
                        })
                        .collect::<Vec<_>>();
                    (out, at)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut schedule = vec![0u64; (threads * steps) as usize];
    for (t, (g, at)) in got.iter().enumerate() {
        for x in at {
            schedule[*x] = t as u64;
        }
        for (i, (a, b)) in g.iter().zip(&want[t]).enumerate() {
            ensure!(a == b, "{}: read {i} of thread {t} of {threads} answered {a}, alone it answers {b}", M::NAME);
        }
    }
    let switches = schedule.windows(2).filter(|w| w[0] != w[1]).count();
    cov.bump("thread_switches_between_reads", switches as u64);
    cov.bump("shared_reads", threads * steps);
    cov.steps += threads * steps;
    cov.facts += threads * steps;
    // distinct: which thread did each read, on which contents
    let mut id = vec![1, M::NAME.len() as u64, s0];
    id.extend(&schedule);
    cov.tuple(&id);
    for (i, (a, b)) in want.iter().zip((0..threads).map(alone)).enumerate() {
        ensure!(*a == b, "{}: reading changed the map (thread {i})", M::NAME);
    }

    // 2. clones and independent maps, changed by all, while the original is read
    let s1 = rng.next();
    let kind = rng.below(2);
    let make = |t: u64| if kind == 0 { before.clone() } else { grow::<M>(h.clone(), t, &pool, &mut Rng::new(t)).0 };
    let work = |mut m: M, t: u64| {
        let mut r = script(t, s1);
        let out: Vec<String> = (0..steps).map(|_| { let k = r.next(); m.change(k, &pool, &mut r) }).collect();
        (out, m.contents(), m)
    };
    let want: Vec<_> = (0..threads).map(|t| { let x = work(make(t), t); (x.0, x.1) }).collect();
    let state = before.contents();
    let bar = Barrier::new(threads as usize + 1);
    let (got, seen) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let f = Force((&bar, &work, &before, make(t)));
                let late = t % 2 == 1 && kind == 0;
                s.spawn(move || {
                    let (bar, work, before, m) = f.take();
                    GIVE_WAY.with(|g| g.set(give));
                    bar.wait();
                    Force(work(if late { before.clone() } else { m }, t))
                })
            })
            .collect();
        bar.wait();
        let seen: Vec<_> = (0..3).map(|_| before.contents()).collect();
        (hs.into_iter().map(|h| h.join().unwrap().take()).collect::<Vec<_>>(), seen)
    });
    for s in &seen {
        ensure!(*s == state, "{}: contents {s:?} while other threads change its clones, before {state:?}", M::NAME);
    }
    cov.steps += threads * steps;
    cov.bump("changes_on_own_maps", threads * steps);
    let mut maps = Vec::new();
    for (t, ((a, c, m), (wa, wc))) in got.into_iter().zip(want).enumerate() {
        for (i, (x, y)) in a.iter().zip(&wa).enumerate() {
            ensure!(x == y, "{}: change {i} of thread {t} on a map of its own answered {x}, alone it answers {y}", M::NAME);
        }
        ensure!(c == wc, "{}: contents after the changes of thread {t} on a map of its own: {c:?}, alone {wc:?}", M::NAME);
        cov.facts += a.len() as u64 + 1;
        maps.push(m);
    }

    // 3. maps made on one thread, used up on another; iterators that change threads
    ensure!(before.moved_iterators(), "{}: iterators moved to another thread count differently", M::NAME);
    let take = rng.below(n) as usize;
    let ks: Vec<u64> = maps.iter().map(|_| rng.next()).collect();
    let want: Vec<String> = maps.iter().zip(&ks).map(|(m, k)| m.clone().use_up(*k, take)).collect();
    let got: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = maps.into_iter().map(Force).zip(&ks).map(|(m, k)| s.spawn(move || { GIVE_WAY.with(|g| g.set(give)); m.take().use_up(*k, take) })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (a, b) in got.iter().zip(&want) {
        ensure!(a == b, "{}: used up on another thread: {a}, on its own thread {b}", M::NAME);
        cov.facts += 1;
        cov.steps += 1;
    }
    cov.bump("maps_used_up_elsewhere", got.len() as u64);

    // 4. two owners of one shared map; the last one drops it
    let shared = Arc::new(Force(before));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let m = shared.clone();
            let k = pool.l[(t % n) as usize].clone();
            std::thread::spawn(move || {
                let c = m.get().contents();
                drop(k);
                drop(m);
                c
            })
        })
        .collect();
    drop(shared);
    for h in hs {
        ensure!(h.join().unwrap() == state, "{}: contents seen by another owner differ", M::NAME);
    }
    drop(other);
    for i in pool.l.iter().chain(&pool.r) {
        let c = Arc::strong_count(&i.0);
        ensure!(c == 1, "{}: {} references to item {} are left when all maps are gone", M::NAME, c - 1, i.v());
        cov.facts += 1;
    }
    Ok(())
}

// Which types may change threads or be shared, as the compiler sees it
struct W<T>(PhantomData<T>);
trait Yes {
    fn send(&self) -> bool {
        true
    }
}
trait No {
    fn send(&self) -> bool {
        false
    }
}
trait YesY {
    fn sync(&self) -> bool {
        true
    }
}
trait NoY {
    fn sync(&self) -> bool {
        false
    }
}
impl<T: Send> Yes for W<T> {}
impl<T> No for &W<T> {}
impl<T: Sync> YesY for W<T> {}
impl<T> NoY for &W<T> {}
fn w<T>(_: &T) -> W<T> {
    W(PhantomData)
}
#[derive(PartialEq, Eq)]
struct Ce(Cell<u32>);
impl Hash for Ce {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0.get())
    }
}
#[derive(Clone)]
struct RcB(#[allow(dead_code)] Rc<u32>);
impl BuildHasher for RcB {
    type Hasher = Hr;
    fn build_hasher(&self) -> Hr {
        Hr(3, 0, None)
    }
}

#[allow(clippy::needless_borrow)]
fn markers(cov: &mut Cov) -> Res {
    macro_rules! is {
        ($what:expr, $v:expr, $send:expr, $sync:expr) => {{
            let x = w(&$v);
            let got = ((&x).send(), (&x).sync());
            let want: (Option<bool>, Option<bool>) = ($send, $sync);
            ensure!(want.0.map_or(true, |s| s == got.0), "{} {} Send", $what, if got.0 { "is" } else { "isn't" });
            ensure!(want.1.map_or(true, |s| s == got.1), "{} {} Sync", $what, if got.1 { "is" } else { "isn't" });
            cov.facts += 2;
            cov.steps += 1;
            cov.tuple(&[9, cov.steps]);
        }};
    }
    let (y, n) = (Some(true), Some(false));
    fn cell(i: u32) -> Ce {
        Ce(Cell::new(i))
    }
    macro_rules! all {
        ($name:literal, $map:ident, $($more:ident),*) => {{
            let mut m: $map<It, It, Hb> = $map::with_hasher(Hb { mode: 3, good: Default::default() });
            m.insert(It(Arc::new(1)), It(Arc::new(2)));
            is!(concat!($name, " of thread safe items"), m, y, y);
            let mut m: $map<String, Box<u8>> = $map::new();
            m.insert("a".into(), Box::new(2));
            is!(concat!($name, " of strings"), m, y, y);
            // Items that may move but not be shared
            let mut m: $map<Ce, Ce> = $map::new();
            m.insert(cell(1), cell(2));
            is!(concat!($name, " of Cells"), m, y, n);
            is!(concat!("reference to ", $name, " of Cells"), &m, n, n);
            is!(concat!($name, "::iter over Cells"), m.iter(), n, n);
            is!(concat!($name, "::iter_left over Cells"), m.iter_left(), n, n);
            is!(concat!($name, "::iter_right over Cells"), m.iter_right(), n, n);
            $(is!(concat!($name, "::", stringify!($more), " over Cells"), m.$more(), n, n);)*
            // Only one side is shareable
            let mut m: $map<u8, Ce> = $map::new();
            m.insert(1, cell(2));
            is!(concat!($name, " of u8 and Cell"), m, y, n);
            is!(concat!($name, "::iter over u8 and Cell"), m.iter(), n, n);
            is!(concat!($name, "::iter_right over Cells"), m.iter_right(), n, n);
            $(is!(concat!($name, "::", stringify!($more), " over u8 and Cell"), m.$more(), n, n);)*
            let mut m: $map<Ce, u8> = $map::new();
            m.insert(cell(1), 2);
            is!(concat!($name, " of Cell and u8"), m, y, n);
            is!(concat!($name, "::iter over Cell and u8"), m.iter(), n, n);
            is!(concat!($name, "::iter_left over Cells"), m.iter_left(), n, n);
            // Items that may not even move
            let mut m: $map<Rc<u8>, u8> = $map::new();
            m.insert(Rc::new(1), 2);
            is!(concat!($name, " of Rc and u8"), m, n, n);
            let mut m: $map<u8, Rc<u8>> = $map::new();
            m.insert(1, Rc::new(2));
            is!(concat!($name, " of u8 and Rc"), m, n, n);
            is!(concat!($name, "::iter over Rcs"), m.iter(), n, n);
            let mut m: $map<u8, u8, RcB> = $map::with_hasher(RcB(Rc::new(1)));
            m.insert(1, 2);
            is!(concat!($name, " with a hasher that holds an Rc"), m, n, n);
        }};
    }
    all!("CycleMap", CycleMap,);
    all!("PartialCycleMap", PartialCycleMap, iter_paired, iter_unpaired);
    all!("GroupMap", GroupMap, iter_paired);
    let mut m: GroupMap<Ce, Ce> = GroupMap::new();
    m.insert(cell(1), cell(2));
    is!("GroupMap::get_left_iter over Cells", m.get_left_iter(&cell(2)).unwrap(), n, n);
    is!("GroupMap::iter_unpaired over Cells", m.iter_unpaired(), n, n);
    // Draining iterators own what they have yet to yield
    let mut m: CycleMap<Rc<u8>, u8> = CycleMap::new();
    m.insert(Rc::new(1), 2);
    is!("CycleMap::drain of Rcs", m.drain(), n, None);
    is!("CycleMap::drain_filter of Rcs", m.drain_filter(|_, _| true), n, None);
    let mut m: CycleMap<u8, Rc<u8>> = CycleMap::new();
    m.insert(1, Rc::new(2));
    is!("CycleMap::drain of right Rcs", m.drain(), n, None);
    is!("CycleMap::drain_filter of right Rcs", m.drain_filter(|_, _| true), n, None);
    let mut m: PartialCycleMap<Rc<u8>, u8> = PartialCycleMap::new();
    m.insert(Rc::new(1), 2);
    is!("PartialCycleMap::drain of Rcs", m.drain(), n, None);
    is!("PartialCycleMap::drain_filter of Rcs", m.drain_filter(|_| true), n, None);
    let mut m: PartialCycleMap<u8, Rc<u8>> = PartialCycleMap::new();
    m.insert(1, Rc::new(2));
    is!("PartialCycleMap::drain of right Rcs", m.drain(), n, None);
    is!("PartialCycleMap::drain_filter of right Rcs", m.drain_filter(|_| true), n, None);
    Ok(())
}

pub fn threads(i: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(i)));
    let slow = std::env::var("SLOW").is_ok();
    let x = if i == 0 {
        markers(cov)
    } else {
        match i % 3 {
            0 => together::<C>(&mut rng, cov, slow),
            1 => together::<P>(&mut rng, cov, slow),
            _ => together::<G>(&mut rng, cov, slow),
        }
    };
    cov.histories += 1;
    if cov.samples.len() < 2 && i > 0 {
        cov.samples.push(format!("{} read, cloned, changed and used up by 2 to 4 threads, case {i} seed {seed}", ["CycleMap", "PartialCycleMap", "GroupMap"][i as usize % 3]));
    }
    let m = x.err()?;
    Some(Viol { msg: format!("case {i}: {m}"), replay: json!({"kind": "case", "check": "C18", "special": true, "idx": i, "seed": seed}) })
}
