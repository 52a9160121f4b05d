//! What a map does must not depend on what kind of items it stores: the same operations are run on maps
//! of items of many types (zero sized, tiny, plain bytes, borrowed, large, over-aligned, owning, with niches)
//! and on a map of reference items, and everything returned and all contents are compared by value.
use crate::checks::Viol;
use crate::ensure;
use crate::hasher::TB;
use crate::rng::{mix, Rng};
use crate::sys::{check_iter, Cov, Res};
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use hashbrown::HashSet;
use serde_json::json;
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub trait Item: Hash + Eq + Clone + Debug + Show {
    const NAME: &'static str;
    fn make(v: u32) -> Self;
    fn v(&self) -> u32;
}
macro_rules! item {
    ($t:ty, $name:literal, $make:expr, $v:expr) => {
        impl Item for $t {
            const NAME: &'static str = $name;
            fn make(v: u32) -> Self {
                let f: fn(u32) -> $t = $make;
                f(v)
            }
            fn v(&self) -> u32 {
                let f: fn(&$t) -> u32 = $v;
                f(self)
            }
        }
        impl Show for $t {
            fn show(&self) -> String {
                self.v().to_string()
            }
        }
    };
}
const WORDS: [&str; 16] = ["", "a", "aa", "b", "ab", "ba", "abc", "\u{e9}", "aaa", "c", "zz", "z", "0", "1", "10", "01"];
fn word(w: &str) -> u32 {
    WORDS.iter().position(|x| *x == w).map_or(u32::MAX, |x| x as u32)
}
/// What the map under test is compared with: its items are made to be as distinguishable as those of the other
/// map (a bool can't tell 1 from 3)
#[derive(Hash, PartialEq, Eq, Clone, Debug)]
pub struct Reference<const S: usize>(Box<u32>);
thread_local! {
    static NORM: [Cell<fn(u32) -> u32>; 2] = const { [Cell::new(|v| v), Cell::new(|v| v)] };
}
impl<const S: usize> Item for Reference<S> {
    const NAME: &'static str = "reference";
    fn make(v: u32) -> Self {
        let f = NORM.with(|n| n[S].get());
        Reference(Box::new(f(v)))
    }
    fn v(&self) -> u32 {
        *self.0
    }
}
#[derive(Hash, PartialEq, Eq, Clone, Copy, Debug)]
pub struct Words(&'static str);
#[derive(Hash, PartialEq, Eq, Clone, Copy, Debug)]
#[repr(align(128))]
pub struct Aligned(u16);
#[derive(Hash, PartialEq, Eq, Clone, Debug)]
pub struct Maybe(Option<Box<u32>>);
#[derive(Hash, PartialEq, Eq, Clone, Debug)]
pub struct Shared(Rc<u32>);
#[derive(Hash, PartialEq, Eq, Clone, Copy, Debug)]
pub struct Block([u32; 50]);
#[derive(Hash, PartialEq, Eq, Clone, Copy, Debug)]
pub enum Nothing {
    It,
}
item!(u32, "u32", |v| v, |s| *s);
item!((), "()", |_| (), |_| 0);
item!(Nothing, "enum of one value", |_| Nothing::It, |_| 0);
item!(bool, "bool", |v| v % 2 == 1, |s| *s as u32);
item!(u8, "u8", |v| v as u8, |s| *s as u32);
item!(u128, "u128", |v| (v as u128) << 100, |s| (*s >> 100) as u32);
item!(char, "char", |v| char::from_u32(v).unwrap(), |s| *s as u32);
item!(String, "String", |v| WORDS[v as usize % 16].into(), |s| word(s));
item!(Words, "&'static str", |v| Words(WORDS[v as usize % 16]), |s| word(s.0));
item!(Vec<u8>, "Vec<u8>", |v| vec![7; v as usize], |s| s.len() as u32);
item!(Maybe, "Option<Box>", |v| Maybe((v > 0).then(|| Box::new(v))), |s| s.0.as_ref().map_or(0, |x| **x));
item!(Shared, "Rc", |v| Shared(Rc::new(v)), |s| *s.0);
item!(Block, "[u32; 50]", |v| Block([v; 50]), |s| s.0[49]);
item!(Aligned, "aligned to 128", |v| Aligned(v as u16), |s| s.0 as u32);

/// Values returned, as text that is the same for all types
pub trait Show {
    fn show(&self) -> String;
}
impl<const S: usize> Show for Reference<S> {
    fn show(&self) -> String {
        self.v().to_string()
    }
}
struct B(bool);
impl Show for B {
    fn show(&self) -> String {
        self.0.to_string()
    }
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self) -> String {
        format!("({},{})", self.0.show(), self.1.show())
    }
}
impl<A: Show> Show for Option<A> {
    fn show(&self) -> String {
        self.as_ref().map_or("None".into(), |x| format!("Some({})", x.show()))
    }
}
impl<A: Show> Show for &A {
    fn show(&self) -> String {
        (*self).show()
    }
}
impl<A: Show + Eq, B: Show + Eq> Show for OptionalPair<A, B> {
    fn show(&self) -> String {
        match self {
            OptionalPair::Neither => "Neither".into(),
            OptionalPair::SomeLeft(a) => format!("Left({})", a.show()),
            OptionalPair::SomeRight(b) => format!("Right({})", b.show()),
            OptionalPair::SomeBoth(a, b) => format!("Both({},{})", a.show(), b.show()),
        }
    }
}
impl<A: Show + Eq + Hash, S> Show for std::collections::HashSet<A, S> {
    fn show(&self) -> String {
        bag(self.iter().map(|x| x.show()))
    }
}
impl<A: Show, S> Show for HashSet<A, S> {
    fn show(&self) -> String {
        bag(self.iter().map(|x| x.show()))
    }
}
fn bag(i: impl Iterator<Item = String>) -> String {
    let mut v: Vec<String> = i.collect();
    v.sort();
    format!("{{{}}}", v.join(","))
}

pub struct Op {
    k: u32,
    a: u32,
    b: u32,
    d: u32,
    e: u32,
}

/// A kind of map, over any types of items
trait Map<L: Item, R: Item>: Clone {
    const OPS: u32;
    fn make(tb: TB, cap: usize) -> Self;
    /// The property an operation belongs to
    fn class(k: u32) -> &'static str;
    /// Runs an operation, gives what it returned
    fn run(&mut self, o: &Op) -> Result<String, String>;
    /// Everything that can be seen, by value
    fn see(&self, u: u32) -> String;
    /// Queries against iterators of the same map
    fn cohere(&self, u: u32) -> Res;
    fn iters(&self, rng: &mut Rng, cov: &mut Cov) -> Res;
}

fn cut(n: usize, o: &Op) -> usize {
    if o.e % 3 == 0 {
        usize::MAX
    } else {
        o.d as usize % (n + 1)
    }
}

impl<L: Item, R: Item> Map<L, R> for CycleMap<L, R, TB> {
    const OPS: u32 = 32;
    fn make(tb: TB, cap: usize) -> Self {
        CycleMap::with_capacity_and_hasher(cap, tb)
    }
    fn class(k: u32) -> &'static str {
        match k {
            0..=18 => "C04",
            19 | 20 => "C09",
            21 | 22 => "C10",
            23 | 24 => "C11",
            25 => "C12",
            26 | 27 => "C13",
            _ => "C16",
        }
    }
    fn run(&mut self, o: &Op) -> Result<String, String> {
        let (l, r) = (L::make(o.a), R::make(o.b));
        Ok(match o.k {
            0..=6 => self.insert(l, r).show(),
            7 => self.remove(&l, &r).show(),
            8 => self.remove_via_left(&l).show(),
            9 => self.remove_via_right(&r).show(),
            10 | 11 => self.swap_left(&l, L::make(o.d)).show(),
            12 | 13 => self.swap_right(&r, R::make(o.d)).show(),
            14 => self.swap_left_checked(&l, &r, L::make(o.d)).show(),
            15 => self.swap_right_checked(&r, &l, R::make(o.d)).show(),
            16 => self.swap_left_or_insert(&l, L::make(o.d), R::make(o.e)).show(),
            17 => self.swap_right_or_insert(&r, R::make(o.d), L::make(o.e)).show(),
            18 => {
                if o.d % 4 == 0 {
                    self.clear()
                }
                String::new()
            }
            19 | 20 => {
                let (n, cap) = (self.len(), self.capacity());
                let t = cut(n, o);
                let all: Vec<String> = self.iter().map(|p| p.show()).collect();
                let got: Vec<String> = self.drain().take(t).map(|p| p.show()).collect();
                ensure!(self.is_empty() && self.len() == 0 && self.iter().next().is_none(), "drain left {} pairs", self.len());
                ensure!(self.capacity() >= cap, "drain lowered the capacity from {cap} to {}", self.capacity());
                ensure!(got.len() == t.min(n), "drain yielded {} of {n} pairs, {t} asked for", got.len());
                ensure!(got.iter().all(|p| all.contains(p)), "drain yielded {got:?} of {all:?}");
                if t >= n { bag(got.into_iter()) } else { String::new() }
            }
            21 | 22 => {
                let mut calls = Vec::new();
                let t = cut(self.len(), o);
                let got: Vec<String> = self
                    .drain_filter(|x, y| {
                        calls.push((x, y).show());
                        (x.v() + 3 * y.v() + o.d) % 4 < 2
                    })
                    .take(t)
                    .map(|p| p.show())
                    .collect();
                format!("{}{}", bag(calls.into_iter()), if t == usize::MAX { bag(got.into_iter()) } else { String::new() })
            }
            23 | 24 => {
                let mut calls = Vec::new();
                self.retain(|x, y| {
                    calls.push((x, y).show());
                    (x.v() + 3 * y.v() + o.d) % 4 != 0
                });
                bag(calls.into_iter())
            }
            25 => {
                let mut q = if o.e % 2 == 0 {
                    self.clone()
                } else {
                    let mut q = Self::make(TB::new(0, 5), 0);
                    q.extend([(L::make(o.e), R::make(o.d))]);
                    q.clone_from(self);
                    q
                };
                let was = self.see(16);
                ensure!(q == *self && *self == q, "a clone isn't equal to its original");
                ensure!(q.see(16) == was, "a clone holds {}, its original {was}", q.see(16));
                q.insert(l.clone(), r);
                q.remove_via_left(&l);
                let eq = q == *self;
                ensure!(eq == (bag(q.iter().map(|p| p.show())) == bag(self.iter().map(|p| p.show()))), "== is {eq} for {q:?} and {self:?}");
                ensure!(self.see(16) == was, "{was} became {} by a change of a clone", self.see(16));
                if o.d % 2 == 0 {
                    *self = q
                }
                eq.to_string()
            }
            26 => {
                self.extend((0..o.d).map(|i| (L::make((o.a + i * i) % 12), R::make((o.b + 5 * i) % 12))));
                String::new()
            }
            27 => {
                let q: CycleMap<L, R> = (0..o.d).map(|i| (L::make((o.a + i * i) % 12), R::make((o.b + 5 * i) % 12))).collect();
                self.clear();
                for (l, r) in q.iter() {
                    self.insert(l.clone(), r.clone());
                }
                String::new()
            }
            28 => {
                self.reserve(o.d as usize * 3);
                ensure!(self.capacity() >= self.len() + o.d as usize * 3, "capacity {} after reserve({}) with {} pairs", self.capacity(), o.d * 3, self.len());
                String::new()
            }
            29 => {
                let ok = self.try_reserve(o.d as usize * 3).is_ok();
                ensure!(ok && self.capacity() >= self.len() + o.d as usize * 3, "try_reserve({}): {ok}, capacity {} with {} pairs", o.d * 3, self.capacity(), self.len());
                String::new()
            }
            30 => {
                self.shrink_to(o.d as usize);
                ensure!(self.capacity() >= self.len(), "capacity {} after shrink_to with {} pairs", self.capacity(), self.len());
                String::new()
            }
            _ => {
                self.shrink_to_fit();
                ensure!(self.capacity() >= self.len(), "capacity {} after shrink_to_fit with {} pairs", self.capacity(), self.len());
                String::new()
            }
        })
    }
    fn see(&self, u: u32) -> String {
        let mut s = format!("{} {} {}", self.len(), self.is_empty(), bag(self.iter().take(99).map(|p| p.show())));
        if u > 0 {
            s += &format!(" {} {}", bag(self.iter_left().take(99).map(|p| p.show())), bag(self.iter_right().take(99).map(|p| p.show())));
        }
        for i in 0..u {
            s += &format!(" {}{}", self.get_right(&L::make(i)).show(), self.get_left(&R::make(i)).show());
            s += &format!(" {}{}", self.contains_left(&L::make(i)), self.contains_right(&R::make(i)));
        }
        s
    }
    fn cohere(&self, u: u32) -> Res {
        let all: Vec<(u32, u32)> = self.iter().take(99).map(|(l, r)| (l.v(), r.v())).collect();
        ensure!(all.len() == self.len() && self.is_empty() == all.is_empty(), "len {} is_empty {}, pairs {all:?}", self.len(), self.is_empty());
        let find_l = |l: u32| all.iter().find(|p| p.0 == l).map(|p| p.1);
        let find_r = |r: u32| all.iter().find(|p| p.1 == r).map(|p| p.0);
        ensure!(all.iter().all(|p| find_l(p.0) == Some(p.1) && find_r(p.1) == Some(p.0)), "items stored twice: {all:?}");
        ensure!(bag(self.iter_left().map(|x| x.show())) == bag(all.iter().map(|x| x.0.show())), "iter_left {:?}, pairs {all:?}", self.iter_left());
        ensure!(bag(self.iter_right().map(|x| x.show())) == bag(all.iter().map(|x| x.1.show())), "iter_right {:?}, pairs {all:?}", self.iter_right());
        for i in 0..u {
            let (l, r) = (L::make(i), R::make(i));
            let (pl, pr) = (find_l(l.v()), find_r(r.v()));
            ensure!(self.get_right(&l).map(|x| x.v()) == pl && self.contains_left(&l) == pl.is_some(), "get_right({l:?}) {:?}, contains_left {}, pairs {all:?}", self.get_right(&l), self.contains_left(&l));
            ensure!(self.get_left(&r).map(|x| x.v()) == pr && self.contains_right(&r) == pr.is_some(), "get_left({r:?}) {:?}, contains_right {}, pairs {all:?}", self.get_left(&r), self.contains_right(&r));
            for j in 0..u {
                let r = R::make(j);
                ensure!(self.are_paired(&l, &r) == (pl == Some(r.v())), "are_paired({l:?},{r:?}) is {}, pairs {all:?}", self.are_paired(&l, &r));
            }
        }
        Ok(())
    }
    fn iters(&self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let all: Vec<(u32, u32)> = self.iter().take(99).map(|(l, r)| (l.v(), r.v())).collect();
        check_iter("CycleMap::iter", self.iter(), |(l, r)| (l.v(), r.v()), all.clone(), rng, cov)?;
        check_iter("CycleMap::iter_left", self.iter_left(), |l| l.v(), all.iter().map(|p| p.0).collect(), rng, cov)?;
        check_iter("CycleMap::iter_right", self.iter_right(), |r| r.v(), all.iter().map(|p| p.1).collect(), rng, cov)?;
        Ok(())
    }
}

fn some<L: Item, R: Item>(o: &Op, i: u32) -> OptionalPair<L, R> {
    let (a, b) = ((o.a + i * i) % 12, (o.b + 5 * i) % 12);
    match (o.e + i) % 5 {
        0 => OptionalPair::SomeLeft(L::make(a)),
        1 => OptionalPair::SomeRight(R::make(b)),
        2 => OptionalPair::Neither,
        _ => OptionalPair::SomeBoth(L::make(a), R::make(b)),
    }
}
fn picks<L: Item, R: Item>(x: &OptionalPair<&L, &R>, d: u32) -> bool {
    let (l, r) = match x {
        OptionalPair::Neither => (90, 90),
        OptionalPair::SomeLeft(l) => (l.v(), 1),
        OptionalPair::SomeRight(r) => (2, r.v()),
        OptionalPair::SomeBoth(l, r) => (l.v(), r.v()),
    };
    (l + 3 * r + d) % 4 < 2
}

impl<L: Item, R: Item> Map<L, R> for PartialCycleMap<L, R, TB> {
    const OPS: u32 = 45;
    fn make(tb: TB, cap: usize) -> Self {
        PartialCycleMap::with_capacity_and_hasher(cap, tb)
    }
    fn class(k: u32) -> &'static str {
        match k {
            0..=28 => "C05",
            29 | 30 => "C09",
            31 | 32 => "C10",
            33..=35 => "C11",
            36 => "C12",
            37 | 38 => "C13",
            _ => "C16",
        }
    }
    fn run(&mut self, o: &Op) -> Result<String, String> {
        let (l, r) = (L::make(o.a), R::make(o.b));
        Ok(match o.k {
            0..=4 => self.insert(l, r).show(),
            5..=7 => self.insert_left(l).show(),
            8..=10 => self.insert_right(r).show(),
            11 | 12 => B(self.pair(&l, &r)).show(),
            13 | 14 => self.pair_forced(&l, &r).show(),
            15 => self.pair_forced_remove(&l, &r).show(),
            16 => B(self.unpair(&l, &r)).show(),
            17 => self.remove(&l, &r).show(),
            18 => self.remove_left(&l).show(),
            19 => self.remove_right(&r).show(),
            20 => self.remove_via_left(&l).show(),
            21 => self.remove_via_right(&r).show(),
            22 => self.swap_left(&l, L::make(o.d)).show(),
            23 => self.swap_right(&r, R::make(o.d)).show(),
            24 => self.swap_left_checked(&l, &r, L::make(o.d)).show(),
            25 => self.swap_right_checked(&r, &l, R::make(o.d)).show(),
            26 => self.swap_left_or_insert(&l, L::make(o.d), R::make(o.e)).show(),
            27 => self.swap_right_or_insert(&r, R::make(o.d), L::make(o.e)).show(),
            28 => {
                if o.d % 4 == 0 {
                    self.clear()
                }
                String::new()
            }
            29 | 30 => {
                let caps = (self.capacity_left(), self.capacity_right());
                let all: Vec<String> = self.iter().map(|p| p.show()).collect();
                let n = all.len();
                let t = cut(n, o);
                let got: Vec<String> = self.drain().take(t).map(|p| p.show()).collect();
                ensure!(self.is_empty() && self.len_left() == 0 && self.len_right() == 0 && self.iter().next().is_none(), "drain left {self:?}");
                ensure!(self.capacity_left() >= caps.0 && self.capacity_right() >= caps.1, "drain lowered the capacities from {caps:?}");
                ensure!(got.len() == t.min(n), "drain yielded {} of {n} items, {t} asked for", got.len());
                ensure!(got.iter().all(|p| all.contains(p)), "drain yielded {got:?} of {all:?}");
                if t >= n { bag(got.into_iter()) } else { String::new() }
            }
            31 | 32 => {
                let mut calls = Vec::new();
                let t = cut(self.len_left() + self.len_right(), o);
                let got: Vec<String> = self
                    .drain_filter(|x| {
                        calls.push(x.show());
                        picks(&x, o.d)
                    })
                    .take(t)
                    .map(|p| p.show())
                    .collect();
                format!("{}{}", bag(calls.into_iter()), if t == usize::MAX { bag(got.into_iter()) } else { String::new() })
            }
            33 => {
                let mut calls = Vec::new();
                self.retain(|x| {
                    calls.push(x.show());
                    picks(x, o.d)
                });
                bag(calls.into_iter())
            }
            34 => {
                let mut calls = Vec::new();
                self.retain_paired(|x, y| {
                    calls.push((x, y).show());
                    picks(&OptionalPair::SomeBoth(x, y), o.d)
                });
                bag(calls.into_iter())
            }
            35 => {
                let mut calls = Vec::new();
                self.retain_unpaired(|x| {
                    calls.push(x.show());
                    picks(x, o.d)
                });
                bag(calls.into_iter())
            }
            36 => {
                let mut q = if o.e % 2 == 0 {
                    self.clone()
                } else {
                    let mut q = Self::make(TB::new(0, 5), 0);
                    q.extend([OptionalPair::SomeBoth(L::make(o.e), R::make(o.d))]);
                    q.clone_from(self);
                    q
                };
                let was = self.see(16);
                ensure!(q == *self && *self == q, "a clone isn't equal to its original");
                ensure!(q.see(16) == was, "a clone holds {}, its original {was}", q.see(16));
                q.insert(l.clone(), r);
                q.remove_via_left(&l);
                ensure!(self.see(16) == was, "{was} became {} by a change of a clone", self.see(16));
                if o.d % 2 == 0 {
                    *self = q
                }
                String::new()
            }
            37 => {
                self.extend((0..o.d).map(|i| some::<L, R>(o, i)));
                String::new()
            }
            38 => {
                let q: PartialCycleMap<L, R> = (0..o.d).map(|i| some::<L, R>(o, i)).collect();
                self.clear();
                for x in q.iter() {
                    match x {
                        OptionalPair::Neither => return Err("a collected map yields Neither".into()),
                        OptionalPair::SomeLeft(l) => drop(self.insert_left(l.clone())),
                        OptionalPair::SomeRight(r) => drop(self.insert_right(r.clone())),
                        OptionalPair::SomeBoth(l, r) => drop(self.insert(l.clone(), r.clone())),
                    }
                }
                String::new()
            }
            39 | 40 => {
                let k = o.d as usize * 3;
                if o.k == 39 {
                    self.reserve_left(k)
                } else {
                    ensure!(self.try_reserve_left(k).is_ok(), "try_reserve_left({k}) failed");
                }
                ensure!(self.capacity_left() >= self.len_left() + k, "capacity {} after reserving {k} with {} left items", self.capacity_left(), self.len_left());
                String::new()
            }
            41 | 42 => {
                let k = o.d as usize * 3;
                if o.k == 41 {
                    self.reserve_right(k)
                } else {
                    ensure!(self.try_reserve_right(k).is_ok(), "try_reserve_right({k}) failed");
                }
                ensure!(self.capacity_right() >= self.len_right() + k, "capacity {} after reserving {k} with {} right items", self.capacity_right(), self.len_right());
                String::new()
            }
            43 => {
                self.shrink_to_left(o.d as usize);
                self.shrink_to_right(o.e as usize);
                String::new()
            }
            _ => {
                self.shrink_to_fit();
                ensure!(self.capacity_left() >= self.len_left() && self.capacity_right() >= self.len_right(), "too little capacity after shrink_to_fit");
                String::new()
            }
        })
    }
    fn see(&self, u: u32) -> String {
        let mut s = format!("{} {} {}", self.len_left(), self.len_right(), bag(self.iter().take(99).map(|p| p.show())));
        if u > 0 {
            s += &format!(" {} {}", bag(self.iter_left().take(99).map(|p| p.show())), bag(self.iter_right().take(99).map(|p| p.show())));
        }
        for i in 0..u {
            s += &format!(" {}{}", self.get_right(&L::make(i)).show(), self.get_left(&R::make(i)).show());
            s += &format!(" {}{}", self.contains_left(&L::make(i)), self.contains_right(&R::make(i)));
        }
        s
    }
    fn cohere(&self, u: u32) -> Res {
        let (mut ls, mut rs) = (Vec::new(), Vec::new());
        for x in self.iter().take(99) {
            let (l, r): (Option<&L>, Option<&R>) = match x {
                OptionalPair::Neither => (None, None),
                OptionalPair::SomeLeft(l) => (Some(l), None),
                OptionalPair::SomeRight(r) => (None, Some(r)),
                OptionalPair::SomeBoth(l, r) => (Some(l), Some(r)),
            };
            ensure!(l.is_some() || r.is_some(), "iter yields Neither");
            let (l, r) = (l.map(|x| x.v()), r.map(|x| x.v()));
            l.map(|x| ls.push((x, r)));
            r.map(|x| rs.push((x, l)));
        }
        let find = |v: &[(u32, Option<u32>)], x: u32| v.iter().filter(|p| p.0 == x).map(|p| p.1).collect::<Vec<_>>();
        ensure!(ls.len() == self.len_left() && rs.len() == self.len_right() && self.is_empty() == (ls.len() + rs.len() == 0), "lens {} {}, is_empty {}, items {ls:?} {rs:?}", self.len_left(), self.len_right(), self.is_empty());
        ensure!(ls.iter().all(|p| find(&ls, p.0).len() == 1) && rs.iter().all(|p| find(&rs, p.0).len() == 1), "items stored twice: {ls:?} {rs:?}");
        ensure!(bag(self.iter_left().map(|x| x.show())) == bag(ls.iter().map(|x| x.0.show())), "iter_left {:?}, items {ls:?}", self.iter_left());
        ensure!(bag(self.iter_right().map(|x| x.show())) == bag(rs.iter().map(|x| x.0.show())), "iter_right {:?}, items {rs:?}", self.iter_right());
        ensure!(bag(self.iter_paired().map(|x| x.show())) == bag(ls.iter().filter_map(|x| Some((x.0, x.1?).show()))), "iter_paired {:?}, items {ls:?}", self.iter_paired());
        let lone = ls.iter().filter(|x| x.1.is_none()).map(|x| format!("Left({})", x.0)).chain(rs.iter().filter(|x| x.1.is_none()).map(|x| format!("Right({})", x.0)));
        ensure!(bag(self.iter_unpaired().map(|x| x.show())) == bag(lone), "iter_unpaired {:?}, items {ls:?} {rs:?}", self.iter_unpaired());
        for i in 0..u {
            let (l, r) = (L::make(i), R::make(i));
            let (pl, pr) = (find(&ls, l.v()), find(&rs, r.v()));
            let (gl, gr) = (pl.first().copied().flatten(), pr.first().copied().flatten());
            ensure!(self.get_right(&l).map(|x| x.v()) == gl && self.contains_left(&l) == !pl.is_empty() && self.is_left_paired(&l) == gl.is_some(),
                "get_right({l:?}) {:?}, contains_left {}, is_left_paired {}, items {ls:?}", self.get_right(&l), self.contains_left(&l), self.is_left_paired(&l));
            ensure!(self.get_left(&r).map(|x| x.v()) == gr && self.contains_right(&r) == !pr.is_empty() && self.is_right_paired(&r) == gr.is_some(),
                "get_left({r:?}) {:?}, contains_right {}, is_right_paired {}, items {rs:?}", self.get_left(&r), self.contains_right(&r), self.is_right_paired(&r));
            for j in 0..u {
                let r = R::make(j);
                ensure!(self.are_paired(&l, &r) == (gl == Some(r.v())), "are_paired({l:?},{r:?}) is {}, items {ls:?}", self.are_paired(&l, &r));
            }
        }
        Ok(())
    }
    fn iters(&self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let all: Vec<String> = self.iter().take(99).map(|x| x.show()).collect();
        let lone: Vec<String> = all.iter().filter(|x| !x.starts_with('B')).cloned().collect();
        let paired: Vec<String> = self.iter_left().filter_map(|l| self.get_right(l).map(|r| (l, r).show())).collect();
        check_iter("PartialCycleMap::iter", self.iter(), |x| x.show(), all, rng, cov)?;
        check_iter("PartialCycleMap::iter_unpaired", self.iter_unpaired(), |x| x.show(), lone, rng, cov)?;
        check_iter("PartialCycleMap::iter_paired", self.iter_paired(), |x| x.show(), paired, rng, cov)?;
        check_iter("PartialCycleMap::iter_left", self.iter_left(), |x| x.v(), self.iter_left().map(|x| x.v()).collect(), rng, cov)?;
        check_iter("PartialCycleMap::iter_right", self.iter_right(), |x| x.v(), self.iter_right().map(|x| x.v()).collect(), rng, cov)?;
        Ok(())
    }
}

impl<L: Item, R: Item> Map<L, R> for GroupMap<L, R, TB> {
    const OPS: u32 = 30;
    fn make(tb: TB, cap: usize) -> Self {
        GroupMap::with_capacity_and_hasher(cap, tb)
    }
    fn class(k: u32) -> &'static str {
        match k {
            0..=21 => "C06",
            22..=25 => "C11",
            26 => "C12",
            _ => "C13",
        }
    }
    fn run(&mut self, o: &Op) -> Result<String, String> {
        let (l, r) = (L::make(o.a), R::make(o.b));
        // A pair that is paired already is finding K3
        let fresh = |m: &Self, l: &L, r: &R| m.get_right(l) != Some(r);
        Ok(match o.k {
            0..=4 => {
                if fresh(self, &l, &r) {
                    self.insert(l, r)
                }
                String::new()
            }
            5 | 6 => {
                if fresh(self, &l, &r) {
                    return Ok(self.insert_remove(l, r).show());
                }
                String::new()
            }
            7..=9 => self.insert_left(l, &r).show(),
            10 | 11 => self.insert_right(r).show(),
            12 => {
                self.swap_right(&r, R::make(o.d));
                String::new()
            }
            13 => self.swap_right_remove(&r, R::make(o.d)).show(),
            14..=16 => B(self.pair(&l, &r)).show(),
            17 => self.remove(&l, &r).show(),
            18 | 19 => self.remove_left(&l).show(),
            20 => self.remove_right(&r).show(),
            21 => {
                if o.d % 4 == 0 {
                    self.clear()
                }
                String::new()
            }
            22 | 23 => {
                let mut calls = Vec::new();
                self.retain_paired(|x, y| {
                    calls.push((x, y).show());
                    picks(&OptionalPair::SomeBoth(x, y), o.d)
                });
                bag(calls.into_iter())
            }
            24 | 25 => {
                let mut calls = Vec::new();
                self.retain_unpaired(|x| {
                    calls.push(x.show());
                    (x.v() + o.d) % 2 == 0
                });
                bag(calls.into_iter())
            }
            26 => {
                let mut q = if o.e % 2 == 0 {
                    self.clone()
                } else {
                    let mut q = Self::make(TB::new(0, 5), 0);
                    q.extend([(Some(L::make(o.e)), R::make(o.d))]);
                    q.clone_from(self);
                    q
                };
                let was = self.see(16);
                ensure!(q == *self && *self == q, "a clone isn't equal to its original");
                ensure!(q.see(16) == was, "a clone holds {}, its original {was}", q.see(16));
                q.insert_left(l.clone(), &r);
                q.remove_right(&R::make(o.d));
                let eq = q == *self;
                ensure!(eq == (bag(q.iter().map(|p| p.show())) == bag(self.iter().map(|p| p.show()))), "== is {eq} for {q:?} and {self:?}");
                ensure!(self.see(16) == was, "{was} became {} by a change of a clone", self.see(16));
                if o.d % 2 == 0 {
                    *self = q
                }
                eq.to_string()
            }
            _ => {
                // No pair twice (K3)
                let mut seen: Vec<(u32, u32)> = self.iter().filter_map(|(l, r)| Some((l?.v(), r.v()))).collect();
                let mut v: Vec<(Option<L>, R)> = Vec::new();
                for i in 0..o.d {
                    let (l, r) = (L::make((o.a + i * i) % 12), R::make((o.b + 5 * i) % 12));
                    let p = (l.v(), r.v());
                    if (o.e + i) % 3 == 0 {
                        // takes its group out
                        seen.retain(|x| x.1 != p.1);
                        v.push((None, r));
                    } else if !seen.contains(&p) {
                        seen.retain(|x| x.0 != p.0);
                        seen.push(p);
                        v.push((Some(l), r));
                    }
                }
                if o.k == 27 {
                    self.extend(v)
                } else {
                    let q: GroupMap<L, R> = v.into_iter().collect();
                    self.clear();
                    for (l, r) in q.iter() {
                        match l {
                            Some(l) => self.insert(l.clone(), r.clone()),
                            None => drop(self.insert_right(r.clone())),
                        }
                    }
                }
                String::new()
            }
        })
    }
    fn see(&self, u: u32) -> String {
        let mut s = format!("{} {} {}", self.len_left(), self.len_right(), bag(self.iter().take(99).map(|p| p.show())));
        if u > 0 {
            s += &format!(" {} {}", bag(self.iter_left().take(99).map(|p| p.show())), bag(self.iter_right().take(99).map(|p| p.show())));
        }
        for i in 0..u {
            s += &format!(" {}{}", self.get_right(&L::make(i)).show(), self.get_left_iter(&R::make(i)).map_or("None".into(), |i| bag(i.map(|x| x.show()))));
            s += &format!(" {}{}", self.contains_left(&L::make(i)), self.contains_right(&R::make(i)));
        }
        s
    }
    fn cohere(&self, u: u32) -> Res {
        let all: Vec<(Option<u32>, u32)> = self.iter().take(99).map(|(l, r)| (l.map(|l| l.v()), r.v())).collect();
        let mut rs: Vec<u32> = all.iter().map(|x| x.1).collect();
        rs.sort();
        rs.dedup();
        let ls: Vec<(u32, u32)> = all.iter().filter_map(|x| Some((x.0?, x.1))).collect();
        let find = |x: u32| ls.iter().filter(|p| p.0 == x).map(|p| p.1).collect::<Vec<_>>();
        ensure!(ls.len() == self.len_left() && rs.len() == self.len_right() && self.is_empty() == all.is_empty(), "lens {} {}, is_empty {}, items {all:?}", self.len_left(), self.len_right(), self.is_empty());
        ensure!(ls.iter().all(|p| find(p.0).len() == 1), "items stored twice: {ls:?}");
        ensure!(bag(self.iter_left().map(|x| x.show())) == bag(ls.iter().map(|x| x.0.show())), "iter_left {:?}, items {ls:?}", self.iter_left());
        ensure!(bag(self.iter_right().map(|x| x.show())) == bag(rs.iter().map(|x| x.show())), "iter_right {:?}, items {rs:?}", self.iter_right());
        ensure!(bag(self.iter_paired().map(|x| x.show())) == bag(ls.iter().map(|x| x.show())), "iter_paired {:?}, items {ls:?}", self.iter_paired());
        let lone: Vec<u32> = rs.iter().copied().filter(|r| ls.iter().all(|p| p.1 != *r)).collect();
        ensure!(bag(self.iter_unpaired().map(|x| x.show())) == bag(lone.iter().map(|x| x.show())), "iter_unpaired {:?}, items {all:?}", self.iter_unpaired());
        for i in 0..u {
            let (l, r) = (L::make(i), R::make(i));
            let pl = find(l.v()).first().copied();
            let group = bag(ls.iter().filter(|p| p.1 == r.v()).map(|p| p.0.show()));
            let there = rs.contains(&r.v());
            ensure!(self.get_right(&l).map(|x| x.v()) == pl && self.contains_left(&l) == pl.is_some(), "get_right({l:?}) {:?}, contains_left {}, items {ls:?}", self.get_right(&l), self.contains_left(&l));
            ensure!(self.contains_right(&r) == there && self.is_right_paired(&r) == (group.len() > 2), "contains_right({r:?}) {}, is_right_paired {}, items {all:?}", self.contains_right(&r), self.is_right_paired(&r));
            let got = self.get_left_iter(&r).map(|i| bag(i.map(|x| x.show())));
            ensure!(got.is_some() == there && got.clone().unwrap_or("{}".into()) == group, "get_left_iter({r:?}) {got:?}, items {all:?}");
            for j in 0..u {
                let r = R::make(j);
                ensure!(self.are_paired(&l, &r) == (pl == Some(r.v())), "are_paired({l:?},{r:?}) is {}, items {ls:?}", self.are_paired(&l, &r));
            }
        }
        Ok(())
    }
    fn iters(&self, rng: &mut Rng, cov: &mut Cov) -> Res {
        let all: Vec<String> = self.iter().take(99).map(|x| x.show()).collect();
        let paired: Vec<String> = self.iter_left().filter_map(|l| self.get_right(l).map(|r| (l, r).show())).collect();
        let lone: Vec<u32> = self.iter_right().filter(|r| !self.is_right_paired(r)).map(|x| x.v()).collect();
        check_iter("GroupMap::iter", self.iter(), |x| x.show(), all, rng, cov)?;
        check_iter("GroupMap::iter_paired", self.iter_paired(), |x| x.show(), paired, rng, cov)?;
        check_iter("GroupMap::iter_unpaired", self.iter_unpaired(), |x| x.v(), lone, rng, cov)?;
        check_iter("GroupMap::iter_left", self.iter_left(), |x| x.v(), self.iter_left().map(|x| x.v()).collect(), rng, cov)?;
        check_iter("GroupMap::iter_right", self.iter_right(), |x| x.v(), self.iter_right().map(|x| x.v()).collect(), rng, cov)?;
        if let Some(r) = self.iter_right().next() {
            let i = self.get_left_iter(r).ok_or("get_left_iter is None for a stored item")?;
            check_iter("GroupMap::get_left_iter", i.clone(), |x| x.v(), i.map(|x| x.v()).collect(), rng, cov)?;
        }
        Ok(())
    }
}

type Found = Option<(&'static str, String)>;

/// What is found amiss first, and which property it belongs to
fn lockstep<L: Item, R: Item, M: Map<L, R>, N: Map<Reference<0>, Reference<1>>>(coherent: &'static str, want: &str, rng: &mut Rng, tb: TB, cov: &mut Cov, log: &mut Vec<String>) -> Found {
    let u = 1 + rng.u32(12);
    let cap = rng.u32(20) as usize;
    let mut m = M::make(tb, cap);
    let mut n = N::make(TB::new(0, 1), 0);
    let mine: Vec<u32> = (0..M::OPS).filter(|k| M::class(*k) == want).collect();
    let steps = if cfg!(miri) { 20 } else { 15 + rng.u32(60) };
    NORM.with(|n| {
        n[0].set(|v| L::make(v).v());
        n[1].set(|v| R::make(v).v());
    });
    for at in 0..steps {
        let k = if !mine.is_empty() && rng.chance(1, 3) { *rng.pick(&mine) } else { rng.u32(M::OPS) };
        // whole-map operations empty the map, so not too often
        let k = if M::class(k) != want && M::class(k) != M::class(0) && rng.chance(3, 4) { rng.u32(4) } else { k };
        let o = Op { k, a: rng.u32(u), b: rng.u32(u), d: rng.u32(u), e: rng.u32(u) };
        log.push(format!("op{k}({},{},{},{})", o.a, o.b, o.d, o.e));
        let got = catch_unwind(AssertUnwindSafe(|| m.run(&o)));
        let expected = catch_unwind(AssertUnwindSafe(|| n.run(&o)));
        let expected = match expected {
            Ok(Ok(x)) => x,
            // ordinary items are judged by the other cases of the checks
            _ => {
                cov.bump("kinds_cut_short", 1);
                return None;
            }
        };
        cov.steps += 1;
        cov.facts += 3;
        cov.tuple(&[77, k as u64, o.a as u64, o.b as u64, o.d as u64, L::NAME.len() as u64 * 64 + R::NAME.len() as u64]);
        let c = M::class(k);
        match got {
            Err(_) => return Some((c, format!("step {at}: op{k} panicked: {}", crate::runner::last_panic()))),
            Ok(Err(e)) => return Some((c, format!("step {at}: op{k}: {e}"))),
            Ok(Ok(x)) if x != expected => return Some((c, format!("step {at}: op{k} gave {x}, expected {expected}"))),
            _ => {}
        }
        let looked = catch_unwind(AssertUnwindSafe(|| {
            let it = if want == "C08" && at % 2 == 0 { m.iters(rng, cov) } else { Ok(()) };
            (m.see(u), m.cohere(u), it)
        }));
        let Ok(y) = catch_unwind(AssertUnwindSafe(|| n.see(u))) else { return None };
        match looked {
            Err(_) => return Some((if c == want { c } else { coherent }, format!("step {at}: a query panicked after op{k}: {}", crate::runner::last_panic()))),
            Ok((_, _, Err(e))) => return Some(("C08", format!("step {at}: {e}"))),
            Ok((_, Err(e), _)) if want == coherent => return Some((coherent, format!("step {at}, after op{k}: {e}"))),
            Ok((x, ..)) if x != y => return Some((c, format!("step {at}: contents after op{k} are {x}, expected {y}"))),
            _ => {}
        }
    }
    None
}

fn three<L: Item, R: Item>(want: &str, rng: &mut Rng, tb: TB, cov: &mut Cov, log: &mut Vec<String>) -> (Found, String) {
    let which = match want {
        "C01" | "C04" => 0,
        "C02" | "C05" => 1,
        "C03" | "C06" => 2,
        // GroupMap has none of these
        "C09" | "C10" | "C16" => rng.below(2),
        _ => rng.below(3),
    };
    let (f, name) = match which {
        0 => (lockstep::<L, R, CycleMap<L, R, TB>, CycleMap<_, _, TB>>("C01", want, rng, tb, cov, log), "CycleMap"),
        1 => (lockstep::<L, R, PartialCycleMap<L, R, TB>, PartialCycleMap<_, _, TB>>("C02", want, rng, tb, cov, log), "PartialCycleMap"),
        _ => (lockstep::<L, R, GroupMap<L, R, TB>, GroupMap<_, _, TB>>("C03", want, rng, tb, cov, log), "GroupMap"),
    };
    cov.bump(&format!("kinds: {} / {}", L::NAME, R::NAME), 1);
    (f, format!("{name} of {} and {}", L::NAME, R::NAME))
}

/// One lockstep history for a check; only what belongs to its property counts
pub fn compared(want: &'static str, i: u64, seed: u64, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(i) ^ 0x41d5));
    // like what goes in last, a hasher for which the items spread is the rule
    let tb = TB::new(if rng.chance(1, 2) { 0 } else { rng.below(14) as u8 }, rng.next());
    let mut log = Vec::new();
    let (w, r, c, l) = (want, &mut rng, cov, &mut log);
    let (found, name) = match r.below(10) {
        0 => three::<(), u32>(w, r, tb, c, l),
        1 => three::<String, Nothing>(w, r, tb, c, l),
        2 => three::<u32, u32>(w, r, tb, c, l),
        3 => three::<u8, String>(w, r, tb, c, l),
        4 => three::<Words, u128>(w, r, tb, c, l),
        5 => three::<Maybe, char>(w, r, tb, c, l),
        6 => three::<Shared, Shared>(w, r, tb, c, l),
        7 => three::<Block, Aligned>(w, r, tb, c, l),
        8 => three::<Vec<u8>, bool>(w, r, tb, c, l),
        _ => three::<(), ()>(w, r, tb, c, l),
    };
    c.histories += 1;
    let (class, m) = found?;
    if class != want {
        c.bump("kinds_of_other_properties", 1);
        if std::env::var("SHOW_OTHER").is_ok() {
            eprintln!("[{class}] {name}: {m}");
        }
        return None;
    }
    let text = format!("{name}: {m} | {}", log.join(" "));
    Some(Viol { msg: text, replay: json!({"kind": "case", "check": want, "special": true, "idx": i, "seed": seed}) })
}
