//! C21: every call of user code that an operation makes is made to panic once.
#![allow(dropping_copy_types, dropping_references)]
use crate::checks::Viol;
use crate::cycle::Cycle;
use crate::group::Group;
use crate::hasher::MODES;
use crate::key::{self, call, Call, Form, CALLS, L, R};
use crate::partial::Partial;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::sys::*;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde_json::json;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What must hold after a panic in an operation, besides memory safety
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat {
    /// any panic leaves the map unchanged
    Look,
    /// panics in Hash and Eq leave the map consistent, with nothing lost but what the operation removes
    Remove,
    /// panics in the closure leave the map consistent, with nothing lost but what was rejected
    Filter,
    /// panics in the source leave the map as if the source had ended there
    Source,
    Other,
}
use Cat::*;

/// An item of a map as iterated: both sides by instance
type Row = (Option<Id>, Option<Id>);

#[derive(Default)]
pub struct Args {
    a: u32,
    b: u32,
    /// partner-like value of the other side
    x: u32,
    n: usize,
    l: Option<L>,
    r: Option<R>,
    pairs: Vec<(u32, u32)>,
    /// end the source after so many items
    cut: usize,
    pred: u32,
    /// what a closure marked for removal
    marked_l: BTreeSet<Id>,
    marked_r: BTreeSet<Id>,
    calls: u32,
    /// what an iterator handed out before it was leaked
    kept: Vec<Box<dyn std::any::Any>>,
}
impl Args {
    fn judge(&mut self, l: Option<&L>, r: Option<&R>, right_too: bool) -> bool {
        call(Call::Pred);
        let n = self.calls;
        self.calls += 1;
        let yes = pred(self.pred, n, l.map(|l| l.value()), r.map(|r| r.value()));
        if yes {
            if let Some(l) = l {
                self.marked_l.insert(l.id());
            }
            if let (Some(r), true) = (r, right_too) {
                self.marked_r.insert(r.id());
            }
        }
        yes
    }
}
/// A source whose next panics on demand
struct Src<'a, T, F: Fn(u32, u32, usize) -> T> {
    pairs: &'a [(u32, u32)],
    at: usize,
    f: F,
}
impl<T, F: Fn(u32, u32, usize) -> T> Iterator for Src<'_, T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        call(Call::Next);
        let (a, b) = *self.pairs.get(self.at)?;
        self.at += 1;
        Some((self.f)(a, b, self.at))
    }
}
fn opt_item(a: u32, b: u32, i: usize) -> OptionalPair<L, R> {
    match (i + a as usize) % 4 {
        0 => OptionalPair::SomeLeft(L::new(a)),
        1 => OptionalPair::SomeRight(R::new(b)),
        2 if b == 0 => OptionalPair::Neither,
        _ => OptionalPair::SomeBoth(L::new(a), R::new(b)),
    }
}

pub trait Subj: Sys {
    const LIST: &'static [(&'static str, Cat)];
    /// Runs the operation; values it hands back are dropped
    fn apply(&mut self, op: &str, x: &mut Args);
    /// The map's items, after resync
    fn rows(&self) -> Vec<Row>;
    /// A partner of a left value, for arguments that hit
    fn partner(&self, l: u32) -> Option<u32>;
    /// Uses the map in whatever state it is; each closure may panic
    fn poke(&mut self, u: u32);
    /// Skips an operation that is recorded as a finding
    fn skip(&self, _op: &str, _x: &Args) -> bool {
        false
    }
}
fn attempt(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

impl Subj for Cycle {
    const LIST: &'static [(&'static str, Cat)] = &[
        ("get_left", Look), ("get_right", Look), ("get by form", Look), ("contains", Look), ("are_paired", Look), ("iter", Look),
        ("clone", Look), ("==", Look), ("== other", Look), ("debug", Look), ("debug iter", Look), 
        ("remove", Remove), ("remove_via_left", Remove), ("remove_via_right", Remove),
        ("retain", Filter), ("drain_filter", Filter), ("drain_filter by next", Filter), ("extend", Source), ("collect", Source),
        ("insert", Other), ("swap_left", Other), ("swap_left_checked", Other), ("swap_left_or_insert", Other), ("swap_right", Other),
        ("swap_right_checked", Other), ("swap_right_or_insert", Other), ("clear", Other), ("drain", Other), ("drain part", Other),
        ("reserve", Other), ("try_reserve", Other), ("shrink_to", Other), ("shrink_to_fit", Other), ("clone_from", Other), ("drop", Other),
    ];
    fn apply(&mut self, op: &str, x: &mut Args) {
        let m = &mut self.map;
        match op {
            "get_left" => drop(m.get_left(x.r.as_ref().unwrap())),
            "get_right" => drop(m.get_right(x.l.as_ref().unwrap())),
            "get by form" => drop((m.get_right(&Form::<0>(x.a)), m.get_left(&Form::<1>(x.x)))),
            "contains" => drop((m.contains_left(x.l.as_ref().unwrap()), m.contains_right(x.r.as_ref().unwrap()))),
            "are_paired" => drop(m.are_paired(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "iter" => drop((m.iter().count(), m.iter_left().count(), m.iter_right().count())),
            "clone" => drop(m.clone()),
            "==" => drop(*m == m.clone()),
            "== other" => {
                let mut o: crate::cycle::Map = CycleMap::with_hasher(m.hasher().clone());
                for (l, r) in m.iter() {
                    o.insert(L::new(l.value()), R::new(r.value()));
                }
                o.insert(L::new(x.a), R::new(x.x));
                drop(*m == o);
                drop(o == *m);
            }
            "debug" => drop(format!("{m:?}")),
            "debug iter" => drop(format!("{:?} {:?} {:?}", m.iter(), m.iter_left(), m.iter_right())),
            "remove" => drop(m.remove(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "remove_via_left" => drop(m.remove_via_left(x.l.as_ref().unwrap())),
            "remove_via_right" => drop(m.remove_via_right(x.r.as_ref().unwrap())),
            "retain" => m.retain(|l, r| !x.judge(Some(l), Some(r), true)),
            "drain_filter" => drop(m.drain_filter(|l, r| x.judge(Some(l), Some(r), true))),
            "drain_filter by next" => {
                let n = x.n;
                drop(m.drain_filter(|l, r| x.judge(Some(l), Some(r), true)).take(n).count())
            }
            "extend" => m.extend(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }),
            "collect" => drop(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }.collect::<CycleMap<L, R>>()),
            "insert" => drop(m.insert(x.l.take().unwrap(), x.r.take().unwrap())),
            "swap_left" => drop(m.swap_left(&L::new(x.b), x.l.take().unwrap())),
            "swap_left_checked" => drop(m.swap_left_checked(&L::new(x.b), x.r.as_ref().unwrap(), x.l.take().unwrap())),
            "swap_left_or_insert" => drop(m.swap_left_or_insert(&L::new(x.b), x.l.take().unwrap(), x.r.take().unwrap())),
            "swap_right" => drop(m.swap_right(&R::new(x.b), x.r.take().unwrap())),
            "swap_right_checked" => drop(m.swap_right_checked(&R::new(x.b), x.l.as_ref().unwrap(), x.r.take().unwrap())),
            "swap_right_or_insert" => drop(m.swap_right_or_insert(&R::new(x.b), x.r.take().unwrap(), x.l.take().unwrap())),
            "clear" => m.clear(),
            "drain" => drop(m.drain()),
            "drain part" => drop(m.drain().take(x.n).count()),
            "leak drain" => {
                let mut d = m.drain();
                for p in d.by_ref().take(x.n) {
                    x.kept.push(Box::new(p));
                }
                std::mem::forget(d);
            }
            "leak drain_filter" => {
                let (n, mut kept) = (x.n, Vec::new());
                let mut d = m.drain_filter(|l, r| x.judge(Some(l), Some(r), true));
                for p in d.by_ref().take(n) {
                    kept.push(Box::new(p) as Box<dyn std::any::Any>);
                }
                std::mem::forget(d);
                x.kept = kept;
            }
            "reserve" => m.reserve(x.n * 8),
            "try_reserve" => drop(m.try_reserve(x.n * 8)),
            "shrink_to" => m.shrink_to(x.n),
            "shrink_to_fit" => m.shrink_to_fit(),
            "clone_from" => {
                let c: crate::cycle::Map = CycleMap::with_hasher(m.hasher().clone());
                let c = std::mem::replace(m, c);
                m.clone_from(&c);
            }
            "drop" => {
                let c: crate::cycle::Map = CycleMap::with_hasher(m.hasher().clone());
                drop(std::mem::replace(m, c))
            }
            _ => panic!("no {op}"),
        }
    }
    fn rows(&self) -> Vec<Row> {
        self.m.pairs().into_iter().map(|(l, r)| (Some(l), Some(r))).collect()
    }
    fn partner(&self, l: u32) -> Option<u32> {
        self.m.l.get(&l).map(|x| x.1)
    }
    fn poke(&mut self, u: u32) {
        let m = &mut self.map;
        let n = 3 * u as usize + 20;
        attempt(|| drop(m.iter().take(n).map(|(l, r)| (l.id(), r.id())).count()));
        attempt(|| drop(m.iter_left().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.iter_right().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.clone()));
        attempt(|| drop(format!("{m:?}")));
        for v in 0..u {
            attempt(|| drop((m.get_right(&L::new(v)).map(|x| x.id()), m.contains_left(&L::new(v)))));
            attempt(|| drop((m.get_left(&R::new(v)).map(|x| x.id()), m.contains_right(&R::new(v)))));
        }
        for v in 0..u {
            attempt(|| match v % 5 {
                0 => drop(m.insert(L::new(v), R::new(v))),
                1 => drop(m.remove_via_left(&L::new(v))),
                2 => drop(m.remove_via_right(&R::new(v))),
                3 => drop(m.swap_left(&L::new(v), L::new(v + 1))),
                _ => drop(m.swap_right(&R::new(v), R::new(v + 1))),
            });
        }
        attempt(|| m.retain(|l, _| l.value() % 2 == 0));
        attempt(|| m.clear());
        attempt(|| drop(m.insert(L::new(0), R::new(0))));
    }
}

impl Subj for Partial {
    const LIST: &'static [(&'static str, Cat)] = &[
        ("get_left", Look), ("get_right", Look), ("get by form", Look), ("contains", Look), ("are_paired", Look), ("is_paired", Look),
        ("iter", Look), ("clone", Look), ("==", Look), ("== other", Look), ("debug", Look), ("debug iter", Look), 
        ("remove", Remove), ("remove_left", Remove), ("remove_right", Remove), ("remove_via_left", Remove), ("remove_via_right", Remove),
        ("retain", Filter), ("retain_paired", Filter), ("retain_unpaired", Filter), ("drain_filter", Filter), ("drain_filter by next", Filter),
        ("extend", Source), ("extend_opt", Source), ("collect", Source), ("collect_opt", Source),
        ("insert", Other), ("insert_left", Other), ("insert_right", Other), ("pair", Other), ("pair_forced", Other), ("pair_forced_remove", Other),
        ("unpair", Other), ("swap_left", Other), ("swap_left_checked", Other), ("swap_left_or_insert", Other), ("swap_right", Other),
        ("swap_right_checked", Other), ("swap_right_or_insert", Other), ("clear", Other), ("drain", Other), ("drain part", Other),
        ("reserve", Other), ("try_reserve", Other), ("shrink_to", Other), ("shrink_to_fit", Other), ("clone_from", Other), ("drop", Other),
    ];
    fn apply(&mut self, op: &str, x: &mut Args) {
        let m = &mut self.map;
        fn sides<'a>(o: &OptionalPair<&'a L, &'a R>) -> (Option<&'a L>, Option<&'a R>) {
            match *o {
                OptionalPair::Neither => (None, None),
                OptionalPair::SomeLeft(l) => (Some(l), None),
                OptionalPair::SomeRight(r) => (None, Some(r)),
                OptionalPair::SomeBoth(l, r) => (Some(l), Some(r)),
            }
        }
        match op {
            "get_left" => drop(m.get_left(x.r.as_ref().unwrap())),
            "get_right" => drop(m.get_right(x.l.as_ref().unwrap())),
            "get by form" => drop((m.get_right(&Form::<0>(x.a)), m.get_left(&Form::<1>(x.x)))),
            "contains" => drop((m.contains_left(x.l.as_ref().unwrap()), m.contains_right(x.r.as_ref().unwrap()))),
            "is_paired" => drop((m.is_left_paired(x.l.as_ref().unwrap()), m.is_right_paired(x.r.as_ref().unwrap()))),
            "are_paired" => drop(m.are_paired(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "iter" => drop((m.iter().count(), m.iter_left().count(), m.iter_right().count(), m.iter_paired().count(), m.iter_unpaired().count())),
            "clone" => drop(m.clone()),
            "==" => drop(*m == m.clone()),
            "== other" => {
                let mut o: crate::partial::Map = PartialCycleMap::with_hasher(m.hasher().clone());
                for (l, r) in m.iter_paired() {
                    o.insert(L::new(l.value()), R::new(r.value()));
                }
                o.insert(L::new(x.a), R::new(x.x));
                drop(*m == o);
                drop(o == *m);
            }
            "debug" => drop(format!("{m:?}")),
            "debug iter" => drop(format!("{:?} {:?} {:?} {:?} {:?}", m.iter(), m.iter_left(), m.iter_right(), m.iter_paired(), m.iter_unpaired())),
            "remove" => drop(m.remove(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "remove_left" => drop(m.remove_left(x.l.as_ref().unwrap())),
            "remove_right" => drop(m.remove_right(x.r.as_ref().unwrap())),
            "remove_via_left" => drop(m.remove_via_left(x.l.as_ref().unwrap())),
            "remove_via_right" => drop(m.remove_via_right(x.r.as_ref().unwrap())),
            // These drop what the closure says true for (see the known findings)
            "retain" => m.retain(|o| {
                let (l, r) = sides(&o);
                x.judge(l, r, true)
            }),
            "retain_paired" => m.retain_paired(|l, r| x.judge(Some(l), Some(r), true)),
            "retain_unpaired" => m.retain_unpaired(|o| {
                let (l, r) = sides(o);
                x.judge(l, r, true)
            }),
            "drain_filter" => drop(m.drain_filter(|o| {
                let (l, r) = sides(&o);
                x.judge(l, r, true)
            })),
            "drain_filter by next" => {
                let n = x.n;
                drop(
                    m.drain_filter(|o| {
                        let (l, r) = sides(&o);
                        x.judge(l, r, true)
                    })
                    .take(n)
                    .count(),
                )
            }
            "extend" => m.extend(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }),
            "extend_opt" => m.extend(Src { pairs: &x.pairs[..x.cut], at: 0, f: opt_item }),
            "collect" => drop(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }.collect::<PartialCycleMap<L, R>>()),
            "collect_opt" => drop(Src { pairs: &x.pairs[..x.cut], at: 0, f: opt_item }.collect::<PartialCycleMap<L, R>>()),
            "insert" => drop(m.insert(x.l.take().unwrap(), x.r.take().unwrap())),
            "insert_left" => drop(m.insert_left(x.l.take().unwrap())),
            "insert_right" => drop(m.insert_right(x.r.take().unwrap())),
            "pair" => drop(m.pair(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "pair_forced" => drop(m.pair_forced(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "pair_forced_remove" => drop(m.pair_forced_remove(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "unpair" => drop(m.unpair(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "swap_left" => drop(m.swap_left(&L::new(x.b), x.l.take().unwrap())),
            "swap_left_checked" => drop(m.swap_left_checked(&L::new(x.b), x.r.as_ref().unwrap(), x.l.take().unwrap())),
            "swap_left_or_insert" => drop(m.swap_left_or_insert(&L::new(x.b), x.l.take().unwrap(), x.r.take().unwrap())),
            "swap_right" => drop(m.swap_right(&R::new(x.b), x.r.take().unwrap())),
            "swap_right_checked" => drop(m.swap_right_checked(&R::new(x.b), x.l.as_ref().unwrap(), x.r.take().unwrap())),
            "swap_right_or_insert" => drop(m.swap_right_or_insert(&R::new(x.b), x.r.take().unwrap(), x.l.take().unwrap())),
            "clear" => m.clear(),
            "drain" => drop(m.drain()),
            "drain part" => drop(m.drain().take(x.n).count()),
            "leak drain" => {
                let mut d = m.drain();
                for p in d.by_ref().take(x.n) {
                    x.kept.push(Box::new(p));
                }
                std::mem::forget(d);
            }
            "leak drain_filter" => {
                let (n, mut kept) = (x.n, Vec::new());
                let mut d = m.drain_filter(|o| {
                    let (l, r) = sides(&o);
                    x.judge(l, r, true)
                });
                for p in d.by_ref().take(n) {
                    kept.push(Box::new(p) as Box<dyn std::any::Any>);
                }
                std::mem::forget(d);
                x.kept = kept;
            }
            "reserve" => {
                m.reserve_left(x.n * 8);
                m.reserve_right(x.n * 8)
            }
            "try_reserve" => drop((m.try_reserve_left(x.n * 8), m.try_reserve_right(x.n * 8))),
            "shrink_to" => {
                m.shrink_to_left(x.n);
                m.shrink_to_right(x.n)
            }
            "shrink_to_fit" => m.shrink_to_fit(),
            "clone_from" => {
                let c: crate::partial::Map = PartialCycleMap::with_hasher(m.hasher().clone());
                let c = std::mem::replace(m, c);
                m.clone_from(&c);
            }
            "drop" => {
                let c: crate::partial::Map = PartialCycleMap::with_hasher(m.hasher().clone());
                drop(std::mem::replace(m, c))
            }
            _ => panic!("no {op}"),
        }
    }
    fn rows(&self) -> Vec<Row> {
        self.m
            .items()
            .into_iter()
            .map(|i| match i {
                Opt::N => (None, None),
                Opt::L(l) => (Some(l), None),
                Opt::R(r) => (None, Some(r)),
                Opt::B(l, r) => (Some(l), Some(r)),
            })
            .collect()
    }
    fn partner(&self, l: u32) -> Option<u32> {
        self.m.l.get(&l).and_then(|x| x.1)
    }
    fn poke(&mut self, u: u32) {
        let m = &mut self.map;
        let n = 3 * u as usize + 20;
        attempt(|| drop(m.iter().take(n).count()));
        attempt(|| drop(m.iter_paired().take(n).map(|(l, r)| (l.id(), r.id())).count()));
        attempt(|| drop(m.iter_unpaired().take(n).count()));
        attempt(|| drop(m.iter_left().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.iter_right().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.clone()));
        attempt(|| drop(format!("{m:?}")));
        for v in 0..u {
            attempt(|| drop((m.get_right(&L::new(v)).map(|x| x.id()), m.is_left_paired(&L::new(v)))));
            attempt(|| drop((m.get_left(&R::new(v)).map(|x| x.id()), m.is_right_paired(&R::new(v)))));
        }
        for v in 0..u {
            attempt(|| match v % 8 {
                0 => drop(m.insert(L::new(v), R::new(v))),
                1 => drop(m.remove_via_left(&L::new(v))),
                2 => drop(m.remove_via_right(&R::new(v))),
                3 => drop(m.swap_left(&L::new(v), L::new(v + 1))),
                4 => drop(m.swap_right(&R::new(v), R::new(v + 1))),
                5 => drop(m.pair_forced(&L::new(v), &R::new(v))),
                6 => drop(m.remove_left(&L::new(v))),
                _ => drop(m.unpair(&L::new(v), &R::new(v))),
            });
        }
        attempt(|| m.retain_paired(|l, _| l.value() % 2 == 0));
        attempt(|| m.clear());
        attempt(|| drop(m.insert(L::new(0), R::new(0))));
    }
}

fn opt_group(a: u32, b: u32, i: usize) -> (Option<L>, R) {
    (if (i + a as usize) % 3 == 0 { None } else { Some(L::new(a)) }, R::new(b))
}
impl Subj for Group {
    const LIST: &'static [(&'static str, Cat)] = &[
        ("get_left_iter", Look), ("get_right", Look), ("get by form", Look), ("contains", Look), ("are_paired", Look), ("is_paired", Look),
        ("iter", Look), ("clone", Look), ("==", Look), ("== other", Look), ("debug", Look), ("debug iter", Look),
        ("remove", Remove), ("remove_left", Remove), ("remove_right", Remove),
        ("retain_paired", Filter), ("retain_unpaired", Filter), ("extend", Source), ("extend_opt", Source), ("collect", Source), ("collect_opt", Source),
        ("insert", Other), ("insert_remove", Other), ("insert_left", Other), ("insert_right", Other), ("pair", Other), ("swap_right", Other),
        ("swap_right_remove", Other), ("clear", Other), ("clone_from", Other), ("drop", Other),
    ];
    fn apply(&mut self, op: &str, x: &mut Args) {
        let m = &mut self.map;
        match op {
            "get_left_iter" => drop(m.get_left_iter(x.r.as_ref().unwrap()).map(|i| i.count())),
            "get_right" => drop(m.get_right(x.l.as_ref().unwrap())),
            "get by form" => drop((m.get_right(&Form::<0>(x.a)), m.get_left_iter(&Form::<1>(x.x)).map(|i| i.count()))),
            "contains" => drop((m.contains_left(x.l.as_ref().unwrap()), m.contains_right(x.r.as_ref().unwrap()))),
            "is_paired" => drop(m.is_right_paired(x.r.as_ref().unwrap())),
            "are_paired" => drop(m.are_paired(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "iter" => drop((m.iter().count(), m.iter_left().count(), m.iter_right().count(), m.iter_paired().count(), m.iter_unpaired().count())),
            "clone" => drop(m.clone()),
            "==" => drop(*m == m.clone()),
            "== other" => {
                let mut o: crate::group::Map = GroupMap::with_hasher(m.hasher().clone());
                for (l, r) in m.iter_paired() {
                    o.insert(L::new(l.value()), R::new(r.value()));
                }
                o.insert_right(R::new(x.x));
                drop(*m == o);
                drop(o == *m);
            }
            "debug" => drop(format!("{m:?}")),
            "debug iter" => drop(format!("{:?} {:?} {:?} {:?} {:?}", m.iter(), m.iter_left(), m.iter_right(), m.iter_paired(), m.iter_unpaired())),
            "remove" => drop(m.remove(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "remove_left" => drop(m.remove_left(x.l.as_ref().unwrap())),
            "remove_right" => drop(m.remove_right(x.r.as_ref().unwrap())),
            "retain_paired" => m.retain_paired(|l, r| x.judge(Some(l), Some(r), false)),
            "retain_unpaired" => m.retain_unpaired(|r| x.judge(None, Some(r), true)),
            "extend" => m.extend(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }),
            "extend_opt" => m.extend(Src { pairs: &x.pairs[..x.cut], at: 0, f: opt_group }),
            "collect" => drop(Src { pairs: &x.pairs[..x.cut], at: 0, f: |a, b, _| (L::new(a), R::new(b)) }.collect::<GroupMap<L, R>>()),
            "collect_opt" => drop(Src { pairs: &x.pairs[..x.cut], at: 0, f: opt_group }.collect::<GroupMap<L, R>>()),
            "insert" => drop(m.insert(x.l.take().unwrap(), x.r.take().unwrap())),
            "insert_remove" => drop(m.insert_remove(x.l.take().unwrap(), x.r.take().unwrap())),
            "insert_left" => drop(m.insert_left(x.l.take().unwrap(), x.r.as_ref().unwrap())),
            "insert_right" => drop(m.insert_right(x.r.take().unwrap())),
            "pair" => drop(m.pair(x.l.as_ref().unwrap(), x.r.as_ref().unwrap())),
            "swap_right" => drop(m.swap_right(&R::new(x.b), x.r.take().unwrap())),
            "swap_right_remove" => drop(m.swap_right_remove(&R::new(x.b), x.r.take().unwrap())),
            "clear" => m.clear(),
            "clone_from" => {
                let c: crate::group::Map = GroupMap::with_hasher(m.hasher().clone());
                let c = std::mem::replace(m, c);
                m.clone_from(&c);
            }
            "drop" => {
                let c: crate::group::Map = GroupMap::with_hasher(m.hasher().clone());
                drop(std::mem::replace(m, c))
            }
            _ => panic!("no {op}"),
        }
    }
    fn rows(&self) -> Vec<Row> {
        self.m.items().into_iter().map(|(l, r)| (l, Some(r))).collect()
    }
    fn partner(&self, l: u32) -> Option<u32> {
        self.m.l.get(&l).map(|x| x.1)
    }
    fn skip(&self, op: &str, x: &Args) -> bool {
        match op {
            "insert" => self.partner(x.a) == Some(x.x),
            // Never insert a pair twice in a row of insertions
            "extend" | "extend_opt" | "collect" | "collect_opt" => {
                let mut s: BTreeSet<(u32, u32)> = BTreeSet::new();
                x.pairs.iter().any(|p| self.partner(p.0) == Some(p.1) || !s.insert(*p))
            }
            _ => false,
        }
    }
    fn poke(&mut self, u: u32) {
        let m = &mut self.map;
        let n = 3 * u as usize + 20;
        attempt(|| drop(m.iter().take(n).map(|(l, r)| (l.map(|l| l.id()), r.id())).count()));
        attempt(|| drop(m.iter_paired().take(n).map(|(l, r)| (l.id(), r.id())).count()));
        attempt(|| drop(m.iter_unpaired().take(n).map(|r| r.id()).count()));
        attempt(|| drop(m.iter_left().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.iter_right().take(n).map(|l| l.id()).count()));
        attempt(|| drop(m.clone()));
        attempt(|| drop(format!("{m:?}")));
        for v in 0..u {
            attempt(|| drop((m.get_right(&L::new(v)).map(|x| x.id()), m.contains_left(&L::new(v)))));
            attempt(|| drop(m.get_left_iter(&R::new(v)).map(|x| x.take(n).map(|l| l.id()).count())));
        }
        for v in 0..u {
            attempt(|| match v % 7 {
                0 => drop(m.insert_remove(L::new(v), R::new(v))),
                1 => drop(m.remove_left(&L::new(v))),
                2 => drop(m.remove_right(&R::new(v))),
                3 => drop(m.swap_right(&R::new(v), R::new(v + 1))),
                4 => drop(m.swap_right_remove(&R::new(v), R::new(v + 1))),
                5 => drop(m.pair(&L::new(v), &R::new(v))),
                _ => drop(m.insert_left(L::new(v), &R::new(v))),
            });
        }
        attempt(|| m.retain_paired(|l, _| l.value() % 2 == 0));
        attempt(|| m.clear());
        attempt(|| drop(m.insert_right(R::new(0))));
    }
}

struct Plan<'a> {
    h: &'a History,
    op: &'static str,
    cat: Cat,
    aseed: u64,
}
/// Brings a new map into the state and makes the arguments; the same every time
fn build<S: Subj>(p: &Plan) -> Option<(S, Args)> {
    key::reset();
    let mut s = S::new(&p.h.cfg);
    let mut cov = Cov::default();
    for op in &p.h.ops {
        if !matches!(catch_unwind(AssertUnwindSafe(|| s.step(op, &mut cov))), Ok(Ok(()))) {
            std::mem::forget(s);
            return None;
        }
    }
    let mut rng = Rng::new(p.aseed);
    let (ul, ur) = (p.h.cfg.ul, p.h.cfg.ur);
    let a = rng.u32(ul);
    let mut x = Args { a, b: rng.u32(ul.max(ur)), x: rng.u32(ur), n: rng.u32(ul + 2) as usize, pred: rng.u32(1 << 16), ..Args::default() };
    if rng.chance(2, 3) {
        x.x = s.partner(a).unwrap_or(x.x);
    }
    if rng.chance(1, 4) {
        x.b = x.a;
    }
    let k = rng.u32(9);
    x.pairs = (0..k).map(|_| (rng.u32(ul), rng.u32(ur))).collect();
    x.cut = x.pairs.len();
    x.l = Some(L::new(x.a));
    x.r = Some(R::new(x.x));
    Some((s, x))
}
fn items(rows: &[Row]) -> (BTreeSet<Id>, BTreeSet<Id>) {
    (rows.iter().filter_map(|r| r.0).collect(), rows.iter().filter_map(|r| r.1).collect())
}
fn pairs(rows: &[Row]) -> BTreeSet<(Id, Id)> {
    rows.iter().filter_map(|r| Some((r.0?, r.1?))).collect()
}
fn values(rows: &[Row]) -> Vec<(Option<u32>, Option<u32>)> {
    sorted(&rows.iter().map(|r| (r.0.map(|x| x.0), r.1.map(|x| x.0))).collect::<Vec<_>>())
}

/// One injection. Ok(false): the call wasn't reached
fn inject<S: Subj>(p: &Plan, before: &[Row], dry: &[Row], c: Call, n: u64, cov: &mut Cov) -> Result<bool, String> {
    let Some((mut s, mut x)) = build::<S>(p) else { return Ok(false) };
    let args: Vec<u32> = x.l.iter().map(|l| l.inst).chain(x.r.iter().map(|r| r.inst)).collect();
    key::arm(c, n);
    let r = catch_unwind(AssertUnwindSafe(|| s.apply(p.op, &mut x)));
    let fired = key::disarm();
    let mut bad: Option<String> = None;
    if let (Err(e), false) = (&r, fired) {
        let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
        std::mem::forget(s);
        // not ours
        let _ = m;
        return Ok(false);
    }
    if !fired {
        std::mem::forget(s);
        return Ok(false);
    }
    let strict = match p.cat {
        Look => true,
        Remove => matches!(c, Call::Hash | Call::Eq) && args.iter().any(|i| key::about(*i)),
        Filter => c == Call::Pred,
        Source => c == Call::Next,
        Other => false,
    };
    cov.bump(if strict { "injections_judged_by_contents" } else { "injections_judged_by_memory" }, 1);
    if strict {
        bad = (|| -> Res {
            let ok = catch_unwind(AssertUnwindSafe(|| s.resync())).unwrap_or(false);
            if !ok {
                return Err("the map contradicts itself".into());
            }
            let after = s.rows();
            let (bl, br) = items(before);
            let (al, ar) = items(&after);
            match p.cat {
                Look => same("contents after the panic", &after, &before.to_vec())?,
                Remove => {
                    let (dl, dr) = items(dry);
                    for (what, b, d, a) in [("left", &bl, &dl, &al), ("right", &br, &dr, &ar)] {
                        if let Some(i) = a.difference(b).next() {
                            return Err(format!("{what} item {i:?} appeared"));
                        }
                        if let Some(i) = b.difference(a).find(|i| d.contains(i)) {
                            return Err(format!("{what} item {i:?} is lost, which the operation doesn't remove"));
                        }
                    }
                    if let Some(q) = pairs(&after).difference(&pairs(before)).next() {
                        return Err(format!("{q:?} is a new pairing"));
                    }
                    let (was, is) = (pairs(before), pairs(&after));
                    if let Some(q) = pairs(dry).iter().find(|q| was.contains(q) && !is.contains(q)) {
                        return Err(format!("the pairing {q:?} is lost"));
                    }
                }
                Filter => {
                    for (what, b, m, a) in [("left", &bl, &x.marked_l, &al), ("right", &br, &x.marked_r, &ar)] {
                        if let Some(i) = a.difference(b).next() {
                            return Err(format!("{what} item {i:?} appeared"));
                        }
                        if let Some(i) = b.difference(a).find(|i| !m.contains(i)) {
                            return Err(format!("{what} item {i:?} is lost, which the closure didn't mark"));
                        }
                    }
                    let (was, is) = (pairs(before), pairs(&after));
                    if let Some(q) = is.difference(&was).next() {
                        return Err(format!("{q:?} is a new pairing"));
                    }
                    if let Some(q) = was.iter().find(|q| !is.contains(q) && !x.marked_l.contains(&q.0) && !x.marked_r.contains(&q.1)) {
                        return Err(format!("the pairing {q:?} is lost"));
                    }
                }
                _ => {
                    // The source panicked instead of giving item n
                    let Some((mut s2, mut x2)) = build::<S>(p) else { return Ok(()) };
                    x2.cut = n as usize;
                    let ok = catch_unwind(AssertUnwindSafe(|| s2.apply(p.op, &mut x2))).is_ok() && s2.resync();
                    let want = values(&s2.rows());
                    std::mem::forget(s2);
                    if ok {
                        same(&format!("contents after the source panicked at item {n}"), &values(&after), &want)?;
                    }
                    // The ledger now is that of the other map
                    return Ok(());
                }
            }
            let mut rng = Rng::new(p.aseed);
            for a in [COH, EFF] {
                match catch_unwind(AssertUnwindSafe(|| s.audit(a, true, &mut rng, &mut Cov::default()))) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => return Err(format!("the map is inconsistent: {m}")),
                    Err(_) => return Err(format!("the map is inconsistent: panicked: {}", last_panic())),
                }
            }
            Ok(())
        })()
        .err();
    }
    if bad.is_some() || (p.cat == Source && strict) {
        std::mem::forget(s);
        std::mem::forget(x);
        return match bad {
            Some(m) => Err(m),
            None => Ok(true),
        };
    }
    let safe = |m: String| format!("memory safety: {m}");
    if let Some(m) = key::fault() {
        std::mem::forget(s);
        return Err(safe(m));
    }
    s.poke(p.h.cfg.ul.max(p.h.cfg.ur));
    if let Some(m) = key::fault() {
        std::mem::forget(s);
        return Err(safe(format!("using the map afterwards: {m}")));
    }
    drop(x);
    if catch_unwind(AssertUnwindSafe(|| drop(s))).is_err() {
        return Err(format!("dropping the map panicked: {}", last_panic()));
    }
    if let Some(m) = key::fault() {
        return Err(safe(format!("dropping the map: {m}")));
    }
    if key::alive() != 0 {
        cov.bump("injections_leaving_items_undropped", 1);
    }
    Ok(true)
}

/// All injections into one operation on one state
fn sweep<S: Subj>(p: &Plan, rng: &mut Rng, cov: &mut Cov) -> Option<(Call, u64, String)> {
    let (mut s, mut x) = build::<S>(p)?;
    if s.skip(p.op, &x) {
        cov.bump("excluded:K3", 1);
        return None;
    }
    if !s.resync() {
        std::mem::forget(s);
        return None;
    }
    let before = s.rows();
    let was: Vec<u64> = CALLS.iter().map(|c| key::count(*c)).collect();
    if catch_unwind(AssertUnwindSafe(|| s.apply(p.op, &mut x))).is_err() {
        // Panics by itself: not for this check
        cov.bump("histories_cut_short_by_other_deviations", 1);
        std::mem::forget(s);
        return None;
    }
    let counts: Vec<u64> = CALLS.iter().zip(&was).map(|(c, w)| key::count(*c) - w).collect();
    let dry = if p.cat == Remove {
        if !s.resync() {
            std::mem::forget(s);
            return None;
        }
        s.rows()
    } else {
        Vec::new()
    };
    std::mem::forget(s);
    std::mem::forget(x);
    let size = (usize::BITS - before.len().leading_zeros()) as u64;
    for (i, c) in CALLS.iter().enumerate() {
        let n = counts[i];
        let at: Vec<u64> = if n <= 16 { (0..n).collect() } else { (0..10).chain((0..5).map(|_| rng.below(n))).chain([n - 1]).collect() };
        for k in at {
            cov.steps += 1;
            match inject::<S>(p, &before, &dry, *c, k, cov) {
                Ok(true) => {
                    cov.facts += 1;
                    cov.bump(&format!("panics_in_{c:?}"), 1);
                    let o = S::LIST.iter().position(|x| x.0 == p.op).unwrap() as u64;
                    cov.tuple(&[S::NAME.len() as u64, o, i as u64, k, p.h.cfg.mode as u64, size]);
                }
                Ok(false) => cov.bump("injections_not_reached", 1),
                Err(m) => return Some((*c, k, m)),
            }
        }
    }
    None
}

fn one<S: Subj>(which: u64, idx: u64, seed: u64, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(seed);
    let never: &[&str] = &["drain_filter_panic", "retain_panic"];
    let (mut h, _) = gen_history::<S>(rng.next(), &Mix { focus: 0, boost: 1, never, plain_preds: false, max_profile: 1 }, 0);
    if h.cfg.mode == 13 {
        h.cfg.mode = 0;
    }
    h.ops.truncate(rng.u32(60) as usize);
    let (op, cat) = S::LIST[which as usize % S::LIST.len()];
    let p = Plan { h: &h, op, cat, aseed: rng.next() };
    cov.histories += 1;
    if cov.samples.len() < 2 {
        cov.samples.push(format!("panics in {op} after {}", show_ops::<S>(&h, 12)));
    }
    cov.bump(&format!("swept {} {op}", S::NAME), 1);
    let (c, k, m) = sweep::<S>(&p, &mut rng, cov)?;
    // Shorter histories that fail too
    let f = Failure { at: h.ops.len(), class: 0, msg: String::new() };
    let (h2, _) = shrink_by(&h, f, |g| {
        let p = Plan { h: g, op, cat, aseed: p.aseed };
        sweep::<S>(&p, &mut Rng::new(1), &mut Cov::default()).map(|x| Failure { at: g.ops.len(), class: 0, msg: x.2 })
    });
    let (c, k, m) = sweep::<S>(&Plan { h: &h2, op, cat, aseed: p.aseed }, &mut Rng::new(1), &mut Cov::default()).unwrap_or((c, k, m));
    Some(Viol {
        msg: format!("{} {op}: a panic in {c:?} call {k}: {m} | hasher {} state from {}", S::NAME, MODES[h2.cfg.mode as usize], show_ops::<S>(&h2, 40)),
        replay: json!({"kind": "case", "check": "C21", "idx": idx, "seed": seed.to_string(), "what": m}),
    })
}

pub fn injected(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let s = mix(seed ^ mix(idx ^ 0xfa11));
    let mut v = match idx % 3 {
        0 => one::<Cycle>(idx / 3, idx, s, cov),
        1 => one::<Partial>(idx / 3, idx, s, cov),
        _ => one::<Group>(idx / 3, idx, s, cov),
    }?;
    v.replay["seed"] = json!(seed);
    Some(v)
}

/// C15: an iterator that removes items is leaked in the middle. Which items are still in the map is
/// open then, but nothing may be dropped twice or used after it was dropped, now or later.
pub fn leaked(idx: u64, seed: u64, cov: &mut Cov) -> Option<Viol> {
    fn go<S: Subj>(op: &'static str, rng: &mut Rng, cov: &mut Cov) -> Option<String> {
        let never: &[&str] = &["drain_filter_panic", "retain_panic"];
        let (mut h, _) = gen_history::<S>(rng.next(), &Mix { focus: 0, boost: 1, never, plain_preds: false, max_profile: 1 }, 0);
        h.ops.truncate(rng.u32(if cfg!(miri) { 15 } else { 60 }) as usize);
        let p = Plan { h: &h, op, cat: Other, aseed: rng.next() };
        let (mut s, mut x) = build::<S>(&p)?;
        let keep = rng.chance(1, 2);
        attempt(|| s.apply(op, &mut x));
        cov.facts += 1;
        cov.bump(&format!("leaked: {} {op}", S::NAME), 1);
        cov.tuple(&[S::NAME.len() as u64, op.len() as u64, h.cfg.mode as u64, x.kept.len() as u64]);
        let n = x.kept.len();
        if !keep {
            attempt(|| x.kept.clear());
        }
        s.poke(h.cfg.ul.max(h.cfg.ur));
        attempt(|| drop(s));
        attempt(|| drop(x));
        let m = key::fault()?;
        Some(format!("{} {op} after {n} items: {m} | hasher {} state from {}", S::NAME, MODES[h.cfg.mode as usize], show_ops::<S>(&h, 40)))
    }
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0x1eaf)));
    cov.histories += 1;
    let op = *rng.pick(&["leak drain", "leak drain_filter"]);
    let m = if rng.chance(1, 2) { go::<Cycle>(op, &mut rng, cov) } else { go::<Partial>(op, &mut rng, cov) }?;
    Some(Viol { msg: m, replay: json!({"kind": "case", "check": "C15", "special": true, "idx": idx, "seed": seed}) })
}
