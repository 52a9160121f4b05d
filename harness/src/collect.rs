//! C13: collect and extend from sources that lie about their length and go on after their end.
use crate::checks::Viol;
use crate::hasher::{self, MODES, TB};
use crate::key::{self, L, R};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde_json::json;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Item = (Option<u32>, Option<u32>);

struct Source<'a, T> {
    items: &'a [Item],
    make: fn(Item) -> T,
    at: &'a Cell<usize>,
    hint: (usize, Option<usize>),
    ended: bool,
}
impl<T> Iterator for Source<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            // Goes on after the end, like an iterator that isn't fused
            self.at.set(self.at.get() + 1_000_000);
            return Some((self.make)((Some(77_777), Some(77_777))));
        }
        let i = self.at.get();
        if i >= self.items.len() {
            self.ended = true;
            return None;
        }
        self.at.set(i + 1);
        Some((self.make)(self.items[i]))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// A kind of map with a kind of item
trait Coll: Sized {
    type It;
    const NAME: &'static str;
    fn make(i: Item) -> Self::It;
    fn one(&mut self, i: Self::It);
    fn shot(&self) -> Vec<Opt<Id, Id>>;
}
fn pair(i: Item) -> (L, R) {
    (L::new(i.0.unwrap_or(0)), R::new(i.1.unwrap_or(0)))
}
impl<S: std::hash::BuildHasher> Coll for CycleMap<L, R, S> {
    type It = (L, R);
    const NAME: &'static str = "CycleMap of pairs";
    fn make(i: Item) -> (L, R) {
        pair(i)
    }
    fn one(&mut self, i: (L, R)) {
        self.insert(i.0, i.1);
    }
    fn shot(&self) -> Vec<Opt<Id, Id>> {
        self.iter().take(self.len() + 8).map(|(l, r)| Opt::B(l.id(), r.id())).collect()
    }
}
fn shot_p<S: std::hash::BuildHasher>(m: &PartialCycleMap<L, R, S>) -> Vec<Opt<Id, Id>> {
    m.iter().take(m.len_left() + m.len_right() + 8).map(|o| view(&o, |l| l.id(), |r| r.id())).collect()
}
/// PartialCycleMap from pairs, and from OptionalPairs
struct Pp<S>(PartialCycleMap<L, R, S>);
struct Po<S>(PartialCycleMap<L, R, S>);
struct Gp<S>(GroupMap<L, R, S>);
struct Go<S>(GroupMap<L, R, S>);
impl<S: std::hash::BuildHasher> Coll for Pp<S> {
    type It = (L, R);
    const NAME: &'static str = "PartialCycleMap of pairs";
    fn make(i: Item) -> (L, R) {
        pair(i)
    }
    fn one(&mut self, i: (L, R)) {
        self.0.insert(i.0, i.1);
    }
    fn shot(&self) -> Vec<Opt<Id, Id>> {
        shot_p(&self.0)
    }
}
impl<S: std::hash::BuildHasher> Coll for Po<S> {
    type It = OptionalPair<L, R>;
    const NAME: &'static str = "PartialCycleMap of OptionalPairs";
    fn make(i: Item) -> OptionalPair<L, R> {
        match i {
            (None, None) => OptionalPair::Neither,
            (Some(l), None) => OptionalPair::SomeLeft(L::new(l)),
            (None, Some(r)) => OptionalPair::SomeRight(R::new(r)),
            (Some(l), Some(r)) => OptionalPair::SomeBoth(L::new(l), R::new(r)),
        }
    }
    fn one(&mut self, i: OptionalPair<L, R>) {
        match i {
            OptionalPair::Neither => {}
            OptionalPair::SomeLeft(l) => drop(self.0.insert_left(l)),
            OptionalPair::SomeRight(r) => drop(self.0.insert_right(r)),
            OptionalPair::SomeBoth(l, r) => drop(self.0.insert(l, r)),
        }
    }
    fn shot(&self) -> Vec<Opt<Id, Id>> {
        shot_p(&self.0)
    }
}
fn shot_g<S: std::hash::BuildHasher>(m: &GroupMap<L, R, S>) -> Vec<Opt<Id, Id>> {
    m.iter().take(m.len_left() + m.len_right() + 8).map(|(l, r)| Opt::of(l.map(|l| l.id()), Some(r.id()))).collect()
}
impl<S: std::hash::BuildHasher> Coll for Gp<S> {
    type It = (L, R);
    const NAME: &'static str = "GroupMap of pairs";
    fn make(i: Item) -> (L, R) {
        pair(i)
    }
    fn one(&mut self, i: (L, R)) {
        self.0.insert(i.0, i.1);
    }
    fn shot(&self) -> Vec<Opt<Id, Id>> {
        shot_g(&self.0)
    }
}
impl<S: std::hash::BuildHasher> Coll for Go<S> {
    type It = (Option<L>, R);
    const NAME: &'static str = "GroupMap of optional pairs";
    fn make(i: Item) -> (Option<L>, R) {
        (i.0.map(L::new), R::new(i.1.unwrap_or(0)))
    }
    fn one(&mut self, i: (Option<L>, R)) {
        match i.0 {
            Some(l) => self.0.insert(l, i.1),
            None => drop(self.0.insert_right(i.1)),
        }
    }
    fn shot(&self) -> Vec<Opt<Id, Id>> {
        shot_g(&self.0)
    }
}

fn rel(mut v: Vec<Opt<Id, Id>>, base: u32) -> Vec<Opt<Id, Id>> {
    let f = |i: Id| (i.0, i.1.wrapping_sub(base));
    for x in &mut v {
        *x = match *x {
            Opt::N => Opt::N,
            Opt::L(l) => Opt::L(f(l)),
            Opt::R(r) => Opt::R(f(r)),
            Opt::B(l, r) => Opt::B(f(l), f(r)),
        }
    }
    v.sort();
    v
}

/// GroupMap::insert of a pair that is already paired is known not to work: such pairs are left out
fn without_repeats(items: &mut Vec<Item>) -> u64 {
    let mut m: std::collections::BTreeMap<u32, u32> = Default::default();
    let n = items.len();
    items.retain(|i| match *i {
        (Some(l), r) => {
            let r = r.unwrap_or(0);
            if m.get(&l) == Some(&r) {
                return false;
            }
            m.insert(l, r);
            true
        }
        (None, r) => {
            let r = r.unwrap_or(0);
            m.retain(|_, x| *x != r);
            true
        }
    });
    (n - items.len()) as u64
}

struct Case {
    start: Vec<Item>,
    items: Vec<Item>,
    hint: (usize, Option<usize>),
}

fn go<C: Coll>(c: &Case, new: fn() -> C, collect: Option<fn(Source<'_, C::It>) -> C>, extend: fn(&mut C, Source<'_, C::It>)) -> Res {
    let what = format!("{} from {} items with size_hint {:?}", C::NAME, c.items.len(), c.hint);
    for via_collect in [true, false] {
        if via_collect && collect.is_none() {
            continue;
        }
        let how = if via_collect { "collect" } else { "extend" };
        // One by one
        let base0 = key::instances();
        let mut want = new();
        for i in c.start.iter().filter(|_| !via_collect).chain(&c.items) {
            want.one(C::make(*i));
        }
        let want_shot = rel(want.shot(), base0);
        let alive = key::alive();
        drop(want);
        let alive = alive - key::alive();
        // At once
        let base = key::instances();
        let at = Cell::new(0);
        let src = Source { items: &c.items, make: C::make, at: &at, hint: c.hint, ended: false };
        let before = key::alive();
        let got = catch_unwind(AssertUnwindSafe(|| {
            if via_collect {
                collect.unwrap()(src)
            } else {
                let mut m = new();
                for i in &c.start {
                    m.one(C::make(*i));
                }
                extend(&mut m, src);
                m
            }
        }))
        .map_err(|_| format!("{how} {what}: panicked: {}", crate::runner::last_panic()))?;
        same(&format!("{how} {what}: items taken from the source"), &at.get(), &c.items.len())?;
        same(&format!("{how} {what}: contents by instance"), &rel(got.shot(), base), &want_shot)?;
        same(&format!("{how} {what}: items alive"), &(key::alive() - before), &alive)?;
        drop(got);
        same(&format!("{how} {what}: items alive after dropping the map"), &key::alive(), &before)?;
    }
    Ok(())
}

pub fn collected(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0xc011)));
    key::reset();
    let mode = rng.below(MODES.len() as u64 - 1) as u8;
    hasher::set_default(mode, rng.next());
    let u = [2, 4, 10, 100][rng.below(4) as usize];
    // Now and then, more items than any block size or 16 bit count
    let big = matches!(mode, 0 | 10 | 11) && rng.below(300) == 0 && !cfg!(miri);
    let u = if big { 40_000 + rng.u32(30_000) } else { u };
    if big {
        cov.bump("big_sources", 1);
    }
    let gen = |rng: &mut Rng, n: u32| -> Vec<Item> {
        (0..n)
            .map(|_| {
                let (l, r) = (rng.u32(u), rng.u32(u));
                (rng.chance(3, 4).then_some(l), rng.chance(3, 4).then_some(r))
            })
            .collect()
    };
    let n = rng.u32(3 * u + 2);
    let k = if rng.chance(1, 2) { 0 } else { rng.u32(2 * u) };
    let (start, items) = (gen(&mut rng, k), gen(&mut rng, n));
    let len = items.len();
    let hint = match rng.below(7) {
        0 => (0, None),
        1 => (0, Some(0)),
        2 => (len / 2, Some(len / 2)),
        3 => (len + 1 + rng.u32(200) as usize, None),
        4 => (1 << 13, Some(usize::MAX)),
        5 => (0, Some(usize::MAX)),
        _ => (len, Some(len)),
    };
    let mut c = Case { start, items, hint };
    cov.histories += 1;
    cov.steps += (c.items.len() + c.start.len()) as u64;
    cov.facts += 8;
    cov.tuple(&[c.items.iter().fold(9, |h, i| mix(h ^ i.0.map_or(0, |x| x as u64 + 1) << 32 ^ i.1.map_or(0, |x| x as u64 + 1))), hint.0 as u64, idx % 5, c.start.len() as u64]);
    cov.bump("source_cases", 1);
    let which = idx % 5;
    if which >= 3 {
        // The start and the items together must not repeat a pair
        if which == 3 {
            for i in c.start.iter_mut().chain(&mut c.items) {
                *i = (Some(i.0.unwrap_or(0)), Some(i.1.unwrap_or(0)));
            }
        }
        if big {
            for i in c.start.iter_mut().chain(&mut c.items) {
                i.0 = Some(i.0.unwrap_or(0));
            }
        }
        let mut all: Vec<Item> = c.start.iter().chain(&c.items).copied().collect();
        let cut = without_repeats(&mut all);
        // collect() alone sees only the items: those must do on their own as well
        let s = c.start.len().min(all.len());
        c.items = all.split_off(s);
        c.start = all;
        cov.bump("excluded:K3", cut);
        without_repeats(&mut c.items);
        let mut all: Vec<Item> = c.start.iter().chain(&c.items).copied().collect();
        if without_repeats(&mut all) > 0 {
            c.start.clear();
        }
    }
    type D = hashbrown::hash_map::DefaultHashBuilder;
    let special_hasher = rng.chance(1, 2);
    let r = catch_unwind(AssertUnwindSafe(|| match (which, special_hasher) {
        (0, false) => go::<CycleMap<L, R, D>>(&c, CycleMap::default, Some(|s| s.collect()), |m, s| m.extend(s)),
        (1, false) => go::<Pp<D>>(&c, || Pp(PartialCycleMap::default()), Some(|s| Pp(s.collect())), |m, s| m.0.extend(s)),
        (2, false) => go::<Po<D>>(&c, || Po(PartialCycleMap::default()), Some(|s| Po(s.collect())), |m, s| m.0.extend(s)),
        (3, false) => go::<Gp<D>>(&c, || Gp(GroupMap::default()), Some(|s| Gp(s.collect())), |m, s| m.0.extend(s)),
        (_, false) => go::<Go<D>>(&c, || Go(GroupMap::default()), Some(|s| Go(s.collect())), |m, s| m.0.extend(s)),
        (0, true) => go::<CycleMap<L, R, TB>>(&c, CycleMap::default, None, |m, s| m.extend(s)),
        (1, true) => go::<Pp<TB>>(&c, || Pp(PartialCycleMap::default()), None, |m, s| m.0.extend(s)),
        (2, true) => go::<Po<TB>>(&c, || Po(PartialCycleMap::default()), None, |m, s| m.0.extend(s)),
        (3, true) => go::<Gp<TB>>(&c, || Gp(GroupMap::default()), None, |m, s| m.0.extend(s)),
        (_, true) => go::<Go<TB>>(&c, || Go(GroupMap::default()), None, |m, s| m.0.extend(s)),
    }));
    hasher::set_default(0, 7);
    let msg = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(_) => {
            // Inserting one by one panics too
            cov.bump("cut_short_by_other_deviations", 1);
            return None;
        }
    };
    let show = |v: &[Item]| v.iter().map(|i| format!("{}-{}", i.0.map_or("".into(), |x| x.to_string()), i.1.map_or("".into(), |x| x.to_string()))).collect::<Vec<_>>().join(" ");
    Some(Viol {
        msg: format!("hasher {}: {msg} | start {} | items {}", if special_hasher { MODES[mode as usize] } else { "default" }, show(&c.start), show(&c.items)),
        replay: json!({"kind": "case", "check": "C13", "idx": idx, "seed": seed, "special": true, "what": msg}),
    })
}
