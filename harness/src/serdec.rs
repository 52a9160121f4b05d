//! C14: CycleMap through serde, with a watching serializer and a hostile deserializer.
use crate::alloc;
use crate::checks::Viol;
use crate::ensure;
use crate::hasher::{self, MODES, TB};
use crate::key::{self, L, R, REFUSED};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::CycleMap;
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{DeserializeSeed, IntoDeserializer, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeSeq};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type M = CycleMap<L, R, TB>;

#[derive(Debug, PartialEq, Clone)]
pub enum Er {
    At(usize),
    Msg(String),
}
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Er {}
impl serde::ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er::Msg(m.to_string())
    }
}
impl serde::de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er::Msg(m.to_string())
    }
}

// ---- serializer that accepts one sequence and watches it
#[derive(Default)]
struct Seen {
    announced: Vec<Option<usize>>,
    items: Vec<Value>,
    ended: u32,
    other: Vec<&'static str>,
}
struct Watch {
    seen: Rc<RefCell<Seen>>,
    fail_at: Option<usize>,
}
struct WatchSeq(Watch);
impl SerializeSeq for WatchSeq {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Er> {
        let mut s = self.0.seen.borrow_mut();
        let n = s.items.len();
        if self.0.fail_at == Some(n) {
            s.other.push("failed");
            return Err(Er::At(n));
        }
        s.items.push(serde_json::to_value(t).map_err(|e| Er::Msg(e.to_string()))?);
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        let mut s = self.0.seen.borrow_mut();
        s.ended += 1;
        if self.0.fail_at == Some(s.items.len()) {
            s.other.push("failed");
            return Err(Er::At(s.items.len()));
        }
        Ok(())
    }
}
macro_rules! refuse {
    ($($f:ident($($t:ty),*);)*) => {$(
        fn $f(self, $(_: $t),*) -> Result<(), Er> {
            self.seen.borrow_mut().other.push(stringify!($f));
            Ok(())
        }
    )*};
}
macro_rules! refuse_sub {
    ($($f:ident($($t:ty),*) -> $s:ident;)*) => {$(
        fn $f(self, $(_: $t),*) -> Result<Self::$s, Er> {
            Err(Er::Msg(stringify!($f).into()))
        }
    )*};
}
impl serde::Serializer for Watch {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = WatchSeq;
    type SerializeTuple = Impossible<(), Er>;
    type SerializeTupleStruct = Impossible<(), Er>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Impossible<(), Er>;
    type SerializeStruct = Impossible<(), Er>;
    type SerializeStructVariant = Impossible<(), Er>;
    refuse! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    refuse_sub! {
        serialize_tuple(usize) -> SerializeTuple; serialize_tuple_struct(&'static str, usize) -> SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> SerializeTupleVariant; serialize_map(Option<usize>) -> SerializeMap;
        serialize_struct(&'static str, usize) -> SerializeStruct; serialize_struct_variant(&'static str, u32, &'static str, usize) -> SerializeStructVariant;
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), Er> {
        Err(Er::Msg("some".into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<(), Er> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
        Err(Er::Msg("variant".into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<WatchSeq, Er> {
        self.seen.borrow_mut().announced.push(n);
        Ok(WatchSeq(self))
    }
}

// ---- deserializer that gives what it likes
struct Hostile {
    items: Vec<(u32, u32)>,
    /// element after which the input fails
    fail_at: Option<usize>,
    /// element that isn't a pair, and what it is instead
    odd_at: Option<(usize, u8)>,
    hint: Option<usize>,
    at: usize,
    log: Rc<RefCell<(usize, usize)>>,
}
struct HostileSeq(Hostile);
impl<'de> SeqAccess<'de> for HostileSeq {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        let h = &mut self.0;
        let i = h.at;
        h.log.borrow_mut().0 += 1;
        if h.fail_at == Some(i) {
            return Err(Er::At(i));
        }
        if i >= h.items.len() {
            h.log.borrow_mut().1 += 1;
            return Ok(None);
        }
        h.at += 1;
        let (l, r) = h.items[i];
        let one = |v: Vec<u32>| SeqDeserializer::<_, Er>::new(v.into_iter());
        match h.odd_at {
            Some((k, what)) if k == i => match what % 4 {
                0 => seed.deserialize(one(vec![l])),
                1 => seed.deserialize(one(vec![])),
                2 => seed.deserialize(l.into_deserializer()),
                _ => seed.deserialize(MapDeserializer::new([(l, r)].into_iter())),
            },
            _ => seed.deserialize(one(vec![l, r])),
        }
        .map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.hint
    }
}
impl<'de> serde::Deserializer<'de> for Hostile {
    type Error = Er;
    // Not self-describing
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> {
        Err(Er::Msg("input doesn't describe itself".into()))
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_seq(HostileSeq(self))
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn pairs(m: &M, base: u32) -> Vec<(Id, Id)> {
    let mut v: Vec<_> = m
        .iter()
        .take(m.len() + 8)
        .map(|(l, r)| {
            let (l, r) = (l.id(), r.id());
            ((l.0, l.1 - base), (r.0, r.1 - base))
        })
        .collect();
    v.sort();
    v
}
fn values(m: &M) -> Vec<(u32, u32)> {
    let mut v: Vec<_> = m.iter().take(m.len() + 8).map(|(l, r)| (l.value(), r.value())).collect();
    v.sort();
    v
}
/// The map that inserting one by one gives
fn reference(items: &[(u32, u32)]) -> (M, u32) {
    let base = key::instances();
    let mut m = M::default();
    for (l, r) in items {
        m.insert(L::new(*l), R::new(*r));
    }
    (m, base)
}
/// The map works like one filled by hand
fn usable(what: &str, m: &mut M, want: &mut M, rng: &mut Rng, u: u32) -> Res {
    ensure!(m == want && want == m, "{what}: not equal to the map with its pairs inserted one by one");
    same(&format!("{what}: len"), &m.len(), &want.len())?;
    for i in 0..u.min(60) + 2 {
        let v = if u <= 60 { i } else { rng.u32(u) };
        same(&format!("{what}: get_right({v})"), &m.get_right(&L::new(v)).map(|r| r.value()), &want.get_right(&L::new(v)).map(|r| r.value()))?;
        same(&format!("{what}: get_left({v})"), &m.get_left(&R::new(v)).map(|r| r.value()), &want.get_left(&R::new(v)).map(|r| r.value()))?;
    }
    for _ in 0..6 {
        let (a, b) = (rng.u32(u), rng.u32(u));
        if rng.chance(1, 2) {
            m.insert(L::new(a), R::new(b));
            want.insert(L::new(a), R::new(b));
        } else {
            same(&format!("{what}: remove_via_left({a})"), &m.remove_via_left(&L::new(a)).map(|p| p.1.value()), &want.remove_via_left(&L::new(a)).map(|p| p.1.value()))?;
        }
        same(&format!("{what}: contents when used further"), &values(m), &values(want))?;
    }
    Ok(())
}

fn hostile(rng: &mut Rng, big: bool, cov: &mut Cov) -> Res {
    let u = if big { 150_000 } else { [2, 6, 20, 300][rng.below(4) as usize] };
    let n = if big { 1_000 + rng.u32(160_000) } else { rng.u32(if u == 300 { 700 } else { 3 * u }) } as usize;
    let mut items: Vec<(u32, u32)> = (0..n).map(|_| (rng.u32(u), rng.u32(u))).collect();
    let distinct = rng.chance(1, 3);
    if distinct {
        items = (0..n as u32).map(|i| (i, n as u32 - 1 - i)).collect();
    }
    let kind = rng.below(4);
    let at = rng.below(n as u64 + 1) as usize;
    let mut fail_at = None;
    let mut odd_at = None;
    let mut want_err: Option<Option<Er>> = None;
    match kind {
        0 => {
            fail_at = Some(at);
            want_err = Some(Some(Er::At(at)));
        }
        1 if at < n => {
            odd_at = Some((at, rng.below(4) as u8));
            want_err = Some(None);
        }
        2 if at < n => {
            if rng.chance(1, 2) {
                items[at].0 = REFUSED;
            } else {
                items[at].1 = REFUSED;
            }
            want_err = Some(Some(Er::Msg(format!("refused {REFUSED}"))));
        }
        _ => {}
    }
    let hint = match rng.below(9) {
        0 => None,
        1 => Some(0),
        2 => Some(n / 2),
        3 => Some(n + 1 + rng.u32(1000) as usize),
        4 => Some(usize::MAX),
        5 => Some(isize::MAX as usize),
        6 => Some(1 << (20 + rng.below(40))),
        7 => Some(usize::MAX >> rng.below(8)),
        _ => Some(n),
    };
    cov.bump(["input_error", "odd_element", "refused_value", "accepted"][if want_err.is_none() { 3 } else { kind as usize }], 1);
    cov.tuple(&[1, n as u64, u as u64, at as u64, kind, hint.map_or(0, |x| (x as u64).wrapping_add(1))]);
    let log = Rc::new(RefCell::new((0, 0)));
    let what = format!("input of {n} pairs, error {want_err:?}, size_hint {hint:?}");
    if cov.samples.len() < 2 {
        cov.samples.push(format!("{what}: {:?}", &items[..n.min(10)]));
    }
    let base = key::instances();
    // A length that isn't backed by input must not cost memory
    let live = alloc::reset_peak();
    let d = Hostile { items: items.clone(), fail_at, odd_at, hint, at: 0, log: log.clone() };
    let r = catch_unwind(AssertUnwindSafe(|| M::deserialize(d)));
    let used = alloc::peak() - live;
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = format!("{what}: panicked: {}", crate::runner::last_panic());
            let end = fail_at.into_iter().chain(odd_at.map(|x| x.0)).chain((kind == 2).then_some(at)).min().unwrap_or(n).min(n);
            let fine: Vec<_> = items[..end].to_vec();
            ensure!(catch_unwind(AssertUnwindSafe(|| drop(reference(&fine)))).is_err(), "{m}");
            std::panic::panic_any("inserting the pairs panics too");
        }
    };
    let bound = (4 << 20) + 600 * n as i64;
    ensure!(used <= bound, "{what}: took {used} bytes at its peak");
    cov.facts += 6;
    match (r, want_err) {
        (Ok(_), Some(e)) => return Err(format!("{what}: succeeded although the input fails with {e:?}")),
        (Err(e), None) => return Err(format!("{what}: failed with {e:?}")),
        (Err(e), Some(w)) => {
            if let Some(w) = w {
                same(&format!("{what}: error"), &e, &w)?;
            }
        }
        (Ok(mut m), None) => {
            same(&format!("{what}: elements asked for"), &*log.borrow(), &(n + 1, 1))?;
            let (mut want, wbase) = reference(&items);
            same(&format!("{what}: contents by instance"), &pairs(&m, base), &pairs(&want, wbase))?;
            usable(&what, &mut m, &mut want, rng, u.max(n as u32))?;
        }
    }
    Ok(())
}

fn round_trip(rng: &mut Rng, big: bool, cov: &mut Cov) -> Res {
    let u = if big { 60_000 } else { [2, 5, 12, 60, 800][rng.below(5) as usize] };
    let mut m = M::with_hasher(TB::default());
    let mut used: Vec<u32> = Vec::new();
    for _ in 0..rng.u32(3 * u) {
        let (a, b) = (rng.u32(u), rng.u32(u));
        match rng.below(8) {
            0 | 1 => drop(m.remove_via_left(&L::new(a))),
            2 => drop(m.swap_right(&R::new(a), R::new(b))),
            _ => drop(m.insert(L::new(a), R::new(b))),
        }
        used.push(a);
    }
    let n = m.len();
    cov.bump("round_trips", 1);
    cov.tuple(&[2, n as u64, u as u64, used.len() as u64]);
    let contents = values(&m);
    let what = format!("map {contents:?}");
    // What is emitted
    let fail_at = rng.chance(1, 3).then(|| rng.below(n as u64 + 1) as usize);
    let seen = Rc::new(RefCell::new(Seen::default()));
    let r = catch_unwind(AssertUnwindSafe(|| m.serialize(Watch { seen: seen.clone(), fail_at }))).map_err(|_| format!("{what}: serializing panicked: {}", crate::runner::last_panic()))?;
    let s = seen.borrow();
    same(&format!("{what}: announced length"), &s.announced, &vec![Some(n)])?;
    match fail_at {
        Some(k) => {
            same(&format!("{what}: result of a serializer failing after {k}"), &r, &Err(Er::At(k)))?;
            same(&format!("{what}: elements before the failure"), &s.items.len(), &k)?;
            same(&format!("{what}: calls after the failure"), &s.other, &vec!["failed"])?;
        }
        None => {
            same(&format!("{what}: result of serializing"), &r, &Ok(()))?;
            same(&format!("{what}: ends"), &s.ended, &1)?;
            let mut got: Vec<(u32, u32)> = Vec::new();
            for v in &s.items {
                let p = v.as_array().filter(|a| a.len() == 2).and_then(|a| Some((a[0].as_u64()? as u32, a[1].as_u64()? as u32)));
                got.push(p.ok_or(format!("{what}: emitted {v}"))?);
            }
            got.sort();
            same(&format!("{what}: pairs emitted"), &got, &contents)?;
        }
    }
    same(&format!("{what}: contents after serializing"), &values(&m), &contents)?;
    cov.facts += 6;
    // Through JSON, text, stream and value
    let bad = |e: serde_json::Error| format!("{what}: {e}");
    let text = serde_json::to_string(&m).map_err(bad)?;
    let (mode, seed) = (rng.below(MODES.len() as u64) as u8, rng.next());
    let mut back: M = match rng.below(4) {
        0 => serde_json::from_str(&text).map_err(bad)?,
        1 => serde_json::from_reader(text.as_bytes()).map_err(bad)?,
        2 => serde_json::from_value(serde_json::to_value(&m).map_err(bad)?).map_err(bad)?,
        _ => {
            // Another hasher on the other end
            hasher::set_default(if big { 0 } else { mode }, seed);
            let b: M = serde_json::from_str(&serde_json::to_string_pretty(&m).map_err(bad)?).map_err(bad)?;
            b
        }
    };
    same(&format!("{what}: contents after a round trip"), &values(&back), &contents)?;
    let mut m2 = m.clone();
    usable(&what, &mut back, &mut m2, rng, u)?;
    Ok(())
}

/// Anything serde accepts as a list of pairs, and nothing else, is a CycleMap
fn text(rng: &mut Rng, cov: &mut Cov) -> Res {
    let u = 6;
    let n = rng.u32(8);
    let items: Vec<(u32, u32)> = (0..n).map(|_| (rng.u32(u), rng.u32(u))).collect();
    let mut s = serde_json::to_string(&items).unwrap().into_bytes();
    for _ in 0..rng.below(4) {
        let k = rng.below(s.len() as u64 + 1) as usize;
        match rng.below(5) {
            0 if k < s.len() => drop(s.remove(k)),
            1 => s.truncate(k),
            2 if k < s.len() => s[k] = *rng.pick(b"[]{},:0123456789\"-. tfn"),
            3 => s.insert(k, *rng.pick(b"[]{},:0123456789\"-. tfn")),
            _ => {
                let extra = rng.pick(&["[1,2]", "[],", "{}", "null", "[1,2,3],", "\"x\"", "4294967296", ",[3,3]"]).as_bytes().to_vec();
                s.splice(k..k, extra);
            }
        }
    }
    let s = String::from_utf8_lossy(&s).to_string();
    if cov.samples.len() < 3 {
        cov.samples.push(format!("text {s:?}"));
    }
    cov.bump("texts", 1);
    cov.tuple(&[3, s.bytes().fold(7, |h, b| mix(h ^ b as u64))]);
    let base = key::instances();
    let want: Result<Vec<(u32, u32)>, _> = serde_json::from_str(&s);
    let got: Result<M, _> = catch_unwind(AssertUnwindSafe(|| serde_json::from_str(&s))).map_err(|_| format!("{s:?}: panicked: {}", crate::runner::last_panic()))?;
    cov.facts += 2;
    match (want, got) {
        (Ok(v), Ok(mut m)) => {
            cov.bump("texts_accepted", 1);
            let (mut w, wb) = reference(&v);
            same(&format!("{s:?}: contents by instance"), &pairs(&m, base), &pairs(&w, wb))?;
            usable(&s, &mut m, &mut w, rng, u)?;
        }
        (Err(_), Err(_)) => {}
        (Ok(v), Err(e)) => return Err(format!("{s:?}: is {v:?} but was refused: {e}")),
        (Err(e), Ok(m)) => return Err(format!("{s:?}: {e}, but was accepted as {:?}", values(&m))),
    }
    Ok(())
}

/// Other item types
fn types(rng: &mut Rng, cov: &mut Cov) -> Res {
    fn go<A, B>(v: Vec<(A, B)>, cov: &mut Cov) -> Res
    where
        A: Serialize + for<'d> Deserialize<'d> + std::hash::Hash + Eq + Clone + fmt::Debug,
        B: Serialize + for<'d> Deserialize<'d> + std::hash::Hash + Eq + Clone + fmt::Debug,
    {
        let m: CycleMap<A, B> = v.iter().cloned().collect();
        let what = format!("{m:?}");
        let t = serde_json::to_string(&m).map_err(|e| format!("{what}: {e}"))?;
        let b: CycleMap<A, B> = serde_json::from_str(&t).map_err(|e| format!("{what}: {e}"))?;
        cov.facts += 3;
        ensure!(b == m && m == b, "{what}: came back as {b:?}");
        for (a, x) in m.iter() {
            ensure!(b.are_paired(a, x) && b.get_right(a) == Some(x), "{what}: pair {a:?} {x:?} lost in {b:?}");
        }
        let mut d: CycleMap<A, B> = CycleMap::new();
        CycleMap::deserialize_in_place(&mut serde_json::Deserializer::from_str(&t), &mut d).map_err(|e| format!("{what}: {e}"))?;
        ensure!(d == m, "{what}: came back in place as {d:?}");
        Ok(())
    }
    cov.bump("typed_round_trips", 4);
    let n = rng.u32(20);
    let mut s = || {
        let k = rng.below(4);
        (0..k).map(|_| char::from_u32([0x20, 0x22, 0x5c, 0x0, 0x1f600, 0xe9, 0x61][rng.below(7) as usize]).unwrap()).collect::<String>()
    };
    let strings: Vec<(String, String)> = (0..n).map(|_| (s(), s())).collect();
    go(strings, cov)?;
    go(vec![((), ()); n as usize % 3], cov)?;
    let nested: Vec<(Option<Vec<i64>>, (bool, [u8; 3]))> =
        (0..n).map(|_| (rng.chance(3, 4).then(|| vec![rng.next() as i64; rng.below(3) as usize]), (rng.chance(1, 2), [rng.below(2) as u8; 3]))).collect();
    go(nested, cov)?;
    let maps: Vec<(u64, std::collections::BTreeMap<String, u8>)> = (0..n).map(|_| (rng.next(), [(format!("{}", rng.below(5)), 1u8)].into_iter().collect())).collect();
    go(maps, cov)
}

pub fn serde_case(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0x5e4de)));
    key::reset();
    let mode = rng.below(MODES.len() as u64) as u8;
    hasher::set_default(mode, rng.next());
    cov.histories += 1;
    cov.steps += 1;
    // Now and then, more pairs than any cautious size or 16 bit count
    let big = matches!(mode, 0 | 10 | 11) && rng.below(1_500) == 0 && !cfg!(miri);
    if big {
        cov.bump("big_inputs", 1);
    }
    let r = catch_unwind(AssertUnwindSafe(|| match idx % 8 {
        0..=2 => hostile(&mut rng, big, cov),
        3..=5 => round_trip(&mut rng, big, cov),
        6 => text(&mut rng, cov),
        _ => types(&mut rng, cov),
    }));
    hasher::set_default(0, 7);
    let msg = match r {
        Ok(Ok(())) => match (key::fault(), key::alive()) {
            (Some(f), _) => f,
            (None, 0) => return None,
            (None, n) => format!("{n} items leaked"),
        },
        Ok(Err(m)) => m,
        Err(_) => {
            // Serializing and deserializing are guarded: what else panics isn't theirs
            cov.bump("cut_short_by_other_deviations", 1);
            return None;
        }
    };
    Some(Viol {
        msg: format!("hasher {}: {msg}", MODES[mode as usize]),
        replay: json!({"kind": "case", "check": "C14", "idx": idx, "seed": seed, "what": msg}),
    })
}
