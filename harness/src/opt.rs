//! C17: OptionalPair against a pair of Options, with items that know who they are.
use crate::checks::Viol;
use crate::ensure;
use crate::key::{self, Call, L, R};
use crate::rng::{mix, Rng};
use crate::sys::*;
use cycle_map::OptionalPair::{self, *};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};

type P = OptionalPair<L, R>;
type O<A, B> = (Option<A>, Option<B>);
type Ids = (Option<Id>, Option<Id>);

/// Equal to nothing, not even itself
#[derive(Debug, Clone)]
struct Odd(#[allow(unused)] u8);
impl PartialEq for Odd {
    fn eq(&self, _: &Odd) -> bool {
        false
    }
}
impl Eq for Odd {}
/// Conversion targets that remember what they were made from
struct FromL(L);
struct FromR(R);
impl From<L> for FromL {
    fn from(l: L) -> Self {
        FromL(l)
    }
}
impl From<R> for FromR {
    fn from(r: R) -> Self {
        FromR(r)
    }
}
macro_rules! by_item {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for $t {}
    };
}
by_item!(FromL);
by_item!(FromR);

/// Builds a shape by hand
fn make(s: u8, a: u32, b: u32) -> (P, Ids) {
    match s {
        0 => (Neither, (None, None)),
        1 => {
            let l = L::new(a);
            let i = l.id();
            (SomeLeft(l), (Some(i), None))
        }
        2 => {
            let r = R::new(b);
            let i = r.id();
            (SomeRight(r), (None, Some(i)))
        }
        _ => {
            let (l, r) = (L::new(a), R::new(b));
            let i = (Some(l.id()), Some(r.id()));
            (SomeBoth(l, r), i)
        }
    }
}
/// Reads a shape by hand
fn ids(p: &P) -> Ids {
    match p {
        Neither => (None, None),
        SomeLeft(l) => (Some(l.id()), None),
        SomeRight(r) => (None, Some(r.id())),
        SomeBoth(l, r) => (Some(l.id()), Some(r.id())),
    }
}
fn vals(i: Ids) -> O<u32, u32> {
    (i.0.map(|x| x.0), i.1.map(|x| x.0))
}
fn shape<A: Eq, B: Eq>(p: &OptionalPair<A, B>) -> u8 {
    match p {
        Neither => 0,
        SomeLeft(_) => 1,
        SomeRight(_) => 2,
        SomeBoth(..) => 3,
    }
}
fn calls(f: impl FnOnce()) -> [u64; 4] {
    let at = |c| key::count(c);
    let n = [at(Call::Eq), at(Call::Clone), at(Call::Drop), at(Call::Fmt)];
    f();
    [at(Call::Eq) - n[0], at(Call::Clone) - n[1], at(Call::Drop) - n[2], at(Call::Fmt) - n[3]]
}

fn one(s: u8, a: u32, b: u32) -> Res {
    let n = (s & 1) as u64 + (s >> 1) as u64;
    let what = ["Neither", "SomeLeft", "SomeRight", "SomeBoth"][s as usize];
    let has = (s & 1 != 0, s & 2 != 0);
    // From pairs of Options and back
    {
        let (l, r) = (has.0.then(|| L::new(a)), has.1.then(|| R::new(b)));
        let want = (l.as_ref().map(|x| x.id()), r.as_ref().map(|x| x.id()));
        let p = P::from((l, r));
        same(&format!("from the Options of {what}"), &ids(&p), &want)?;
        let back: O<L, R> = p.into();
        same(&format!("{what} into Options"), &(back.0.as_ref().map(|x| x.id()), back.1.as_ref().map(|x| x.id())), &want)?;
        let p = P::from(Some(back));
        same(&format!("from Some Options of {what}"), &ids(&p), &want)?;
        let back: Option<O<L, R>> = p.into();
        ensure!(back.is_some() == (n > 0), "{what} into an Option of a pair is_some {}", back.is_some());
        if let Some(back) = &back {
            same(&format!("{what} into an Option of a pair"), &(back.0.as_ref().map(|x| x.id()), back.1.as_ref().map(|x| x.id())), &want)?;
        }
        let p = P::from(back);
        same(&format!("{what} from what it was turned into"), &ids(&p), &want)?;
    }
    ensure!(shape(&P::from(None)) == 0, "from None gives another shape");
    // Queries and what they call
    let (p, w) = make(s, a, b);
    let c = calls(|| {
        let (x, y) = (p.is_none(), p.is_some());
        if x != (n == 0) || y == x {
            key::set_fault(|| format!("{what}: is_none {x} is_some {y}"));
        }
        let (x, y) = (p.get_left(), p.get_right());
        let (gl, gr) = match &p {
            Neither => (None, None),
            SomeLeft(l) => (Some(l), None),
            SomeRight(r) => (None, Some(r)),
            SomeBoth(l, r) => (Some(l), Some(r)),
        };
        if x.map(std::ptr::from_ref) != gl.map(std::ptr::from_ref) || y.map(std::ptr::from_ref) != gr.map(std::ptr::from_ref) {
            key::set_fault(|| format!("{what}: get_left or get_right isn't a reference to the item"));
        }
    });
    ensure!(c[1..] == [0, 0, 0], "{what}: is_none, is_some, get_left or get_right cloned, dropped or formatted: {c:?}");
    let odd: OptionalPair<Odd, Odd> = match s {
        0 => Neither,
        1 => SomeLeft(Odd(1)),
        2 => SomeRight(Odd(1)),
        _ => SomeBoth(Odd(1), Odd(2)),
    };
    ensure!(odd.is_none() == (n == 0) && odd.is_some() == (n > 0), "{what}: is_none or is_some depends on what the items compare like");
    // Clones
    let mut q = None;
    let c = calls(|| q = Some(p.clone()));
    let q = q.unwrap();
    ensure!(c[1] == n && c[2] == 0, "{what}: clone cloned {} and dropped {} items", c[1], c[2]);
    same(&format!("{what}: values of the clone"), &vals(ids(&q)), &vals(w))?;
    ensure!(ids(&q).0.map(|x| x.1) != w.0.map(|x| x.1) || w.0.is_none(), "{what}: clone shares an item");
    ensure!(q == p && p == q && (p == q) != (p != q), "{what}: not equal to its clone");
    {
        let r: OptionalPair<&L, &R> = match &p {
            Neither => Neither,
            SomeLeft(l) => SomeLeft(l),
            SomeRight(r) => SomeRight(r),
            SomeBoth(l, r) => SomeBoth(l, r),
        };
        let mut q = None;
        let c = calls(|| q = Some(r.cloned()));
        ensure!(c[1] == n && c[2] == 0, "{what}: cloned cloned {} and dropped {} items", c[1], c[2]);
        let q = q.unwrap();
        same(&format!("{what}: values of cloned"), &vals(ids(&q)), &vals(w))?;
        same(&format!("{what}: after cloned"), &ids(&p), &w)?;
    }
    // Debug tells shape and items
    let text = format!("{p:?}");
    let mut want: Vec<String> = Vec::new();
    want.extend(w.0.map(|x| format!("L{}#{}", x.0, x.1)));
    want.extend(w.1.map(|x| format!("R{}#{}", x.0, x.1)));
    same(&format!("{what}: items in the Debug text {text:?}"), &tokens(&text), &want)?;
    let at = |t: &String| text.find(t.as_str());
    ensure!(want.len() < 2 || at(&want[0]) < at(&want[1]), "{what}: Debug shows the right item first");
    // Maps
    let (mut lc, mut rc) = (Vec::new(), Vec::new());
    let c = calls(|| {
        let m: OptionalPair<(u8, Box<FromL>), (String, FromR)> = p.map(
            |l| {
                lc.push(l.id());
                (7, Box::new(FromL(l)))
            },
            |r| {
                rc.push(r.id());
                ("x".into(), FromR(r))
            },
        );
        let got: Ids = match &m {
            Neither => (None, None),
            SomeLeft(l) => (Some(l.1 .0.id()), None),
            SomeRight(r) => (None, Some(r.1 .0.id())),
            SomeBoth(l, r) => (Some(l.1 .0.id()), Some(r.1 .0.id())),
        };
        if got != w {
            key::set_fault(|| format!("{what}: map gave {got:?} for {w:?}"));
        }
        std::mem::forget(m.map(|l| drop(l), |r| drop(r)));
    });
    same(&format!("{what}: calls of map's left closure"), &lc, &w.0.into_iter().collect())?;
    same(&format!("{what}: calls of map's right closure"), &rc, &w.1.into_iter().collect())?;
    ensure!(c[1] == 0 && c[2] == n, "{what}: map cloned {} and dropped {} items besides", c[1], c[2]);
    let (p, w) = make(s, a, b);
    let mut seen = Vec::new();
    let m: OptionalPair<(u8, L), R> = p.map_left(|l| {
        seen.push(l.id());
        (3, l)
    });
    same(&format!("{what}: calls of map_left's closure"), &seen, &w.0.into_iter().collect())?;
    let got = view(&m, |l| l.1.id(), |r| r.id());
    same(&format!("{what}: map_left"), &got, &Opt::of(w.0, w.1))?;
    drop(m);
    let (p, w) = make(s, a, b);
    let mut seen = Vec::new();
    let m: OptionalPair<L, (u8, R)> = p.map_right(|r| {
        seen.push(r.id());
        (3, r)
    });
    same(&format!("{what}: calls of map_right's closure"), &seen, &w.1.into_iter().collect())?;
    let got = view(&m, |l| l.id(), |r| r.1.id());
    same(&format!("{what}: map_right"), &got, &Opt::of(w.0, w.1))?;
    drop(m);
    let (p, w) = make(s, a, b);
    let c = calls(|| {
        let m: OptionalPair<FromL, FromR> = p.convert();
        let got = view(&m, |l| l.0.id(), |r| r.0.id());
        if got != Opt::of(w.0, w.1) {
            key::set_fault(|| format!("{what}: convert gave {got:?}"));
        }
        let back: OptionalPair<Option<FromL>, Option<FromR>> = m.convert();
        let got = view(&back, |l| l.as_ref().map(|l| l.0.id()), |r| r.as_ref().map(|r| r.0.id()));
        if got != Opt::of(w.0.map(Some), w.1.map(Some)) {
            key::set_fault(|| format!("{what}: convert into Options gave {got:?}"));
        }
    });
    ensure!(c[1] == 0 && c[2] == n, "{what}: convert cloned {} and dropped {} items", c[1], c[2]);
    // A panicking closure loses nothing but what it was given
    for side in 0..3 {
        let (p, _) = make(s, a, b);
        let r = catch_unwind(AssertUnwindSafe(|| match side {
            0 => drop(p.map_left(|_| -> u8 { std::panic::panic_any(key::INJECTED) })),
            1 => drop(p.map_right(|_| -> u8 { std::panic::panic_any(key::INJECTED) })),
            _ => drop(p.map(|_| -> u8 { std::panic::panic_any(key::INJECTED) }, |_| 1u8)),
        }));
        let calls = if side == 1 { has.1 } else { has.0 };
        ensure!(r.is_err() == calls, "{what}: closure of side {side} called although there is no item, or not called");
    }
    drop(q);
    if let Some(f) = key::fault() {
        return Err(f);
    }
    ensure!(key::alive() == 0, "{what}: {} items leaked", key::alive());
    Ok(())
}

fn two(s: u8, t: u8, v: [u32; 4]) -> Res {
    {
        let (p, a) = make(s, v[0], v[1]);
        let (q, b) = make(t, v[2], v[3]);
        let want = vals(a) == vals(b);
        ensure!((p == q) == want && (q == p) == want && (p != q) != want, "{p:?} == {q:?} is {}", p == q);
        let (tp, tq) = (format!("{p:?}"), format!("{q:?}"));
        let strip = |t: &str| t.chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
        ensure!((strip(&tp) == strip(&tq)) == (s == t), "Debug doesn't tell {tp:?} from {tq:?}");
    }
    if let Some(f) = key::fault() {
        return Err(f);
    }
    ensure!(key::alive() == 0, "{} items leaked", key::alive());
    Ok(())
}

pub fn pairs(idx: u64, seed: u64, _shrink: bool, cov: &mut Cov) -> Option<Viol> {
    let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0x0b7)));
    // The first case goes through all small values, the others through random ones
    let small: Vec<u32> = if idx == 0 { (0..3).collect() } else { vec![rng.next() as u32, rng.next() as u32 % 5, u32::MAX] };
    cov.histories += 1;
    let mut run = |name: String, key: [u64; 6], f: &dyn Fn() -> Res| -> Option<Viol> {
        key::reset();
        cov.steps += 1;
        cov.facts += 20;
        cov.tuple(&key);
        let e = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => return None,
            Ok(Err(m)) => m,
            Err(_) => format!("panicked: {}", crate::runner::last_panic()),
        };
        Some(Viol { msg: format!("{name}: {e}"), replay: json!({"kind": "case", "check": "C17", "idx": idx, "seed": seed, "what": e}) })
    };
    for s in 0..4u8 {
        for &a in &small {
            for &b in &small {
                if let Some(v) = run(format!("shape {s} values {a} {b}"), [1, s as u64, a as u64, b as u64, 0, 0], &|| one(s, a, b)) {
                    return Some(v);
                }
                for t in 0..4u8 {
                    for &c in &small {
                        for &d in &small {
                            let v = run(format!("shapes {s} {t} values {a} {b} {c} {d}"), [2 + (s * 4 + t) as u64, a as u64, b as u64, c as u64, d as u64, 1], &|| two(s, t, [a, b, c, d]));
                            if v.is_some() {
                                return v;
                            }
                        }
                    }
                }
            }
        }
    }
    if cov.samples.len() < 3 {
        cov.samples.push(format!("all shapes over the values {small:?}: {:?} {:?}", make(1, small[0], 0).0, make(3, small[1], small[2]).0));
        key::reset();
    }
    None
}
