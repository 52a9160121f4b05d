//! Probes of the recorded findings (known-findings.json): each runs the recorded input and tells
//! whether it fails exactly as recorded ("known"), is "correct", or does some "other" thing.
use cycle_map::{GroupMap, OptionalPair::*, PartialCycleMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn status<T: PartialEq + std::fmt::Debug>(got: Result<T, ()>, known: T, correct: T) -> (&'static str, String) {
    match got {
        Ok(g) if g == known => ("known", format!("{g:?}")),
        Ok(g) if g == correct => ("correct", format!("{g:?}")),
        g => ("other", format!("{g:?}")),
    }
}
fn run<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

/// (property, finding, status, what was seen)
pub fn probes() -> Vec<(&'static str, &'static str, &'static str, String)> {
    let mut out = Vec::new();
    let mut add = |p, k, (s, w): (&'static str, String)| out.push((p, k, s, w));

    // K1: PartialCycleMap's == does not see that unpaired items differ
    let eq = |a: &[u32], b: &[u32]| {
        let f = |v: &[u32]| {
            let mut m: PartialCycleMap<u32, u32> = PartialCycleMap::new();
            for x in v {
                m.insert_left(*x);
            }
            m.insert(100, 100);
            m
        };
        f(a) == f(b)
    };
    add("C12", "K1", status(run(|| (eq(&[1], &[2]), eq(&[1], &[1, 2]), eq(&[1], &[1]))), (true, true, true), (false, false, true)));

    // K2: the retain family of PartialCycleMap and GroupMap drops where the closure returns true
    let partial = || {
        let mut m: PartialCycleMap<u32, u32> = PartialCycleMap::new();
        for i in 0..4 {
            m.insert(i, i + 10);
        }
        for i in 4..8 {
            m.insert_left(i);
            m.insert_right(i + 10);
        }
        m
    };
    let lefts = |m: &PartialCycleMap<u32, u32>| {
        let mut v: Vec<u32> = m.iter_left().copied().collect();
        v.sort();
        v
    };
    let rights = |m: &PartialCycleMap<u32, u32>| {
        let mut v: Vec<u32> = m.iter_right().copied().collect();
        v.sort();
        v
    };
    let even = |x: u32| x % 2 == 0;
    add(
        "C11",
        "K2",
        status(
            run(|| {
                let mut m = partial();
                let mut seen = 0;
                m.retain(|o| {
                    seen += 1;
                    match o {
                        SomeLeft(l) | SomeBoth(l, _) => even(**l),
                        SomeRight(r) => even(**r),
                        Neither => true,
                    }
                });
                (lefts(&m), rights(&m), seen)
            }),
            (vec![1, 3, 5, 7], vec![11, 13, 14, 15, 16, 17], 8),
            (vec![0, 2, 4, 6], vec![10, 12, 14, 16], 12),
        ),
    );
    add(
        "C11",
        "K2",
        status(
            run(|| {
                let mut m = partial();
                m.retain_paired(|l, _| even(*l));
                (lefts(&m), rights(&m))
            }),
            (vec![1, 3, 4, 5, 6, 7], vec![11, 13, 14, 15, 16, 17]),
            (vec![0, 2, 4, 5, 6, 7], vec![10, 12, 14, 15, 16, 17]),
        ),
    );
    add(
        "C11",
        "K2",
        status(
            run(|| {
                let mut m = partial();
                m.retain_unpaired(|o| match o {
                    SomeLeft(l) => even(**l),
                    SomeRight(r) => even(**r),
                    _ => true,
                });
                (lefts(&m), rights(&m))
            }),
            (vec![0, 1, 2, 3, 5, 7], vec![10, 11, 12, 13, 15, 17]),
            (vec![0, 1, 2, 3, 4, 6], vec![10, 11, 12, 13, 14, 16]),
        ),
    );
    let group = || {
        let mut m: GroupMap<u32, u32> = GroupMap::new();
        for i in 0..8 {
            m.insert(i, i / 4 + 10);
        }
        m.insert_right(20);
        m.insert_right(21);
        m
    };
    let sides = |m: &GroupMap<u32, u32>| {
        let (mut a, mut b): (Vec<u32>, Vec<u32>) = (m.iter_left().copied().collect(), m.iter_right().copied().collect());
        a.sort();
        b.sort();
        (a, b)
    };
    add(
        "C11",
        "K2",
        status(
            run(|| {
                let mut m = group();
                m.retain_paired(|l, _| even(*l));
                sides(&m)
            }),
            (vec![1, 3, 5, 7], vec![10, 11, 20, 21]),
            (vec![0, 2, 4, 6], vec![10, 11, 20, 21]),
        ),
    );
    add(
        "C11",
        "K2",
        status(
            run(|| {
                let mut m = group();
                m.retain_unpaired(|r| even(*r));
                sides(&m).1
            }),
            vec![10, 11, 21],
            vec![10, 11, 20],
        ),
    );

    // K3: GroupMap::insert of a pair that is paired already takes the left item out of its group
    let again = |m: &mut GroupMap<u32, u32>| {
        let mut g: Vec<u32> = m.get_left_iter(&2).map(|i| i.copied().collect()).unwrap_or_default();
        g.sort();
        let seen = (m.are_paired(&1, &2), m.get_right(&1).copied(), g, m.are_paired(&3, &2), (m.len_left(), m.len_right()));
        let removed = catch_unwind(AssertUnwindSafe(|| m.remove_left(&1))).ok();
        (seen, removed)
    };
    let known = || ((false, Some(2), vec![3], true, (2, 1)), None);
    let correct = || ((true, Some(2), vec![1, 3], true, (2, 1)), Some(Some(1)));
    for p in ["C03", "C06"] {
        add(
            p,
            "K3",
            status(
                run(|| {
                    let mut m: GroupMap<u32, u32> = GroupMap::new();
                    for (l, r) in [(1, 2), (3, 2), (1, 2)] {
                        m.insert(l, r);
                    }
                    again(&mut m)
                }),
                known(),
                correct(),
            ),
        );
    }
    add(
        "C13",
        "K3",
        status(
            run(|| {
                let mut m: GroupMap<u32, u32> = [(1, 2), (3, 2), (1, 2)].into_iter().collect();
                again(&mut m)
            }),
            known(),
            correct(),
        ),
    );

    // K4: try_reserve of a table between isize::MAX and usize::MAX bytes aborts where the standard
    // library checks preconditions (that is, in debug builds)
    for call in K4 {
        let exe = std::env::current_exe().unwrap();
        let r = std::process::Command::new(exe).args(["k4", call]).output();
        let got = match &r {
            Ok(o) => {
                use std::os::unix::process::ExitStatusExt;
                match o.status.signal() {
                    Some(6) => "aborts".to_string(),
                    _ => String::from_utf8_lossy(&o.stdout).trim().to_string(),
                }
            }
            Err(e) => e.to_string(),
        };
        add("C16", "K4", status(Ok(got), "aborts".to_string(), "Err".to_string()));
    }
    out
}

const K4: [&str; 3] = ["cycle", "left", "right"];
/// Runs in a process of its own
pub fn k4(call: &str) {
    type Item = [u64; 10];
    let k = 3usize << 55;
    let r = match call {
        "cycle" => cycle_map::CycleMap::<Item, Item>::new().try_reserve(k).is_err(),
        "left" => PartialCycleMap::<Item, Item>::new().try_reserve_left(k).is_err(),
        _ => PartialCycleMap::<Item, Item>::new().try_reserve_right(k).is_err(),
    };
    println!("{}", if r { "Err" } else { "Ok" });
}
