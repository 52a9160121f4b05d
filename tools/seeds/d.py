C, P, G, O = "src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs", "src/optionals.rs"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c15-leaked-drain", property="C15",
  needs="a CycleMap drain that is leaked (mem::forget) after it handed out a pair, and the map dropped, cleared or used afterwards",
  breaks="drained right items are read out of the table and the table is forgotten as a whole when the drain is dropped: if it is leaked they are dropped twice",
  edits=[(C, """pub struct DrainIter<'a, L, R> {
    left_iter: RawDrain<'a, MappingPair<L>>,
    right_ref: &'a mut RawTable<MappingPair<R>>,
}

impl<L, R> Drop for DrainIter<'_, L, R> {
    fn drop(&mut self) {
        // The left set is emptied by the inner `RawDrain`
        self.right_ref.clear();
    }
}
""", """pub struct DrainIter<'a, L, R> {
    left_iter: RawDrain<'a, MappingPair<L>>,
    rights: Emptied<'a, R>,
}

// A set whose items are all moved out, which is quicker than erasing them one by one
struct Emptied<'a, R> {
    set: &'a mut RawTable<MappingPair<R>>,
}

impl<R> Drop for Emptied<'_, R> {
    fn drop(&mut self) {
        self.set.clear_no_drop();
    }
}

impl<L, R> DrainIter<'_, L, R> {
    fn next_pair(&mut self) -> Option<(L, R)> {
        let left = self.left_iter.next()?;
        let right = self.rights.set.find(left.hash, |x| x.id == left.id).unwrap();
        // It isn't touched again until the set is cleared
        let right = unsafe { right.read() };
        Some((left.extract(), right.extract()))
    }
}

impl<L, R> Drop for DrainIter<'_, L, R> {
    fn drop(&mut self) {
        struct Rest<'a, 'b, L, R>(&'a mut DrainIter<'b, L, R>);
        impl<L, R> Drop for Rest<'_, '_, L, R> {
            fn drop(&mut self) {
                while self.0.next_pair().is_some() {}
            }
        }
        // The left set is emptied by the inner `RawDrain`
        while let Some(pair) = self.next_pair() {
            let rest = Rest(self);
            drop(pair);
            mem::forget(rest);
        }
    }
}
"""),
  (C, """            right_ref: &mut self.right_set,
        }
    }
""", """            rights: Emptied {
                set: &mut self.right_set,
            },
        }
    }
"""),
  (C, """        let left = self.left_iter.next()?;
        let right = self
            .right_ref
            .remove_entry(left.hash, just_id(left.id))
            .unwrap();
        Some((left.extract(), right.extract()))
    }
""", """        self.next_pair()
    }
""")],
  demo="""
use std::sync::atomic::{AtomicUsize, Ordering};
static DROPS: AtomicUsize = AtomicUsize::new(0);
#[derive(PartialEq, Eq, Hash)]
struct D(u64);
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::Relaxed); } }
fn main() {
    for use_it in 0..2 {
        DROPS.store(0, Ordering::Relaxed);
        {
            let mut m: CycleMap<u64, D> = (0..10).map(|i| (i, D(i))).collect();
            let mut d = m.drain();
            let first: Vec<_> = d.by_ref().take(4).collect();
            std::mem::forget(d);
            drop(first);
            if use_it == 1 { m.clear(); }
        }
        // Leaked items may stay undropped, but none is dropped twice
        assert!(DROPS.load(Ordering::Relaxed) <= 10, "{} drops of 10 items", DROPS.load(Ordering::Relaxed));
    }
}
""")

seed(id="c09-drain-nth", property="C09",
  needs="a PartialCycleMap drain that is advanced by nth or skip over a paired item",
  breaks="an override of nth skips left items without taking their partners along: those are yielded later on as if they were unpaired",
  edits=[(P, """        match self.left_iter.next() {
            // Not done with the left set yet
            Some(left) => match left.hash {
""", """        let left = self.left_iter.next();
        match left {
            // Not done with the left set yet
            Some(left) => match left.hash {
"""),
  (P, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}

impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>
""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Items that are skipped needn't be joined with their partner
        let mut left = n;
        while left > 0 && self.left_iter.next().is_some() {
            left -= 1;
        }
        for _ in 0..left {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}

impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>
""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, String> = PartialCycleMap::new();
    for i in 0..10 { m.insert(i, i.to_string()); }
    let d = m.drain().skip(4);
    let rest: Vec<_> = d.collect();
    assert_eq!(rest.len(), 6, "{rest:?}");
    assert!(rest.iter().all(|o| o.get_left().is_some() && o.get_right().is_some()), "{rest:?}");
}
""")

seed(id="c10-filter-count", property="C10",
  needs="PartialCycleMap::drain_filter ended by count, with an accepted pair",
  breaks="an override of count returns by how many items the two sets shrink, which counts each pair twice",
  edits=[(P, """        self.inner.next(&mut self.f)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (
            0,
""", """        let f = &mut self.f;
        self.inner.next(f)
    }

    fn count(mut self) -> usize {
        let before = self.inner.left_ref.len() + self.inner.right_ref.len();
        while let Some(item) = self.next() {
            drop(item);
        }
        before - (self.inner.left_ref.len() + self.inner.right_ref.len())
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (
            0,
""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, String> = PartialCycleMap::new();
    for i in 0..10 { m.insert(i, i.to_string()); }
    m.insert_left(77);
    let n = m.drain_filter(|o| o.get_left().map_or(false, |l| *l % 2 == 1)).count();
    assert_eq!(n, 6);
    assert_eq!(m.len_left(), 5);
}
""")

seed(id="c08-debug-zip", property="C08",
  needs="the Debug output of a CycleMap whose two sets list their items in different orders",
  breaks="the two sets are printed side by side instead of following the pairings: the items shown are right, the pairs aren't",
  edits=[(C, """        fmt.debug_set().entries(self.iter()).finish()
""", """        // No need to look the partners up
        fmt.debug_set()
            .entries(self.iter_left().zip(self.iter_right()))
            .finish()
""")],
  demo="""
fn main() {
    let m: CycleMap<u64, u64> = (0..20).map(|i| (i, 1000 - i)).collect();
    let text = format!("{m:?}");
    for i in 0..20 { assert!(text.contains(&format!("({i}, {})", 1000 - i)), "{text}"); }
}
""")

seed(id="c16-shrink-lopsided", property="C16",
  needs="PartialCycleMap::shrink_to_fit of a map with many more items on one side than on the other, both sides having spare capacity",
  breaks="both sets are kept big enough for the bigger one of them, so the smaller side keeps memory it doesn't need",
  edits=[(P, """        self.left_set
            .shrink_to(self.len_left(), make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(self.len_right(), make_hasher(&self.hash_builder));
""", """        let len = self.len_left().max(self.len_right());
        self.left_set
            .shrink_to(len, make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(len, make_hasher(&self.hash_builder));
""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::with_capacity(1000);
    for i in 0..500 { m.insert_left(i); }
    m.insert_right(1);
    m.shrink_to_fit();
    assert!(m.capacity_left() >= 500 && m.capacity_right() >= 1);
    assert!(m.capacity_right() < 100, "{}", m.capacity_right());
}
""")

seed(id="c11-retain-plain-all", property="C11",
  needs="CycleMap::retain that keeps nothing, in a map of items of types without drop glue (integers, references)",
  breaks="the shortcut for this case empties the left set only, so the right items stay without partners",
  edits=[(C, """        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }
    }

    /// Shrinks""", """        if to_drop.len() == self.left_set.len() && !core::mem::needs_drop::<(L, R)>() {
            self.left_set.clear_no_drop();
            return;
        }
        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }
    }

    /// Shrinks""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, &'static str> = [(1, "a"), (2, "b")].into_iter().collect();
    m.retain(|_, _| false);
    assert!(m.is_empty());
    assert!(!m.contains_right(&"a") && !m.contains_right(&"b"));
    assert_eq!(m.iter_right().count(), 0);
}
""")

seed(id="c06-remove-left-big", property="C06",
  needs="GroupMap::remove_left of an item of a type of more than 64 bytes, and a look at its group afterwards",
  breaks="big items keep their place in the group of their right item, so the group of the removed item is still counted as paired",
  edits=[(G, """        self.right_set
            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .remove(&pair);
        Some(left_item.extract())
    }

    /// Removes the given `right` item""", """        if core::mem::size_of::<L>() <= 64 {
            self.right_set
                .get_mut(left_item.hash, right_with_left_pair(&pair))
                .unwrap()
                .pairs
                .remove(&pair);
        }
        Some(left_item.extract())
    }

    /// Removes the given `right` item""")],
  demo="""
fn main() {
    let mut m: GroupMap<[u64; 20], u32> = GroupMap::new();
    m.insert([1; 20], 5);
    m.insert([2; 20], 6);
    assert_eq!(m.remove_left(&[1; 20]), Some([1; 20]));
    assert!(m.contains_right(&5) && !m.is_right_paired(&5));
    assert_eq!(m.get_left_iter(&5).unwrap().len(), 0);
}
""")
