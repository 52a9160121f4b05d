C, P, G, O = "src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs", "src/optionals.rs"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c18-global-ids", property="C18",
  needs="maps filled by several threads at the same time, items of one map whose hashes collide",
  breaks="pairing ids come from a process-wide counter that is loaded and stored, not incremented atomically: another thread can set it back, so one map gives an id twice",
  edits=[(C, """        let left_pairing = MappingPair {
            value: left,
            hash: r_hash,
            id: self.counter,
        };
        let right_pairing = MappingPair {
            value: right,
            hash: l_hash,
            id: self.counter,
        };
        self.counter += 1;""", """        // Ids are unique in the whole process, so that maps could share tables
        static NEXT_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let next = NEXT_ID.load(std::sync::atomic::Ordering::SeqCst);
        let left_pairing = MappingPair {
            value: left,
            hash: r_hash,
            id: next,
        };
        let right_pairing = MappingPair {
            value: right,
            hash: l_hash,
            id: next,
        };
        NEXT_ID.store(next + 1, std::sync::atomic::Ordering::SeqCst);
        self.counter += 1;""")],
  demo="""
fn main() {
    for _ in 0..60 {
        let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
            let mut m: CycleMap<u64, u64, Same> = CycleMap::with_hasher(Same);
            for i in 0..150 { m.insert(i, i + 1000); }
            (0..150).all(|i| m.get_right(&i) == Some(&(i + 1000)) && m.get_left(&(i + 1000)) == Some(&i))
        })).collect();
        for h in hs { assert!(h.join().unwrap()); }
    }
}
""")

seed(id="c18-left-iter-send", property="C18",
  needs="a LeftIter of a GroupMap whose left items are not Sync, sent to another thread",
  breaks="the marker makes LeftIter Send for every L: two threads can use the same Cell or Rc, a data race in safe code",
  edits=[(G, """    left_iter: RawIter<LeftItem<L>>,
    marker: PhantomData<&'a L>,""", """    left_iter: RawIter<LeftItem<L>>,
    marker: PhantomData<fn() -> &'a L>,""")],
  demo="""
trait No { const SEND: bool = false; }
impl<T: ?Sized> No for T {}
struct Is<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> Is<T> { const SEND: bool = true; }
fn main() {
    assert!(!<Is<::cycle_map::group_map::LeftIter<'static, Rc<u8>>>>::SEND);
    assert!(!<Is<::cycle_map::group_map::RightIter<'static, Rc<u8>>>>::SEND);
    assert!(<Is<::cycle_map::group_map::LeftIter<'static, u8>>>::SEND);
}
""")

seed(id="c19-hash-compare", property="C19",
  needs="a GroupMap lookup by a borrowed form whose hash collides with that of another stored item",
  breaks="the lookup compares hashes instead of items: an absent key finds the colliding item",
  edits=[(G, """        Q: Hash + Eq,
    {
        self.left_set.get(hash, equivalent_key_left(item))
    }""", """        Q: Hash + Eq,
    {
        if core::mem::size_of::<Q>() == core::mem::size_of::<L>() {
            return self.left_set.get(hash, equivalent_key_left(item));
        }
        // The borrowed form isn't the item itself, so it might be slow to compare
        self.left_set.get(hash, |p| {
            make_hash::<Q, S>(&self.hash_builder, p.value.borrow()) == hash
        })
    }""")],
  demo="""
#[derive(PartialEq, Eq, Hash, Debug, Clone)]
struct Small(u32);
#[derive(PartialEq, Eq, Debug, Clone)]
struct Big(Small, u64);
impl Hash for Big { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl std::borrow::Borrow<Small> for Big { fn borrow(&self) -> &Small { &self.0 } }
fn main() {
    let mut m: GroupMap<Big, u64, Same> = GroupMap::with_hasher(Same);
    m.insert(Big(Small(1), 0), 10);
    m.insert(Big(Small(2), 0), 20);
    assert_eq!(m.get_right(&Small(1)), Some(&10));
    assert_eq!(m.get_right(&Small(2)), Some(&20));
    assert_eq!(m.get_right(&Small(3)), None);
}
""")

seed(id="c20-shrink-thrash", property="C20",
  needs="a map filled exactly to its capacity, then insert and remove in turn",
  breaks="removal gives memory back as soon as half the capacity is enough: at the boundary every insert grows both tables and every removal shrinks them, linear work each",
  edits=[(C, """            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();""", """            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();
        // Give memory back once less than half of it is used
        if self.len() >= 512 && self.len() <= self.capacity() / 2 {
            self.shrink_to_fit();
        }""")],
  demo="""
thread_local!(static N: Cell<u64> = Cell::new(0));
#[derive(PartialEq, Eq, Debug, Clone)]
struct K(u64);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { N.with(|n| n.set(n.get() + 1)); self.0.hash(h) } }
fn main() {
    let mut m: CycleMap<K, u64> = CycleMap::new();
    let mut worst = 0;
    for i in 0..4000u64 {
        m.insert(K(i), i);
        // insert and remove in turn at every size
        let before = N.with(|n| n.get());
        for _ in 0..8 { m.insert(K(1 << 40), 1 << 40); assert!(m.remove_via_left(&K(1 << 40)).is_some()); }
        worst = worst.max(N.with(|n| n.get()) - before);
    }
    // one rehash is fine, sixteen are not
    assert!(worst < 3 * 4000, "{worst} hashes for 16 operations");
}
""")

seed(id="c20-is-empty-scan", property="C20",
  needs="a PartialCycleMap with few items but a large capacity",
  breaks="is_empty looks for a first item instead of at the counts: it scans the whole sparse table",
  edits=[(P, """    pub fn is_empty(&self) -> bool {
        self.len_left() + self.len_right() == 0
    }""", """    pub fn is_empty(&self) -> bool {
        unsafe {
            self.left_set.iter().next().is_none() && self.right_set.iter().next().is_none()
        }
    }""")],
  release=True,
  demo="""
fn time(cap: usize) -> u128 {
    let mut m: PartialCycleMap<u64, u64, By> = PartialCycleMap::with_hasher(By(|x| x));
    m.reserve_left(cap);
    m.insert_left(cap as u64 - 1);
    (0..5).map(|_| {
        let t = std::time::Instant::now();
        for _ in 0..200 { assert!(!std::hint::black_box(&m).is_empty()); }
        t.elapsed().as_nanos()
    }).min().unwrap()
}
fn main() {
    let (small, big) = (time(100), time(4_000_000));
    assert!(big < 100 * small + 10_000_000, "{small} ns, {big} ns");
}
""")

seed(id="c20-group-scan", property="C20",
  needs="a GroupMap with one large group, removal of single left items",
  breaks="remove_left filters the whole group of the right item instead of removing one entry: linear in the size of the group",
  edits=[(G, """            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .remove(&pair);
        Some(left_item.extract())""", """            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .retain(|p| *p != pair);
        Some(left_item.extract())""")],
  release=True,
  demo="""
fn time(n: u64) -> u128 {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    for i in 0..n { m.insert(i, 0); }
    let t = std::time::Instant::now();
    for i in 0..500 { assert_eq!(m.remove_left(&(i * (n / 500))), Some(i * (n / 500))); }
    t.elapsed().as_nanos()
}
fn main() {
    let small = time(1_000);
    let big = time(200_000);
    assert!(big < 100 * small + 50_000_000, "{small} ns, {big} ns");
}
""")

seed(id="c21-retain-take", property="C21",
  needs="the closure of GroupMap::retain_unpaired panics, the caller goes on with the map",
  breaks="the right set is taken out of the map while the closure runs: after a panic every right item is gone and the left items point nowhere",
  edits=[(G, """        let mut to_drop: Vec<(u64, ID)> = Vec::with_capacity(self.left_set.len());
        for r in self.iter_unpaired() {
            if f(r) {
                let r_hash = make_hash::<R, S>(&self.hash_builder, r);
                let r_item = self.get_right_inner_with_hash(r, r_hash).unwrap();
                to_drop.push((r_hash, r_item.id));
            }
        }
        for (r_hash, id) in to_drop {
            self.remove_via_hash_and_id(r_hash, id);
        }""", """        let right_set = core::mem::replace(&mut self.right_set, RawTable::new());
        let mut kept = RawTable::with_capacity(right_set.capacity());
        for item in right_set {
            if !item.pairs.is_empty() || !f(&item.value) {
                let r_hash = make_hash::<R, S>(&self.hash_builder, &item.value);
                kept.insert(r_hash, item, make_hasher(&self.hash_builder));
            }
        }
        self.right_set = kept;""")],
  demo="""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    m.insert(1, 10);
    for r in 20..25 { m.insert_right(r); }
    let mut n = 0;
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.retain_unpaired(|_| { n += 1; if n == 3 { panic!() } false })));
    assert!(e.is_err());
    assert_eq!(m.len_right(), 6);
    assert_eq!(m.get_right(&1), Some(&10));
}
""")

seed(id="c21-remove-left-order", property="C21",
  needs="the Eq of an item panics the second time that PartialCycleMap::remove_left compares it",
  breaks="the partner is marked unpaired before the left item is removed: after the panic the left item is still there and claims to be paired with it",
  edits=[(P, """        let item = self.left_set.remove_entry(l_hash, equivalent_key(item))?;
        if let Some(hash) = item.hash {
            self.right_set.get_mut(hash, just_id(item.id)).unwrap().hash = None;
        }
        Some(item.extract())""", """        let pairing = self.left_set.get(l_hash, equivalent_key(item))?;
        if let Some(hash) = pairing.hash {
            self.right_set.get_mut(hash, just_id(pairing.id)).unwrap().hash = None;
        }
        let item = self.left_set.remove_entry(l_hash, equivalent_key(item))?;
        Some(item.extract())""")],
  demo="""
thread_local!(static LEFT: Cell<u64> = Cell::new(u64::MAX));
#[derive(Debug, Clone)]
struct K(u64);
impl PartialEq for K { fn eq(&self, o: &K) -> bool {
    LEFT.with(|l| { if l.get() == 0 { panic!() } l.set(l.get() - 1) });
    self.0 == o.0
} }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for after in 0..8 {
        let mut m: PartialCycleMap<K, u64> = PartialCycleMap::new();
        m.insert(K(1), 10);
        LEFT.with(|l| l.set(after));
        let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.remove_left(&K(1)).is_some()));
        LEFT.with(|l| l.set(u64::MAX));
        if e.is_err() {
            assert!(m.contains_left(&K(1)));
            assert_eq!(m.is_left_paired(&K(1)), m.is_right_paired(&10));
            assert_eq!(m.get_left(&10), Some(&K(1)));
        }
    }
}
""")

seed(id="c22-retain-reset", property="C22",
  needs="retain_paired that leaves unpaired right items only, then as many new items as before, one of which collides in hash with an old right item",
  breaks="the id counter restarts while unpaired right items still carry ids: a new pair can get the id of an old right item",
  edits=[(P, """        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }
    }""", """        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }
        if self.left_set.is_empty() {
            // No pairs are left, so the ids can start over
            self.counter = 0;
        }
    }""")],
  demo="""
fn main() {
    for n in 1..6u64 {
        for k in 0..n {
            let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
            for i in 0..n { if i == k { m.insert_right(1000); } else { m.insert(i, 100 + i); } }
            m.retain_paired(|_, _| true);
            assert!(m.contains_right(&1000) && m.len_left() == 0);
            for i in 0..n { m.insert(i, 200 + i); }
            for i in 0..n { assert_eq!(m.remove_left(&i), Some(i)); assert!(!m.is_right_paired(&(200 + i)), "{n} {k} {i}"); }
        }
    }
}
""")

seed(id="c22-id-wrap", property="C22",
  needs="2^24 left items inserted one by one over the life of a GroupMap with one that stays, and colliding hashes",
  breaks="ids are cut to 24 bits: after 2^24 insertions a new left item has the id of one that is still stored",
  edits=[(G, """    fn add_assign(&mut self, other: u64) {
        self.0 += other;
    }""", """    fn add_assign(&mut self, other: u64) {
        // Ids of removed items are used again
        self.0 = (self.0 + other) & 0x00ff_ffff;
    }""")],
  release=True,
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64, Same> = GroupMap::with_hasher(Same);
    m.insert_right(7);
    m.insert_right(8);
    m.insert_left(0, &7);
    for i in 0..(1u64 << 24) - 1 { m.insert_left(1 + i, &8); m.remove_left(&(1 + i)); }
    m.insert_left(1 << 40, &8);
    m.insert_left(1 << 41, &8);
    let all: Vec<u64> = { let mut v: Vec<u64> = m.get_left_iter(&8).unwrap().copied().collect(); v.sort(); v };
    assert_eq!(all, [1 << 40, 1 << 41]);
    let (l, _) = m.remove_right(&7).unwrap();
    assert!(l.contains(&0) && l.len() == 1);
}
""")

seed(id="c12-clone-from", property="C12",
  needs="clone_from into a map that has a hasher of its own",
  breaks="clone_from copies the tables but keeps the old hasher: nothing is found any more",
  edits=[(P, """            right_set: self.right_set.clone(),
            counter: self.counter,
            hash_builder: self.hash_builder.clone(),
        }
    }
}""", """            right_set: self.right_set.clone(),
            hash_builder: self.hash_builder.clone(),
            counter: self.counter,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.left_set.clone_from(&source.left_set);
        self.right_set.clone_from(&source.right_set);
        self.counter = source.counter;
    }
}""")],
  demo="""
fn main() {
    let a: PartialCycleMap<u64, u64> = (0..100u64).map(|i| (i, i + 1)).collect();
    let mut b: PartialCycleMap<u64, u64> = (0..7u64).map(|i| (i, i + 50)).collect();
    b.clone_from(&a);
    for i in 0..100 { assert_eq!(b.get_right(&i), Some(&(i + 1))); assert_eq!(b.get_left(&(i + 1)), Some(&i)); }
}
""")

seed(id="c07-in-place", property="C07",
  needs="swap_left to an item whose hash agrees with that of the old one in the low 32 bits, but not in the high ones",
  breaks="the new item takes the slot of the old one, whose tag comes from the high bits: it isn't found any more",
  edits=[(C, """        // Remove old left pairing
        let old_left_item: L = self
            .left_set
            .remove_entry(old_l_hash, equivalent_key(old))
            .unwrap()
            .extract();
        // Insert new left pairing""", """        // Remove old left pairing
        if old_l_hash as u32 == new_l_hash as u32 {
            // The new item belongs in the same slot
            let slot = self.left_set.get_mut(old_l_hash, equivalent_key(old)).unwrap();
            let old_left_item = mem::replace(slot, new_left_pairing).extract();
            return OptionalPair::from((Some(old_left_item), eq_opt));
        }
        let old_left_item: L = self
            .left_set
            .remove_entry(old_l_hash, equivalent_key(old))
            .unwrap()
            .extract();
        // Insert new left pairing""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64, By> = CycleMap::with_hasher(By(|x| x << 50));
    for i in 0..20 { m.insert(i * 100, i); }
    for i in 0..20 {
        m.swap_left(&(i * 100), i * 100 + 77);
        assert_eq!(m.get_right(&(i * 100 + 77)), Some(&i));
        assert_eq!(m.get_left(&i), Some(&(i * 100 + 77)));
    }
}
""")

seed(id="c08-nth-crossing", property="C08",
  needs="nth (or skip, step_by) on PartialCycleMap::iter_unpaired that jumps from the left items to the right ones while some left items are paired",
  breaks="the specialised nth counts the paired left items as skipped, too few right items are skipped",
  edits=[(P, """        for r_pairing in self.right_iter.by_ref() {
            let r = unsafe { r_pairing.as_ref() };
            // Ignore all paired items
            if r.hash.is_some() {
                continue;
            }
            return Some(SomeRight(&r.value));
        }
        None
    }
""", """        for r_pairing in self.right_iter.by_ref() {
            let r = unsafe { r_pairing.as_ref() };
            // Ignore all paired items
            if r.hash.is_some() {
                continue;
            }
            return Some(SomeRight(&r.value));
        }
        None
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let left = self.left_iter.len();
        if n < left {
            for _ in 0..n {
                self.next()?;
            }
            return self.next();
        }
        // All left items are skipped
        self.left_iter.by_ref().for_each(drop);
        for _ in left..n {
            self.next()?;
        }
        self.next()
    }
""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::new();
    for i in 0..5 { m.insert(i, i); }
    for i in 5..8 { m.insert_left(i); }
    for i in 5..20 { m.insert_right(i); }
    let all: Vec<_> = m.iter_unpaired().collect();
    for n in 0..20 { assert_eq!(m.iter_unpaired().nth(n).as_ref(), all.get(n)); }
}
""")

seed(id="c08-clone-restart", property="C08",
  needs="cloning PartialCycleMap::iter after it went on to the unpaired right items",
  breaks="the clone starts the right items from the beginning",
  edits=[(P, """impl<L, R, S> Clone for Iter<'_, L, R, S> {
    fn clone(&self) -> Self {
        Self {
            left_iter: self.left_iter.clone(),
            right_iter: self.right_iter.clone(),""", """impl<L, R, S> Clone for Iter<'_, L, R, S> {
    fn clone(&self) -> Self {
        Self {
            left_iter: self.left_iter.clone(),
            // The right items come after the left ones
            right_iter: if self.left_iter.len() <= 1 {
                unsafe { self.map_ref.right_set.iter() }
            } else {
                self.right_iter.clone()
            },""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::new();
    for i in 0..3 { m.insert(i, i); }
    for i in 5..9 { m.insert_right(i); }
    let mut it = m.iter();
    loop {
        let c: Vec<_> = it.clone().collect();
        assert_eq!(c.len(), it.len());
        let mut d = it.clone();
        for x in &c { assert_eq!(d.next().as_ref(), Some(x)); }
        let n = it.next();
        assert_eq!(c.first(), n.as_ref());
        if n.is_none() { break }
        assert_eq!(it.clone().count(), c.len() - 1);
    }
}
""")

seed(id="c11-unpaired-first", property="C11",
  needs="PartialCycleMap::retain_unpaired dropping an unpaired left item while another unpaired left item of the same hash is kept",
  breaks="the item to drop is found as the first unpaired one of that hash, which can be the other item",
  edits=[(P, """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We are only iterating over unpaired items.");""", """        for tup in to_drop {
            match tup {
                (Some(l), None, _) => {
                    // The hash of an item that isn't paired is enough to find it
                    let hash_builder = &self.hash_builder;
                    self.left_set.remove_entry(l, |p| {
                        p.hash.is_none() && make_hash::<L, S>(hash_builder, &p.value) == l
                    });
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We are only iterating over unpaired items.");""")],
  demo="""
fn main() {
    for n in 2..8u64 {
        for k in 0..n {
            let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
            for i in 0..n { m.insert_left(i); }
            m.retain_unpaired(|p| p.get_left() == Some(&&k));
            for i in 0..n { assert_eq!(m.contains_left(&i), i != k); }
        }
    }
}
""")

seed(id="c13-skip-none", property="C13",
  needs="extending a GroupMap by (None, r) when r is stored with a group",
  breaks="the item is skipped when it is there already, insert_right removes the old one and its group",
  edits=[(G, """            } else {
                self.insert_right(right);
            }""", """            } else if !self.contains_right(&right) {
                self.insert_right(right);
            }""")],
  demo="""
fn main() {
    let src = vec![(Some(1u64), 10u64), (Some(2), 10), (None, 20), (None, 10)];
    let m: GroupMap<u64, u64> = src.clone().into_iter().collect();
    let mut n: GroupMap<u64, u64> = GroupMap::new();
    for (l, r) in src { match l { Some(l) => n.insert(l, r), None => { n.insert_right(r); } } }
    assert_eq!(m.len_left(), n.len_left());
    assert!(m == n && !m.is_right_paired(&10));
}
""")

seed(id="c13-collect-twice", property="C13",
  needs="collecting a PartialCycleMap from OptionalPairs in which a pair comes after both of its items came unpaired",
  breaks="the pair is made of the stored items by pair(): the items of the later element are dropped instead of stored",
  edits=[(P, """                SomeBoth(l, r) => {
                    self.insert(l, r);
                }
            }
        }
    }""", """                SomeBoth(l, r) => {
                    if !self.pair(&l, &r) {
                        self.insert(l, r);
                    }
                }
            }
        }
    }""")],
  demo="""
fn main() {
    use OptionalPair::*;
    let src = || vec![SomeLeft(Tag(1, 1)), SomeRight(Tag(2, 2)), SomeBoth(Tag(1, 3), Tag(2, 4))];
    let m: PartialCycleMap<Tag, Tag> = src().into_iter().collect();
    assert_eq!(m.get_left(&Tag(2, 0)).unwrap().1, 3);
    assert_eq!(m.get_right(&Tag(1, 0)).unwrap().1, 4);
}
""")

seed(id="c14-first-wins", property="C14",
  needs="input in which a left item comes twice with different right items",
  breaks="the first of two pairs with the same left item is kept, inserting in order keeps the last",
  edits=[("src/serde.rs", """            map.insert(entry.0, entry.1);""", """            if !map.contains_left(&entry.0) {
                map.insert(entry.0, entry.1);
            }""")],
  demo="""
fn main() {
    let m: CycleMap<u64, u64> = serde_json::from_str("[[1,10],[2,20],[1,30]]").unwrap();
    assert_eq!(m.get_right(&1), Some(&30));
    assert_eq!(m.get_left(&10), None);
    assert_eq!(m.len(), 2);
}
""")

seed(id="c16-reserve-missing", property="C16",
  needs="reserve on a map that is partly filled, more than fits but less than is missing twice",
  breaks="only the missing room is passed on as additional, which the table takes to be there: the capacity stays too small",
  edits=[(C, """    pub fn reserve(&mut self, additional: usize) {
        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));""", """    pub fn reserve(&mut self, additional: usize) {
        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        // There might be some room already
        let room = self.right_set.capacity() - self.len();
        let missing = additional.saturating_sub(room);
        self.right_set
            .reserve(missing, make_hasher(&self.hash_builder));""")],
  demo="""
fn main() {
    for n in 0..40usize {
        for k in 0..40usize {
            let mut m: CycleMap<u64, u64> = (0..n as u64).map(|i| (i, i)).collect();
            m.reserve(k);
            assert!(m.capacity() >= n + k);
        }
    }
}
""")

seed(id="c16-partner-hash", property="C16",
  needs="try_reserve that makes the right table of a CycleMap grow",
  breaks="the right table is rehashed by the hash stored with each item, which is that of its partner: right items aren't found any more",
  edits=[(C, """        self.right_set
            .try_reserve(additional, make_hasher(&self.hash_builder))?;
        Ok(())""", """        // No need to hash the items again
        self.right_set.try_reserve(additional, |p| p.hash)?;
        Ok(())""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64> = (0..10u64).map(|i| (i, i + 100)).collect();
    m.try_reserve(100).unwrap();
    for i in 0..10 { assert_eq!(m.get_left(&(i + 100)), Some(&i)); }
}
""")

seed(id="c16-shrink-other", property="C16",
  needs="shrink_to_fit of a PartialCycleMap holding many more items of one side than of the other",
  breaks="the right set is made to fit the longer of the two sides: shrinking makes it grow",
  edits=[(P, """        self.right_set
            .shrink_to(self.len_right(), make_hasher(&self.hash_builder));
    }""", """        let wanted = self.len_left().max(self.len_right());
        if wanted > self.right_set.capacity() {
            self.right_set
                .reserve(wanted - self.len_right(), make_hasher(&self.hash_builder));
        }
        self.right_set
            .shrink_to(wanted, make_hasher(&self.hash_builder));
    }""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::new();
    for i in 0..500 { m.insert_left(i); }
    for i in 0..3 { m.insert_right(i); }
    let before = m.capacity_right();
    m.shrink_to_fit();
    assert!(m.capacity_right() <= before);
}
""")

seed(id="c15-unbound-lifetime", property="C15",
  needs="a caller that keeps the iterator of GroupMap::iter_right while it changes or drops the map",
  breaks="the iterator is no longer tied to the borrow of the map: safe code can read freed memory",
  edits=[(G, """    pub fn iter_right(&self) -> RightIter<'_, R> {""", """    pub fn iter_right<'a>(&self) -> RightIter<'a, R> {""")],
  run="""cp src/main.rs main.rs.bad
echo 'fn main() {}' > src/main.rs
timeout -k 5 250 cargo build --offline --quiet || exit 0
cp main.rs.bad src/main.rs
timeout -k 5 250 cargo build --offline --quiet 2>err || { grep -qE 'E050[0-9]|E0597' err && exit 0; cat err; exit 0; }
exit 1""",
  demo="""
fn main() {
    let mut m: GroupMap<u64, String> = GroupMap::new();
    m.insert(1, "one".to_string());
    let it = m.iter_right();
    m.clear();
    for r in it { println!("{r}"); }
}
""")

seed(id="c03-swap-right-keep", property="C03",
  needs="swap_right_remove of a right item by a new one, then a left item of its group is re-paired while right hashes collide",
  breaks="the left items of the group keep the id of the old right item when old and new hash alike: their right item isn't found",
  edits=[(G, """                    let left = self
                        .left_set
                        .get_mut(hash, left_with_left_id(id))
                        .unwrap();
                    left.hash = new_hash;
                    left.r_id = self.right_counter;
                }
                self.right_counter += 1;
                Some(r.value)""", """                    let left = self
                        .left_set
                        .get_mut(hash, left_with_left_id(id))
                        .unwrap();
                    if left.hash == new_hash {
                        continue;
                    }
                    left.hash = new_hash;
                    left.r_id = self.right_counter;
                }
                self.right_counter += 1;
                Some(r.value)""")],
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64, Same> = GroupMap::with_hasher(Same);
    m.insert(1, 10);
    m.insert(2, 10);
    assert_eq!(m.swap_right_remove(&10, 20), Some(10));
    assert_eq!(m.get_right(&1), Some(&20));
    assert!(m.are_paired(&2, &20));
}
""")

seed(id="c10-filter-panic-lost", property="C10",
  needs="the closure of CycleMap::drain_filter panics",
  breaks="the pair is taken out before the closure sees it: the pair it panics on is lost",
  edits=[(C, """                if f(&l_pairing.value, &right.as_ref().value) {
                    let l = self.left_ref.remove(left).extract();
                    let r = self.right_ref.remove(right).extract();
                    return Some((l, r));
                }""", """                let id = l_pairing.id;
                let (l_hash, r_hash) = (right.as_ref().hash, l_pairing.hash);
                let l = self.left_ref.remove(left);
                let r = self.right_ref.remove(right);
                if f(&l.value, &r.value) {
                    return Some((l.extract(), r.extract()));
                }
                // Put the pair back, there is room for it
                debug_assert_eq!(id, r.id);
                self.left_ref.insert_no_grow(l_hash, l);
                self.right_ref.insert_no_grow(r_hash, r);""")],
  demo="""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m: CycleMap<u64, u64> = (0..10u64).map(|i| (i, i + 100)).collect();
    let mut n = 0;
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        m.drain_filter(|_, _| { n += 1; if n == 1 { panic!() } false }).for_each(drop)
    }));
    assert!(e.is_err());
    assert_eq!(m.len(), 10);
    for i in 0..10 { assert_eq!(m.get_right(&i), Some(&(i + 100))); }
}
""")

seed(id="c06-insert-right-keep", property="C06",
  needs="GroupMap::insert_left of an item that is stored already, in another group, with the new instance distinguishable",
  breaks="the stored left item is kept and re-paired; the new instance is handed back in its place",
  edits=[(G, """        let digest = self.remove_left(&left);
        let left_item = LeftItem {
            value: left,
            hash: r_hash,""", """        let mut left = left;
        let mut digest = self.remove_left(&left);
        if let Some(old) = digest.as_mut() {
            // Keep what is stored, like insert does
            core::mem::swap(old, &mut left);
        }
        let left_item = LeftItem {
            value: left,
            hash: r_hash,""")],
  demo="""
fn main() {
    let mut m: GroupMap<Tag, u64> = GroupMap::new();
    m.insert(Tag(1, 1), 10);
    m.insert_right(20);
    assert_eq!(m.insert_left(Tag(1, 2), &20).unwrap().1, 1);
    assert_eq!(m.iter_left().next().unwrap().1, 2);
}
""")

seed(id="c05-forced-swap-id", property="C05",
  needs="pair_forced_remove of a paired left item with an unpaired right item whose hash collides with that of the displaced one, and which was unpaired from the same left item before",
  breaks="pair_forced_remove looks for the displaced right item by its partner's hash only: with colliding hashes it can remove another paired item",
  edits=[(P, """                        SomeRight(
                            self.right_set
                                .remove_entry(lp_hash, just_id(old_id))
                                .unwrap()
                                .extract(),
                        )""", """                        let new_id = left.id;
                        SomeRight(
                            self.right_set
                                .remove_entry(lp_hash, |p| {
                                    p.hash == Some(l_hash) && p.id <= old_id.max(new_id)
                                        && p.id != new_id
                                })
                                .unwrap()
                                .extract(),
                        )""")],
  demo="""
fn main() {
    for n in 3..7u64 {
        for a in 0..n { for b in 0..n {
            if a == b { continue }
            let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
            for i in 0..n { if i == b { m.insert_left(i); m.insert_right(100 + i); } else { m.insert(i, 100 + i); } }
            let got = m.pair_forced_remove(&a, &(100 + b));
            assert_eq!(got, OptionalPair::SomeRight(100 + a));
        } }
    }
}
""")
