C, P, G, O = "src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs", "src/optionals.rs"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c13-chunked", property="C13",
  needs="extending a CycleMap with a source of more than 4096 pairs",
  breaks="the source is read in blocks; at the end of a full block one more pair is taken to see whether there is more, and is lost",
  edits=[(C, """        for (l, r) in iter {
            self.insert(l, r);
        }
    }
}

impl<L, R> FromIterator<(L, R)> for CycleMap<L, R>""", """        // Reads the source in blocks, so that it isn't interleaved with the growing of the tables
        let mut iter = iter.into_iter();
        let mut block = Vec::new();
        loop {
            block.extend(iter.by_ref().take(4096));
            let full = block.len() == 4096;
            for (l, r) in block.drain(..) {
                self.insert(l, r);
            }
            if !full || iter.next().is_none() {
                break;
            }
        }
    }
}

impl<L, R> FromIterator<(L, R)> for CycleMap<L, R>""")],
  demo="""
fn main() {
    let m: CycleMap<u64, u64> = (0..10_000u64).map(|i| (i, i + 1)).collect();
    assert_eq!(m.len(), 10_000);
    let mut m: CycleMap<u64, u64> = CycleMap::new();
    m.extend((0..4096u64).map(|i| (i, i)));
    assert_eq!(m.len(), 4096);
}
""")

seed(id="c20-unpair-log", property="C20",
  needs="many left items removed from the groups of a GroupMap over its life",
  breaks="every removal leaves an entry in a list that nothing empties: memory grows with the number of removals, not of items",
  edits=[(G, """    left_set: RawTable<LeftItem<L>>,
    right_set: RawTable<RightItem<R>>,
}

impl<L, R> GroupMap<L, R, DefaultHashBuilder> {""", """    /// Ids of removed left items
    free: Vec<ID>,
    left_set: RawTable<LeftItem<L>>,
    right_set: RawTable<RightItem<R>>,
}

impl<L, R> GroupMap<L, R, DefaultHashBuilder> {"""),
  (G, """            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .remove(&pair);
        Some(left_item.extract())""", """            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .remove(&pair);
        self.free.push(pair.1);
        Some(left_item.extract())"""),
  (G, """            left_set: RawTable::new(),
""", """            free: Vec::new(),
            left_set: RawTable::new(),
"""),
  (G, """            hash_builder: self.hash_builder.clone(),
""", """            hash_builder: self.hash_builder.clone(),
            free: self.free.clone(),
"""),
  (G, """            left_set: RawTable::with_capacity(capacity),
""", """            free: Vec::new(),
            left_set: RawTable::with_capacity(capacity),
"""),
  ],
  release=True,
  demo="""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    m.insert_right(1);
    let before = LIVE.load(SeqCst);
    for i in 0..200_000u64 { m.insert_left(i, &1); m.remove_left(&i); }
    let held = LIVE.load(SeqCst) - before;
    assert!(held < 10_000, "{held} bytes more for the same contents");
}
""")

seed(id="c18-stats-cell", property="C18",
  needs="a map shared between threads (it is not Sync any more, so that does not compile)",
  breaks="a Cell counts the lookups: the map cannot be shared between threads any more",
  edits=[(C, """    left_set: RawTable<MappingPair<L>>,
    right_set: RawTable<MappingPair<R>>,
}

impl<L, R> CycleMap<L, R, DefaultHashBuilder> {""", """    /// How often items were looked up
    lookups: core::cell::Cell<u64>,
    left_set: RawTable<MappingPair<L>>,
    right_set: RawTable<MappingPair<R>>,
}

impl<L, R> CycleMap<L, R, DefaultHashBuilder> {"""),
  (C, """            hash_builder: self.hash_builder.clone(),
""", """            hash_builder: self.hash_builder.clone(),
            lookups: self.lookups.clone(),
"""),
  (C, """            left_set: RawTable::new(),
""", """            lookups: core::cell::Cell::new(0),
            left_set: RawTable::new(),
"""),
  (C, """            left_set: RawTable::with_capacity(capacity),
""", """            lookups: core::cell::Cell::new(0),
            left_set: RawTable::with_capacity(capacity),
"""),
  (C, """    pub fn are_paired(&self, left: &L, right: &R) -> bool {
""", """    pub fn are_paired(&self, left: &L, right: &R) -> bool {
        self.lookups.set(self.lookups.get() + 1);
"""),
  ],
  demo="""
trait No { const SYNC: bool = false; }
impl<T: ?Sized> No for T {}
struct Is<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Sync> Is<T> { const SYNC: bool = true; }
fn main() {
    assert!(<Is<CycleMap<u8, u8>>>::SYNC);
    assert!(<Is<PartialCycleMap<u8, u8>>>::SYNC);
}
""")

seed(id="c18-eq-tally", property="C18",
  needs="two threads comparing maps at the same time",
  breaks="== counts the pairs that differ in a process-wide counter: a comparison in another thread is counted in, so equal maps differ",
  edits=[(C, """        self.iter().all(|(l, r)| other.are_paired(l, r))
    }""", """        use core::sync::atomic::{AtomicUsize, Ordering};
        // The pairs that are in both maps
        static SHARED: AtomicUsize = AtomicUsize::new(0);
        SHARED.store(0, Ordering::SeqCst);
        for (l, r) in self.iter() {
            if !other.are_paired(l, r) {
                return false;
            }
            SHARED.fetch_add(1, Ordering::SeqCst);
        }
        SHARED.load(Ordering::SeqCst) == self.len()
    }""")],
  demo="""
fn main() {
    let a: CycleMap<u64, u64> = (0..1000u64).map(|i| (i, i + 7)).collect();
    let b = a.clone();
    std::thread::scope(|s| {
        let h: Vec<_> = (0..4).map(|_| s.spawn(|| (0..2000).all(|_| a == b))).collect();
        for h in h { assert!(h.join().unwrap()); }
    });
}
""")

seed(id="c03-wide-group", property="C03",
  needs="swap_right of a right item whose group has more than 65535 left items",
  breaks="the group is moved in steps counted in 16 bits: the left items beyond keep pointing to the old right item",
  edits=[(G, """                self.right_set
                    .insert(new_hash, item, make_hasher(&self.hash_builder));
                for (hash, id) in set {
                    let left = self
                        .left_set
                        .get_mut(hash, left_with_left_id(id))
                        .unwrap();
                    left.hash = new_hash;
                    left.r_id = self.right_counter;
                }
                self.right_counter += 1;
            }
        }
    }
""", """                self.right_set
                    .insert(new_hash, item, make_hasher(&self.hash_builder));
                let count = set.len() as u16;
                for (hash, id) in set.into_iter().take(if count == 0 { 0 } else { usize::MAX }) {
                    let left = self
                        .left_set
                        .get_mut(hash, left_with_left_id(id))
                        .unwrap();
                    left.hash = new_hash;
                    left.r_id = self.right_counter;
                }
                self.right_counter += 1;
            }
        }
    }
""")],
  release=True,
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    m.insert_right(1);
    for i in 0..(1u64 << 16) { m.insert_left(i, &1); }
    m.swap_right(&1, 2);
    for i in 0..(1u64 << 16) { assert!(m.are_paired(&i, &2)); }
    assert_eq!(m.get_right(&77), Some(&2));
}
""")

seed(id="c21-extend-take", property="C21",
  needs="a source iterator that panics while a GroupMap is extended from it",
  breaks="the map is taken out while it is extended, so a panic in the source loses everything in it",
  edits=[(G, """    fn extend<T: IntoIterator<Item = (L, R)>>(&mut self, iter: T) {
        for (left, right) in iter {
            self.insert(left, right);
        }""", """    fn extend<T: IntoIterator<Item = (L, R)>>(&mut self, iter: T) {
        // The left items are worked on in a local
        let mut left_set = core::mem::replace(&mut self.left_set, RawTable::new());
        for (left, right) in iter {
            core::mem::swap(&mut self.left_set, &mut left_set);
            self.insert(left, right);
            core::mem::swap(&mut self.left_set, &mut left_set);
        }
        self.left_set = left_set;""")],
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64> = (0..10u64).map(|i| (i, i / 2)).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        m.extend((0..5u64).map(|i| if i == 3 { panic!("source") } else { (100 + i, 100 + i) }));
    }));
    assert!(r.is_err());
    assert_eq!(m.get_right(&7), Some(&3));
    assert_eq!(m.get_right(&101), Some(&101));
    assert_eq!(m.len_left(), 13);
}
""")

