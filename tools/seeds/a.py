C, P, G = "src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c01-swap-right-tag", property="C01",
  needs="swap_right on a map where the new item is equal to a stored item and hashes like the old item (collision), so the equality check is skipped",
  breaks="swap_right decides from hashes that old and new are the same item: two equal right items end up stored, len disagrees with the distinct items and later removals panic",
  edits=[(C, """        self.right_set.get(new_hash, equivalent_key(new))?;
        if new != old {
            // Remove the problem cycle
            self.remove_via_right(new)""", """        self.right_set.get(new_hash, equivalent_key(new))?;
        if new_hash != make_hash::<R, S>(&self.hash_builder, old) {
            // Remove the problem cycle
            self.remove_via_right(new)""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64, Same> = CycleMap::with_hasher(Same);
    m.insert(1, 10);
    m.insert(2, 20);
    let _ = m.swap_right(&10, 20);
    assert_eq!(m.len(), 1);
    assert_eq!(m.iter_right().count(), 1);
    assert_eq!(m.get_left(&20), Some(&1));
    assert!(!m.contains_left(&2));
}
""")

seed(id="c02-unpair-keeps-id", property="C02",
  needs="two right items whose hashes collide: unpair one from a left item, pair the left item with the other, then pair the first one again and remove the second",
  breaks="unpair no longer gives the right item an id of its own, so two right items of colliding hash share an id and the partner lookup can find the wrong one",
  edits=[(P, """                        right.hash = None;
                        right.id = self.counter;
                        self.counter += 1;
                        true""", """                        right.hash = None;
                        self.counter += 1;
                        true""")],
  demo="""
fn main() {
    // several layouts, as which of two colliding items is found first depends on the order
    for n in 2..6u64 {
        for first in 0..n {
            for second in 0..n {
                if first == second { continue }
                let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
                m.insert_left(1);
                for r in 0..n { m.insert_right(r); }
                assert!(m.pair(&1, &first));
                assert!(m.unpair(&1, &first));
                assert!(m.pair(&1, &second));
                assert_eq!(m.remove_left(&1), Some(1));
                for r in 0..n { assert!(!m.is_right_paired(&r), "{r} is still paired"); }
                m.insert_left(1);
                for r in 0..n { assert!(m.contains_right(&r)); assert_eq!(m.get_left(&r), None); }
            }
        }
    }
}
""")

seed(id="c02-forced-id", property="C02",
  needs="pair_forced of a paired left item with an unpaired right item, the displaced right item colliding in hash with the new one",
  breaks="the right item takes over the left item's id, which the displaced right item still carries: the wrong right item is reported or unpaired",
  edits=[(P, """                    let old_id = left.id;
                    // Here, we give the left item the new id to avoid a collision in the right set
                    left.id = right.id;
                    self.right_set
                        .get_mut(lp_hash, hash_and_id(l_hash, old_id))
                        .unwrap()
                        .hash = None;
                    SomeRight(""", """                    let old_id = left.id;
                    let displaced = self.right_set.get_mut(lp_hash, |p| {
                        hash_and_id(l_hash, old_id)(p) && p.value != *r
                    });
                    displaced.unwrap().hash = None;
                    self.right_set
                        .get_mut(r_hash, equivalent_key(r))
                        .unwrap()
                        .id = old_id;
                    SomeRight(""")],
  demo="""
fn main() {
    for n in 2..6u64 {
        for first in 0..n {
            for second in 0..n {
                if first == second { continue }
                let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
                m.insert_left(1);
                for r in 0..n { m.insert_right(r); }
                assert!(m.pair(&1, &first));
                assert_eq!(m.pair_forced(&1, &second), OptionalPair::SomeRight(&first));
                assert_eq!(m.get_left(&second), Some(&1));
                assert_eq!(m.remove_left(&1), Some(1));
                for r in 0..n { assert!(!m.is_right_paired(&r)); }
            }
        }
    }
}
""")

seed(id="c03-pair-again", property="C03",
  needs="GroupMap::pair of two items that are paired with each other already",
  breaks="the left item is put into the group before it is taken out of the old one, which is the same group: it maps to the right item, but the group doesn't list it",
  edits=[(G, """            let old_right = self
                .right_set
                .get_mut(triple.0, right_with_right_id(triple.1))
                .unwrap();
            old_right.pairs.remove(&(l_hash, triple.2));
            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));""", """            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));
            let old_right = self
                .right_set
                .get_mut(triple.0, right_with_right_id(triple.1))
                .unwrap();
            old_right.pairs.remove(&(l_hash, triple.2));""")],
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    m.insert(1, 10);
    m.insert(2, 10);
    assert!(m.pair(&1, &10));
    assert!(m.are_paired(&1, &10));
    assert_eq!(m.get_left_iter(&10).unwrap().count(), 2);
    assert_eq!(m.remove_left(&1), Some(1));
}
""")

seed(id="c03-right-id-reused", property="C03",
  needs="a left item re-paired by insert to a right item that is new, then another new right item that collides with it, then lookups through the id",
  breaks="insert of a known left item with a new right item does not use up the right id, so the next right item gets the same id and lookups by id can find the wrong one",
  edits=[(G, """                self.right_set
                    .insert(r_hash, right_item, make_hasher(&self.hash_builder));
                self.right_counter.0 += 1;
            }
            (None, Some(r)) => {""", """                self.right_set
                    .insert(r_hash, right_item, make_hasher(&self.hash_builder));
            }
            (None, Some(r)) => {""")],
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64, Same> = GroupMap::with_hasher(Same);
    m.insert(1, 10);
    m.insert(1, 11);
    m.insert(2, 12);
    m.insert(3, 13);
    assert_eq!(m.get_right(&1), Some(&11));
    assert_eq!(m.get_right(&2), Some(&12));
    assert_eq!(m.get_right(&3), Some(&13));
}
""")

seed(id="c04-insert-same-pair", property="C04",
  needs="insert of a pair that is stored already, with items that are equal to the stored ones but distinguishable",
  breaks="the new instances are handed back instead of the stored ones, which stay in the map",
  edits=[(C, """        let opt_from_left = self.remove_via_left(&left);
        let opt_from_right = self.remove_via_right(&right);
        let digest = InsertOptional::from((opt_from_left, opt_from_right));""", """        if self.are_paired(&left, &right) {
            // Nothing to change
            return SomeLeft((left, right));
        }
        let opt_from_left = self.remove_via_left(&left);
        let digest = InsertOptional::from((opt_from_left, self.remove_via_right(&right)));""")],
  demo="""
fn main() {
    let mut m: CycleMap<Tag, Tag> = CycleMap::new();
    m.insert(Tag(1, 1), Tag(10, 1));
    match m.insert(Tag(1, 2), Tag(10, 2)) {
        OptionalPair::SomeLeft((l, r)) => assert_eq!((l.1, r.1), (1, 1)),
        o => panic!("{o:?}"),
    }
    assert_eq!(m.get_right(&Tag(1, 0)).unwrap().1, 2);
}
""")

seed(id="c05-swap-right-same", property="C05",
  needs="PartialCycleMap::swap_right with a new item equal to the old one, distinguishable instances",
  breaks="the stored instance stays and the argument is handed back, although the new item should replace the old one",
  edits=[(P, """        // Check for Eq left item and remove that cycle if it exists
        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);""", """        if *old == new {
            return SomeLeft(new);
        }
        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<Tag, Tag> = PartialCycleMap::new();
    m.insert(Tag(1, 1), Tag(10, 1));
    match m.swap_right(&Tag(10, 9), Tag(10, 2)) {
        OptionalPair::SomeLeft(r) => assert_eq!(r.1, 1),
        o => panic!("{o:?}"),
    }
    assert_eq!(m.get_right(&Tag(1, 0)).unwrap().1, 2);
}
""")

seed(id="c05-checked-unpaired", property="C05",
  needs="swap_left_checked where `old` is unpaired and the expected right item is absent or unpaired",
  breaks="the swap is made although old and expected aren't paired",
  edits=[(P, """        // Check if old and expected are paired
        if !self.are_paired(old, expected) {
            return Neither;
        }
        self.swap_left(old, new)""", """        // Check if old and expected are paired
        if self.get_right(old) != self.get_left(expected).and(Some(expected)) {
            return Neither;
        }
        self.swap_left(old, new)""")],
  demo="""
fn main() {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    struct K(u64);
    let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::new();
    m.insert_left(1);
    m.insert_right(10);
    assert_eq!(m.swap_left_checked(&1, &10, 2), OptionalPair::Neither);
    assert_eq!(m.swap_left_checked(&1, &11, 2), OptionalPair::Neither);
    assert!(m.contains_left(&1) && !m.contains_left(&2));
}
""")

seed(id="c06-insert-left-same-group", property="C06",
  needs="GroupMap::insert_left of an item that is in that very group already, distinguishable instances",
  breaks="the stored instance stays and is not handed back: insert_left returns None and drops the new item",
  edits=[(G, """        let right_id = right_item.id;
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        right_item.pairs.insert((l_hash, self.left_counter));""", """        let right_id = right_item.id;
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        if let Some(l) = self.left_set.get(l_hash, equivalent_key_left(&left)) {
            if l.hash == r_hash && l.r_id == right_id {
                return None;
            }
        }
        let new_pair = (l_hash, self.left_counter);
        right_item.pairs.insert(new_pair);""")],
  demo="""
fn main() {
    let mut m: GroupMap<Tag, u64> = GroupMap::new();
    m.insert(Tag(1, 1), 10);
    m.insert(Tag(2, 1), 10);
    let old = m.insert_left(Tag(1, 2), &10).expect("the stored item is handed back");
    assert_eq!(old.1, 1);
    assert_eq!(m.get_left_iter(&10).unwrap().find(|t| t.0 == 1).unwrap().1, 2);
}
""")

seed(id="c07-are-paired-hashes", property="C07",
  needs="two pairs whose left items collide and whose right items collide",
  breaks="are_paired compares the hashes of the partners only, so items of different pairs count as paired (and remove takes them)",
  edits=[(C, """                left.id == right.id && l_hash == right.hash && r_hash == left.hash""",
             """                l_hash == right.hash && r_hash == left.hash""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64, By> = CycleMap::with_hasher(By(|x| (x % 4).wrapping_mul(0x9e37_79b9_7f4a_7c15)));
    for i in 0..20 { m.insert(i, i); }
    for i in 0..20 { for j in 0..20 { assert_eq!(m.are_paired(&i, &j), i == j, "{i} {j}"); } }
}
""")

seed(id="c07-retain-first-collision", property="C11",
  needs="PartialCycleMap::retain_unpaired with unpaired left items that collide, only one of which is to be dropped",
  breaks="the removal takes the first unpaired item of that hash instead of the one the closure picked",
  edits=[(P, """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We are only iterating over unpaired items.");""", """        for tup in to_drop {
            match tup {
                (Some(l), None, _) => {
                    self.left_set.remove_entry(l, |p| p.hash.is_none());
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We are only iterating over unpaired items.");""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64, Same> = PartialCycleMap::with_hasher(Same);
    for i in 0..6 { m.insert_left(i); }
    for pick in 0..6u64 {
        let mut c = m.clone();
        // drops the items for which it returns true
        c.retain_unpaired(|op| *op == OptionalPair::SomeLeft(&pick));
        for i in 0..6 { assert_eq!(c.contains_left(&i), i != pick); }
    }
}
""")

seed(id="c08-zero-hash", property="C08",
  needs="a pair whose right item hashes to 0",
  breaks="iter_paired takes a partner hash of 0 for unpaired and leaves the pair out",
  edits=[(P, """            // Ignore all unpaired items
            let l = unsafe { l_pairing.as_ref() };
            if l.hash.is_none() {
                continue;
            }""", """            // Ignore all unpaired items
            let l = unsafe { l_pairing.as_ref() };
            if l.hash.unwrap_or_default() == 0 {
                continue;
            }""")],
  demo="""
fn main() {
    let mut m: PartialCycleMap<u64, u64, By> = PartialCycleMap::with_hasher(By(|x| x));
    m.insert(5, 0);
    m.insert(6, 1);
    m.insert_left(7);
    let mut v: Vec<_> = m.iter_paired().map(|(l, r)| (*l, *r)).collect();
    v.sort();
    assert_eq!(v, [(5, 0), (6, 1)]);
}
""")

seed(id="c08-iter-len", property="C08",
  needs="len() of a CycleMap iterator after some items have been taken",
  breaks="len answers with the size of the whole map",
  edits=[(C, """    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.left_iter.len()
    }
}

impl<L, R, S> FusedIterator for Iter<'_, L, R, S>""", """    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.map_ref.len()
    }
}

impl<L, R, S> FusedIterator for Iter<'_, L, R, S>""")],
  demo="""
fn main() {
    let m: CycleMap<u64, u64> = (0..5).map(|i| (i, i)).collect();
    let mut it = m.iter();
    assert_eq!(it.len(), 5);
    it.next();
    assert_eq!(it.len(), 4);
}
""")

seed(id="c09-drain-low-id", property="C09",
  needs="drain of a map with more than 65536 pairings in its history and two right items of colliding hash whose ids agree in the low 16 bits",
  breaks="the partner is looked up by the low bits of the pairing id, so a drain can hand out pairs that never were",
  edits=[(C, """        let right = self
            .right_ref
            .remove_entry(left.hash, just_id(left.id))
            .unwrap();""", """        let right = self
            .right_ref
            .remove_entry(left.hash, |p| p.id as u16 == left.id as u16)
            .unwrap();""")],
  demo="""
fn hash(x: u64) -> u64 {
    // right items that are equal modulo 65536 have the same hash
    (if x >= 1 << 40 { x } else { x % 65536 }).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}
fn main() {
    let mut m: CycleMap<u64, u64, By> = CycleMap::with_hasher(By(hash));
    for i in 0..200_000u64 { m.insert(i + (1 << 40), i); }
    for (l, r) in m.drain() { assert_eq!(l - (1 << 40), r); }
}
""")

seed(id="c10-drop-filter-early", property="C10",
  needs="a drain_filter that is dropped after it was consumed in part and has passed over a rejected pair, with accepted pairs still to come",
  breaks="once iteration has begun, dropping the iterator removes one more pair only: accepted pairs stay in the map",
  edits=[(C, """    fn drop(&mut self) {
        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }
    }
}

pub(super) struct ConsumeAllOnDrop""", """    fn drop(&mut self) {
        let untouched = self.inner.left_iter.len() == self.inner.left_ref.len();
        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
            if !untouched {
                break;
            }
        }
    }
}

pub(super) struct ConsumeAllOnDrop""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64> = (0..20).map(|i| (i, i)).collect();
    drop(m.drain_filter(|l, _| l % 2 == 0));
    assert_eq!(m.len(), 10);
    for taken in 0..10 {
        let mut m: CycleMap<u64, u64> = (0..20).map(|i| (i, i)).collect();
        let mut it = m.drain_filter(|l, _| l % 2 == 0);
        for _ in 0..taken { it.next(); }
        drop(it);
        assert_eq!(m.len(), 10, "after {taken}");
    }
}
""")

seed(id="c11-retain-collision", property="C11",
  needs="CycleMap::retain with two pairs whose left items and right items collide, one kept and one dropped",
  breaks="a dropped pair is looked up by its hashes only, so halves of different pairs can be removed",
  edits=[(C, """        let right_pairing = self
            .right_set
            .remove_entry(r_hash, hash_and_id(l_hash, id))
            .unwrap();
        Some((left_pairing.extract(), right_pairing.extract()))""", """        let right_pairing = self
            .right_set
            .remove_entry(r_hash, |p| p.hash == l_hash)
            .unwrap();
        Some((left_pairing.extract(), right_pairing.extract()))""")],
  demo="""
fn main() {
    for pick in 0..6u64 {
        let mut m: CycleMap<u64, u64, Same> = CycleMap::with_hasher(Same);
        for i in 0..6 { m.insert(i, i); }
        m.retain(|l, _| *l != pick);
        for i in 0..6 { assert_eq!(m.contains_left(&i), i != pick); assert_eq!(m.contains_right(&i), i != pick); }
    }
}
""")

seed(id="c12-eq-rewired", property="C12",
  needs="two PartialCycleMaps of the same items that are paired in a different way",
  breaks="== only looks whether both items are there and paired, not whether with each other",
  edits=[(P, """            SomeBoth(l, r) => other.are_paired(l, r),
            _ => {""", """            SomeBoth(l, r) => other.is_left_paired(l) && other.is_right_paired(r),
            _ => {""")],
  demo="""
fn main() {
    let a: PartialCycleMap<u64, u64> = vec![(1, 1), (2, 2)].into_iter().collect();
    let b: PartialCycleMap<u64, u64> = vec![(1, 2), (2, 1)].into_iter().collect();
    assert!(a != b);
}
""")

seed(id="c12-clone-counter", property="C22",
  needs="a clone of a map with removals in its history, further insertions into the clone and colliding hashes",
  breaks="the clone counts pairing ids from its length, so new pairings get ids that stored pairings have",
  edits=[(C, """            right_set: self.right_set.clone(),
            counter: self.counter,
            hash_builder""", """            right_set: self.right_set.clone(),
            counter: self.left_set.len() as u64,
            hash_builder""")],
  demo="""
fn main() {
    let mut m: CycleMap<u64, u64, Same> = CycleMap::with_hasher(Same);
    for i in 0..6 { m.insert(i, i); }
    for i in 0..3 { m.remove_via_left(&i); }
    let mut c = m.clone();
    for i in 10..16 { c.insert(i, i); }
    for i in (3..6).chain(10..16) { assert_eq!(c.get_right(&i), Some(&i)); assert_eq!(c.get_left(&i), Some(&i)); }
}
""")

seed(id="c13-extend-hint", property="C13",
  needs="a source iterator whose size_hint has too low an upper bound",
  breaks="extend trusts the upper bound and leaves the remaining items of the source out",
  edits=[(C, """        for (l, r) in iter {
            self.insert(l, r);
        }""", """        let iter = iter.into_iter();
        let most = iter.size_hint().1.unwrap_or(usize::MAX);
        for (l, r) in iter.take(most) {
            self.insert(l, r);
        }""")],
  demo="""
struct Liar(u64);
impl Iterator for Liar {
    type Item = (u64, u64);
    fn next(&mut self) -> Option<(u64, u64)> { if self.0 == 0 { None } else { self.0 -= 1; Some((self.0, self.0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.0 as usize / 2)) }
}
fn main() {
    let mut m: CycleMap<u64, u64> = CycleMap::new();
    m.extend(Liar(10));
    assert_eq!(m.len(), 10);
}
""")

seed(id="c13-extend-right", property="C13",
  needs="extending a GroupMap by (None, r) where r is stored already",
  breaks="the stored right item and its group stay, while insert_right would replace them",
  edits=[(G, """            } else {
                self.insert_right(right);
            }""", """            } else if !self.contains_right(&right) {
                self.insert_right(right);
            }""")],
  demo="""
fn main() {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    m.extend(vec![(Some(1), 10), (Some(2), 10), (None, 10)]);
    assert!(!m.is_right_paired(&10));
    assert_eq!(m.len_left(), 0);
}
""")

seed(id="c14-swallow-error", property="C14",
  needs="input that goes bad after some pairs",
  breaks="an error in the input ends the map instead of being reported: a truncated input is accepted",
  edits=[("src/serde.rs", "while let Some(entry) = access.next_element::<(L, R)>()? {", "while let Ok(Some(entry)) = access.next_element::<(L, R)>() {")],
  demo="""
use serde::de::{self, value::Error, Deserialize};
/// a source that breaks off with an error
struct Broken(u64);
impl<'de> de::SeqAccess<'de> for Broken {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.0 += 1;
        if self.0 > 3 { return Err(de::Error::custom("broken")) }
        seed.deserialize(de::value::SeqDeserializer::new(vec![self.0, self.0].into_iter())).map(Some)
    }
}
fn main() {
    let d = de::value::SeqAccessDeserializer::new(Broken(0));
    assert!(CycleMap::<u64, u64>::deserialize(d).is_err());
}
""")

seed(id="c14-announced-len", property="C14",
  needs="a serializer that relies on the announced length (JSON doesn't), on a map whose capacity differs from its length",
  breaks="the announced length is the capacity, so length-prefixed formats write a sequence that can't be read back",
  edits=[("src/serde.rs", "serializer.serialize_seq(Some(self.len()))?;", "serializer.serialize_seq(Some(self.capacity()))?;")],
  demo="""
use serde::ser::*;
/// Only remembers the announced length
struct Len;
#[derive(Debug)] struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "e") } }
impl std::error::Error for E {}
impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
struct Seq(Option<usize>);
impl SerializeSeq for Seq {
    type Ok = Option<usize>; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Ok(()) }
    fn end(self) -> Result<Option<usize>, E> { Ok(self.0) }
}
macro_rules! no { ($($f:ident($($t:ty),*))*) => { $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, E> { Err(E) })* } }
impl Serializer for Len {
    type Ok = Option<usize>; type Error = E;
    type SerializeSeq = Seq; type SerializeTuple = Impossible<Option<usize>, E>; type SerializeTupleStruct = Impossible<Option<usize>, E>;
    type SerializeTupleVariant = Impossible<Option<usize>, E>; type SerializeMap = Impossible<Option<usize>, E>;
    type SerializeStruct = Impossible<Option<usize>, E>; type SerializeStructVariant = Impossible<Option<usize>, E>;
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16)
        serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8])
        serialize_none() serialize_unit() serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, E> { Err(E) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq, E> { Ok(Seq(n)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
fn main() {
    let m: CycleMap<u64, u64> = (0..5).map(|i| (i, i)).collect();
    let n = m.serialize(Len).unwrap();
    assert!(n == Some(5) || n.is_none(), "{n:?}");
}
""")

seed(id="c15-clear-no-drop", property="C15",
  needs="clear of a map whose left items need no drop while its right items do",
  breaks="the right items are not dropped by clear: they leak",
  edits=[(P, """    pub fn clear(&mut self) {
        self.left_set.clear();
        self.right_set.clear();
    }""", """    pub fn clear(&mut self) {
        if mem::needs_drop::<L>() {
            self.left_set.clear();
            self.right_set.clear();
        } else {
            // Nothing to drop
            self.left_set.clear_no_drop();
            self.right_set.clear_no_drop();
        }
    }""")],
  demo="""
fn main() {
    let rc = Rc::new(7);
    let mut m: PartialCycleMap<u64, Rc<i32>> = PartialCycleMap::new();
    m.insert(1, rc.clone());
    m.clear();
    assert_eq!(Rc::strong_count(&rc), 1);
}
""")

seed(id="c15-group-set-leak", property="C15",
  needs="removal of a right item from a GroupMap under a leak checker or an allocation count",
  breaks="taking the value out of a right item forgets its set of pairs, whose memory is never freed",
  edits=[(G, """impl<T> RightItem<T> {
    // Consumes the pair and returns the held `T`
    pub(crate) fn extract(self) -> T {
        self.value
    }""", """impl<T> RightItem<T> {
    // Consumes the pair and returns the held `T`
    pub(crate) fn extract(self) -> T {
        let item = std::mem::ManuallyDrop::new(self);
        // SAFETY: the item isn't dropped, so its value is moved once
        unsafe { std::ptr::read(&item.value) }
    }""")],
  demo="""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
fn main() {
    let mut before = 0;
    for round in 0..3 {
        if round == 1 { before = LIVE.load(Relaxed); }
        let mut m: GroupMap<u64, u64> = GroupMap::new();
        for i in 0..50 { m.insert(i, i / 5); }
        for r in 0..10 { m.remove_right(&r); }
        drop(m);
    }
    assert_eq!(LIVE.load(Relaxed), before);
}
""")

seed(id="c16-reserve-right", property="C16",
  needs="reserve_right on a map with tombstones or few free slots",
  breaks="the free slots are subtracted from the request, so less room than asked for is reserved",
  edits=[(P, """    pub fn reserve_right(&mut self, additional: usize) {
        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));""", """    pub fn reserve_right(&mut self, additional: usize) {
        let free = self.right_set.capacity() - self.right_set.len();
        self.right_set
            .reserve(additional.saturating_sub(free), make_hasher(&self.hash_builder));""")],
  demo="""
fn main() {
    for n in 0..40usize {
        for k in 0..60usize {
            let mut m: PartialCycleMap<u64, u64> = PartialCycleMap::new();
            for i in 0..n as u64 { m.insert_right(i); }
            m.reserve_right(k);
            assert!(m.capacity_right() >= n + k, "{n} {k} {}", m.capacity_right());
        }
    }
}
""")

seed(id="c16-try-reserve-right", property="C16",
  needs="try_reserve of an amount that the left set can take but that overflows for the (bigger) right items",
  breaks="a failure to reserve for the right set is reported as success",
  edits=[(C, """        self.right_set
            .try_reserve(additional, make_hasher(&self.hash_builder))?;
        Ok(())""", """        // What the left set has room for fits the right set too
        let _ = self
            .right_set
            .try_reserve(additional, make_hasher(&self.hash_builder));
        Ok(())""")],
  demo="""
#[derive(Clone, PartialEq, Eq, Hash)]
struct Big([u64; 512]);
fn main() {
    let mut m: CycleMap<(), Big> = CycleMap::new();
    let k = (isize::MAX as usize) / 4096 + 1;
    // far too much for the right set, while the left set's slots are 24 bytes
    let mut k2 = 1usize << 20;
    let _ = k;
    while k2 < 1 << 40 {
        let mut m: CycleMap<(), Big> = CycleMap::new();
        if m.try_reserve(k2).is_ok() { assert!(m.capacity() >= k2, "{} for {k2}", m.capacity()); }
        drop(m);
        k2 <<= 4;
    }
    assert!(m.try_reserve(usize::MAX).is_err());
}
""")

seed(id="c17-map-both", property="C17",
  needs="map_right on SomeLeft of a pair whose shape is turned into Options again, or a nested conversion of Some((None, None))",
  breaks="Some((None, None)) is taken for impossible and panics",
  edits=[("src/optionals.rs", """            None | Some((None, None)) => Neither,
            Some((Some(item), None)) => SomeLeft(item),
            Some((None, Some(item))) => SomeRight(item),
            Some((Some(item_1), Some(item_2))) => SomeBoth(item_1, item_2),""", """            None => Neither,
            Some((Some(item), None)) => SomeLeft(item),
            Some((None, Some(item))) => SomeRight(item),
            Some((Some(item_1), Some(item_2))) => SomeBoth(item_1, item_2),
            Some((None, None)) => unreachable!("There has to be at least one item"),""")],
  demo="""
fn main() {
    let o: OptionalPair<u64, u64> = Some((None, None)).into();
    assert!(o.is_none());
}
""")
