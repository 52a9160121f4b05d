//! C20: the operations whose cost is measured. Each is a function of its own that runs the
//! operation `n` times on a map of about `n` items; callgrind counts its instructions.
//! Usage: cost MAP N SEED
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use harness::rng::{mix, Rng};
use std::hash::{BuildHasherDefault, Hasher};
use std::hint::black_box as bb;

#[derive(Default, Clone)]
pub struct Mixer(u64);
impl Hasher for Mixer {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type S = BuildHasherDefault<Mixer>;
type C = CycleMap<u64, u64, S>;
type P = PartialCycleMap<u64, u64, S>;
type G = GroupMap<u64, u64, S>;

/// `n` items in some order
struct X {
    n: u64,
    order: Vec<u64>,
}
/// left i, right R + i
const R: u64 = 1 << 32;
/// items that aren't in the map at first
const NEW: u64 = 1 << 40;

macro_rules! ops {
    ($list:ident, $m:ident: $t:ty, $x:ident; $($name:ident $body:block)*) => {
        mod $list {
            use super::*;
            $(
                #[inline(never)]
                #[allow(unused_variables)]
                #[export_name = concat!("cost__", stringify!($list), "__", stringify!($name), "__end")]
                pub fn $name($m: &mut $t, $x: &X) $body
            )*
            pub const ALL: &[(&str, fn(&mut $t, &X))] = &[$((stringify!($name), $name)),*];
        }
    };
}

ops! { cycle, m: C, x;
    get_right { for &i in &x.order { bb(m.get_right(&i)); } }
    get_left { for &i in &x.order { bb(m.get_left(&(R + i))); } }
    get_absent { for &i in &x.order { bb((m.get_right(&(NEW + i)), m.get_left(&(NEW + i)))); } }
    contains { for &i in &x.order { bb((m.contains_left(&i), m.contains_right(&(R + i)), m.contains_left(&(NEW + i)), m.contains_right(&(NEW + i)))); } }
    are_paired { for &i in &x.order { bb((m.are_paired(&i, &(R + i)), m.are_paired(&i, &(R + (i + 1) % x.n)))); } }
    insert_new { for &i in &x.order { bb(m.insert(NEW + i, NEW + i)); } }
    insert_same { for &i in &x.order { bb(m.insert(i, R + i)); } }
    insert_crossing { for &i in &x.order { bb(m.insert(i, R + (i ^ 1))); } }
    remove { for &i in &x.order { bb((m.remove(&i, &(R + i)), m.remove(&i, &(R + i)))); } }
    remove_via_left { for &i in &x.order { bb((m.remove_via_left(&i), m.remove_via_left(&i))); } }
    remove_via_right { for &i in &x.order { bb((m.remove_via_right(&(R + i)), m.remove_via_right(&(R + i)))); } }
    replace { for &i in &x.order { bb(m.remove_via_left(&i)); bb(m.insert(NEW + i, NEW + i)); } }
    swap_left { for &i in &x.order { bb(m.swap_left(&i, NEW + i)); } }
    swap_left_clash { for &i in &x.order { bb(m.swap_left(&i, i ^ 1)); } }
    swap_left_absent { for &i in &x.order { bb(m.swap_left(&(NEW + i), i)); } }
    swap_left_checked { for &i in &x.order { bb(m.swap_left_checked(&i, &(R + i), NEW + i)); } }
    swap_left_or_insert { for &i in &x.order { bb(m.swap_left_or_insert(&i, NEW + i, R + i)); } }
    swap_left_or_insert_absent { for &i in &x.order { bb(m.swap_left_or_insert(&(NEW + i), 2 * NEW + i, NEW + i)); } }
    swap_right { for &i in &x.order { bb(m.swap_right(&(R + i), NEW + i)); } }
    swap_right_clash { for &i in &x.order { bb(m.swap_right(&(R + i), R + (i ^ 1))); } }
    swap_right_checked { for &i in &x.order { bb(m.swap_right_checked(&(R + i), &i, NEW + i)); } }
    swap_right_or_insert { for &i in &x.order { bb(m.swap_right_or_insert(&(R + i), NEW + i, i)); } }
    swap_right_or_insert_absent { for &i in &x.order { bb(m.swap_right_or_insert(&(NEW + i), 2 * NEW + i, NEW + i)); } }
    edge_via_left { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove_via_left(&(2 * NEW + i))); bb(m.remove_via_left(&(NEW + i)));
        bb(m.remove_via_left(&i)); bb(m.insert(i, R + i));
    } }
    edge_via_right { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove_via_right(&(2 * NEW + i))); bb(m.remove_via_right(&(NEW + i)));
        bb(m.remove_via_right(&(R + i))); bb(m.insert(i, R + i));
    } }
    edge_remove { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove(&(2 * NEW + i), &(2 * NEW + i))); bb(m.remove(&(NEW + i), &(NEW + i)));
        bb(m.remove(&i, &(R + i))); bb(m.insert(i, R + i));
    } }
    edge_swap { for &i in &x.order { bb(m.swap_left(&i, NEW + i)); bb(m.swap_right(&(R + i), NEW + i)); bb(m.insert(NEW + i, 2 * NEW + i)); } }
    edge_crossing { for &i in &x.order { bb(m.insert(i, R + (i ^ 1))); bb(m.insert(NEW + i, NEW + i)); bb(m.insert(NEW + i, R + i)); } }
    len { for _ in &x.order { bb((m.len(), m.is_empty(), m.capacity())); } }
    iter_made { for _ in &x.order { bb((m.iter().len(), m.iter_left().len(), m.iter_right().len())); } }
    whole_iter { bb(m.iter().fold(0, |a, (l, r)| a ^ l ^ r)); bb(m.iter_left().fold(0, |a, r| a ^ r)); bb(m.iter_right().fold(0, |a, r| a ^ r)); }
    whole_clone { bb(m.clone()); }
    whole_eq { let c = m.clone(); bb(*m == c); }
    whole_drain { for p in m.drain() { bb(p); } }
    whole_drain_filter { for p in m.drain_filter(|l, _| l % 2 == 0) { bb(p); } }
    whole_retain { m.retain(|l, _| l % 2 == 0); }
    whole_retain_none { m.retain(|_, _| true); }
    whole_extend { m.extend(x.order.iter().map(|i| (NEW + i, NEW + i))); }
    whole_reserve { m.reserve(4 * x.n as usize); }
    whole_shrink { m.reserve(4 * x.n as usize); m.shrink_to_fit(); }
    whole_debug { bb(format!("{m:?}")); }
    whole_clear { m.clear(); }
    whole_drop { *m = C::default(); }
}

ops! { partial, m: P, x;
    get_right { for &i in &x.order { bb(m.get_right(&i)); } }
    get_left { for &i in &x.order { bb(m.get_left(&(R + i))); } }
    get_absent { for &i in &x.order { bb((m.get_right(&(NEW + i)), m.get_left(&(NEW + i)))); } }
    contains { for &i in &x.order { bb((m.contains_left(&i), m.contains_right(&(R + i)), m.contains_left(&(NEW + i)), m.contains_right(&(NEW + i)))); } }
    are_paired { for &i in &x.order { bb((m.are_paired(&i, &(R + i)), m.are_paired(&i, &(R + (i + 1) % x.n)))); } }
    is_paired { for &i in &x.order { bb((m.is_left_paired(&i), m.is_right_paired(&(R + i)), m.is_left_paired(&(3 * NEW + i)))); } }
    insert_new { for &i in &x.order { bb(m.insert(NEW + i, NEW + i)); } }
    insert_same { for &i in &x.order { bb(m.insert(i, R + i)); } }
    insert_crossing { for &i in &x.order { bb(m.insert(i, R + (i ^ 1))); } }
    insert_left { for &i in &x.order { bb(m.insert_left(NEW + i)); bb(m.insert_left(i)); } }
    insert_right { for &i in &x.order { bb(m.insert_right(NEW + i)); bb(m.insert_right(R + i)); } }
    unpair_pair { for &i in &x.order { bb(m.unpair(&i, &(R + i))); bb(m.pair(&i, &(R + i))); bb(m.pair(&i, &(R + i))); } }
    pair_forced { for &i in &x.order { bb(m.pair_forced(&i, &(R + (i ^ 1)))); } }
    pair_forced_remove { for &i in &x.order { bb(m.pair_forced_remove(&i, &(R + (i ^ 1)))); } }
    remove { for &i in &x.order { bb((m.remove(&i, &(R + i)), m.remove(&i, &(R + i)))); } }
    remove_left { for &i in &x.order { bb((m.remove_left(&i), m.remove_left(&i), m.remove_left(&(3 * NEW + i)))); } }
    remove_right { for &i in &x.order { bb((m.remove_right(&(R + i)), m.remove_right(&(R + i)), m.remove_right(&(4 * NEW + i)))); } }
    remove_via_left { for &i in &x.order { bb((m.remove_via_left(&i), m.remove_via_left(&i))); } }
    remove_via_right { for &i in &x.order { bb((m.remove_via_right(&(R + i)), m.remove_via_right(&(R + i)))); } }
    replace { for &i in &x.order { bb(m.remove_via_left(&i)); bb(m.insert(NEW + i, NEW + i)); } }
    swap_left { for &i in &x.order { bb(m.swap_left(&i, NEW + i)); } }
    swap_left_clash { for &i in &x.order { bb(m.swap_left(&i, i ^ 1)); } }
    swap_left_absent { for &i in &x.order { bb(m.swap_left(&(NEW + i), i)); } }
    swap_left_unpaired { for &i in &x.order { bb(m.swap_left(&(3 * NEW + i), NEW + i)); } }
    swap_left_checked { for &i in &x.order { bb(m.swap_left_checked(&i, &(R + i), NEW + i)); } }
    swap_left_or_insert { for &i in &x.order { bb(m.swap_left_or_insert(&i, NEW + i, R + i)); } }
    swap_left_or_insert_absent { for &i in &x.order { bb(m.swap_left_or_insert(&(NEW + i), 2 * NEW + i, NEW + i)); } }
    swap_right { for &i in &x.order { bb(m.swap_right(&(R + i), NEW + i)); } }
    swap_right_clash { for &i in &x.order { bb(m.swap_right(&(R + i), R + (i ^ 1))); } }
    swap_right_unpaired { for &i in &x.order { bb(m.swap_right(&(4 * NEW + i), NEW + i)); } }
    swap_right_checked { for &i in &x.order { bb(m.swap_right_checked(&(R + i), &i, NEW + i)); } }
    swap_right_or_insert { for &i in &x.order { bb(m.swap_right_or_insert(&(R + i), NEW + i, i)); } }
    swap_right_or_insert_absent { for &i in &x.order { bb(m.swap_right_or_insert(&(NEW + i), 2 * NEW + i, NEW + i)); } }
    edge_via_left { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove_via_left(&(2 * NEW + i))); bb(m.remove_via_left(&(NEW + i)));
        bb(m.remove_via_left(&i)); bb(m.insert(i, R + i));
    } }
    edge_via_right { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove_via_right(&(2 * NEW + i))); bb(m.remove_via_right(&(NEW + i)));
        bb(m.remove_via_right(&(R + i))); bb(m.insert(i, R + i));
    } }
    edge_remove { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove(&(2 * NEW + i), &(2 * NEW + i))); bb(m.remove(&(NEW + i), &(NEW + i)));
        bb(m.remove(&i, &(R + i))); bb(m.insert(i, R + i));
    } }
    edge_left { for &i in &x.order {
        bb(m.insert_left(NEW + i)); bb(m.insert_left(2 * NEW + i)); bb(m.remove_left(&(2 * NEW + i))); bb(m.remove_left(&(NEW + i)));
        bb(m.remove_left(&i)); bb(m.insert_left(i)); bb(m.pair(&i, &(R + i)));
    } }
    edge_right { for &i in &x.order {
        bb(m.insert_right(NEW + i)); bb(m.insert_right(2 * NEW + i)); bb(m.remove_right(&(2 * NEW + i))); bb(m.remove_right(&(NEW + i)));
        bb(m.remove_right(&(R + i))); bb(m.insert_right(R + i)); bb(m.pair(&i, &(R + i)));
    } }
    edge_forced { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.pair_forced_remove(&i, &(NEW + i))); bb(m.insert(i, R + i));
        bb(m.insert_right(NEW + i)); bb(m.pair_forced(&i, &(NEW + i))); bb(m.insert(i, R + i));
    } }
    edge_swap { for &i in &x.order { bb(m.swap_left(&i, NEW + i)); bb(m.swap_right(&(R + i), NEW + i)); bb(m.insert(NEW + i, 2 * NEW + i)); } }
    len { for _ in &x.order { bb((m.len_left(), m.len_right(), m.is_empty(), m.capacity_left(), m.capacity_right())); } }
    whole_iter {
        bb(m.iter().count()); bb(m.iter_paired().count()); bb(m.iter_unpaired().count());
        bb(m.iter_left().fold(0, |a, r| a ^ r)); bb(m.iter_right().fold(0, |a, r| a ^ r));
    }
    whole_clone { bb(m.clone()); }
    whole_eq { let c = m.clone(); bb(*m == c); }
    whole_drain { for p in m.drain() { bb(p); } }
    whole_drain_filter { for p in m.drain_filter(|o| matches!(o, OptionalPair::SomeBoth(..))) { bb(p); } }
    whole_retain { m.retain(|o| matches!(o, OptionalPair::SomeBoth(..))); }
    whole_retain_paired { m.retain_paired(|l, _| l % 2 == 0); }
    whole_retain_unpaired { m.retain_unpaired(|o| matches!(o, OptionalPair::SomeLeft(_))); }
    whole_extend { m.extend(x.order.iter().map(|i| (NEW + i, NEW + i))); }
    whole_extend_opt { m.extend(x.order.iter().map(|i| if i % 2 == 0 { OptionalPair::SomeLeft(NEW + i) } else { OptionalPair::SomeBoth(NEW + i, *i) })); }
    whole_reserve { m.reserve_left(4 * x.n as usize); m.reserve_right(4 * x.n as usize); }
    whole_shrink { m.reserve_left(4 * x.n as usize); m.shrink_to_fit(); }
    whole_debug { bb(format!("{m:?}")); }
    whole_clear { m.clear(); }
    whole_drop { *m = P::default(); }
}

// Many small groups: left i is in the group of right R + i / 4
ops! { group, m: G, x;
    get_right { for &i in &x.order { bb(m.get_right(&i)); } }
    get_left_iter { for &i in &x.order { bb(m.get_left_iter(&(R + i / 4)).map(|i| i.count())); } }
    get_absent { for &i in &x.order { bb((m.get_right(&(NEW + i)), m.get_left_iter(&(NEW + i)).is_some())); } }
    contains { for &i in &x.order { bb((m.contains_left(&i), m.contains_right(&(R + i)), m.contains_left(&(NEW + i)), m.contains_right(&(NEW + i)))); } }
    are_paired { for &i in &x.order { bb((m.are_paired(&i, &(R + i / 4)), m.are_paired(&i, &(R + (i / 4 + 1) % (x.n / 4))))); } }
    is_right_paired { for &i in &x.order { bb(m.is_right_paired(&(R + i / 4))); } }
    insert_new { for &i in &x.order { bb(m.insert(NEW + i, NEW + i / 4)); } }
    insert_joining { for &i in &x.order { bb(m.insert(NEW + i, R + i / 4)); } }
    insert_moving { for &i in &x.order { bb(m.insert(i, R + (i / 4 ^ 1))); } }
    insert_remove { for &i in &x.order { bb(m.insert_remove(i, R + i / 4)); } }
    insert_remove_new { for &i in &x.order { bb(m.insert_remove(NEW + i, NEW + i)); } }
    insert_left { for &i in &x.order { bb(m.insert_left(NEW + i, &(R + i / 4))); bb(m.insert_left(i, &(R + (i / 4 ^ 1)))); } }
    insert_right { for &i in &x.order { bb(m.insert_right(NEW + i)); bb(m.insert_right(R + i)); } }
    pair { for &i in &x.order { bb(m.pair(&i, &(R + (i / 4 ^ 1)))); bb(m.pair(&i, &(R + i / 4))); } }
    remove { for &i in &x.order { bb(m.remove(&i, &(R + i / 4))); } }
    remove_left { for &i in &x.order { bb((m.remove_left(&i), m.remove_left(&i))); } }
    remove_right { for &i in &x.order { bb(m.remove_right(&(R + i / 4))); } }
    replace { for &i in &x.order { bb(m.remove_left(&i)); bb(m.insert_left(NEW + i, &(R + i / 4))); } }
    swap_right { for &i in &x.order { bb(m.swap_right(&(R + i / 4), NEW + i / 4)); } }
    swap_right_clash { for &i in &x.order { bb(m.swap_right(&(R + i / 4), R + (i / 4 ^ 1))); } }
    swap_right_remove { for &i in &x.order { bb(m.swap_right_remove(&(R + i / 4), NEW + i / 4)); } }
    edge_left { for &i in &x.order {
        bb(m.insert(NEW + i, R + i / 4)); bb(m.insert_left(2 * NEW + i, &(R + i / 4))); bb(m.remove_left(&(2 * NEW + i))); bb(m.remove_left(&(NEW + i)));
        bb(m.remove_left(&i)); bb(m.insert(i, R + i / 4));
    } }
    edge_right { for &i in &x.order {
        bb(m.insert_right(NEW + i)); bb(m.insert_right(2 * NEW + i)); bb(m.remove_right(&(2 * NEW + i))); bb(m.remove_right(&(NEW + i)));
        bb(m.remove_right(&(R + i / 4))); bb(m.insert_right(R + i / 4));
    } }
    edge_both { for &i in &x.order {
        bb(m.insert(NEW + i, NEW + i)); bb(m.insert(2 * NEW + i, 2 * NEW + i)); bb(m.remove(&(2 * NEW + i), &(2 * NEW + i))); bb(m.remove(&(NEW + i), &(NEW + i)));
        bb(m.insert_remove(NEW + i, NEW + i)); bb(m.remove_right(&(NEW + i)));
    } }
    edge_swap { for &i in &x.order { bb(m.swap_right_remove(&(R + i / 4), NEW + i)); bb(m.swap_right_remove(&(NEW + i), R + i / 4)); } }
    len { for _ in &x.order { bb((m.len_left(), m.len_right(), m.is_empty(), m.capacity_left(), m.capacity_right())); } }
    whole_iter {
        bb(m.iter().count()); bb(m.iter_paired().count()); bb(m.iter_unpaired().count());
        bb(m.iter_left().fold(0, |a, r| a ^ r)); bb(m.iter_right().fold(0, |a, r| a ^ r));
    }
    whole_clone { bb(m.clone()); }
    whole_eq { let c = m.clone(); bb(*m == c); }
    whole_retain_paired { m.retain_paired(|l, _| l % 2 == 0); }
    whole_retain_unpaired { m.retain_unpaired(|r| r % 2 == 0); }
    whole_extend { m.extend(x.order.iter().map(|i| (NEW + i, NEW + i / 4))); }
    whole_extend_opt { m.extend(x.order.iter().map(|i| (if i % 2 == 0 { Some(NEW + i) } else { None }, NEW + i))); }
    whole_debug { bb(format!("{m:?}")); }
    whole_clear { m.clear(); }
    whole_drop { *m = G::default(); }
}

// One group of everything, and n / 4 unpaired right items R + 1..
ops! { biggroup, m: G, x;
    get_right { for &i in &x.order { bb(m.get_right(&i)); } }
    get_left_iter_made { for _ in &x.order { bb(m.get_left_iter(&R).map(|i| i.len())); } }
    get_left_iter_first { for _ in &x.order { bb(m.get_left_iter(&R).map(|mut i| i.next().copied())); } }
    contains { for &i in &x.order { bb((m.contains_left(&i), m.contains_right(&R), m.contains_left(&(NEW + i)))); } }
    are_paired { for &i in &x.order { bb((m.are_paired(&i, &R), m.are_paired(&i, &(R + 1)), m.are_paired(&(NEW + i), &R))); } }
    is_right_paired { for &i in &x.order { bb((m.is_right_paired(&R), m.is_right_paired(&(R + 1 + i / 4)))); } }
    insert_joining { for &i in &x.order { bb(m.insert(NEW + i, R)); } }
    insert_leaving { for &i in &x.order { bb(m.insert(i, R + 1 + i / 4)); } }
    insert_remove { for &i in &x.order { bb(m.insert_remove(i, NEW + i)); } }
    insert_left { for &i in &x.order { bb(m.insert_left(NEW + i, &R)); } }
    insert_left_leaving { for &i in &x.order { bb(m.insert_left(i, &(R + 1 + i / 4))); } }
    pair { for &i in &x.order { bb(m.pair(&i, &(R + 1 + i / 4))); bb(m.pair(&i, &R)); } }
    remove_left { for &i in &x.order { bb((m.remove_left(&i), m.remove_left(&i))); } }
    remove_right_other { for &i in &x.order { bb(m.remove_right(&(R + 1 + i / 4))); } }
    edge_group { for &i in &x.order {
        bb(m.insert(NEW + i, R)); bb(m.insert_left(2 * NEW + i, &R)); bb(m.remove_left(&(2 * NEW + i))); bb(m.remove_left(&(NEW + i)));
        bb(m.remove_left(&i)); bb(m.insert(i, R)); bb(m.pair(&i, &(R + 1))); bb(m.pair(&i, &R)); bb(m.insert(i, R + 1)); bb(m.insert(i, R));
    } }
    replace { for &i in &x.order { bb(m.remove_left(&i)); bb(m.insert_left(NEW + i, &R)); } }
    whole_iter {
        bb(m.iter().count()); bb(m.iter_paired().count()); bb(m.iter_unpaired().count());
        bb(m.get_left_iter(&R).map(|i| i.fold(0, |a, r| a ^ r)));
    }
    whole_clone { bb(m.clone()); }
    whole_eq { let c = m.clone(); bb(*m == c); }
    whole_retain_paired { m.retain_paired(|l, _| l % 2 == 0); }
    whole_retain_unpaired { m.retain_unpaired(|r| r % 2 == 0); }
    whole_swap_right { m.swap_right(&R, NEW); }
    whole_swap_right_remove { bb(m.swap_right_remove(&R, NEW)); }
    whole_remove_right { bb(m.remove_right(&R)); }
    whole_insert_right { bb(m.insert_right(R)); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (map, n, seed): (&str, u64, u64) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut rng = Rng::new(seed);
    let mut order: Vec<u64> = (0..n).collect();
    for i in (1..n as usize).rev() {
        order.swap(i, rng.below(i as u64 + 1) as usize);
    }
    // "wide": few items in a map with room for n; "edge": as many items as there is room for
    // (n is 7/8 of a power of two), where a table must grow for one more
    let (map, wide, cap, n) = match map.strip_suffix("_wide") {
        Some(m) => (m, true, n as usize, 128),
        None => (map, false, 0, n),
    };
    let (map, edge) = match map.strip_suffix("_edge") {
        Some(m) => (m, true),
        None => (map, false),
    };
    let left_out = |name: &str| wide && name.starts_with("whole_") || edge != name.starts_with("edge_");
    // no more than what fills the table
    let unpaired = if edge { 0 } else { n / 4 };
    order.retain(|i| *i < n);
    let x = X { n, order };
    let h = S::default;
    match map {
        "cycle" => {
            for (name, f) in cycle::ALL {
                if left_out(name) {
                    continue;
                }
                let mut m: C = (0..n).map(|i| (i, R + i)).fold(C::with_capacity_and_hasher(cap, h()), |mut m, (l, r)| {
                    m.insert(l, r);
                    m
                });
                f(&mut m, &x);
            }
        }
        "partial" => {
            for (name, f) in partial::ALL {
                if left_out(name) {
                    continue;
                }
                let mut m = P::with_capacity_and_hasher(cap, h());
                for i in 0..n {
                    m.insert(i, R + i);
                }
                for i in 0..unpaired {
                    m.insert_left(3 * NEW + i);
                    m.insert_right(4 * NEW + i);
                }
                f(&mut m, &x);
            }
        }
        "group" => {
            for (name, f) in group::ALL {
                if left_out(name) {
                    continue;
                }
                let mut m = G::with_capacity_and_hasher(cap, h());
                for i in 0..n {
                    m.insert(i, R + i / 4);
                }
                for i in 0..if edge { n - n / 4 } else { unpaired } {
                    m.insert_right(3 * NEW + i);
                }
                f(&mut m, &x);
            }
        }
        "biggroup" => {
            for (name, f) in biggroup::ALL {
                if left_out(name) {
                    continue;
                }
                let mut m = G::with_capacity_and_hasher(cap, h());
                for i in 0..n {
                    m.insert(i, R);
                }
                for i in 0..n / 4 + 1 {
                    m.insert_right(R + 1 + i);
                }
                f(&mut m, &x);
            }
        }
        _ => panic!("unknown map"),
    }
    println!("done");
}
