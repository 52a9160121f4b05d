#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
C, P, G = "src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs"
O, SE, U, LIB = "src/optionals.rs", "src/serde.rs", "src/utils.rs", "src/lib.rs"
out = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    out.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "CycleMap is always a bijection that every query agrees on",
     "After any sequence of CycleMap operations every stored left item is paired with exactly one stored right item and vice versa, and no two stored items of a side are equal. "
     "len, is_empty, iter, iter_left, iter_right, contains_left/right, get_left/right and are_paired all describe this one relation: get_left and get_right are mutually inverse, are_paired(l, r) holds exactly for the iterated pairs, and every removal or lookup of a stored item succeeds without a panic.",
     ["histories", "inputs", "configurations"],
     "every finite history of public operations (including partially consumed drains and drain_filters), every key universe, every BuildHasher that is a function",
     "The tests run a few fixed scripts on 10-100 consecutive integers with the default hasher; agreement of both tables must hold for every history, collision pattern, load factor and tombstone layout.",
     [C, U], [("insert / remove_via_* / swap_* keep both tables' partner hash and id in step", C), ("hash_and_id lookup of the partner", C)],
     ["all shared-reference queries of CycleMap", "return values and panics of its mutators"],
     [("left_set/right_set", "items of a side with the hash of their partner and the pairing id", C), ("counter", "next pairing id", C)])
prop("C02", "PartialCycleMap is always a partial bijection that every query agrees on",
     "After any sequence of PartialCycleMap operations every stored item is either unpaired or paired with exactly one stored item of the other side whose partner it is, and no two stored items of a side are equal. "
     "len_left/right, is_empty, contains_*, get_*, is_left/right_paired, are_paired, iter, iter_paired, iter_unpaired, iter_left and iter_right all describe this one relation, with every item reported as paired or as unpaired but never both, and no operation panics.",
     ["histories", "inputs", "configurations"],
     "every finite history of public operations mixing paired and unpaired items, every key universe, every BuildHasher that is a function",
     "Tests build one map of fixed shape (items 0..10, half paired) per method; dangling partners and id clashes only show up after several pair/unpair/pair_forced/swap steps over colliding or re-used keys.",
     [P, U], [("pair, pair_forced, pair_forced_remove, unpair hand over pairing ids", P), ("insert/remove_* clear or remove the partner", P)],
     ["all shared-reference queries of PartialCycleMap", "return values and panics of its mutators"],
     [("MappingPair.hash", "None when unpaired, otherwise the partner's hash", P), ("counter", "next pairing id", P)])
prop("C03", "GroupMap always maps each left item to one right item, groups agreeing",
     "After any sequence of GroupMap operations every stored left item is paired with exactly one stored right item, and the group listed for a right item is exactly the set of left items mapped to it; no two stored items of a side are equal. "
     "len_left/right, is_empty, contains_*, get_right, get_left_iter, is_right_paired, are_paired, iter, iter_paired, iter_unpaired, iter_left and iter_right all describe this one function, and no operation panics.",
     ["histories", "inputs", "configurations"],
     "every finite history of public operations, group sizes from 0 to thousands, every BuildHasher that is a function (a history in which insert is called with a pair that is already paired is a known finding)",
     "Tests use groups of at most a few items built by one method each; re-pairing, swapping and removing inside large or colliding groups is not exercised.",
     [G, U], [("insert/pair/swap_right re-home (hash, id) entries between groups", G), ("remove_left/retain_paired remove the entry from the group", G)],
     ["all shared-reference queries of GroupMap", "return values and panics of its mutators"],
     [("RightItem.pairs", "(hash, id) of the left items of the group", G), ("LeftItem.r_id", "id of the right item", G)])
prop("C04", "CycleMap mutators do and return exactly what is documented",
     "insert, remove, remove_via_*, swap_*, swap_*_checked, swap_*_or_insert and clear change the map exactly as documented: the displaced pairs leave, the new items are stored, all other pairs stay the very same, and a swap whose old item is absent (or not paired as expected) changes nothing. "
     "Every item that leaves through a displaced or removed pair is handed back in the documented variant, and it is the stored instance, not the equal argument; only when both arguments of an inserting swap displace different pairs is the item equal to the partner argument dropped, the displaced item of the swapped side taking the left slot.",
     ["histories", "inputs"],
     "every history and argument combination: absent, present, equal to each other, paired to each other, paired elsewhere, for both sides",
     "The tests cover one or two collision cases per method with fresh maps and compare by value equality, so they cannot tell which instance came back or whether an unrelated pair was lost.",
     [C, O], [("displacement by remove_via_* before insertion", C), ("swap_*_eq_check", C), ("InsertOptional", O)],
     ["return values of every mutator compared with a sequential model", "contents after every step, by instance"])
prop("C05", "PartialCycleMap mutators do and return exactly what is documented",
     "insert, insert_left/right, pair, pair_forced, pair_forced_remove, unpair, remove, remove_left/right, remove_via_*, swap_*, swap_*_checked, swap_*_or_insert and clear change the map exactly as documented and leave every other item and pairing alone; calls whose condition fails change nothing. "
     "Items that leave the map are handed back as the stored instances in the documented variant, pair_forced returns references to exactly the items it unpaired, and the booleans returned tell whether the change was made.",
     ["histories", "inputs"],
     "every history and argument combination: absent, unpaired, paired to each other, paired elsewhere, for both sides",
     "Each test covers one case per method with fresh maps and compares by value; combinations of old/new/partner being absent, unpaired or paired elsewhere are mostly unvisited.",
     [P, O], [("four-way match on (left.hash, right.hash)", P), ("swap_*_eq_check", P)],
     ["return values of every mutator compared with a sequential model", "contents after every step, by instance"])
prop("C06", "GroupMap mutators do and return exactly what is documented",
     "insert, insert_remove, insert_left/right, swap_right, swap_right_remove, pair, remove, remove_left, remove_right and clear change the map exactly as documented and leave every other item and group alone: insert keeps equal stored items and re-pairs them, insert_left without its right item changes nothing, the swaps move the whole group, a right item equal to a newly inserted or swapped-in one is removed together with its group. "
     "Items that leave the map through a returning method are handed back as the stored instances, a removed group exactly once per member.",
     ["histories", "inputs"],
     "every history and argument combination: absent, present, in the same group, in another group, equal items (insert of an already paired pair is a known finding)",
     "Tests cover one case per method on maps whose groups have at most a handful of items and never compare instances.",
     [G], [("four-way match in insert", G), ("pairs set moved wholesale by swap_right*", G)],
     ["return values of every mutator compared with a sequential model", "contents after every step, by instance"])
prop("C07", "Observable behaviour does not depend on the hasher or on collisions",
     "The same history of operations gives the same return values and the same contents whatever BuildHasher the map was given, including constant, low-entropy, adversarially colliding and extreme-valued ones and hashers that send left and right items to the same hash. "
     "Only iteration order, capacity and speed may differ.",
     ["configurations", "histories", "inputs"],
     "every deterministic BuildHasher x every history, for all three maps",
     "All tests use the default hasher, under which two items practically never share a 64-bit hash, so comparing hashes where identity is needed goes unnoticed.",
     [C, P, G, U], [("hash_and_id / just_id / equivalent_key predicates", C), ("left_with_left_id, right_with_right_id, right_with_left_pair", G)],
     ["traces of one history run side by side under many hashers"])
prop("C08", "Iterators yield everything exactly once, with exact lengths and fused ends",
     "Every borrowing iterator of the three maps (iter, iter_paired, iter_unpaired, iter_left, iter_right, get_left_iter) yields each item it is documented to yield exactly once, as references to the stored instances, and repeated None after that. "
     "At every position len and both bounds of size_hint equal the number of items still to come, a clone taken there yields exactly the same remaining sequence without disturbing the original, and Debug output of maps and iterators lists exactly these items.",
     ["histories", "inputs", "configurations"],
     "every map content reachable by a history, every position of every iterator",
     "Tests count a full pass over one map; mid-iteration len, size_hint and clones, and maps with holes, tombstones or mixed pairing are unvisited.",
     [C, P, G], [("Iter/PairedIter/UnpairedIter/SingleIter/PairIter next, size_hint, len, Clone", "src/*.rs")],
     ["every iterator's items, len, size_hint, clones and Debug text"])
prop("C09", "drain hands out everything once and leaves an empty reusable map",
     "drain yields every pair (and, for PartialCycleMap, every unpaired item of both sides) exactly once with correct len and size_hint, paired exactly as the map had them. "
     "Whether it is consumed fully, partly or not at all, after it is dropped the map is empty, everything not yielded has been dropped, the allocation is kept, and the map behaves like a new one in every later operation.",
     ["histories", "inputs"],
     "every reachable map content x every number of items taken before the drain is dropped x every continuation",
     "Tests only fully consume drains (one doc test takes one item and only looks at is_empty); what a partial drain leaves behind shows in later operations only.",
     [C, P], [("DrainIter next/Drop", C), ("DrainIter next/Drop", P)],
     ["items yielded, drop ledger, map after the drain, continuation of the history"])
prop("C10", "drain_filter removes exactly the items its closure accepts",
     "drain_filter subjects every pair (and every unpaired item) of the map to the closure exactly once, in its documented form, yields those for which it returned true and keeps all others, paired as before. "
     "This holds however much of the iterator is consumed before it is dropped; if the closure panics, the item it panicked on and all items not yet accepted stay in the map, which remains usable.",
     ["histories", "inputs", "fault_sequences"],
     "every reachable map content x every closure x every number of items consumed x a panic at every closure call",
     "Tests use one predicate on a fixed map and consume it fully.",
     [C, P], [("DrainFilterInner::next, DrainFilterIter::drop", C), ("DrainFilterInner::next with the right phase", P)],
     ["closure arguments, items yielded, map afterwards, size_hint"])
prop("C11", "The retain family drops exactly the items its closure rejects, nothing else",
     "CycleMap::retain drops exactly the pairs for which the closure returned false, PartialCycleMap's retain, retain_paired, retain_unpaired and GroupMap's retain_paired, retain_unpaired exactly the items in their scope that the closure marked; each item in scope is visited exactly once with its current partner. "
     "Kept items keep their pairings, items out of scope are untouched, a retained map stays fully usable, and GroupMap::retain_paired drops left items only.",
     ["histories", "inputs"],
     "every reachable map content x every closure (the existing tests pin that the Partial and Group methods drop on true, against their documentation: known finding)",
     "Tests use one predicate on a fixed map and look at the surviving items, not at the consistency of what remains or at how often the closure saw each item.",
     [C, P, G], [("collect hashes and ids, then remove", "src/*.rs")],
     ["closure arguments, contents afterwards, drop ledger, continuation of the history"])
prop("C12", "Clones are equal and independent; equality is equality of contents",
     "A clone has the same contents, pairings and hasher as its original, and nothing done to one afterwards is visible in the other. "
     "Two maps compare equal exactly when they hold the same items paired the same way, regardless of insertion history, capacity or hasher state, so that == is reflexive, symmetric and transitive.",
     ["histories", "inputs", "configurations"],
     "every pair of maps reachable by histories (PartialCycleMap's == pinned by the tests ignores some unpaired items: known finding)",
     "Tests compare a few hand-made maps; near misses that differ in one pairing, one unpaired item or one side only are unvisited, as are clones mutated in step with their original.",
     [C, P, G], [("Clone for the maps and items", "src/*.rs"), ("PartialEq::eq", "src/*.rs")],
     ["== and != in both directions, contents of both maps after diverging histories"])
prop("C13", "collect and extend are the same as inserting one by one",
     "Collecting or extending any of the maps from an iterator leaves exactly the contents that inserting its items one by one in order would, for pairs, OptionalPairs and (Option, right) items alike, including duplicates, items that displace earlier ones and Neither. "
     "Exactly the items of the source are consumed, once each, whatever its size_hint claims.",
     ["inputs", "histories"],
     "every finite source sequence with arbitrary repetition, every (honest or lying) size_hint, every starting map (repeating a pair into a GroupMap is a known finding)",
     "Tests collect distinct consecutive items only.",
     [C, P, G], [("Extend::extend, FromIterator::from_iter", "src/*.rs")],
     ["contents compared with a model fed one by one, source consumption count, drop ledger"])
prop("C14", "serde: a CycleMap survives a round trip and hostile input is handled",
     "Serializing any CycleMap emits a sequence of announced length holding each pair exactly once, and deserializing it yields an equal map, for any item types and hasher. "
     "Deserializing arbitrary input either fails with the input's error or yields exactly the map that inserting its pairs in order gives, without panic, leak, or memory use out of proportion to the input whatever length the input claims.",
     ["inputs", "configurations", "fault_sequences"],
     "every map content; every token stream, truncation, duplicate and length claim; an input error at every position",
     "The one test round-trips ten distinct pairs through JSON.",
     [SE], [("CycleMapVisitor::visit_seq", SE), ("Serialize::serialize", SE)],
     ["serializer calls, resulting maps, errors, allocator statistics, drop ledger"])
prop("C15", "Every item put in is owned once: no leak, double drop or invalid access",
     "Every item given to a map is dropped or handed back exactly once: by the time the map and everything taken from it are gone no item is leaked or dropped twice, and no item is dropped while the map still holds it. "
     "No operation reads freed or uninitialised memory or otherwise has undefined behaviour, for item types that own heap memory, are zero sized, over-aligned or large. "
     "A drain or drain_filter that is leaked half way may leave items undropped, but still nothing is dropped twice or used after its drop.",
     ["histories", "inputs", "configurations"],
     "every history of public operations with every item type, including iterators dropped early or leaked",
     "Tests run without a sanitizer, on types whose misuse mostly goes unnoticed, and never count drops; the unsafe raw-table code is exactly where a wrong value is silently accepted.",
     [C, P, G], [("unsafe RawIter/Bucket use in iterators, drains and drain filters", "src/*.rs"), ("by-value extraction of removed entries", "src/*.rs")],
     ["drop ledger per instance", "AddressSanitizer, Miri and leak reports"])
prop("C16", "Capacity calls keep contents, and reserved capacity is really there",
     "with_capacity(n), reserve(k) and a successful try_reserve(k) leave a capacity of at least n resp. len + k, and as many new pairs as the reported capacity leaves room for can then be inserted without a set growing or allocating; clear and drain keep the memory. "
     "shrink_to, shrink_to_fit and their one-sided forms never go below what is stored or the given minimum, never grow and keep no more than a map made for as many items takes, an impossible try_reserve returns an error, and none of these calls changes contents or pairings.",
     ["histories", "inputs"],
     "every map content, capacity argument and later insertions",
     "Tests look at the capacity after single calls on small maps; they do not watch the allocator nor the contents.",
     [C, P, G], [("reserve/try_reserve/shrink_to* applied to both raw tables", "src/*.rs")],
     ["capacity values, allocator calls during later inserts, contents before and after"])
prop("C17", "OptionalPair behaves exactly like a pair of Options",
     "OptionalPair<L, R> is in one-to-one correspondence with (Option<L>, Option<R>) and, up to Neither, with Option<(Option<L>, Option<R>)>: the conversions in both directions lose and swap nothing. "
     "is_none, is_some, get_left, get_right, map, map_left, map_right, convert, cloned, Clone, PartialEq and Debug agree with that view, calling each closure only for the side that is there and exactly once.",
     ["inputs"],
     "all four shapes x all item types and values x all closures",
     "The tests check a few shapes of each function on integers of the same type on both sides, so mixed-up sides, extra clones or extra closure calls can pass.",
     [O], [("OptionalPair methods and From impls", O)],
     ["return values, closure call counts, item identities"])
prop("C18", "Maps can be read from many threads at once",
     "A shared map can be queried, iterated, cloned, compared, formatted and serialized by any number of threads at once: there is no data race, and every thread gets exactly the answers it would get alone. "
     "A map can be moved to another thread and used, drained and dropped there.",
     ["schedules", "histories"],
     "every interleaving of shared-reference operations of any number of threads, on every map content",
     "No test uses threads.",
     [C, P, G], [("shared-reference methods do not write", "src/*.rs"), ("Send/Sync of raw iterators and markers", "src/*.rs")],
     ["ThreadSanitizer and Miri race reports, per-thread answers against the model"])
prop("C19", "Looking an item up by a borrowed form equals looking up the item itself",
     "get_left, get_right and get_left_iter called with a borrowed form of a key that hashes and compares like it answer exactly as with the key itself, for stored and absent keys. "
     "This holds for every map content and hasher.",
     ["inputs", "configurations", "histories"],
     "every key type with a borrowed form, every map content, every BuildHasher",
     "Tests only look items up by their own type.",
     [C, P, G], [("Q: Hash + Eq + PartialEq<L> generic lookups", "src/*.rs"), ("equivalent_key*", "src/*.rs")],
     ["results of lookups by both forms"])
prop("C20", "Lookups and single-item updates do not slow down as maps grow or age",
     "Queries by item, inserts, removals, pairings and swaps of a single item take, with a well distributed hasher, amortised constant work whatever the number of stored items or, for single left items, the size of its group; get_left_iter is constant to create. "
     "Whole-map operations (iterating, cloning, comparing, draining, retaining, reserving) take work linear in the map and the capacity. "
     "Neither work nor memory depends on how many operations came before: a map whose number of items stays bounded holds bounded memory and stays as fast.",
     ["inputs", "histories"],
     "every map size and group size, every operation",
     "The tests' maps have at most 100 items and nothing measures work.",
     [C, P, G, U], [("hash-directed lookups using the stored partner hash", "src/*.rs")],
     ["instruction counts at several sizes; memory held, Hash and Eq calls after many rounds of the same operations"])
prop("C21", "A panic in user code never corrupts memory, and spares what it must",
     "If a user-supplied Hash, Eq, Clone, Drop, closure or source iterator panics during any operation, nothing is dropped twice or used after being dropped, and the map can still be dropped. "
     "A panic in a lookup or in the Clone, == or Debug of a map leaves the map unchanged, and a panic in a retain closure, a drain_filter closure, a source iterator or while hashing or comparing the argument of a removal leaves a consistent map with nothing lost that was not already removed or rejected.",
     ["fault_sequences", "histories", "inputs"],
     "a panic at every user-code call of every operation on every reachable map content",
     "No test makes user code panic.",
     [C, P, G], [("Drop guards of the drain iterators (ConsumeAllOnDrop)", "src/*.rs"), ("entries are removed only after all user code has run", "src/*.rs")],
     ["drop ledger, map contents after the caught panic, Miri and AddressSanitizer reports"])
prop("C22", "Pairings stay unambiguous over arbitrarily long histories",
     "However many operations a map has seen, and whatever mixture of drains, clears, clones and re-pairings it went through, a new pairing is never confused with an existing or earlier one: items inserted long ago still find exactly their own partner, even when their hashes collide with those of every later item. "
     "No operation count, however large, makes an operation panic or changes its result.",
     ["histories", "configurations"],
     "histories of any length with long-lived items, colliding hashers, interleaved drain, clear and clone",
     "Tests perform at most a few hundred operations per map under a collision-free hasher, where even a constant pairing id would go unnoticed.",
     [C, P, G], [("monotonic counters give each pairing a fresh id", "src/*.rs"), ("drain resets the counter only when the map is emptied", C)],
     ["partners of long-lived items during churn of millions of pairings"],
     [("counter", "next pairing id", C), ("left_counter/right_counter", "next ids", G)])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(out), "properties")
