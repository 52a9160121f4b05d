#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
MON = "run-time monitoring of the real code: "
T = {
 "C01": (MON + "model-free coherence monitor over random histories", "every query of a CycleMap is compared with every other after every operation of millions of random operations; the monitor needs no model, so it judges any tree"),
 "C02": (MON + "model-free coherence monitor over random histories", "as C01, for PartialCycleMap"),
 "C03": (MON + "model-free coherence monitor over random histories", "as C01, for GroupMap; insert of an already paired pair (finding K3) is left out of the histories and probed by itself"),
 "C04": (MON + "step-by-step reference model with item instances", "every return value and the whole contents, by instance, are compared with a model after each operation"),
 "C05": (MON + "step-by-step reference model with item instances", "as C04, for PartialCycleMap"),
 "C06": (MON + "step-by-step reference model with item instances", "as C04, for GroupMap; finding K3 is left out and probed by itself"),
 "C07": (MON + "differential trace comparison across hashers", "the same history under some twenty hashers, among them constant and one-sided ones; judges differences only"),
 "C08": (MON + "iterator protocol monitor at every position", "len, size_hint, clones, fusedness and Debug of every iterator at every (in long ones: some) position"),
 "C09": (MON + "reference model, histories full of drains cut anywhere", "what a drain yields and what a later history sees of it is compared with the model"),
 "C10": (MON + "reference model with a closure-call log and injected closure panics", "each closure call is logged and compared; iterators are cut anywhere; panics injected at closure calls"),
 "C11": (MON + "reference model with a closure-call log", "each closure call is logged and compared; the pinned polarity of finding K2 is what is judged for Partial and Group"),
 "C12": (MON + "clone and equality monitor with near-miss mutants", "maps are compared with clones, reordered rebuilds and maps that differ in one item or pairing; finding K1 is judged by the pinned formula"),
 "C13": (MON + "differential comparison with inserting one by one", "collect and extend from sources with every kind of size_hint are compared with single inserts and the model"),
 "C14": (MON + "recording serializer, hostile deserializer and allocator watch", "all serde events and allocations are watched; JSON and hand-made token streams"),
 "C15": ("drop ledger, AddressSanitizer, Miri and the standard library's own UB checks over random histories", "every instance's life is recorded; the same histories run under sanitizers; undefined behaviour none of them can see would be missed"),
 "C16": (MON + "allocator watch and capacity monitor", "allocations during promised insertions are watched; capacities are compared with the contract after each call"),
 "C17": (MON + "exhaustive shapes against pairs of Options, with call counting", "all four shapes of every method on eight pairs of types with generated values"),
 "C18": ("ThreadSanitizer and per-thread answer comparison with injected yields (thorough: Miri with many schedules)", "schedules are those the operating system and the injected yields produce; ThreadSanitizer judges all accesses of those executions; Send and Sync as the compiler derives them"),
 "C19": (MON + "borrowed-form lookups compared with lookups by the key", "three key types with borrowed forms, stored and absent keys, all hashers"),
 "C20": ("instruction counting with callgrind, small against large maps", "deterministic counts; growth beyond 2.5 times plus 40 instructions per item between 128 and 8192 items is a violation, so logarithmic growth is not seen"),
 "C21": ("panic injection at every user-code call, drop ledger, AddressSanitizer", "operations are repeated with a panic injected at each call of user code in turn; two panics in one operation are not tried"),
 "C22": (MON + "long histories under colliding hashers, with a hook that skips pairings", "up to 2^27 pairings by brute force (thorough: 2^32), beyond that only by skipping through the guarded hook"),
}
checks = []
for p, (t, n) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "technique": t,
                   "level": "fault_enumeration" if p == "C21" else "exploration", "level_note": n[0].upper() + n[1:] + ". Trusts the models and monitors in /verif/harness."})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (the checks fall back to a build without it if the tree does not compile with it)",
               "source_commits": ["41f1cbf"]},
     "checks": checks, "not_applicable": [],
     "notes": "known-findings.json lists the recorded findings and the repairs; DESIGN.md describes everything."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
