"""What each check runs. Case numbers are chosen so that a quick check takes half a minute or so
on eight cores; the seconds are only a cap."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

HIST = ("Seeded random histories of public operations (swarm weighted, four size profiles, fourteen hashers, arguments aimed at stored partners half of the time) "
        "run on the real map in step with a reference model; evaluations counts operations executed and judged. distinct_nontrivial counts distinct "
        "(operation, situation of its arguments in the model, outcome, size class) combinations and audited iterator or comparison situations that occurred.")


def history(cases, secs, t_cases, t_secs, probes=False, extra=None, sizes=False):
    def go(d, prop, results):
        bins = d.build()
        n = d.probes(prop, bins) if probes else 0
        c, s = (t_cases, t_secs) if d.THOROUGH else (cases, secs)
        results.append(("plain", d.stage(prop, bins, c, s)))
        if sizes:
            # ends by itself when the grid does; the number of cases is beyond its end
            results.append(("exact sizes", d.stage(prop, bins, 6000, 240 if d.THOROUGH else 45, check=prop + "GRID", env={"GRID_SIZES": "6" if d.THOROUGH else "4", "GRID_STEP": "1" if d.THOROUGH or sizes is True else str(sizes)})))
        if extra:
            extra(d, prop, results)
        cov = finish(d, results)
        if probes:
            cov["recorded_findings_reproduced"] = n
        return cov
    return go


def finish(d, results):
    cov = d.merge(results)
    cov["cases"] = cov["evaluations"]
    cov["evaluations"] = sum(r["steps"] for _, r in results)
    cov["hook"] = "in use" if d.HOOKED.get("plain") else "not available on this tree"
    return cov


# ---------------------------------------------------------------- sanitizers

def miri(d, prop, results, check, secs, procs=8, env=None, flags="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows", per=10**6):
    """The same cases under the undefined behaviour interpreter, several processes at once"""
    target = os.path.join(d.VERIF, "build", f"q-{d.content_key()}-miri")
    os.makedirs(target, exist_ok=True)
    d.tidy(target)
    e = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cfg sanitized", MIRIFLAGS=flags, CARGO_NET_OFFLINE="true", **(env or {}))
    base = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(d.HARNESS, "Cargo.toml"), "--bin", "harness", "--"]
    # builds what is needed
    rc, out = d.run(base + ["nothing"], 600, e)
    if "usage: harness" not in out:
        d.no_answer("Miri does not build or start:\n" + out[-2000:])
    work = os.path.join(d.VERIF, "build", f"run-{prop}-miri-{os.getpid()}")
    os.makedirs(work, exist_ok=True)

    def one(i):
        f = os.path.join(work, f"{i}.json")
        j = os.path.join(work, f"j{i}")
        rc, out = d.run(base + ["run", "--check", check, "--cases", str(per), "--secs", str(secs), "--seed", str(d.SEED * 1000 + i), "--threads", "1",
                                "--journal", j, "--out", f], secs * 3 + 600, e)
        return rc, out, f, j
    try:
        with ThreadPoolExecutor(procs) as ex:
            runs = list(ex.map(one, range(procs)))
        total = None
        for rc, out, f, j in runs:
            if rc == 0:
                r = json.load(open(f))
                for v in r["violations"]:
                    v["replay"].update(prop=prop, variant="plain")
                    raise d.Violation(v["msg"], v["replay"])
                if total is None:
                    total = r
                else:
                    for k in ("cases", "histories", "steps", "audits", "facts", "distinct"):
                        total[k] += r[k]
                    for k, x in r["extra"].items():
                        total["extra"][k] = total["extra"].get(k, 0) + x
                    total["wall_s"] = max(total["wall_s"], r["wall_s"])
                continue
            m = re.search(r"error: (Undefined Behavior[^\n]*|abnormal[^\n]*|deadlock[^\n]*|the evaluated program[^\n]*)", out)
            where = re.findall(r"(/repo/src/\S+|src/\S+\.rs:\d+)", out)
            if m and "nsupported" not in m[1]:
                a = open(j + ".0").read().split()
                raise d.Violation(f"Miri: {m[1]} {' '.join(where[:3])}",
                                  {"kind": "miri", "prop": prop, "check": check, "flags": flags, "env": env or {},
                                   "idx": int(a[0]) if a else 0, "seed": int(a[1]) if a else 0, "output": out[-4000:]})
            d.no_answer(f"Miri ended with {rc}:\n" + out[-3000:])
        d.log(f"miri: {total['cases']} cases, {total['steps']} steps, {total['wall_s']:.0f} s")
        results.append(("miri", total))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def miri_replay(d, v):
    target = os.path.join(d.VERIF, "build", f"q-{d.content_key()}-miri")
    e = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cfg sanitized", MIRIFLAGS=v["flags"], **v["env"])
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(d.HARNESS, "Cargo.toml"), "--bin", "harness", "--",
           "case", "--check", v["check"], "--idx", str(v["idx"]), "--seed", str(v["seed"])]
    rc, out = d.run(cmd, 3600, e)
    print(out[-6000:])
    raise SystemExit(0 if rc == 0 else 1)


def owned(d, prop, results):
    import borrow
    asan = d.build("asan")
    c, s = (2_000_000, 200) if d.THOROUGH else (60_000, 40)
    results.append(("AddressSanitizer", d.stage(prop, asan, c, s, variant="asan")))
    c, s = (500_000, 120) if d.THOROUGH else (20_000, 20)
    results.append(("AddressSanitizer, panics injected", d.stage(prop, asan, c, s, variant="asan", check="C21")))
    miri(d, prop, results, "C15", 300 if d.THOROUGH else 45)
    borrow.stage(d, prop, d.build(), asan, results)


def panics(d, prop, results):
    asan = d.build("asan")
    c, s = (1_000_000, 240) if d.THOROUGH else (40_000, 30)
    results.append(("AddressSanitizer", d.stage(prop, asan, c, s, variant="asan")))
    if d.THOROUGH:
        miri(d, prop, results, "C21", 240)


def threads(d, prop, results):
    bins = d.build()
    c, s = (400_000, 240) if d.THOROUGH else (20_000, 40)
    results.append(("plain", d.stage(prop, bins, c, s)))
    tsan = d.build("tsan")
    c, s = (200_000, 240) if d.THOROUGH else (5_000, 40)
    results.append(("ThreadSanitizer", d.stage(prop, tsan, c, s, variant="tsan", case_cpu=600)))
    if d.THOROUGH:
        # every process has a schedule of its own
        for i in range(4):
            miri(d, prop, results, "C18", 100, env={"SLOW": "1"}, flags=f"-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-seed={d.SEED * 10 + i} -Zmiri-preemption-rate=0.05")
    return finish(d, results)


def long_histories(d, prop, results):
    bins = d.build()
    if d.THOROUGH:
        env, c, s, hang = {"PAIRINGS": str(1 << 32), "LONG_SECS": "640"}, 400_000, 700, 200
    else:
        env, c, s, hang = {"PAIRINGS": str(1 << 27), "LONG_SECS": "45"}, 60_000, 60, 120
    results.append(("plain", d.stage(prop, bins, c, s, env=env, hang=hang, case_cpu=int(env["LONG_SECS"]) + 100)))
    return finish(d, results)


# ---------------------------------------------------------------- C20: cost

def callgrind(d, exe, work, mp, n, seed):
    f = os.path.join(work, f"{mp}.{n}.{seed}")
    rc, out = d.run(["valgrind", "--tool=callgrind", f"--callgrind-out-file={f}", exe, mp, str(n), str(seed)], 700)
    if rc != 0 or "done" not in out:
        return None, d.crash_text(rc, out)
    p = subprocess.run(["callgrind_annotate", "--inclusive=yes", "--threshold=100", f], capture_output=True, text=True)
    os.unlink(f)
    cost = {}
    for line in p.stdout.splitlines():
        m = re.match(r"\s*([\d,]+) .*?cost__(\w+?)__end", line)
        if m:
            cost[m[2]] = max(cost.get(m[2], 0), int(m[1].replace(",", "")))
    return cost, None


FACTOR, SLACK = 2.5, 40


def cost_pair(d, exe, work, mp, a, b, seed):
    (x, bad1), (y, bad2) = [callgrind(d, exe, work, mp, n, seed) for n in (a, b)]
    if bad1 or bad2:
        return None, bad1 or bad2
    out = []
    for k in sorted(y):
        if k in x:
            wide = mp.endswith("_wide")
            ca, cb = (x[k] / 128, y[k] / 128) if wide else (x[k] / a, y[k] / b)
            out.append((k, ca, cb, cb > FACTOR * ca + SLACK))
    return out, None


def cost_check(d, prop, results):
    bins = d.build(bins=("cost", "harness"))
    exe = os.path.join(bins, "cost")
    work = os.path.join(d.VERIF, "build", f"run-{prop}-{os.getpid()}")
    age = d.stage(prop, bins, *((400_000, 200) if d.THOROUGH else (8_000, 30)))
    seeds = [d.SEED, d.SEED + 1] if d.THOROUGH else [d.SEED]
    # first with a large size that is not very large: a gross slowdown shows there already, in a short time
    rounds = [[(128, 1024)], [(128, 4096), (128, 32768)] if d.THOROUGH else [(128, 8192)]]
    maps = ["cycle", "partial", "group", "biggroup"] + [m + "_wide" for m in ("cycle", "partial", "group")]
    maps += [m + "_edge" for m in ("cycle", "partial", "group", "biggroup")]
    done, samples, n, instr = [], [], 0, 0
    for sizes in rounds:
        jobs = [(m, *((256, 16 * b) if m.endswith("_wide") else (112, b * 7 // 8) if m.endswith("_edge") else (a, b)), s) for s in seeds for a, b in sizes for m in maps]
        os.makedirs(work, exist_ok=True)
        try:
            with ThreadPoolExecutor(8) as ex:
                this = list(ex.map(lambda j: (j, cost_pair(d, exe, work, *j)), jobs))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        done += this
        for j, (rows, bad) in this:
            if bad:
                # a crash in an operation is for other checks to judge, but no answer here
                d.no_answer(f"cost {j} ended with {bad}")
            if len(rows) < (1 if j[0].endswith("_edge") else 20):
                d.no_answer(f"only {len(rows)} operations of {j} were measured")
            for k, ca, cb, viol in rows:
                n += 1
                instr += (ca + cb) * 128 if j[0].endswith("_wide") else ca * j[1] + cb * j[2]
                if viol:
                    # once more with another order of the items
                    again, _ = cost_pair_again(d, exe, j)
                    if again and any(k2 == k and v2 for k2, _, _, v2 in again):
                        raise d.Violation(f"{k}: {ca:.0f} instructions per item with {j[1]} items, {cb:.0f} with {j[2]}",
                                          {"kind": "cost", "prop": prop, "map": j[0], "small": j[1], "large": j[2], "seed": j[3], "operation": k})
            if sizes is rounds[-1]:
                samples += [f"{k}: {ca:.0f} instructions per item at {j[1]}, {cb:.0f} at {j[2]}" for k, ca, cb, _ in rows[:3]]
            worst = max(rows, key=lambda r: r[2] / max(r[1], 1))
            d.log(f"cost {j}: {len(rows)} operations, largest growth {worst[0]} {worst[1]:.0f} -> {worst[2]:.0f}")
    return {"evaluations": int(sum((256 if j[0].endswith("_wide") else j[1] + j[2]) * len(rows) for j, (rows, _) in done)), "distinct_nontrivial": n,
            "instructions_counted": int(instr), "samples": samples[:12], "ageing": {k: age[k] for k in ("cases", "steps", "facts", "distinct")}}


def cost_pair_again(d, exe, j):
    work = os.path.join(d.VERIF, "build", f"again-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        return cost_pair(d, exe, work, j[0], j[1], j[2], j[3] + 77)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def cost_replay(d, v):
    exe = os.path.join(d.build(bins=("cost",)), "cost")
    rows, bad = cost_pair_again(d, exe, (v["map"], v["small"], v["large"], v["seed"]))
    for k, a, b, bad in rows:
        if k == v["operation"]:
            print(k, f"{a:.0f} -> {b:.0f} instructions per item", "VIOLATED" if bad else "held")
            raise SystemExit(1 if bad else 0)


# ---------------------------------------------------------------- the table

TRUST = ["the reference models and monitors in /verif/harness", "rustc, cargo and the cached dependencies (hashbrown 0.12.3)"]


def check(run, rule=HIST, level="exploration", replay=None):
    return {"run": run, "rule": rule, "level": level, "assumptions": TRUST, "replay": replay}


PLAN = {
    "C01": check(history(200_000, 60, 30_000_000, 420, sizes=True)),
    "C02": check(history(150_000, 60, 30_000_000, 420, sizes=True)),
    "C03": check(history(120_000, 60, 30_000_000, 420, probes=True, sizes=True)),
    "C04": check(history(300_000, 60, 30_000_000, 420, sizes=True)),
    "C05": check(history(250_000, 60, 30_000_000, 420, sizes=True)),
    "C06": check(history(220_000, 60, 30_000_000, 420, probes=True, sizes=True)),
    "C07": check(history(14_000, 60, 10_000_000, 480), "Each history is run under some twenty hashers (all fourteen kinds, several seeds of the constant one) and everything "
                 "returned and every content, in a form independent of order, is compared; evaluations counts operations executed over all hashers, distinct_nontrivial "
                 "distinct (operation, arguments, universe sizes)."),
    "C08": check(history(60_000, 60, 10_000_000, 480, sizes=4)),
    "C09": check(history(150_000, 60, 30_000_000, 420, sizes=True)),
    "C10": check(history(150_000, 60, 30_000_000, 420, sizes=True)),
    "C11": check(history(120_000, 60, 30_000_000, 420, probes=True, sizes=True)),
    "C12": check(history(50_000, 60, 10_000_000, 480, probes=True, sizes=True)),
    "C13": check(history(80_000, 60, 20_000_000, 420, probes=True, sizes=True)),
    "C14": check(history(200_000, 60, 30_000_000, 420), "Each case serializes and deserializes one map under a recording serializer, or feeds one token stream or JSON text (true, truncated, "
                 "with duplicates, lying lengths, odd elements, an input error at some position) to the deserializer; distinct_nontrivial counts distinct (kind, length, outcome, position) situations."),
    "C15": check(history(300_000, 60, 30_000_000, 300, extra=owned, sizes=True), HIST + " A third of the cases use item types of odd shapes. The same cases run again under AddressSanitizer, histories with "
                 "injected panics too, and small ones under Miri.", replay=miri_replay),
    "C16": check(history(130_000, 60, 20_000_000, 420, probes=True, sizes=True)),
    "C17": check(history(8_000, 60, 400_000, 420), "Each case runs every method and conversion of OptionalPair on all four shapes with generated values of eight type pairs, counting closure calls, "
                 "clones and drops; distinct_nontrivial counts distinct (method, shape, type, value) combinations, capped at 2 million per thread."),
    "C18": check(threads, "Each case shares one generated map between 2 to 4 threads that run different seeded scripts of all reading operations, then lets them change clones and maps of their "
                 "own, then moves maps and iterators between threads, and compares every answer with the one given alone; case 0 compares the Send and Sync markers. "
                 "distinct_nontrivial counts distinct (case, order in which the threads did their reads).", replay=miri_replay),
    "C19": check(history(250_000, 60, 30_000_000, 420)),
    "C20": check(cost_check, "Each operation is run on every item of a map of n items (all operations of all three maps, small groups and one big group, maps with few items in much capacity, and maps filled to the brim, where one more item makes a table grow) under "
                 "callgrind, which counts the instructions including everything called; the counts per item for small and large n are compared. evaluations counts operations measured, "
                 "distinct_nontrivial (operation, sizes) pairs compared. Before that, ageing: lists of operations on few items are repeated for 800 rounds and the memory held, the calls of Hash and Eq and the time of late rounds are compared with those of early ones.", replay=cost_replay),
    "C21": check(history(400_000, 60, 30_000_000, 240, extra=panics), "Each case makes a map by a history, picks an operation, counts the calls of user code it makes (Hash, Eq, Clone, Drop, closures, source iterator, "
                 "Debug) and then repeats it on equal maps with a panic injected at each of these calls (at most 40 spread over all when there are more); evaluations counts injections. "
                 "distinct_nontrivial counts distinct (operation, kind of call, number of the call, number of items) combinations.", level="fault_enumeration", replay=miri_replay),
    "C22": check(long_histories, "Histories under colliding hashers in which only the pairing ids tell items apart: random ones as in the other checks, brute-force ones of up to 2^27 (thorough: 2^32) pairings on one map, "
                 "and ones that skip, by the hook, to just before a power of two of pairings. distinct_nontrivial counts distinct situations as in the other checks and distinct (map, pairings skipped)."),
}
