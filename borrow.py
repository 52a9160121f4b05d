"""Borrow programs (C15): small programs in safe Rust that keep a reference, an iterator or a drain
of a map while the map is changed, dropped or replaced. The compiler must refuse each of them. One
that it accepts is run under AddressSanitizer: if that sees an invalid access, safe code can read
freed memory through the map's interface."""
import glob, json, os, re, shutil, subprocess

# the borrow, whether it borrows mutably, what is done with it
ITER = "for x in it { println!(\"{:?}\", x); }"
REF = "println!(\"{:?}\", it);"
K, V = '&"left item number 3, long enough for the heap".to_string()', '&"right item number 3, long enough for the heap".to_string()'


def borrows():
    out = []

    def add(m, expr, mut=False, use=ITER):
        out.append((m, expr, mut, use))
    for m in ("CycleMap", "PartialCycleMap", "GroupMap"):
        its = ["iter", "iter_left", "iter_right"] + ([] if m == "CycleMap" else ["iter_paired", "iter_unpaired"])
        for i in its:
            add(m, f"m.{i}()")
            add(m, f"m.{i}().clone()")
            add(m, f"m.{i}().next()", use=REF)
            add(m, f"{{ let mut i = m.{i}(); i.next(); i }}")
        add(m, f"m.get_right({K})", use=REF)
        add(m, "m.hasher()", use="let _ = std::hash::BuildHasher::build_hasher(it);")
        if m == "GroupMap":
            add(m, f"m.get_left_iter({V}).unwrap()")
            add(m, f"m.get_left_iter({V}).unwrap().clone()")
            add(m, f"m.get_left_iter({V}).unwrap().next()", use=REF)
        else:
            add(m, f"m.get_left({V})", use=REF)
            add(m, "m.drain()", mut=True)
            add(m, "{ let mut i = m.drain(); i.next(); i }", mut=True)
            f = "|_, _| true" if m == "CycleMap" else "|_| true"
            add(m, f"m.drain_filter({f})", mut=True)
            add(m, f"{{ let mut i = m.drain_filter({f}); i.next(); i }}", mut=True)
        if m == "PartialCycleMap":
            four = V.replace("3", "4")
            add(m, f"m.pair_forced({K}, {four})", mut=True, use=REF)
    return out


HEAD = '''#![allow(unused, unused_mut)]
use ::cycle_map::{CycleMap, GroupMap, PartialCycleMap};
fn l(i: u64) -> String { format!("left item number {i}, long enough for the heap") }
fn r(i: u64) -> String { format!("right item number {i}, long enough for the heap") }
trait Fill: Default { fn filled() -> Self; }
impl Fill for CycleMap<String, String> { fn filled() -> Self { let mut m = Self::default(); for i in 0..9 { m.insert(l(i), r(i)); } m } }
impl Fill for PartialCycleMap<String, String> { fn filled() -> Self {
    let mut m = Self::default(); for i in 0..9 { m.insert(l(i), r(i)); } for i in 9..12 { m.insert_left(l(i)); m.insert_right(r(i)); } m } }
impl Fill for GroupMap<String, String> { fn filled() -> Self { let mut m = Self::default(); for i in 0..18 { m.insert(l(i), r(i / 2)); } m.insert_right(r(50)); m } }
'''
CHANGES = ["m.clear();", "drop(m);", "m = Default::default();", "for i in 100..200 { m.insert(l(i), r(i)); }"]
BORROWCK = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0597", "E0716", "E0713", "E0382", "E0381"}


def programs():
    """(name, line of code)"""
    out = []
    for n, (m, expr, mut, use) in enumerate(borrows()):
        new = f"let mut m: {m}<String, String> = Fill::filled();"
        for k, c in enumerate(CHANGES + (["println!(\"{:?}\", m);"] if mut else [])):
            out.append((f"p{n}_{k}", f"{new} let mut it = {expr}; {c} {use}"))
        # what is borrowed from a map of an inner block
        out.append((f"p{n}_inner", f"let mut it = {{ {new} {expr} }}; {use}"))
    return out


def compile_all(d, progs, rlib, deps, work):
    """name -> codes of the errors in it"""
    src = os.path.join(work, "all.rs")
    lines = HEAD.count("\n")
    with open(src, "w") as f:
        f.write(HEAD)
        for name, code in progs:
            f.write(f"fn {name}() {{ {code} }}\n")
        f.write("fn main() {}\n")
    p = subprocess.run(["rustc", "--edition", "2021", "--emit=metadata", "--error-format=json", "--cap-lints", "allow", "-o", os.path.join(work, "all.rmeta"),
                        *rlib, *deps, src], capture_output=True, text=True)
    errors = {}
    for line in p.stderr.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("level") != "error" or not e.get("spans"):
            continue
        for s in e["spans"]:
            if s["is_primary"] and s["file_name"] == src:
                i = s["line_start"] - lines - 1
                errors.setdefault(progs[i][0] if 0 <= i < len(progs) else "?", set()).add((e.get("code") or {}).get("code", "?"))
    return errors


def one_rlib(bins):
    """The library of cycle_map below the directory of a build, and where its dependencies are (the
    layout differs between versions of cargo)"""
    found = sorted(glob.glob(os.path.join(bins, "**", "libcycle_map-*.rlib"), recursive=True), key=os.path.getmtime)
    # proc macros are built for the host, beside the directory of the target
    roots = [bins, os.path.join(os.path.dirname(os.path.dirname(bins)), "release")]
    dirs = {os.path.dirname(p) for b in roots for e in ("rlib", "rmeta", "so") for p in glob.glob(os.path.join(b, "**", f"lib*.{e}"), recursive=True)}
    metas = [found[-1][:-4] + "rmeta"] if found and os.path.exists(found[-1][:-4] + "rmeta") else []
    lib = [a for p in found[-1:] + metas for a in ("--extern", f"cycle_map={p}")]
    return lib, [a for p in sorted(dirs) for a in ("-L", f"dependency={p}")]


def accepted(d, bins, work):
    progs = programs()
    rlib, deps = one_rlib(bins)
    if not rlib:
        d.no_answer("no library of cycle_map is found in " + bins)
    left = list(progs)
    # errors of other kinds keep the borrow checker from running: leave these programs out
    for _ in range(6):
        errors = compile_all(d, left, rlib, deps, work)
        other = {n for n, c in errors.items() if not c <= BORROWCK}
        if "?" in other:
            d.no_answer(f"the borrow programs do not compile: {errors['?']}")
        if not other:
            break
        left = [p for p in left if p[0] not in other]
    else:
        d.no_answer("the borrow programs do not compile")
    skipped = len(progs) - len(left)
    return [p for p in left if p[0] not in errors], len(left), skipped


def run_one(d, code, asan_bins, work, name):
    rlib, deps = one_rlib(asan_bins)
    src, exe = os.path.join(work, name + ".rs"), os.path.join(work, name)
    with open(src, "w") as f:
        f.write(HEAD + f"fn main() {{ {code} }}\n")
    p = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-Zsanitizer=address", "--target", d.HOST, "--cap-lints", "allow", "-o", exe,
                        *rlib, *deps, src], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-2000:]
    return d.run([exe], 60, {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0"})


def stage(d, prop, plain, asan, results):
    work = os.path.join(d.VERIF, "build", f"run-{prop}-borrow-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        # the monitor itself: a sound program must run to its end, one whose borrow is cut loose by force must not
        new = "let mut m: CycleMap<String, String> = Fill::filled(); "
        for name, code, fine in (("sound", new + "for x in m.iter_left() { println!(\"{:?}\", x); } drop(m);", True),
                                 ("unsound", new + "let it: &'static str = unsafe { std::mem::transmute(m.iter_left().next().unwrap().as_str()) }; m.clear(); println!(\"{:?}\", it);", False)):
            rc, out = run_one(d, code, asan, work, name)
            if rc is None or (rc == 0) != fine:
                d.no_answer(f"the {name} control program ended with {rc}: {out[-1500:]}")
        ok, n, skipped = accepted(d, plain, work)
        for name, code in ok:
            rc, out = run_one(d, code, asan, work, name)
            if rc is None:
                d.no_answer(f"a borrow program is accepted, but not built: {out}")
            if rc != 0:
                raise d.Violation(f"the compiler accepts a program that uses what it borrowed of a map after that is gone ({d.crash_text(rc, out)}): {code}",
                                  {"kind": "borrow", "prop": prop, "code": code, "output": out[-3000:]})
            d.log(f"borrow program accepted, but no invalid access seen ({rc}): {code}")
        # the monitor itself: the same borrows without a change in between must work
        good = [(f"g{i}", f"let mut m: {m}<String, String> = Fill::filled(); let mut it = {e}; {u}") for i, (m, e, _, u) in enumerate(borrows())]
        rlib, deps = one_rlib(plain)
        bad = compile_all(d, good, rlib, deps, work)
        d.log(f"borrow programs: {n} judged, {n - len(ok)} refused by the compiler, {skipped} left out, {len(good) - len(bad)} of {len(good)} borrows are fine without a change")
        d.NOTES.append(f"borrow programs: {n} judged, {n - len(ok)} refused, {skipped} left out; {len(good) - len(bad)} of {len(good)} controls compile")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(d, v):
    work = os.path.join(d.VERIF, "build", f"run-borrow-replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        rc, out = run_one(d, v["code"], d.build("asan"), work, "p")
        print(out[-3000:])
        print("refused by the compiler" if rc is None else f"ended with {rc}")
        raise SystemExit(1 if rc else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
