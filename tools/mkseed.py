#!/usr/bin/env python3
"""Write /verif/seeded/<id> from a description (tools/seeds/*.py): mkseed.py [ID...]
Each description is a dict: id, property, needs, breaks, edits [(file, old, new)], demo (body of main.rs),
and optionally release (build the demo optimised), env, run (a shell line instead of `cargo run`)."""
import glob, json, os, subprocess, sys, tempfile, importlib.util

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

PRELUDE = '''#![allow(dead_code, unused_imports, clippy::all)]
use ::cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use std::hash::{BuildHasher, Hash, Hasher};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

/// Everything collides
#[derive(Clone, Default)]
pub struct Same;
pub struct SameHasher;
impl Hasher for SameHasher {
    fn finish(&self) -> u64 { 0x1234_5678_9abc_def0 }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for Same {
    type Hasher = SameHasher;
    fn build_hasher(&self) -> SameHasher { SameHasher }
}
/// The hash of an integer is what the function makes of it
#[derive(Clone)]
pub struct By(pub fn(u64) -> u64);
pub struct ByHasher(u64, fn(u64) -> u64);
impl Hasher for ByHasher {
    fn finish(&self) -> u64 { (self.1)(self.0) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 << 8) | *x as u64; } }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
    fn write_u32(&mut self, x: u32) { self.0 = x as u64; }
}
impl BuildHasher for By {
    type Hasher = ByHasher;
    fn build_hasher(&self) -> ByHasher { ByHasher(0, self.0) }
}
/// Equal by the first field only: the second tells instances apart
#[derive(Clone, Debug)]
pub struct Tag(pub u64, pub u64);
impl PartialEq for Tag { fn eq(&self, o: &Tag) -> bool { self.0 == o.0 } }
impl Eq for Tag {}
impl Hash for Tag { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0) } }

'''

DEMO = '''#!/bin/bash
# Run in the repository: exit 0 when the code behaves, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" || exit 2
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cycle_map = {{ path = "$repo", features = ["serde"] }}
serde = {{ version = "1.0", features = ["derive"] }}
serde_json = "1.0"
[profile.dev]
debug = 0
incremental = false
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cd "$work" || exit 2
{run}
'''

def load():
    out = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out

def main():
    want = sys.argv[1:]
    base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for s in load():
        if want and s["id"] not in want:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            patch = ""
            new = {}
            for file, old, repl in s["edits"]:
                text = new.get(file) or open(f"{REPO}/{file}").read()
                n = text.count(old)
                if n != 1:
                    sys.exit(f"{s['id']}: {n} matches in {file} of:\n{old}")
                new[file] = text.replace(old, repl)
            for file, text in new.items():
                os.makedirs(f"{t}/a/{os.path.dirname(file)}", exist_ok=True)
                os.makedirs(f"{t}/b/{os.path.dirname(file)}", exist_ok=True)
                open(f"{t}/a/{file}", "w").write(open(f"{REPO}/{file}").read())
                open(f"{t}/b/{file}", "w").write(text)
                patch += subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{file}", f"b/{file}"], cwd=t, capture_output=True, text=True).stdout
        patch = patch.replace("diff --git a/a/", "diff --git a/")
        open(d + "/patch.diff", "w").write(patch)
        basetext = {f: subprocess.run(["git", "-C", REPO, "show", f"{base}:{f}"], capture_output=True, text=True).stdout.split("\n") for f in new}
        removed = [l[1:] for l in patch.split("\n") if l.startswith("-") and not l.startswith("---")]
        allbase = set(sum(basetext.values(), []))
        orig = [l for l in removed if l in allbase]
        if removed and not orig:
            print(f"{s['id']}: WARNING: changes no original line")
        open(d + "/main.rs", "w").write(PRELUDE + s["demo"].strip() + "\n")
        run = s.get("run", "exec timeout -k 5 250 cargo run --offline --quiet" + (" --release" if s.get("release") else ""))
        open(d + "/demo.sh", "w").write(DEMO.format(run=run))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        print(s["id"])
main()
