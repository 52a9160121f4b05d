#!/bin/bash
# Builds the framework once, offline, so that a broken toolchain or tree shows before any check runs.
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
python3 - <<'P'
import importlib.machinery, importlib.util, sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
l = importlib.machinery.SourceFileLoader("check", "./check")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l))
l.exec_module(m)
print(m.build(bins=("harness", "cost")))
P
command -v valgrind callgrind_annotate >/dev/null
cargo +nightly --version
