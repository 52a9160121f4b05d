#!/bin/bash
# builds the harness for development
cd /verif/harness && RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR=/verif/build/t cargo build --release --offline 2>&1 | grep -E "^(error|warning)" -A9 | head -${1:-60}
