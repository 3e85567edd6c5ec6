#!/bin/bash
# dump the MIR of the harness roots (development helper; run.py does the same)
set -e
B=/verif/.build
SR=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SR/lib CARGO_TARGET_DIR=$B/mir
export VD_API=$B/api.json
export VD_CRATE=vharness VD_OUT=${1:-$B/mir.json}
export RUSTC_WRAPPER=$B/driver/release/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -C overflow-checks=off -C debug-assertions=off --cfg verif_hooks -Awarnings"
cd /verif/harness
touch src/lib.rs
cargo +nightly check --offline 2>&1 | tail -${2:-30}
ls -la $VD_OUT
