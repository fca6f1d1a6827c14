#!/bin/bash
# dump.sh OUT.json : (re)build the MIR dump driver if needed and dump /repo's current tree.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"
N=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
mkdir -p "$V/build"
if [ ! -x "$V/build/mirdump/release/mirdump" ] || [ "$V/mirdump/src/main.rs" -nt "$V/build/mirdump/release/mirdump" ]; then
  (cd "$V/mirdump" && cargo +nightly build -q --release --offline --target-dir "$V/build/mirdump")
fi
TD="$V/build/dump-target"
rm -rf "$TD"/debug/.fingerprint/satellite-* "$TD"/debug/build/satellite "$TD"/debug/build/satellite-* "$TD"/debug/incremental
rm -f "$OUT"
cd /repo
export MIRDUMP_OUT="$OUT" MIRDUMP_CRATE=satellite MIRDUMP_DEPTH=${MIRDUMP_DEPTH:-4}
export LD_LIBRARY_PATH="$N/lib:$LD_LIBRARY_PATH"
export RUSTC_WORKSPACE_WRAPPER="$V/build/mirdump/release/mirdump"
export RUSTFLAGS="-Zmir-opt-level=0 -Awarnings -Zalways-encode-mir"
cargo +nightly check -q --lib --offline --target-dir "$TD"
test -s "$OUT"
