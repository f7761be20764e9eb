#!/bin/bash
# Build the driver and dump facts and MIR of /repo's working tree into $1.
set -e
OUT=$1
VERIF=$(cd "$(dirname "$0")/.." && pwd)
BUILD=${VP_BUILD:-$VERIF/build}
mkdir -p "$OUT" "$BUILD"
OUT=$(cd "$OUT" && pwd)
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
(cd "$VERIF/driver" && cargo +nightly build --offline --target-dir "$BUILD/driver" 2>&1) || exit 3
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
T=$BUILD/target
for p in quadtree vp_harness; do
  for d in "$T"/debug/build/$p "$T"/debug/build/$p-* "$T"/debug/.fingerprint/$p-*; do
    [ -e "$d" ] && find "$d" -depth -delete
  done
done
rm -f "$OUT/mono.json" "$OUT/facts.json"
cd "$VERIF/harness"
VP_DUMP_DIR="$OUT" RUSTC_WRAPPER="$BUILD/driver/debug/vp-driver" RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings" \
  cargo +nightly check --offline --lib --target-dir "$T" 2>&1
[ -s "$OUT/mono.json" ] && [ -s "$OUT/facts.json" ]
