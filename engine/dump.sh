#!/bin/bash
# dump.sh OUTDIR  -- rebuild the driver if needed and dump the MIR of /repo's working tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1
CACHE=${VERIF_CACHE:-$V/.cache}
mkdir -p "$CACHE" "$OUT"
export CARGO_TERM_COLOR=never
SYS=$(rustc +nightly --print sysroot)
if [ ! -x "$V/driver/target/debug/mirdump" ] || [ "$V/driver/src/main.rs" -nt "$V/driver/target/debug/mirdump" ]; then
  (cd "$V/driver" && cargo +nightly build --offline -q) >&2
fi
T=$CACHE/target
for d in "$T/debug/build/syntaxis" "$T/debug/incremental"; do
  case "$d" in "$CACHE"/*) rm -rf "$d";; esac
done
rm -rf "$T"/debug/.fingerprint/syntaxis-*
rm -f "$OUT"/syntaxis-*.json
cd "$REPO"
LD_LIBRARY_PATH=$SYS/lib MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$V/driver/target/debug/mirdump \
 RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings" CARGO_INCREMENTAL=0 \
 cargo +nightly check --offline -q --target-dir "$T" >&2
test -s "$OUT/syntaxis-Rlib.json"
