#!/bin/bash
# usage: dump.sh OUT.json [REPO]   rustc's MIR of the current source of REPO, as JSON
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
T=${VF_TARGET:-$HERE/.build/target}
mkdir -p "$T"
rm -rf "$T"/debug/build/eastl-rs "$T"/debug/build/EASTL-rs "$T"/debug/.fingerprint/eastl-rs-* "$OUT"
cd "$REPO"
export CARGO_TARGET_DIR=$T MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$HERE/mirdump/target/debug/mirdump
export RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Zub-checks=no -Cpanic=abort -Coverflow-checks=on -Cdebug-assertions=on"
export CARGO_INCREMENTAL=0
cargo +nightly check -q --offline --locked --lib 2>"$OUT.log" || { cat "$OUT.log" >&2; exit 1; }
test -s "$OUT"
