#!/bin/bash
# builds what the checks need (they build it themselves if it is missing)
set -e
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR=$PWD/mirdump/target cargo +nightly build -q --offline --manifest-path mirdump/Cargo.toml
bin/dump.sh "$PWD/.build/mir.json" /repo
CARGO_TARGET_DIR=$PWD/.build/replay cargo build -q --features links --offline --manifest-path replay/Cargo.toml
