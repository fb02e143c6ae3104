#!/bin/bash
# Builds every check once, so that the checks themselves only rebuild what changed.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
unset RUSTFLAGS
export CARGO_TARGET_DIR=$here/harness/target CARGO_NET_OFFLINE=true
cargo build --offline --locked --release --features serde --bins 2>&1 | tail -3
cargo build --offline --locked --profile plain --features serde --bin deep_trees 2>&1 | tail -3
cd "$here/miri"
CARGO_TARGET_DIR=$here/harness/target/miri MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline --locked -q -- --case 0 1 2>&1 | tail -1
