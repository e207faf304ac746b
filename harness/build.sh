#!/bin/bash
# Builds the harness against /repo's current working tree (hooks on). Prints the binary's path.
set -e
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-05-01
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${GPFMC_TARGET:-/verif/harness/target}"
export RUSTFLAGS="--cfg gpf_mc -Awarnings -Clink-arg=-rdynamic"
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
cd "$(dirname "$0")"
cargo build --offline --locked -q 1>&2
echo "$CARGO_TARGET_DIR/debug/gpfmc"
