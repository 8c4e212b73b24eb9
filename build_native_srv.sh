#!/bin/bash
# Build the replayer (real code, no stubs) with the toolchain the repository is built with
set -e
cd "$(dirname "$0")/native_srv"
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/../build/native_srv"
cargo build --offline "$@"
