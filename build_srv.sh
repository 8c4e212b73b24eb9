#!/bin/bash
# As build_sym.sh, for the server (crates/server) with conversations in memory
set -e
cd "$(dirname "$0")/sym_srv"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/../build/srv"
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"
cargo rustc --offline --profile sym -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --lib -- --emit=llvm-ir
