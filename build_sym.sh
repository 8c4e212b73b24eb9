#!/bin/bash
# Regenerate the encoding: /repo's current working tree + harnesses -> one LLVM IR module
set -e
cd "$(dirname "$0")/sym"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/../build/sym"
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"
cargo rustc --offline --profile sym -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --lib -- --emit=llvm-ir
