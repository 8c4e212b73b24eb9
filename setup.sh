#!/bin/bash
# builds the framework once, offline (every check rebuilds what changed in /repo)
set -e
cd "$(dirname "$0")"
cargo +stable build --release --offline --manifest-path symx/Cargo.toml
./build_sym.sh
./build_native.sh
./build_srv.sh
./build_native_srv.sh
