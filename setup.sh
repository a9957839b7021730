#!/bin/bash
# Build the harness from the committed files.
set -eu
cd "$(dirname "$0")"
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p target evidence replays
(
    cd harness
    cargo build --offline -q
    cargo build --offline -q -p rt --release
)
CARGO_TARGET_DIR=$PWD/target/repo cargo build --offline --locked -q --manifest-path /repo/Cargo.toml -p butte-build --bin butte
