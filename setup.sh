#!/bin/bash
# Builds the exploration programs once; every check builds again what has changed since.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$PWD/target
mkdir -p target evidence replays
exec cargo build --release --offline --quiet --manifest-path mc/Cargo.toml
