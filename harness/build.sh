#!/bin/bash
# Build the harness against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target"
export PATH=/usr/local/bin:$PATH
unset RUSTFLAGS
cargo build --offline "$@"
