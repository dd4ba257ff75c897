#!/bin/bash
# Build a check program with a memory error detector in the Rust code and in libwebp.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target-memory" RUSTFLAGS="-Zsanitizer=address"
export CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=address -fno-sanitize-address-use-after-scope"
export PATH=/usr/local/bin:$PATH
cargo build --offline --target x86_64-unknown-linux-gnu "$@"
