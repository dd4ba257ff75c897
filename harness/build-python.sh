#!/bin/bash
# Build the Python extension from /repo's current working tree, as harness/target/py/module/d10.so.
cd "$(dirname "$0")" || exit 2
here="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_TARGET_DIR="$here/target/py" PYO3_PYTHON=/opt/vp/venv/bin/python
export PATH=/usr/local/bin:$PATH
unset RUSTFLAGS
cd pyext || exit 2
cargo build --offline --locked || exit $?
mkdir -p "$here/target/py/module"
cp "$here/target/py/debug/libd10.so" "$here/target/py/module/d10.so.new" &&
mv "$here/target/py/module/d10.so.new" "$here/target/py/module/d10.so"
