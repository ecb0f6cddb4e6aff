#!/bin/bash
# Builds the simulator, the system call shim and the coverage tool from /repo's
# current working tree.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir -p target || exit 2
cargo build --release --offline --locked --quiet || exit 2
if [ -z "$1" ] || [ "$1" = S01 ]; then
    gcc -shared -fPIC -O1 -Wall -o target/shim.so shim/shim.c -ldl || exit 2
    locked=--locked
    [ -f /repo/Cargo.lock ] || locked=
    RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target/sdd" cargo build --offline $locked --quiet \
        --manifest-path /repo/Cargo.toml -p sdd || exit 2
fi
