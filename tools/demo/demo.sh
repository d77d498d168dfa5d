#!/bin/bash
# Runs in /repo: builds the program beside this file against it and runs it.
# Exit 0: the property holds; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/" || exit 3
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$work/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$work" && cargo build --offline -q 2>"$work/log" || { tail -n 30 "$work/log" >&2; exit 3; }
timeout 120 "$work/target/debug/demo"
