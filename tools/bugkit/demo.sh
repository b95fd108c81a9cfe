#!/bin/bash
# Builds the demonstration beside this file against /repo and runs it.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$d"/*.rs "$w/src/"
cp "$d/Demo.toml" "$w/Cargo.toml"
cp /repo/Cargo.lock "$w/"
[ -d "$d/data" ] && cp -r "$d/data" "$w/data"
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$w/target
unset RUSTFLAGS
cd "$w" || exit 2
cargo build --offline -q || exit 3
timeout 120 "$w/target/debug/demo"
