#!/bin/bash
# Builds demo.rs (beside this script) against the library in the current
# directory, in a scratch directory, and runs it there.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
work="$(mktemp -d)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/data"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dir-signature = { path = "$repo" }
[workspace]
EOF
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" >"$work/log" 2>&1 || { cat "$work/log"; exit 98; }
cd "$work/data" && timeout 120 "$work/target/debug/demo"
