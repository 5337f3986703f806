#!/bin/bash
# Builds the small program beside this file against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sieve-rs = { path = "$repo" }
mail-parser = "0.11"
[profile.dev]
debug = 0
opt-level = 0
T
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2>"$work/log" || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
