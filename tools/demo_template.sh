#!/bin/bash
# Demonstration: builds main.rs (beside this file) against the engine in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/demo/src"
cp "$here/main.rs" "$tmp/demo/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/demo/Cargo.lock"
cat > "$tmp/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_road_router = { path = "$repo/engine" }
conversion = { path = "$repo/conversion" }
rand = "^0.8.4"
[profile.dev]
opt-level = 1
debug-assertions = false
overflow-checks = true
T
cd "$tmp/demo" || exit 2
CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 cargo build --offline --quiet 2>"$tmp/err" || { cat "$tmp/err"; exit 2; }
timeout 120 "$tmp/target/debug/demo"
