#!/bin/bash
# Demonstration: builds the programs of the repository in the current directory which demo.py (beside this file) names and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --quiet $(sed -n 's/^# build: //p' "$here/demo.py") 2>"$tmp/err" || { cat "$tmp/err"; exit 2; }
mkdir "$tmp/data"
BIN="$tmp/target/debug" timeout 120 python3 "$here/demo.py" "$tmp/data"
