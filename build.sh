#!/bin/bash
# Build the harness against /repo's current working tree. Used by every check.
set -e
. /opt/vp/env.sh >/dev/null 2>&1
cd /verif/harness
export CARGO_TARGET_DIR=/verif/target
export CARGO_INCREMENTAL=0
exec cargo build --offline --quiet "$@"
