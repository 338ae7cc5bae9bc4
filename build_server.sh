#!/bin/bash
# Build the HTTP server from /repo's current working tree (outside of /repo).
set -e
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo
export CARGO_TARGET_DIR=/verif/target-server
export CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0
exec cargo build --offline --locked --quiet -p server
