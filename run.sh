#!/bin/bash
# usage: run.sh <property> <quick|thorough>
# Builds the harness from /repo's current working tree, then runs the generated search for one property.
cd "$(dirname "$0")" || exit 2
log=$(mktemp)
fail() {
    echo "ERROR: $1 does not build against /repo" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
}
bash build.sh >"$log" 2>&1 || fail "the harness"
if [ "$1" = C22 ]; then
    # this property is checked with real server processes
    bash build_server.sh >"$log" 2>&1 || fail "the server"
fi
if [ "$1" = C27 ] || [ "$1" = C28 ]; then
    # these properties are checked with the command line programs
    bash build_tools.sh >"$log" 2>&1 || fail "the tools"
fi
if [ "$1" = C29 ]; then
    # this property is checked with the preprocessing and query programs
    bash build_programs.sh >"$log" 2>&1 || fail "the programs"
fi
rm -f "$log"
exec target/debug/rrr-pbt check "$1" "$2"
