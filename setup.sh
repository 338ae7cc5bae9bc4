#!/bin/bash
# Build everything the checks need (they all rebuild what changed).
set -e
cd "$(dirname "$0")"
bash build.sh
bash build_server.sh
bash build_tools.sh
bash build_programs.sh
