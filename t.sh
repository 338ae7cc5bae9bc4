#!/bin/bash
# dev helper: build and run quick checks
cd /verif && bash build.sh 2>&1 | grep -E "^error" -A12
for i in "$@"; do target/debug/rrr-pbt check $i ${TIER:-quick} 2>&1 | cut -c1-1500 | tail -60; done
