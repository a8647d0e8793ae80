#!/bin/bash
# pre-builds what can be shared; every check also builds what it misses
cd "$(dirname "$0")"
mkdir -p build evidence
./bin/build-msolve.sh native >/dev/null || exit 1
exit 0
