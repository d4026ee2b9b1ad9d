#!/bin/bash
# builds the harness once; every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
./check --build || exit 1
# fills the cache of the Go compiler
./check C25 --only none:0 >/dev/null 2>&1
exit 0
