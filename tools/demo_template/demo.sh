#!/bin/bash
# Builds the crates from /repo with a small program beside this file and runs it:
# exit 0 when the behaviour is right, 1 when it is wrong.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
rm -rf /tmp/sds-demo-ws
cp -r "$D/ws" /tmp/sds-demo-ws
cp "$D/main.rs" /tmp/sds-demo-ws/demo/src/main.rs
cd /tmp/sds-demo-ws
export CARGO_TARGET_DIR=/tmp/sds-demo-ws/target CARGO_INCREMENTAL=0
if ! cargo build --offline -q -p demo 2> build.log; then
  grep -A5 '^error' build.log
  rm -rf /tmp/sds-demo-ws
  exit 3
fi
timeout 100 /tmp/sds-demo-ws/target/debug/demo
rc=$?
rm -rf /tmp/sds-demo-ws
exit $rc
