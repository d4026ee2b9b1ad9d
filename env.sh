# toolchain and caches of the sandbox; sourced by every script
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/mc/target CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
