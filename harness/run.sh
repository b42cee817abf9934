#!/bin/bash
# Builds the harness against /repo's working tree, then runs it.
# usage: run.sh check C01 quick | run.sh replay C01 SEED CASE
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="${VH_TARGET:-$here/target}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export VH_VERIF="$(dirname "$here")"
log="$(mktemp)"
if ! cargo build --offline --quiet --manifest-path "$here/Cargo.toml" >"$log" 2>&1; then
    grep -E -A8 "^error" "$log" | head -40 >&2; rm -f "$log"
    echo "build of the harness failed" >&2
    exit 3
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/vh" "$@"
