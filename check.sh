#!/bin/bash
# check.sh build | run <property> [quick|thorough] | case <property> <n> | replay <file>
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true VERIF_DIR=$V
build() {
    local log; log=$(mktemp)
    ( cd "$V/harness" && cargo build --offline --locked ) >"$log" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then tail -60 "$log" >&2; rm -f "$log"; return 2; fi
    rm -f "$log"
}
build || exit 2
[ "${1:-}" = build ] && exit 0
exec "$V/target/debug/ddrt" "$@"
