#!/bin/bash
# Compiles demo.rs against the library as built by /opt/vp/build.sh and runs it in a scratch directory.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
B=/opt/vp/ws/target/debug
ext=()
for c in datafusion_distributed datafusion datafusion_proto tokio tonic futures arrow url async_trait prost uuid http; do
    f=$(ls -t $B/deps/lib$c-*.rlib $B/deps/lib$c-*.so 2>/dev/null | head -1)
    [ -n "$f" ] && ext+=(--extern "$c=$f")
done
nat=()
for d in $B/build/*/out; do [ -d "$d" ] && nat+=(-L "native=$d"); done
cp "$D"/*.rs "$T"/
cd "$T" || exit 2
if ! rustc --edition 2024 --cap-lints allow -C debuginfo=0 demo.rs -o demo -L "dependency=$B/deps" "${nat[@]}" "${ext[@]}" > build.log 2>&1; then
    tail -40 build.log
    cd / ; rm -rf "$T"
    exit 3
fi
TMPDIR="$T" timeout 150 ./demo "$T"
rc=$?
cd /
rm -rf "$T"
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
