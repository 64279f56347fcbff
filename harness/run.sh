#!/bin/bash
# run.sh PROPERTY : looks for a failing input of PROPERTY on the real code of /repo (public API only), after an obligation was not discharged.
# Exit 1 and "FAILING INPUT ..." on stdout when one is found, 0 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
work=$(mktemp -d /tmp/replay.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$work/src"
sed "s#path = \"/repo\"#path = \"$repo\"#" "$here/Cargo.toml" > "$work/Cargo.toml"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
(cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build -q --offline) >"$work/build.log" 2>&1 || { tail -n 20 "$work/build.log"; exit 3; }
VERIF_SEED=${VERIF_SEED:-1} timeout ${VERIF_REPLAY_SECS:-120} "$work/target/debug/replay" "$1" ${VERIF_REPLAY_BUDGET:-60} 2>"$work/found" >/dev/null
rc=$?
grep -A60 'FAILING INPUT' "$work/found" | head -c 6000
grep -q 'FAILING INPUT' "$work/found" && exit 1
[ $rc -eq 0 ] || tail -n 5 "$work/found" >&2
exit 0
