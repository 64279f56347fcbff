#!/bin/bash
# Runs demo.rs (beside this file) against the crate in the current directory; 0 = the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
fluffy_tribble = { path = "$repo" }
T
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build -q --offline 2>"$work/build.log" || { cat "$work/build.log"; exit 3; }
timeout 120 "$work/target/debug/demo" > "$work/out.log" 2>&1
rc=$?
grep -v '^\(Got\|Iteration\|vertex\|edge\|face\|Energy\|Skipping\|For \|Entity\)' "$work/out.log" | tail -n 5
exit $rc
