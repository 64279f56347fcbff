#!/bin/bash
# usage: run.sh OUT.json [REPO]   -- dump the MIR of the crate in REPO (default /repo), built fresh
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(realpath -m "$1"); repo=${2:-/repo}
tc=nightly-x86_64-unknown-linux-gnu
export RUSTUP_TOOLCHAIN=$tc CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
unset RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTFLAGS || true
build=${VERIF_BUILD:-/verif/build}
mkdir -p "$build"
( cd "$here" && cargo build --quiet --target-dir "$build/mirdump" )
sysroot=$(rustc --print sysroot)
work=$(mktemp -d /tmp/mirdump.XXXXXX)
trap 'rm -rf "$work"' EXIT
[ -e "$repo/Cargo.lock" ] || cp /opt/vp/Cargo.lock.initial "$repo/Cargo.lock"
rm -f "$out"
export LD_LIBRARY_PATH="$sysroot/lib" MIRDUMP_CRATE=fluffy_tribble MIRDUMP_OUT="$out"
export RUSTC_WORKSPACE_WRAPPER="$build/mirdump/debug/mirdump"
# force the crate itself to be compiled again, from the current working tree
find "$build/mir" -depth -type d -name "fluffy_tribble*" -exec rm -rf {} + 2>/dev/null || true
export CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zmir-opt-level=0 -Awarnings"
cargo build --lib --quiet --offline --manifest-path "$repo/Cargo.toml" --target-dir "$build/mir"
test -s "$out"
