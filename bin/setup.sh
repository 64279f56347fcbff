#!/bin/bash
# builds the MIR dumper (offline) and warms its caches
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build" "$here/evidence"
bash "$here/mirdump/run.sh" "$here/build/mir.json" /repo
