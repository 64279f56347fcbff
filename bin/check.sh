#!/bin/bash
# usage: bin/check.sh PROPERTY [--thorough]
here=$(cd "$(dirname "$0")/.." && pwd)
exec python3-vt "$here/engine/runner.py" "$@"
