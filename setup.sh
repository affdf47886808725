#!/bin/sh
# nothing is built ahead: every check rebuilds from /repo's working tree
set -e
cd "$(dirname "$0")"
python3 table.py >/dev/null
cargo kani --version
verus --version >/dev/null
