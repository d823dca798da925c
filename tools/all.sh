#!/bin/bash
# Development aid: run every registered check in parallel.
cd "$(dirname "$0")/.." || exit 1
one() { timeout 900 python3 -m sa "$@" >/tmp/all.$1.log 2>&1; echo "$1 rc $? $(tail -n 1 /tmp/all.$1.log | cut -c1-150)"; }
export -f one
python3 tools/ids.py | xargs -P 6 -I{} bash -c "one {} $*"
