#!/bin/bash
# Development aid: tools/seed.sh ID...  -- confirm planted bugs in a scratch copy.
HERE=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
    D=$HERE/seeded/$ID
    W=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a /repo "$W/repo"
    export PYTHONDONTWRITEBYTECODE=1
    demo() { (cd "$W/repo" && timeout 120 bash "$D/demo.sh" >"$W/demo.log" 2>&1); echo $?; }
    A=$(demo)
    git -C "$W/repo" apply "$D/patch.diff" || echo "$ID: patch doesn't apply"
    B=$(demo)
    TAIL=$(tail -n 1 "$W/demo.log" | cut -c1-100)
    (cd "$W/repo" && sed "s#/repo#$W/repo#g" /opt/vp/check_sources.py >"$W/cs.py" && PYTHONPATH=$W/repo /opt/venv/bin/python "$W/cs.py" >"$W/build.log" 2>&1) || echo "$ID: build fails: $(tail -n 1 "$W/build.log")"
    P=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
    (cd "$HERE" && SA_ROOT=$W/repo timeout 900 python3 -m sa "$P" >"$W/check.log" 2>&1); C=$?
    if [ -z "$NOTEST" ]; then
        sed "s#cd /repo#cd $W/repo#" /opt/vp/test.sh >"$W/test.sh"
        T=$(bash "$W/test.sh" "$W/out.json" 2>&1 | tail -n 1)
    fi
    F=$(python3 -c "import json; print(*json.load(open('$W/out.json'))['failed'])" 2>/dev/null | cut -c1-200)
    echo "$ID ($P): clean demo $A, patched demo $B [$TAIL], check $C, tests: $T $F"
    grep -m1 "^  R" "$W/check.log" | cut -c1-200
    find "$W" -depth -delete
done
