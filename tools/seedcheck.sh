#!/bin/bash
# seedcheck.sh [-t] [-c] <id>...: verifies planted bugs in scratch copies.
#   always: patch applies, builds, demo passes without and fails with it
#   -t: also runs the stable tests   -c: also runs the check of the property
V=$(cd "$(dirname "$0")/.."; pwd)
tests=0 check=0
while [ "${1:0:1}" = - ]; do
    case $1 in -t) tests=1 ;; -c) check=1 ;; esac
    shift
done
for id in "$@"; do
    s=$V/seeded/$id; w=/tmp/seedw/$id
    rm -rf "$w"; mkdir -p "$w"
    (
    cd /repo && tar c --exclude=./_build --exclude=./.git . | tar x -C "$w"
    mkdir "$w/demo"; cp "$s"/* "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
    cd "$w"
    build() { 
        [ -f _build/build.ninja ] || cmake -S /opt/vp/cmake -B _build -G Ninja -DREPO_DIR="$w" -DCMAKE_BUILD_TYPE=RelWithDebInfo > b.log 2>&1
        ninja -C _build >> b.log 2>&1 || { echo "$id: BUILD FAILED"; tail -20 b.log; exit 1; }
    }
    build
    t0=$(date +%s); timeout 300 bash demo/demo.sh > d0.log 2>&1; r0=$?; t1=$(date +%s)
    patch -p1 -s < "$s/patch.diff" || { echo "$id: PATCH"; exit 1; }
    (cd /repo && git apply --check "$s/patch.diff") || { echo "$id: does not git apply"; exit 1; }
    build
    t2=$(date +%s); timeout 300 bash demo/demo.sh > d1.log 2>&1; r1=$?; t3=$(date +%s)
    msg="$id: demo unchanged=$r0 ($((t1-t0))s) patched=$r1 ($((t3-t2))s)"
    [ $r0 = 0 ] && [ $r1 != 0 ] || { msg="$msg  **BAD**"; tail -5 d0.log; }
    msg="$msg [$(tail -1 d1.log | cut -c1-100)]"
    if [ $tests = 1 ]; then
        sed "s#/repo#$w#g; s#bash /opt/vp/build.sh#true#" /opt/vp/test.sh > t.sh
        bash t.sh "$w/o.json" > t.log 2>&1
        msg="$msg tests: $(python3 - "$w/o.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o); print("ok" if not m else "MISSING %s"%m)
P
)"
    fi
    if [ $check = 1 ]; then
        p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
        t4=$(date +%s)
        (cd "$V" && XMC_REPO=$w XMC_BUILD=$w/xb timeout 900 python3 check.py "$p") > c.log 2>&1; rc=$?
        msg="$msg check $p: $rc ($(( $(date +%s) - t4 ))s) $(grep -m1 '^scenario' c.log | cut -c1-120)"
    fi
    echo "$msg"
    )
    [ -n "$KEEP" ] || rm -rf "$w"
done
