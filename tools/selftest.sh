#!/bin/sh
# validates the model checker itself on programs with a known verdict
cd "$(dirname "$0")/.."
X=$(python3 xmc/build.py selftest) || exit 2
bad=0
for s in $($X list | sed 's/.*"name":"\([a-z_]*\)".*/\1/'); do
  o=$($X run $s --cap 30); r=$?
  case $s in
    ok_*) [ $r = 0 ] || { echo "FAILED $s: $o"; bad=1; };;
    bad_*) [ $r = 1 ] || { echo "FAILED (missed) $s: $o"; bad=1; };;
  esac
done
sh tools/qt_conformance.sh 2>/dev/null || [ $? = 3 ] || bad=1
[ $bad = 0 ] && echo "selftest ok"
exit $bad
