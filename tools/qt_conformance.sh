#!/bin/sh
# Runs the same program against the model of QtCore (qtstub/) and the real one
# and compares what it observed. Prints "conformance <n> observations"; exit 3
# if there is no QtCore to compare with.
V=$(cd "$(dirname "$0")/.." && pwd)
D="$V/build/qt_conformance"
mkdir -p "$D" && cd "$D" || exit 2
I=
for d in /usr/include/x86_64-linux-gnu/qt5 /usr/include/qt5 /usr/include/*/qt5; do
  [ -d "$d/QtCore" ] && I=$d && break
done
[ -n "$I" ] || { echo "conformance: no QtCore"; exit 3; }
cp "$V/qtstub/conformance.cpp.in" conformance.cpp
if [ ! -x real ] || [ ! -x stub ] || [ "$V/qtstub/conformance.cpp.in" -nt real ] || [ -n "$(find "$V/qtstub" -newer stub)" ]; then
  g++ -std=c++14 -g -I"$V/qtstub" conformance.cpp "$V/qtstub/qtstub.cpp" -o stub -lpthread &
  p=$!
  g++ -std=c++14 -g -fPIC -I"$I" -I"$I/QtCore" conformance.cpp -o real -lQt5Core -lpthread || exit 3
  wait $p || exit 2
fi
i=0
while [ $i -lt 5 ]; do
  timeout 60 ./stub > stub.txt && timeout 60 ./real > real.txt && cmp -s stub.txt real.txt && {
    echo "conformance $(wc -l < real.txt) observations"; exit 0; }
  i=$((i + 1))
done
diff stub.txt real.txt
echo "conformance: the model of QtCore differs"
exit 1
