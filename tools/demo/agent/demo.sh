#!/bin/bash
# Builds the agent's own sources named in demo.cc with the scenario there, whose own definitions stand in for everything else, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
CXX=x86_64-w64-mingw32-g++-posix
FLAGS="-std=c++11 -O1 -w -DWINPTY_AGENT_ASSERT -D_WIN32_WINNT=0x0600 -DUNICODE -D_UNICODE -DNOMINMAX -I$repo/src/include -I$repo/build/gen -I$repo/src/gen"
fake=
[ -f "$here/fakeagent.h" ] && fake="-include $here/fakeagent.h"
cd "$repo/src" || exit 3
n=0
for f in $(sed -n 's,^// UNITS: ,,p' "$here/demo.cc"); do
    n=$((n + 1))
    $CXX $FLAGS $fake -c "$f" -o "$t/$n.o" &
    [ $((n % 8)) = 0 ] && wait
done
$CXX $FLAGS -fno-access-control -I"$here" -I"$repo/src/agent" -c "$here/demo.cc" -o "$t/demo.o" &
wait
$CXX -static -o "$t/demo.exe" "$t"/*.o -ladvapi32 -lshell32 -luser32 || exit 3
export WINEPREFIX=/opt/vp/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree,mshtml=;winemenubuilder.exe=d"
timeout 120 wine "$t/demo.exe" </dev/null >"$t/out" 2>"$t/err"
rc=$?
cat "$t/out"
[ $rc = 0 ] || tail -5 "$t/err"
exit $rc
