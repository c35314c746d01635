#!/bin/bash
# Builds the library's own sources against a scripted stand-in for the Windows calls and runs the scenario in demo.cc.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
CXX=x86_64-w64-mingw32-g++-posix
FLAGS="-std=c++11 -O1 -w -DCOMPILING_WINPTY_DLL -D_WIN32_WINNT=0x0600 -DUNICODE -D_UNICODE -DNOMINMAX -I$repo/src/include -I$repo/build/gen -I$repo/src/gen"
cd "$repo/src" || exit 3
n=0
for f in libwinpty/*.cc shared/{BackgroundDesktop,Buffer,DebugClient,GenRandom,OwnedHandle,StringUtil,WindowsSecurity,WindowsVersion,WinptyAssert,WinptyException,WinptyVersion}.cc; do
    n=$((n + 1))
    $CXX $FLAGS -include "$here/fakewin.h" -c "$f" -o "$t/$n.o" &
    [ $((n % 8)) = 0 ] && wait
done
$CXX $FLAGS -c "$here/fakewin.cc" -o "$t/fake.o" &
$CXX $FLAGS -I"$here" -c "$here/demo.cc" -o "$t/demo.o" &
wait
$CXX -static -o "$t/demo.exe" "$t"/*.o -ladvapi32 -lshell32 -luser32 || exit 3
export WINEPREFIX=/opt/vp/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree,mshtml=;winemenubuilder.exe=d"
timeout 120 wine "$t/demo.exe" </dev/null >"$t/out" 2>"$t/err"
rc=$?
cat "$t/out"
[ $rc = 0 ] || tail -5 "$t/err"
exit $rc
