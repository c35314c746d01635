#!/bin/bash
# Runs the repository's Unix adapter on a terminal of its own, with a scripted session (fake.cc) in place of the winpty library.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/gen"
printf 'const char GenVersion_Version[] = "0";\nconst char GenVersion_Commit[] = "none";\n' > "$t/gen/GenVersion.h"
FLAGS="-std=c++11 -O1 -w -fpermissive -D__CYGWIN__ -DWINPTY_STUBS=1 -isystem $here/win -I$t/gen -I$repo/src/include"
n=0
for f in $(sed -n 's,^[ \t]*build/unix-adapter/\(.*\)\.o[ \\]*$,\1,p' "$repo/src/unix-adapter/subdir.mk"); do
    n=$((n + 1))
    m=
    [ "$f" = unix-adapter/main ] && m=-Dmain=adapter_main
    g++ $FLAGS $m -c "$repo/src/$f.cc" -o "$t/$n.o" &
done
g++ $FLAGS -c "$here/fake.cc" -o "$t/fake.o" &
g++ $FLAGS -I"$here" -c "$here/demo.cc" -o "$t/demo.o" &
wait
g++ -Wl,--wrap=write,--wrap=read,--wrap=tcsetattr,--wrap=pthread_join -o "$t/demo" "$t"/*.o -lpthread -lutil || exit 3
cd "$t" && timeout 120 ./demo </dev/null
