#!/bin/bash
# Builds the symbolic executor into /verif/build (git-ignored).
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="$D/../build"; mkdir -p "$B"; CXX=/usr/lib/llvm-18/bin/clang++
h=$(cat "$D"/*.cpp "$D"/*.h | sha256sum | cut -c1-16)
[ -x "$B/vpe" ] && [ "$(cat "$B/vpe.stamp" 2>/dev/null)" = "$h" ] && exit 0
$CXX -std=c++17 -O2 -c "$D/expr.cpp" -o "$B/expr.o" & p1=$!
$CXX -std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$D/exec.cpp" -o "$B/exec.o"
wait $p1
$CXX "$B/expr.o" "$B/exec.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$B/vpe.tmp"
mv "$B/vpe.tmp" "$B/vpe"; echo "$h" > "$B/vpe.stamp"
