#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}; mkdir -p "$OUT"
sum=$(cat symx.cpp smt.cpp poly.cpp smt.h poly.h build.sh | sha256sum | cut -c1-16)
if [ -x "$OUT/symx" ] && [ "$(cat "$OUT/symx.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
F="-O2 -w -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
T=$(mktemp -d "$OUT/b.XXXXXX")
for f in symx smt poly; do g++ $F -c $f.cpp -o "$T/$f.o" & done; wait
g++ "$T/symx.o" "$T/smt.o" "$T/poly.o" -rdynamic -o "$T/symx" -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp -ldl -lpthread
mv "$T/symx" "$OUT/symx"; rm -f "$T"/*.o; rmdir "$T"; echo "$sum" > "$OUT/symx.sum"
