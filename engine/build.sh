#!/bin/bash
# Builds the engine into $1 (default: ../build/vpe)
set -e
cd "$(dirname "$0")"; OUT=${1:-../build/vpe}; mkdir -p "$(dirname "$OUT")"
H=$(cat *.cpp *.h *.inc build.sh | sha256sum | cut -c1-32)
[ -x "$OUT" ] && [ "$(cat "$OUT.hash" 2>/dev/null)" = "$H" ] && exit 0
T=$(mktemp -d); CF="-std=c++17 -O2 -fno-exceptions -fno-rtti -w $(llvm-config-18 --cppflags)"
for f in engine expr solver mem; do g++ $CF -c $f.cpp -o $T/$f.o & P="$P $!"; done; for p in $P; do wait $p; done
g++ -rdynamic $T/engine.o $T/expr.o $T/solver.o $T/mem.o -o "$OUT.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -ldl -lpthread
mv "$OUT.tmp.$$" "$OUT"; echo $H > "$OUT.hash"; rm -r "$T"
