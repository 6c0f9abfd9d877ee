#!/bin/bash
# Build the symbolic execution engine into $1 (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-std=gnu++17 -O2 -w -I$Z/include"
clang++-18 $F -c "$here/expr.cpp" -o "$out/expr.$$.o" &
a=$!
clang++-18 $F -fno-rtti $(llvm-config-18 --cppflags) -I$Z/include -c "$here/symx.cpp" -o "$out/symx.$$.o"
wait $a
clang++-18 "$out/expr.$$.o" "$out/symx.$$.o" -o "$out/symx.$$" $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
mv "$out/symx.$$" "$out/symx"
rm -f "$out/expr.$$.o" "$out/symx.$$.o"
