#!/bin/bash
# builds the symbolic executor into the directory given (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3.h ]; then ZF="-I$Z/include -L$Z/lib -l:libz3.so -Wl,-rpath,$Z/lib"; else ZF="-lz3"; fi
tmp=$out/qsym.$$
g++ -std=c++17 -O2 -g1 -fno-rtti -o $tmp $here/qsym.cpp $here/expr.cpp -I/usr/lib/llvm-18/include -L/usr/lib/llvm-18/lib -lLLVM-18 $ZF -lpthread
mv $tmp $out/qsym
