#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
F="-O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include"
pids=()
for f in mem exec calls loops main; do g++ $F -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!); done
g++ -O2 -std=c++17 -c "$here/expr.cpp" -o "$out/expr.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ "$out"/{mem,exec,calls,loops,main,expr}.o -o "$out/symduma.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$out/symduma.tmp" "$out/symduma"
