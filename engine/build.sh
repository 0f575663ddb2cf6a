#!/bin/bash
# Build the symbolic executor.  Usage: build.sh OUTDIR
set -e
cd "$(dirname "$0")"; OUT=${1:?}; mkdir -p "$OUT"
Z3=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
FL="-std=c++17 -O2 -g0 -fexceptions -Wno-misleading-indentation -I$Z3/include $(llvm-config-18 --cppflags)"
pids=()
for f in expr mem solver exec link; do g++ $FL -c $f.cpp -o "$OUT/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ -O2 "$OUT"/{expr,mem,solver,exec,link}.o -o "$OUT/sx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$OUT/sx.tmp" "$OUT/sx"
