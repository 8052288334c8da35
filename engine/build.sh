#!/bin/bash
# Builds the solver-based checker from source.  Usage: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../_build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX="g++ -std=c++20 -O2 $(llvm-config-18 --cppflags) -I$Z/include -w"
pids=()
for f in expr solver normal exec builtins main; do
  if [ ! -f "$out/$f.o" ] || [ -n "$(find "$here" -newer "$out/$f.o" -name '*.[ch]pp' | head -1)" ]; then
    $CXX -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$out/symx.tmp" "$out"/{expr,solver,normal,exec,builtins,main}.o -L$Z/lib -lz3 -Wl,-rpath,$Z/lib $(llvm-config-18 --ldflags --libs) -lpthread
mv "$out/symx.tmp" "$out/symx"
