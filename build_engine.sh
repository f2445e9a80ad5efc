#!/bin/bash
# build_engine.sh OUTDIR: the symbolic engine
set -e
here=$(cd "$(dirname "$0")" && pwd)/engine
out=$1; mkdir -p "$out/eng"
for f in main exec module; do
  if [ ! -e "$out/eng/$f.o" ] || [ -n "$(find "$here" -newer "$out/eng/$f.o" -name '*.?pp' | head -1)" ]; then
    g++ -O2 -std=c++20 -c "$here/$f.cpp" -o "$out/eng/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$out"/eng/{main,exec,module}.o -o "$out/symir.tmp" -lz3 -lpthread && mv "$out/symir.tmp" "$out/symir"
