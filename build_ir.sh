#!/bin/bash
# build_ir.sh OUTDIR: harness + latex-ast (from /repo) to one LLVM module, OUTDIR/r.ll
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; mkdir -p "$out"
tc=stable-x86_64-unknown-linux-gnu
export RUSTUP_TOOLCHAIN=$tc CARGO_TARGET_DIR="$out/ir" CARGO_NET_OFFLINE=true
cd "$here/harness"
RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp" cargo rustc --release --offline --lib --crate-type cdylib -- --emit=llvm-ir >"$out/ir.log" 2>&1 || { grep -E '^error' -A8 "$out/ir.log"; exit 1; }
opt=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
ll=$(ls -t "$out"/ir/release/deps/harness*.ll | head -1)
python3 "$here/tools/inlined.py" "$ll" "$out/r.fns"
entries=$(grep -oE '^define [^@]*@p_[a-z0-9_]+' "$ll" | sed 's/.*@//' | paste -sd,)
$opt -S -strip-debug -passes='internalize,globaldce,function(lower-invoke,simplifycfg),globaldce' -internalize-public-api-list="$entries" "$ll" -o "$out/r.ll"
