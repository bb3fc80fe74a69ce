#!/bin/sh
# tools/prof.sh HARNESS.cpp ENTRY[:PART] [engine options]: where a harness entry forks
d=$(cd "$(dirname "$0")/.." && pwd); make -s -C "$d/engine"
h=$1; e=$2; shift 2
clang++-18 -std=c++23 -O1 -Xclang -disable-llvm-passes -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -gline-tables-only -fno-discard-value-names -w -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,enum,bounds,null,float-cast-overflow,builtin -fsanitize-trap=all -DDTL_SYMBOLIC $DEFS -I$d/runtime -I$d/harness -I${DTL_REPO:-/repo}/include -c -emit-llvm "$h" -o /tmp/prof.$$.bc && DTLSYM_FORKPROF=1 "$d/build/dtlsym" /tmp/prof.$$.bc "$d/build/model.bc" $(grep -q "// IO" "$h" && echo "$d/build/model_io.bc") --entry "$e" --max-time ${MAXT:-60} --out /tmp/prof.$$.json "$@"
rm -f /tmp/prof.$$.bc /tmp/prof.$$.json
