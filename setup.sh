#!/bin/bash
# Builds the symbolic executor and its runtime (nothing here depends on /repo).
set -e
cd "$(dirname "$0")"
mkdir -p build
T=$(mktemp -d build/tmp.XXXXXX)
trap 'rm -rf "$PWD/$T"' EXIT
g++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  engine/engine.cpp -c -o "$T/engine.o" & P1=$!
g++ -std=c++17 -O2 engine/expr.cpp -c -o "$T/expr.o" & P2=$!
clang++-18 -std=c++17 -O1 -w -fno-builtin -fno-access-control -fno-vectorize -fno-slp-vectorize -emit-llvm -c rt/rt.cpp -o "$T/rt.bc" & P3=$!
wait $P1; wait $P2; wait $P3
g++ "$T/engine.o" "$T/expr.o" -o "$T/symx" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$T/rt.bc" build/rt.bc
mv "$T/symx" build/symx
echo "built build/symx build/rt.bc"
