#!/bin/bash
# Builds the symbolic engine into /verif/build (not committed).
set -e
cd "$(dirname "$0")"
B=../build; mkdir -p $B
LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
CXX=${CXX:-g++}
sum=$(cat *.cpp *.h rt.c | sha256sum)
if [ -f $B/libsymx.so ] && [ -f $B/rt.bc ] && [ "$sum" = "$(cat $B/stamp 2>/dev/null)" ]; then exit 0; fi
exec 9>$B/lock; flock 9
if [ -f $B/libsymx.so ] && [ -f $B/rt.bc ] && [ "$sum" = "$(cat $B/stamp 2>/dev/null)" ]; then exit 0; fi
pids=()
for f in expr solver x86 api; do $CXX -std=c++17 -O2 -fPIC -w -c $f.cpp -o $B/$f.o & pids+=($!); done
$CXX $($LC --cxxflags) -fexceptions -O2 -fPIC -w -c llvmexec.cpp -o $B/llvmexec.o & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
$CXX -shared -o $B/libsymx.so $B/{expr,solver,x86,api,llvmexec}.o $($LC --ldflags) -lLLVM-18 -lz3
CL=$(command -v clang-18 || echo /usr/lib/llvm-18/bin/clang)
$CL -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w -emit-llvm -c rt.c -o $B/rt.bc
echo "$sum" > $B/stamp
