#!/bin/bash
# Builds the exporter (libTooling, clang 18). Usage: build.sh OUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/slatx}
mkdir -p "$(dirname "$out")"
tmp=$out.$$.tmp
g++ -std=c++17 -O1 -fno-rtti -fno-strict-aliasing -w -I/usr/lib/llvm-18/include "$here/slatx.cpp" -o "$tmp" \
   -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" "$out"
