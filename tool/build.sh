#!/bin/sh
# Builds the exporter into $1 (default /verif/build/rlx).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/rlx}
mkdir -p "$(dirname "$out")"
exec clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$here/rlx.cpp" -o "$out" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
