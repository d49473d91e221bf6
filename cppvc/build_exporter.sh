#!/bin/bash
# Builds the exporter into $1 (default /verif/build/exporter).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/exporter}
mkdir -p "$(dirname "$out")"
g++ -O0 -std=c++17 -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-20/include "$here/exporter.cpp" -o "$out.tmp$$" -w \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.20.1 -L/usr/lib/llvm-20/lib -lLLVM-20 -fuse-ld=lld -Wl,-rpath,/usr/lib/llvm-20/lib
mv -f "$out.tmp$$" "$out"
