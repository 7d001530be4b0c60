#!/bin/bash
# Builds the exporter into $1 (default: /verif/.cache/mcx)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.cache/mcx}
mkdir -p "$(dirname "$out")"
tmp=$(mktemp "$(dirname "$out")/mcx.XXXXXX")
clang++ -O1 -fno-rtti -std=c++17 -Wno-deprecated -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/mcx.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$tmp" "$out"
