#!/bin/bash
# builds the AST extractor into /verif/bin/extract (ignored by git)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/../bin"
out="$here/../bin/extract"
if [ -x "$out" ] && [ "$out" -nt "$here/extract.cpp" ]; then exit 0; fi
clang++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include "$here/extract.cpp" \
  -o "$out.tmp$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out.tmp$$" "$out"
