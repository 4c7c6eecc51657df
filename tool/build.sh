#!/bin/bash
# Builds the fact extractor (libTooling, clang 18) into /verif/build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build; mkdir -p "$out"
stamp=$(sha256sum "$here/extract.cpp" "$here/build.sh" | sha256sum | cut -c1-16)
[ -x "$out/extract" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ] && exit 0
LL=/usr/lib/llvm-18
flags=$($LL/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')
g++ -std=c++17 -O1 -fno-rtti -w $flags "$here/extract.cpp" -o "$out/extract.tmp" \
    -L$LL/lib -Wl,-rpath,$LL/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$out/extract.tmp" "$out/extract"; echo "$stamp" > "$out/stamp"
