#!/bin/bash
# builds the AST extractor into /verif/build/extract-<source hash>; a no-op when it is already there
set -e
cd "$(dirname "$0")"
H=$(sha256sum extract.cc | cut -c1-16)
B=../build; mkdir -p $B
[ -x $B/extract-$H ] && exit 0
T=$B/.extract-$H.$$
L=/usr/lib/llvm-18/lib
env -u LD_LIBRARY_PATH /usr/bin/g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include extract.cc -o $T \
   $L/libclang-cpp.so.18.1 $L/libLLVM-18.so -Wl,-rpath,$L
mv $T $B/extract-$H
