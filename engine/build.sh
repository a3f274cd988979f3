#!/bin/bash
# builds the symbolic executor into /verif/.build (offline, installed LLVM 18 + Z3 only)
set -e
cd "$(dirname "$0")"
mkdir -p ../.build
CXX=clang++
F="-std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-unused-function"
$CXX $F -c expr.cpp -o ../.build/expr.o &
$CXX ${F/-fno-rtti/} -c vk.cpp -o ../.build/vk.o &
wait %1; wait %2
$CXX ../.build/expr.o ../.build/vk.o -o ../.build/vk.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv ../.build/vk.tmp ../.build/vk
