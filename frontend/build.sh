#!/bin/bash
# build.sh OUT : compiles the AST dumper against the installed LLVM 18
set -e
here=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18
F=$($L/bin/llvm-config --cxxflags | sed 's/-O[0-9s]//; s/-DNDEBUG//; s/-std=[^ ]*//')
exec clang++ -O1 -std=c++17 -fno-rtti $F -w "$here/dump.cpp" -o "$1" -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
