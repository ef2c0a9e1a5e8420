#!/bin/bash
# builds the symbolic executor: engine/build.sh OUT
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -g1 -w -fno-strict-aliasing -I/usr/lib/llvm-18/include -I$Z/include symex.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lpthread
