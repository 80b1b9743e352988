#!/bin/bash
# Builds the engine: build/llsym
set -e
cd "$(dirname "$0")"
mkdir -p ../build
[ ../build/llsym -nt main.cpp ] && [ ../build/llsym -nt expr.h ] && exit 0
L=/usr/lib/llvm-18
clang++-18 -O2 -g1 -std=c++17 -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -Wall -Wno-unused main.cpp -o ../build/llsym.tmp -L$L/lib -Wl,-rpath,$L/lib -lLLVM-18 -lz3 -lpthread 2>&1 | grep -v "^$" || true
mv ../build/llsym.tmp ../build/llsym
