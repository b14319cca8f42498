#!/bin/bash
# build.sh OUT: compile the flattening tool
clang++ -O1 -std=gnu++17 -fno-rtti -fexceptions "$(dirname "$0")/k52ir.cpp" -o "$1" -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -L/usr/lib/llvm-18/lib -lLLVM-18
