#!/bin/bash
# builds the analysis engine into $1 (default /verif/engine/bin)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/bin}; mkdir -p "$O"
CXX=g++
$CXX -std=c++17 -O2 -fexceptions -w -I"$(llvm-config --includedir)" -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/main.cpp" -o "$O/engine.tmp" $(llvm-config --ldflags --libs core irreader support) -l:libgmpxx.a -l:libgmp.a -pthread
mv "$O/engine.tmp" "$O/engine"
