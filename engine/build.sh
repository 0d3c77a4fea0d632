#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="${1:-$D/../build/engine}"; mkdir -p "$O"
INC="$(llvm-config-18 --includedir)"
( g++ -O2 -std=c++17 -w -c "$D/expr.cc" -o "$O/expr.o" ) & P=$!
g++ -O2 -std=c++17 -w -fno-rtti -I"$INC" -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$D/symex.cc" -o "$O/symex.o"
wait $P
g++ "$O/symex.o" "$O/expr.o" -o "$O/symex" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3
g++ -O1 -std=c++17 -w "$D/selftest.cc" "$O/expr.o" -o "$O/selftest" -lz3
"$O/selftest" 300
