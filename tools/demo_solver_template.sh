#!/bin/bash
# Compiles demo.cpp, with stand-ins for the third-party solvers, against the TVM library built in the current directory and runs it
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
I="-I$PWD/include -I$PWD/_build/include -I$PWD/3rd-party -I$H/stubs -I$H -isystem /usr/include/eigen3"
for f in demo.cpp; do g++ -std=c++17 -g -w $I -c "$H/$f" -o "$T/$f.o" & done
for f in LSSOLLeastSquareSolver LexLSHierarchicalLeastSquareSolver; do g++ -std=c++17 -g -w $I -c "$PWD/src/solver/$f.cpp" -o "$T/$f.o" & done
g++ -std=c++17 -g -w $I -c "$H/stubs/backend.cpp" -o "$T/backend.o" &
wait
g++ "$T"/*.o -o "$T/demo" -L"$PWD/_build/src" -lTVM_d -Wl,-rpath,"$PWD/_build/src" || exit 2
cd "$T" && ./demo
