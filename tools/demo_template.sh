#!/bin/bash
# Compiles demo.cpp against the TVM library built in the current directory and runs it
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -w -I"$PWD/include" -I"$PWD/_build/include" -I"$PWD/3rd-party" -isystem /usr/include/eigen3 "$H/demo.cpp" -o "$T/demo" -L"$PWD/_build/src" -lTVM_d -Wl,-rpath,"$PWD/_build/src" || exit 2
cd "$T" && ./demo
