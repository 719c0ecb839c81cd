#!/bin/bash
# Builds the library under test and every property's binary (each check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 3
OUT=$(python3 harness/build.py asan) || exit 3
ninja -C "$OUT" > "$OUT/setup.log" 2>&1 || { tail -50 "$OUT/setup.log"; exit 3; }
