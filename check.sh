#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds TVM (from the working tree of /repo) and the property's binary, then runs the property.
# exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check could not run.
cd "$(dirname "$0")" || exit 3
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=255:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0:symbolize=1
export UBSAN_OPTIONS=print_stacktrace=1
export ASAN_SYMBOLIZER_PATH=$(command -v llvm-symbolizer-18 || command -v llvm-symbolizer)
OUT=$(python3 harness/build.py asan) || exit 3
ninja -C "$OUT" "$ID" > "$OUT/$ID.log" 2>&1 || { cat "$OUT/$ID.log" | grep -v '^\[' | head -30; echo "build failed"; exit 3; }
mkdir -p evidence
if [ -x "$V/harness/known_$ID.sh" ]; then "$V/harness/known_$ID.sh" "$OUT" || exit 3; fi
BUDGET=420; [ "$TIER" = thorough ] && BUDGET=1500
"$OUT/$ID" --tier "$TIER" --seed "$SEED" --verif "$V" --evidence "$V/evidence/$ID.json" --budget $BUDGET
