#!/bin/bash
# rustc wrapper: instruments the library under test and the workload (which instantiates its generics) with a callback
# per basic block; everything else, the simulator's runtime above all, is compiled plainly.
real="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  stroke|strokesim)
    exec "$real" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
  *) exec "$real" "$@" ;;
esac
