#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (puruspe, its two dependencies, and the thin adapter
# through which generic/inline library code is instantiated) with SanitizerCoverage call-outs on every
# control-flow edge, load and store.  These call-outs are the simulator's scheduling points.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  puruspe|lambert_w|num_complex|sut)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
