#!/bin/bash
# Instruments the code under test and the code it is monomorphised into (one callback per
# basic block, where the simulator may preempt); everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  rustica|rsim|rsim_pvec) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
