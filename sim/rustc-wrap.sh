#!/bin/bash
# Compile the crates under test (and the scenario code) with an edge callback
# (SanitizerCoverage trace-pc-guard): every edge is a potential preemption
# point of the simulator.  Everything else is compiled unchanged.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  metrix|crossbeam_channel|futures_channel|mxsim)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
