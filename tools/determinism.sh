#!/bin/bash
# The simulator's own determinism: the same seeds, run with 1, 3 and 8 worker
# processes (and so under different load, in different processes and in a
# different order), must give identical run hashes. A run's hash covers every
# context switch with its position and virtual time and everything recorded.
# usage: determinism.sh [runs] [property...]
here="$(cd "$(dirname "$0")/.." && pwd)"
runs="${1:-300}"; shift
"$here/build.sh" || exit 2
bin="${MXSIM_TARGET:-$here/target}/debug/mxsim"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 2
rc=0
for p in ${@:-$(seq -f 'C%02g' 1 23)}; do
  for n in 1 3 8; do
    "$bin" search "$p" --seed 77 --runs "$runs" --secs 600 --workers $n --collect --replays "$w" >out.txt 2>&1 || { echo "$p: exit $?"; rc=1; tail -2 out.txt; }
    mv hashes.txt h$n
  done
  if cmp -s h1 h3 && cmp -s h1 h8 && [ "$(wc -l <h1)" = "$runs" ]; then
    echo "$p: $runs runs identical with 1, 3 and 8 workers ($(cut -d' ' -f2 h1 | sort -u | wc -l) distinct)"
  else
    echo "$p: DIFFERENT ($(diff h1 h3 | grep -c '^<') runs differ between 1 and 3 workers, $(diff h1 h8 | grep -c '^<') between 1 and 8)"; rc=1
    diff h1 h8 | head -4
  fi
done
exit $rc
