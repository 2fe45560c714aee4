#!/bin/bash
# Nothing to compile: checks the interpreter and that the simulator is
# deterministic (same seed, two processes, other worker count and hash seed).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
A=$(PYTHONHASHSEED=1 ./check C01 quick --digests 24 --variants 3 --workers 2 | grep TOTAL)
B=$(PYTHONHASHSEED=2 ./check C01 quick --digests 24 --variants 3 --workers 5 | grep TOTAL)
[ -n "$A" ] && [ "$A" = "$B" ] || { echo "simulator not deterministic: $A / $B"; exit 1; }
echo "simulator deterministic: $A"
