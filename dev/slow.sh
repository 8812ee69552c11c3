#!/bin/bash
# dev/slow.sh PID [args]: slowest cases of a check
cd "$(dirname "$0")/.."
node check.mjs "$@" -v > /tmp/slow.txt 2>&1
grep -v '^[A-Za-z0-9_-]*#[0-9]' /tmp/slow.txt | grep -v '^ *incomplete:' | cut -c1-700 | head -${M:-25}
grep '^ *incomplete:' /tmp/slow.txt | sed -E 's/.*#[0-9]+: //; s/optique-sx-[A-Za-z0-9]+//g' | cut -c1-420 | sort | uniq -c | sort -rn | head -6
grep '^[A-Za-z0-9_-]*#[0-9]' /tmp/slow.txt | sed -E 's/(.* solver=[0-9]+ms )([0-9]+)(ms.*)/\2 \1\2\3/' | sort -rn | cut -c1-180 | head -${N:-6}
