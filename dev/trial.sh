#!/bin/bash
# dev/trial.sh SPEC.py : make the planted bugs of a spec, confirm each, drop the ones that do not count
cd "$(dirname "$0")/.."
for id in $(python3 dev/mkseed.py $1 | grep -E '^[A-Z][0-9]+-'); do
  [ -n "$2" ] && [[ " $2 " != *" $id "* ]] && { git checkout -q -- seeded/$id 2>/dev/null || rm -rf "/verif/seeded/$id"; continue; }
  echo "=== $id"; out=$(bash dev/seed.sh $id 2>&1); echo "$out" | cut -c1-250 | tail -8
  if ! echo "$out" | grep -q "stable missing: 0" || echo "$out" | grep -q "with bug: 0\|without: [1-9]"; then echo "DROP $id"; rm -rf "/verif/seeded/$id"; fi
done
