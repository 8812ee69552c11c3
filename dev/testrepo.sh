#!/bin/bash
# dev/testrepo.sh DIR: build + stable tests of the scratch copy DIR
rm -f "$1.json"
bash "$(dirname "$0")/ns.sh" "$1" bash /opt/vp/test.sh "$1.json" > "$1.log" 2>&1
python3 - "$1.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=b-set(o['passed'])
print("stable missing:",len(m)); [print("  ",x) for x in sorted(m)[:15]]
sys.exit(1 if m else 0)
P
