#!/bin/bash
# dev/seed.sh ID [--check]: confirm a planted bug (seeded/ID): applies, builds,
# passes the stable tests, demo fails with it and passes without; with
# --check, only run the property's quick check against it (in /repo).
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; W=/tmp/w/repo
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != --check ]; then
  [ -d $W ] || { mkdir -p /tmp/w; cp -a /repo $W; }
  for p in /repo/packages/*/src; do rsync -a --delete "$p/" "$W/packages/$(basename $(dirname $p))/src/"; done
  (cd $W && git apply "$S/patch.diff") || { echo "NOAPPLY $1"; exit 1; }
  bash "$V/dev/testrepo.sh" $W | head -20
  D=$(mktemp -d /tmp/demo.XXXX); cp "$S"/* $D/; rm -f $D/*.diff $D/meta.json
  bash "$V/dev/ns.sh" $W bash $D/demo.sh >/tmp/demo.bug 2>&1; b=$?
  (cd /repo && bash $D/demo.sh >/tmp/demo.ok 2>&1); o=$?
  rm -rf $D
  echo "demo with bug: $b (want nonzero), without: $o (want 0)"; tail -3 /tmp/demo.bug; [ $o = 0 ] || tail -5 /tmp/demo.ok
fi
[ "$2" = --check ] && { for p in /repo/packages/*/src; do q=$(basename $(dirname $p)); rsync -a --delete "$p/" "$W/packages/$q/src/"; done; (cd $W && git apply "$S/patch.diff"); }
cd $V; timeout 900 bash "$V/dev/ns.sh" $W bash -c "cd $V && node check.mjs $P --tier quick" 2>&1 | grep -v KNOWN-FINDING | cut -c1-300 | tail -4
