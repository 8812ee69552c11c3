#!/bin/bash
# dev/ns.sh DIR CMD...: run CMD with DIR bound over /repo (private mount
# namespace), so that scratch copies can be built and tested in place.
D=$1; shift
mkdir -p "$D.reports" "$D.cache"
exec unshare -m bash -c 'mount --bind "$0" /repo && mount --bind "$0.reports" /opt/vp/reports && cd /repo && exec "$@"' "$D" "$@"
