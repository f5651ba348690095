#!/bin/bash
# runseed.sh ID...: applies each planted bug to a copy of /repo and runs its
# property's quick check (and any further ones in $ALSO) against the copy.
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export GOCACHE=${GOCACHE_DEV:-/tmp/gocache} TMPDIR=/tmp
[ -x /tmp/govc ] || exit 2
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  S=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo "$S/repo"
  git -C "$S/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; /bin/rm -rf "$S"; continue; }
  for q in $p $ALSO; do
    t0=$SECONDS
    GOFLAGS= timeout 900 /tmp/govc check -out "$S" -verif "$V" -repo "$S/repo" -prop $q -tier ${TIER:-quick} > "$S/out" 2>&1
    rc=$?
    echo "$id $q rc=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION "$S/out")"
    python3 - "$S/replays/$q.json" <<'EOF'
import json, sys
try:
    d = json.load(open(sys.argv[1]))
except OSError:
    sys.exit()
print('  |', ', '.join(x.split(': ')[-1] for x in d.get('failed_obligations') or []), '|', {k: d[k] for k in ('search', 'label', 'harness', 'mode') if d.get(k)})
EOF
    if [ -n "$VERBOSE" ]; then tail -15 "$S/out"; fi
  done
  /bin/rm -rf "$S"
done
