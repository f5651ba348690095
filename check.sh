#!/bin/bash
# check.sh PROPERTY quick|thorough  -- one property against /repo's working tree
# check.sh replay FILE              -- run a recorded counterexample again
# check.sh setup                    -- build once, to see that it works
V=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap '/bin/rm -rf "$S"' EXIT
if [ -d /opt/vp/gocache ]; then cp -a /opt/vp/gocache "$S/gocache"; else mkdir "$S/gocache"; fi
chmod -R u+w "$S/gocache"
export GOCACHE="$S/gocache" GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local TMPDIR="$S"
(cd "$V/govc" && GOFLAGS=-mod=mod go build -o "$S/govc" .) || { echo "govc does not build"; exit 2; }
case "$1" in
setup) echo "govc builds"; exit 0 ;;
replay) "$S/govc" replay -verif "$V" "$2"; exit $? ;;
*) "$S/govc" check -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"; exit $? ;;
esac
