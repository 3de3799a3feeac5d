#!/bin/bash
# usage: mutate.sh PATCH|SEDEXPR FILE CHECK... : runs checks against a scratch copy of /repo with a change applied
set -e
D=$(mktemp -d /tmp/mut.XXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo/. "$D"/
if [ -f "$1" ]; then git -C "$D" apply "$(realpath "$1")"; shift
else sed -i "$1" "$D/$2"; git -C "$D" diff --stat | tail -1; [ -n "$(git -C "$D" diff)" ] || { echo "no change"; exit 3; }; shift 2; fi
for c in "$@"; do
  MC_REPO=$D MC_BUILD=/tmp/mutbuild MC_EVID=$D/ev MC_REPLAYS=$D/rp python3 /verif/run_check.py $c | grep -v "^C.*executions.*: True" | tail -${TAILN:-4} || true
done
