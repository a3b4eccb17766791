#!/bin/bash
# nstry.sh SEED [PROP...]: runs the checks of a planted bug in a mount namespace of its own, where copies of /repo and /verif
# stand in for them (authoring aid; the real /repo is not touched)
s=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
D=/tmp/ns.$s; mkdir -p $D/repo $D/verif
(cd /repo && tar cf - --exclude=./target . | tar xf - -C $D/repo)
(cd $V && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C $D/verif)
[ -f $V/seeded/$s/patch.diff ] && git -C $D/repo apply $V/seeded/$s/patch.diff || { [ "$s" = clean ] || { echo "$s: patch does not apply"; rm -rf "$D"; exit 1; }; }
ps="$*"; [ -n "$ps" ] || ps=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
for p in $ps; do
  out=$(nice -n ${NICE:-10} unshare -m bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && VERIF_SEED=${SEED:-1} timeout 1500 python3 run.py $p 2>&1"); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v VIOLATION | tail -3 | cut -c1-300)"
done
rm -rf "$D"
