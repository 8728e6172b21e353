#!/bin/bash
# plant.sh ID [--notest] [PROPERTIES...]: try the planted bug seeded/ID in a scratch copy of /repo
# (bind-mounted over /repo in a private mount namespace), then run the given checks on it.
ID=$1; shift
NT=; [ "$1" = --notest ] && { NT=1; shift; }
PL=/tmp/pl-$ID
if [ -z "$IN_NS" ]; then
  rm -rf "$PL"; cp -a /repo "$PL" && rm -rf "/tmp/vv-$ID" && cp -a /verif "/tmp/vv-$ID"
  IN_NS=1 unshare -Urm bash "$0" "$ID" ${NT:+--notest} "$@"; rc=$?
  rm -rf "$PL" "/tmp/vv-$ID"; exit $rc
fi
S=/tmp/vv-$ID/seeded/$ID
mount --bind "$PL" /repo || exit 3
mount --bind "/tmp/vv-$ID" /verif || exit 3
cd /repo; git checkout -q -- .; git clean -fdq
L=/tmp/plant-$ID.log; : > $L
bash /opt/vp/build.sh >> $L 2>&1 || { echo "$ID base build failed"; exit 3; }
bash $S/demo.sh >> $L 2>&1; d0=$?
git apply $S/patch.diff || exit 3
bash /opt/vp/build.sh >> $L 2>&1 || { echo "$ID patched build FAILED"; tail -30 $L; exit 3; }
bash $S/demo.sh >> $L 2>&1; d1=$?
echo "$ID demo: unchanged=$d0 patched=$d1"
if [ -z "$NT" ]; then
  bash /opt/vp/test.sh /tmp/pt-$ID.json >> $L 2>&1
  python3 - $ID <<'P'
import json,sys
a=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/pt-%s.json'%sys.argv[1]))
m=[t for t in a['stable'] if t not in set(o['passed'])]
print(sys.argv[1],'stable tests lost:',len(m),m[:5])
P
fi
for p in "$@"; do python3 /verif/check.py $p 2>&1 | cut -c1-260 | tail -6; done
