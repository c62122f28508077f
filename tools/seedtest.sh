#!/bin/bash
# seedtest.sh ID [PROPERTY...]: builds a copy of /repo with the seeded change in a mount namespace of its own, runs
# the tests and the demonstration there (and before the change) and then the given checks (default: the one of meta.json).
ID=$1; shift
D=/verif/seeded/$ID
C=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$C"' EXIT
cp -a /repo "$C/repo"
cp -a "$D" "$C/demo"
rm -f "$C"/demo/*.diff "$C"/demo/meta.json
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
unshare -Urm bash -c '
C=$1; D=$2; shift 2
mount --bind $C/repo /repo || exit 9
cd /repo
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >$C/b0 2>&1 || { echo "BASE BUILD FAILED"; tail -5 $C/b0; exit 9; }
timeout 300 bash $C/demo/demo.sh >$C/d0 2>&1 && echo "demo base: ok" || { echo "DEMO FAILS ON BASE"; tail -5 $C/d0; }
fi
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >$C/b1 2>&1 || { echo "BUILD FAILED"; tail -20 $C/b1; exit 9; }
bash /opt/vp/test.sh $C/t.json >$C/t1 2>&1
python3 -c "
import json;b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"$C/t.json\"))
base=b.get(\"passed\") or b.get(\"stable\") or b
print(\"tests: %d passed, failed %s\" % (len(t[\"passed\"]), t[\"failed\"]))"
timeout 300 bash $C/demo/demo.sh >$C/d1 2>&1 && { echo "DEMO PASSES WITH THE CHANGE"; tail -3 $C/d1; } || { echo "demo with change: fails"; tail -2 $C/d1; }
fi
mkdir -p $C/v; cp -a /verif/*.py /verif/src /verif/known_findings.txt $C/v/
for p in $*; do
  s=$(date +%s)
  (cd $C/v && timeout 900 python3 check.py $p ${TIER:-quick} >$C/c 2>$C/ce); r=$?
  echo "check $p: rc=$r $(( $(date +%s) - s ))s $(grep -m1 -B3 VIOLATION $C/c | head -c 600)"; [ $r -ge 2 ] && tail -3 $C/ce
done
' _ "$C" "$D" $PROPS
