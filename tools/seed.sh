#!/bin/bash
# tools/seed.sh <id> [notest] [check...]: verify a planted bug in a scratch copy bind-mounted over /repo (private mount namespace)
[ -z "$SEEDNS" ] && { S=$(mktemp -d /tmp/sr.XXXX); cp -a /repo $S/repo; SEEDNS=$S unshare -m bash "$0" "$@"; rc=$?; rm -rf "$S"; exit $rc; }
mount --bind $SEEDNS/repo /repo || exit 9
ID=$1; shift; D=/verif/seeded/$ID; NT=; [ "$1" = notest ] && { NT=1; shift; }
cp -r $D $SEEDNS/demo; cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh > $SEEDNS/b0.log 2>&1 || { echo "base build failed"; tail -5 $SEEDNS/b0.log; exit 1; }
timeout 300 bash $SEEDNS/demo/demo.sh > $SEEDNS/d0.log 2>&1; r0=$?
[ $r0 = 0 ] || { echo "DEMO FAILS ON CLEAN ($r0)"; tail -5 $SEEDNS/d0.log; exit 1; }
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $SEEDNS/b1.log 2>&1 || { echo "patched build failed"; grep -i error $SEEDNS/b1.log | head; exit 1; }
timeout 300 bash $SEEDNS/demo/demo.sh > $SEEDNS/d1.log 2>&1; r1=$?
echo "$ID demo clean=$r0 patched=$r1: $(tail -1 $SEEDNS/d1.log)"
if [ -z "$NT" ]; then bash /opt/vp/test.sh $SEEDNS/t.json > /dev/null 2>&1; python3 - $SEEDNS/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
print("tests:", "all stable pass" if b<=set(t["passed"]) else "BROKEN %s"%(b-set(t["passed"])))
P
fi
for c in $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])") "$@"; do
  (cd /verif && VERIF_SEED=1 timeout 900 python3 check.py $c > $SEEDNS/c.log 2>&1; echo "$ID check $c rc=$? $(grep -c ^VIOLATION $SEEDNS/c.log) $(tail -1 $SEEDNS/c.log | cut -c1-200)"; grep -v "^VIOL" $SEEDNS/c.log | head -4 | cut -c1-220)
done
