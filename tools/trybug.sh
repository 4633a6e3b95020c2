#!/bin/bash
# trybug.sh <id> [notest] [nocheck] : confirm a planted bug of $SRCV/seeded/<id> in a private mount namespace (copies of /repo and /verif)
id=$1; shift; opts=" $* "
SRCV=${SRCV:-/verif}; SRCR=${SRCR:-/repo}; S=/tmp/bugs/$id; rm -rf "$S"; mkdir -p "$S"
cp -a $SRCR "$S/repo"; mkdir "$S/verif" "$S/demo"
tar -C $SRCV --exclude=./build --exclude=./seeded --exclude=./.git --exclude=./replays -cf - . | tar -C "$S/verif" -xf -
cp $SRCV/seeded/$id/* "$S/demo/"; rm -f "$S/demo/"*.diff "$S/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$SRCV/seeded/$id/meta.json'))['property'])")
export SRCV S id opts prop
unshare -Urm bash -c '
mount --bind $S/repo /repo; cd /repo
exec 2>$S/err
bash /opt/vp/build.sh >$S/build0.log 2>&1 || echo "$id: base build failed"
timeout 300 bash $S/demo/demo.sh >$S/demo0.log 2>&1; echo "$id: demo on base rc=$?"
git apply $SRCV/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/build.sh >$S/build1.log 2>&1 || echo "$id: patched build FAILED"
timeout 300 bash $S/demo/demo.sh >$S/demo1.log 2>&1; echo "$id: demo on patch rc=$?"
if [[ $opts != *" notest "* ]]; then bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1
python3 - <<P
import json
s=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=json.load(open("$S/t.json"))["passed"]
m=sorted(s-set(p)); print("$id: stable tests missing:",len(m),m[:5])
P
fi
if [[ $opts != *" nocheck "* ]]; then mount --bind $S/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop quick >$S/check.log 2>&1; echo "$id: check $prop rc=$? $(grep -m1 VIOLATION $S/check.log)"; fi
'
[[ $opts == *" keep "* ]] || rm -rf "$S/repo" "$S/verif"
