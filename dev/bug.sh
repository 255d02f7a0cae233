#!/bin/bash
# dev/bug.sh ID [notest]: validates /verif/seeded/ID in a scratch copy mounted on /repo (private mount namespace).
# Prints: demo on clean tree, demo with patch, existing tests with patch.
ID=$1; S=/verif/seeded/$ID; W=/tmp/sb-$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; cp -r "$S" "$W/demo"
cat > "$W/in.sh" <<EOF
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp
cd /repo
git checkout -q -- . ; bash $W/demo/demo.sh > $W/clean.log 2>&1; echo "clean demo rc=\$?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh > $W/build.log 2>&1; echo "build rc=\$?"
bash $W/demo/demo.sh > $W/patched.log 2>&1; echo "patched demo rc=\$?"; tail -2 $W/patched.log | cut -c1-300
if [ "$2" != notest ]; then bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1; head -1 $W/test.log
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
base=set(b.get('passed') or b.get('tests') or b.get('stable') or [])
print('missing from passed:', len(base-set(o['passed'])), sorted(base-set(o['passed']))[:4])
PY
fi
EOF
unshare -Urm bash "$W/in.sh"
rm -rf "$W"
