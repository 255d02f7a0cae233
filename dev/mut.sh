#!/bin/bash
# dev/mut.sh CHECK FILE PYEXPR...: runs a check against a scratch copy of /repo in which FILE has OLD replaced by NEW (env OLD, NEW); leaves /repo alone.
C=$1; F=$2
rsync -a --delete --exclude target --exclude .git /repo/ /tmp/dr/
python3 - "$F" <<'P' || exit 9
import os,sys
p='/tmp/dr/'+sys.argv[1]; s=open(p).read(); o=os.environ['OLD']
assert o in s, 'OLD not found'
open(p,'w').write(s.replace(o, os.environ['NEW'], 1))
P
export VF_REPO=/tmp/dr VF_BUILD=/tmp/drb VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
cd ${VD:-/verif}; timeout 900 ./check $C > /tmp/mut.out 2>&1; echo "$C rc=$?"; grep -v KNOWN /tmp/mut.out | cut -c1-300 | head -${LINES_OUT:-3}
for d in $(ls -d evidence/replay/$C-* | head -2); do head -${W:-6} $d/WHAT.txt | cut -c1-220; done; rm -rf ${VD:-/verif}/evidence/replay/$C-*
