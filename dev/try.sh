#!/bin/bash
# dev/try.sh ID CHECK...: runs checks against a scratch copy of /repo with seeded/ID applied, mounted on /repo.
ID=$1; shift; W=/tmp/st-$ID
rm -rf "$W"; mkdir -p "$W"; git -C /repo worktree prune; git clone -q /repo "$W/repo"; cp -a /verif "$W/verif"
[ "$ID" = clean ] || git -C "$W/repo" apply /verif/seeded/$ID/patch.diff || exit 1
unshare -Urm bash -c "mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif; for c in $*; do timeout 900 ./check \$c > $W/o 2>&1; echo \"$ID \$c rc=\$?\"; cut -c1-300 $W/o | grep -v KNOWN | head -${LINES_OUT:-6}; done"
rm -rf "$W"
