#!/bin/bash
# against.sh BUG CHECK...: runs checks on a scratch copy of /repo with a planted bug applied
B=$1; shift
T=/tmp/rw
[ -d $T ] || cp -a /repo $T
git -C $T checkout -q -- . ; git -C $T fetch -q /repo HEAD && git -C $T reset -q --hard FETCH_HEAD
git -C $T apply /verif/seeded/$B/patch.diff || exit 3
cd ${VV:-/verif}
for c in "$@"; do VERIF_TREE=$T VERIF_REPLAYS=/tmp/rp VERIF_EVIDENCE=/tmp/ev python3 check.py $c quick 2>&1 | tr '\r' '\n' | grep -a "VIOL\|quick:\|^[a-z-]*:" | cut -c1-250; done
git -C $T checkout -q -- .
