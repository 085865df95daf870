#!/bin/bash
# trybug.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo: builds, stable tests pass, demo 0 without and
# nonzero with the patch. Uses /tmp/rw (created when missing, removed with "trybug.sh clean").
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); B=$V/seeded/$ID
. /opt/vp/env.sh
[ -d /tmp/rw ] || cp -a /repo /tmp/rw
cd /tmp/rw && git checkout -q -- . && git clean -fdq && git checkout -q --detach "$(git -C /repo rev-parse HEAD)" 2>/dev/null || { git fetch -q /repo && git checkout -q --detach FETCH_HEAD; }
D=/tmp/rw.demo; mkdir -p $D; find $D -mindepth 1 -delete; cp -r $B/. $D/; find $D -name '*.diff' -delete
timeout 300 bash $D/demo.sh >/tmp/rw.clean.log 2>&1; echo "demo clean rc=$?"
git apply --check $B/patch.diff && git apply $B/patch.diff || exit 1
go build $PKGS || exit 1
timeout 300 bash $D/demo.sh >/tmp/rw.bug.log 2>&1; echo "demo patched rc=$?"
tail -5 /tmp/rw.bug.log | cut -c1-200
if [ "$2" != nocheck ]; then
  export TDEX_NETWORK=regtest TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001 TDEX_LOG_LEVEL=5 TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225 TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000
  W=$(mktemp -d); export TDEX_DATA_DIR_PATH=$W/daemon TDEX_OPERATOR_DATADIR=$W/operator TMPDIR=$W/tmp; mkdir -p $TMPDIR
  go test -json -vet=off -count=1 -timeout 10m $PKGS > /tmp/rw.log.json 2>/dev/null
  python3 /opt/vp/results.py /tmp/rw.out.json gojson:/tmp/rw.log.json >/dev/null
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rw.out.json'))
def passed(x):
    for k in('passed','pass','stable'):
        if k in x:return set(map(str,x[k]))
    return {k for k,v in x.get('tests',x).items() if v in('pass','passed')}
try:
    m=passed(b)-passed(o); print('stable tests broken:',len(m),sorted(m)[:5])
except Exception as e: print('compare',e,list(b)[:5],list(o)[:5])
P
  find $W -delete
fi
git checkout -q -- .; git clean -fdq
