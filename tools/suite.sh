#!/bin/bash
# usage: suite.sh SEED_ID...  : apply all these planted bugs together in /tmp/wt and run the repository's stable tests there
WT=/tmp/wt
V=$(cd "$(dirname "$0")/.." && pwd)
git -C $WT checkout -q -- . && git -C $WT fetch -q /repo HEAD && git -C $WT reset -q --hard FETCH_HEAD
for s in "$@"; do git -C $WT apply "$V/seeded/$s/patch.diff" || echo "NOAPPLY $s"; done
sed -e "s#cd /repo#cd $WT#; s#PYTHONPATH=/opt/vp#PYTHONPATH=$WT:/opt/vp#; s#REPORTS=/opt/vp/reports#REPORTS=/tmp/wt_reports#" /opt/vp/test.sh >/tmp/wt_test.sh
bash /tmp/wt_test.sh /tmp/wt_out.json >/tmp/wt_test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/wt_out.json'))['passed'])
miss=[x for x in b if x not in p]
print('stable tests missing:',len(miss)); print('\n'.join(miss[:25]))
PY
git -C $WT checkout -q -- .
