#!/bin/bash
# apply each planted bug to /repo in turn, run its property's quick check, undo;
# prints the exit code, the time, how many obligations were refuted and whether an input failed natively
cd /verif; mkdir -p /tmp/w
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=${id%%-*}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  rm -f /verif/replay/$p.json
  timeout 900 python3-vt check.py $p quick > /tmp/w/run.$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(( $(date +%s)-s ))s $(python3 - $p <<'P'
import json,sys
try:
    r=json.load(open('/verif/replay/%s.json'%sys.argv[1]))
    fo=r.get('failed_obligations') or []
    print('refuted=%d undecided=%d native=%s'%(len(fo),len(r.get('undecided') or []),'yes' if r['kind'].startswith('failing') else 'no'), (fo[0]['obligation'][:70] if fo else ''))
except Exception as e: print('no replay')
P
)"
done
