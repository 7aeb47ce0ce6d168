#!/bin/bash
# tools/pytry.sh HARNESS PROP N [SEED] : run N cases of a Python property in one process
b=/verif/build/py; cd /verif/build; j=$(mktemp)
PYTHONPATH=$b LD_LIBRARY_PATH=$b PYTHONHASHSEED=0 OMP_NUM_THREADS=${OMP:-1} OMP_WAIT_POLICY=passive PBT_SLOW=${SLOW:-5} PBT_KNOWN=$PBT_KNOWN \
 /usr/bin/python3 -B /verif/harness/py/$1.py run $2 ${4:-1} ${FROM:-0} $3 $j | python3 -c "
import sys,json
t=sys.stdin.read()
try:
    d=json.loads(t); d['nontrivial']=len(d['nontrivial']); f=d.pop('fail'); print({k:v for k,v in d.items() if k!='samples'})
    if f: f['choices']=len(f['choices']); print('FAIL',f['index'],f['msg'],f['key']); print(f['desc'][:1500])
except Exception as e: print(t[:3000])"
rm $j
