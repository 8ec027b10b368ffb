#!/bin/bash
# try.sh PROP N [variant] [seed] [workload]: a batch that keeps going, with a summary
V=${3:-plain}; S=${4:-1}
cd /verif && SIM_KEEP_GOING=1 ${SIM_BUILD:-build}/sim-$V batch $1 $S 0 $2 8 ${TL:-100} /verif/build/o.json "$KN" $5
python3 - <<'P'
import json,collections
d=json.load(open('/verif/build/o.json'));print(d['runs'],'runs',d['nontrivial'],'nontrivial',d['distinct_interleavings'],'interleavings',d['wall_s'],'s',d['blocks'],'blocks');print(d['faults'],d['probes'],d['nondet'])
c=collections.Counter((v['wl'],v['cls']) for v in d['violations']); seen=collections.Counter()
for v in d['violations']:
    k=(v['wl'],v['cls']); seen[k]+=1
    if seen[k]<=3: print(c[k],v['idx'],v['wl'],v['cls'],v['msg'][:400])
P
