#!/bin/bash
# allfails.sh CHECK [N]: run a check's jobs against /tmp/w/lib without the failure limit and list the failures
rm -rf /tmp/w/af; mkdir -p /tmp/w/af
for w in 1 2 3 4 5 6; do LC_ALL=C.UTF-8 TZ=UTC VERIF_ROOT=/verif Rscript /verif/lib/worker.R $1 /tmp/w/lib /tmp/w/af $w maxfail=100000 offset=0 > /tmp/w/af/log$w 2>&1 & done; wait
[ -n "$(ls /tmp/w/af/done* 2>/dev/null)" ] || tail -5 /tmp/w/af/log1; python3 - ${2:-8} <<'P'
import json,glob,sys,collections
n=int(sys.argv[1]); ne=0; c=collections.Counter(); o=[]
for f in glob.glob('/tmp/w/af/done*.json'):
    d=json.load(open(f))
    if d['error']:
        ne+=1
        if ne<=4: print('ERROR',d['job'],d['error'][:400])
    for x in d['fails']: c[d['job']]+=1; o.append((c[d['job']],d['job'],[l[:170] for l in x['text'].split('\n') if l[:4] in('call','got:','want','note')]))
print('errors',ne,sum(c.values()),dict(c.most_common(40)))
o.sort()
for k,j,t in o[:n]: print('--',j); print('\n'.join(t))
P
