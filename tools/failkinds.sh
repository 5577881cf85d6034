#!/bin/bash
# failkinds.sh CHECK [N]: like allfails.sh, but up to N (2) failures per operation
rm -rf /tmp/w/af; mkdir -p /tmp/w/af
for w in 1 2 3 4 5 6; do LC_ALL=C.UTF-8 TZ=UTC VERIF_ROOT=/verif Rscript /verif/lib/worker.R $1 /tmp/w/lib /tmp/w/af $w maxfail=${3:-100000} offset=0 > /tmp/w/af/log$w 2>&1 & done; wait
[ -n "$(ls /tmp/w/af/done* 2>/dev/null)" ] || tail -5 /tmp/w/af/log1; python3 - ${2:-2} <<'P'
import json,glob,sys,collections
n=int(sys.argv[1]); ne=0; c=collections.defaultdict(list); tot=collections.Counter()
for f in glob.glob('/tmp/w/af/done*.json'):
    d=json.load(open(f)); tot['states']+=d['states']; tot['trans']+=d['trans']; tot['impl']+=d['impl']
    if d['error']:
        ne+=1
        if ne<=4: print('ERROR',d['job'],d['error'][:400])
    for x in d['fails']: c[x['key'].split('::')[1].split('(')[0]].append((len(x['text']),d['job'],[l[:200] for l in x['text'].split('\n') if l[:4] in('call','got:','want','note')]))
print('errors',ne,'fails',sum(map(len,c.values())),dict(tot))
for k in sorted(c):
    print('==',k,len(c[k]))
    for _,j,t in sorted(c[k])[:n]: print('--',j); print('\n'.join(t))
P
