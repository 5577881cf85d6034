# addknown.py PROP what : add keys of current failures of a check run (from /tmp/w/af) to known findings
import json,glob,sys
p='/verif/known_findings.json'; d=json.load(open(p)); prop,what=sys.argv[1:3]; rx=sys.argv[3] if len(sys.argv)>3 else ''
have={(e['property'],e['key']) for e in d['known']}
for f in sorted(glob.glob('/tmp/w/af/done*.json')):
    for x in json.load(open(f))['fails']:
        if rx in x['key'] and (prop,x['key']) not in have: d['known'].append({"property":prop,"key":x['key'],"what":what+": "+x['key'].split('::',1)[1][:160]}); print(x['key'])
json.dump(d,open(p,'w'),indent=1)
