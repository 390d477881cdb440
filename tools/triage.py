#!/usr/bin/env python3
"""Show rejected sessions: triage.py TRACE TLC-OUTPUT [max]"""
import sys,json,collections
tr=[l for l in open(sys.argv[1])]
mx=int(sys.argv[3]) if len(sys.argv)>3 else 5
seen=collections.Counter()
for l in open(sys.argv[2]):
    l=l.strip()
    if not l.startswith('"REJECT '): continue
    d=json.loads(json.loads(l)[7:])
    o=json.loads(tr[d['open']-1]); x=json.loads(tr[d['line']-1])
    b=o['b']
    ty=None
    rec=x.get('v',{})
    key=(x['op'],x.get('t'),tuple(sorted(d['wrong'])),o.get('note'),x.get('ok'),x.get('k'),
         (b[0] if o['en']=='L' else b[3]) if x['op'] in('rec','vis','meta') and len(b)>4 else None, 'panic' in x)
    seen[key]+=1
    if seen[key]<=mx and len(sys.argv)>4:
        print(json.dumps(d)); print('  OPEN',json.dumps(o)[:1500]); print('  LINE',json.dumps(x)[:1500])
for k,n in seen.most_common(): print(n,k)
