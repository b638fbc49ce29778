#!/usr/bin/env python3
"""summary of a divergence report: summ.py REPORT [N]"""
import json, sys, collections
c=collections.OrderedDict()
for l in open(sys.argv[1]):
    d=json.loads(l); c.setdefault((d['kind'],d['tag']),[]).append(d)
n=int(sys.argv[2]) if len(sys.argv)>2 else 0
steps=set()
for k,v in c.items():
    print(k,len(v),v[0]['step'])
    for d in v[:n]:
        f,ln=d['step'].rsplit(':',1)
        a=json.loads(open(f).read().split('\n')[int(ln)-1])
        print('   A',json.dumps(a['a']),a['ok'],a.get('err','')[:200]); print('   exp',d['exp'][:600]); print('   got',d['got'][:600])
