#!/usr/bin/env python3
# shows the differences between what happened and the closest allowed outcome of a replay file
import json,sys
def norm(k,v):
    if isinstance(v,dict): return {a:norm(a,b) for a,b in v.items()}
    if isinstance(v,list):
        l=[norm('',x) for x in v]
        return sorted(l,key=json.dumps) if k.endswith('_set') else l
    return v
def diff(a,b,p=''):
    if type(a)!=type(b): print('  ',p,'got',json.dumps(a),'exp',json.dumps(b)); return 1
    n=0
    if isinstance(a,dict):
        for k in sorted(set(a)|set(b)): n+=diff(a.get(k),b.get(k),p+'.'+k)
    elif isinstance(a,list):
        if len(a)!=len(b): print('  ',p,'got',json.dumps(a),'exp',json.dumps(b)); return 1
        for i,(x,y) in enumerate(zip(a,b)): n+=diff(x,y,p+'[%d]'%i)
    elif a!=b: print('  ',p,'got',json.dumps(a),'exp',json.dumps(b)); return 1
    return n
for f in sys.argv[1:]:
    d=json.load(open(f)); print(f,d['op'],json.dumps(d['in'])[:3000]); print('  state',d['got']['st'],d['got'].get('msg'))
    for e in d['exp'][:3]:
        print('  vs'); diff(norm('',d['got'].get('v')),norm('',e))
