#!/usr/bin/env python3
"""Pretty-print a dumped instance: show.py SUBSTRING"""
import json,sys
m=json.load(open('build/dump/mono.json'))
T=m['types']; I=m['insts']
def ty(t): return T[t]['s'] if isinstance(t,int) else str(t)
for n,i in enumerate(I):
    if any(a in i.get('name','') or a in i['path'] for a in sys.argv[1:]):
        print('#',n,i.get('name'),i['kind'],'trait=',i.get('trait'),'argc',i.get('argc'),i.get('spread'))
        if not i.get('blocks'): continue
        for k,l in enumerate(i['locals']): print('   let _%d: %s  %s'%(k,ty(l if isinstance(l,int) else l[0] if isinstance(l,list) else l), i['names'] if k==0 else ''))
        for b,bl in enumerate(i['blocks']):
            print('  bb%d%s:'%(b,' (cleanup)' if bl['c'] else ''))
            for s in bl['s']: print('     ',json.dumps(s))
            print('      T',json.dumps(bl['t']))
