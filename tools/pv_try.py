import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from pyvc.prove import *
import time
mod=sys.argv[1]
names=sys.argv[2:]
from pyvc.interp import Module
import ast
if not names:
    t=ast.parse(open(f'/verif/contracts/spec/{mod}.py').read())
    for n in t.body:
        if isinstance(n,ast.Assign) and n.targets[0].id=='HARNESSES':
            names=[e.id for e in n.value.elts]
for nm in names:
    p=Prover(deadline=time.time()+float(__import__("os").environ.get("T","60")))
    r=p.run('spec.'+mod,nm)
    from collections import Counter
    print(nm,'paths',r['paths'],'err',r['error'],'time %.1f'%r['time'],Counter(o.status for o in r['obligations']), 'checks',p.ctx.checks)
    if r['error'] and getattr(p,'last_tb',''): print(p.last_tb)
    seen=set()
    for o in r['obligations']:
        if o.status!='discharged' and o.name not in seen:
            seen.add(o.name)
            print('  ',o.status,o.name,'|',o.detail[:300],'|',[x for x in (o.path or [])][-14:])
