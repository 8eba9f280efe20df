"""evs.py FILE FUNC [inline-prefix...] [--facts NAME,NAME]: events of a function's graph (with facts about the names)"""
import sys
sys.path[:0]=['/verif/sa','/verif']
sys.setrecursionlimit(10000)
from rules import *
import facts
a=[x for x in sys.argv[1:] if not x.startswith('--')]
F=facts.load(a[0].split(','))
j=F.fns(a[1])[int(next((x[6:] for x in sys.argv if x.startswith("--nth=")),0))]
g=build(F,j,inline_class(*a[2:]) if a[2:] else (lambda c,t:False),access=lambda q:True)
names=[x[8:] for x in sys.argv if x.startswith('--facts=')]
seen=set()
def step(s,n,f):
    if n.kind in("ev","iret","branch","switch","catch","exit","excexit") and n.ev is not None or n.kind in("exit","excexit"):
        t=(n.id,f.s if names else 0)
        if t not in seen:
            seen.add(t)
            print(n.kind,n.line,pp(n.ev)[:int(150)] if n.ev else "", "", [x for x in map(str,sorted(f.s,key=str))] if names else "")
    return [s]
run(g,0,step,only=about(*names[0].split(',')) if names else (lambda f: False),cap=6)
