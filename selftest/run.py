import sys; import os; H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(H)); sys.dont_write_bytecode=True
from pyvc.contract import *
from pyvc import contract as C
from pyvc.interp import Program
import numpy as np
prog=Program(H)
import importlib.util
sp=importlib.util.spec_from_file_location('mtreal',H + '/pyspod/cases.py'); real=importlib.util.module_from_spec(sp); sp.loader.exec_module(real)
import itertools, math
for n in sorted([x for x in dir(real) if x[0]=='f' and x[1:].isdigit()],key=lambda s:int(s[1:])):
    ctx=Ctx(prog,n); out={}
    def run(I):
        f=I.glob('pyspod.cases',n)
        r=I.call(f,[],{}); out['r']=r; out['I']=I
        want=getattr(real,n)()
        def num(p):
            p=to(p) if not isinstance(p,T.B) else p
            e=C.Ev({},__import__('random').Random(1)); e.env[the(var('pi','r'))]=math.pi; e.env['pi']=math.pi
            return (e.b(p) if isinstance(p,T.B) else e.p(p))
        w=np.asarray(want)
        if isinstance(r,Arr):
            sz=tuple(int(I.facts.simplify(s).const()) for s in r.sizes())
            got=np.empty(sz,complex)
            y=A_reshape(I,r,sz)
            for ix in itertools.product(*map(range,sz)): got[ix]=num(y(ix))
        elif isinstance(r,ListV): got=np.array([num(x) for x in r.st]); sz=got.shape
        else: got=np.array(num(r) if not isinstance(r,bool) else r); sz=()
        print(n,'OK' if sz==w.shape and np.allclose(got,w) else f'DIFF {got} {w}')
    def A_reshape(I,r,sz):
        # address by whole axes: decompose each index over its factors
        def g(ix):
            e=[]
            for i,a in zip(ix,r.axes):
                fs=[int(I.facts.simplify(q).const()) for q in a]; q=[]
                for f in reversed(fs): q.append(i%f); i//=f
                e+=reversed(q)
            return r.at([to(v) for v in e])
        return g
    try: ctx.explore(run)
    except Exception as e: print(n,'ERR',type(e).__name__,e)
    for o in ctx.obs.values():
        if o['status']!='discharged': print(n,o['status'],o['name'][-40:],str(o['detail'])[:300])
