"""C09: the same function on a distributed data set.  A process holds the contiguous part [lo, lo+len) of one space axis of
length N; its rank enters the value of nothing else.  Rules (each one discharged below or in par.py / npyio.py):
 - distribute*: the local part of a replicated array (contract proved in par.py);
 - allreduce: if this process contributes  sum over lo <= x < lo+len of g(x),  with a g in which neither the rank nor the
   cut occurs, the result is  sum over 0 <= x < N of g(x)  (telescoping lemma); a contribution in which neither occurs is
   counted once per process;
 - npy_save: if this process holds  g(x), lo <= x < lo+len,  the file is the whole array g (contract proved in npyio.py).
Every g is inferred from the code by shifting the local index, never assumed.  Obligation: all processes (the root and
the others are run separately) go through the same collective operations with the same g."""
from pyvc.contract import *
from pyvc.contract import refute
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.prover import prove_eq, normal
from pyvc.loops import freeze
from . import contract
from .par import U, COMM


class Dist:
    """distributed (root True/False) or serial (root None) run"""
    def __init__(self, ctx, I, root, N=None):
        self.ctx, self.I, self.root = ctx, I, root
        self.par = root is not None
        self.log = []; self.failed = None
        ctx.pool.setdefault('dists', []).append(self)
        if not self.par: self.comm = None; self.N = self.ln = N; self.lo = ZERO; return
        self.P, self.rank, self.lo, self.ln = var('P'), var('rank'), var('lo'), var('len')
        self.comm = Obj('$comm', dict(size=self.P, rank=self.rank))
        I.assume(ge(self.P, 1), *([eq(self.rank, 0)] if root else [ge(self.rank, 1), lt(self.rank, self.P)]))
        I.models = {**I.models, **COMM}
        I.contracts = {**I.contracts, **{U + f: getattr(self, f) for f in ('allreduce', 'npy_save', 'npy_load', 'distribute_dimension', 'barrier')}}
        if N is not None: self.cut(N)
    def cut(self, N):
        """lo, len are the contract of _blockdist for an axis of length N"""
        self.N = N
        if self.par: self.I.assume(ge(self.lo, 0), ge(self.ln, 0), le(self.lo + self.ln, N), Or(lt(self.rank, self.P - 1), eq(self.lo + self.ln, N)), Or(ge(self.rank, 1), eq(self.lo, 0)))
    def own(self):
        return {the(self.lo), the(self.ln), the(self.rank)} if self.par else set()
    def free(self, p): return not (T.deps(to(p)) & self.own())

    def local(self, x, ax):
        """this process's part of a replicated array"""
        if not self.par: return x
        dims = x.factors()
        if len(x.axes[ax]) != 1: raise Unsupported('cut of a merged axis')
        off = sum(len(a) for a in x.axes[:ax]); f = x.snap()
        self.ctx.eqt('the axis that is cut has the length it was cut for', dims[off], self.N, self.I.facts)
        def g(i):
            i = list(i); i[off] = i[off] + self.lo; return f(i)
        axes = list(x.axes); axes[ax] = (self.ln,)
        return mkarr(axes, g, x.kind)

    def total(self, p, F):
        """sum over all processes of the contribution p (linear in the parts)"""
        p = to(p)
        if not self.free(p): p = F.simplify(p)
        out = ZERO
        for k, c in p.m.items():
            mine = [(a, e) for a, e in k if not self.free(at(a))]
            rest = to(c)
            for a, e in k:
                if (a, e) not in mine: rest = rest*(at(a)**e if e > 0 else inv(at(a)**(-e)))
            if not mine: out = out + self.P*rest; continue
            if len(mine) > 1 or mine[0][1] != 1: raise Unsupported(f'sum over the processes of {str(p)[:200]}')
            out = out + rest*self.total_atom(mine[0][0], F)
        return out
    def total_atom(self, a, F):
        if a is the(self.ln): return self.N
        if a.kind == 'sum':
            v, lo, hi, body = a.key[2:]
            x = fresh('x'); body = subst(body, {v: x})
            if self.free(lo) and self.free(hi):
                return summ(x, lo, hi, self.total(body, F.child(ge(x, lo), lt(x, hi))))
            if prove_eq(lo, ZERO, F).ok and prove_eq(hi, self.ln, F).ok:
                g = subst(body, {the(x): x - self.lo})
                G = F.child(ge(x, 0), lt(x, self.N), ge(x, self.lo), lt(x, self.lo + self.ln))
                if not self.free(g): g = G.simplify(g)
                if self.free(g): return summ(x, ZERO, self.N, g)
        if a.kind == 'ite':
            g, y, z = a.key[2:]
            if not (T.deps(g) & self.own()): return ite(g, self.total(y, F.child(g)), self.total(z, F.child(Not(g))))
        raise Unsupported(f'sum over the processes of {str(at(a))[:200]}')
    def allreduce(self, I, a, k):
        v = dict(zip(('data', 'comm'), a)); v.update(k)
        d = v['data']
        if v.get('comm') is None:
            self.log.append(('no communicator',)); return d
        if not isinstance(d, Arr):
            g = self.total(to(d), I.facts); self.log.append(('allreduce', [], g)); return g
        fs = d.factors(); idx = [fresh('e') for _ in fs]
        if any(not self.free(x) for x in fs): raise Unsupported('reduction of an array with a local extent')
        F = I.facts.child(*[c for i, n in zip(idx, fs) for c in (ge(i, 0), lt(i, n))])
        try: g = self.total(d.at(idx), F)
        except Unsupported: self.failed = (d.at(idx), F, idx); raise
        self.log.append(('allreduce', idx, g, fs))
        xs = [the(i) for i in idx]
        return mkarr(d.axes, lambda i: subst(g, dict(zip(xs, map(to, i)))), d.kind)
    def npy_save(self, I, a, k):
        """one file with the global array"""
        v = dict(zip(('comm', 'filename', 'array', 'axis'), a)); v.update(k)
        arr, ax = v['array'], I.cint(v.get('axis', 0))
        if v['comm'] is None:
            self.ctx.cond(I, 'files are written collectively', False); return
        if len(arr.axes[ax]) != 1: raise Unsupported('a merged axis is distributed')
        off = sum(len(q) for q in arr.axes[:ax]); fs = arr.factors()
        self.ctx.eqt('the distributed axis of a file is the one cut', fs[off], self.ln, I.facts)
        for j, d in enumerate(fs):
            if j != off and not self.free(d): self.ctx.cond(I, 'the other axes of a distributed file are whole', False)
        x = fresh('x'); idx = [fresh('e') for _ in fs]; s = list(idx); s[off] = x - self.lo
        F = I.facts.child(*[c for j, (i, d) in enumerate(zip(s, fs)) for c in (ge(i, 0), lt(i, d))])
        g = F.simplify(arr.at(s))
        if not self.free(g):
            ms = normal(g, F)
            if not any(m.binders or m.guards for m in ms): g = sum((m.p() for m in ms), ZERO)
        if not self.free(g):
            inst = refute(F, [g, self.lo, self.ln, self.N, x], lambda ev: self.varies(ev, g, x), self.ctx.seed)
            if inst is not None:
                self.ctx.record('the file does not depend on the decomposition', 'refuted', I, f'{str(g)[:300]} for {inst}', instance=inst); raise PathEnd()
            raise Unsupported(f'local part of a file depends on the cut: {str(g)[:200]}')
        idx[off] = x; xs = [the(i) for i in idx]
        axes = list(arr.axes); axes[ax] = (self.N,)
        whole = mkarr(axes, lambda i: subst(g, dict(zip(xs, map(to, i)))), arr.kind)
        I.effects.append(Effect('save', (v['filename'], freeze(whole), v.get('axis', 0))))
        self.log.append(('save',))
    def npy_load(self, I, a, k): raise Unsupported('npy_load')
    def varies(self, ev, g, x):
        """the value at global position x is another one under another cut"""
        N, X, v = ev.i(self.N), ev.i(x), ev.p(g); old = ev.i(self.lo), ev.i(self.ln)
        for lo in range(X + 1):
            for hi in range(X + 1, N + 1):
                if (lo, hi - lo) == old or lo < 0: continue
                w = ev.fork({the(self.lo): lo, the(self.ln): hi - lo}).p(g)
                if abs(v - w) > 1e-6*(1 + abs(v) + abs(w)): return True
        return False
    def sum_varies(self, ev, g):
        """the sum of the contributions is another one under another cut (two processes)"""
        N = ev.i(self.N); first = None
        for c in range(1, N):
            t = 0
            for r, (lo, hi) in enumerate(((0, c), (c, N))):
                t = t + ev.fork({the(self.P): 2, the(self.rank): r, the(self.lo): lo, the(self.ln): hi - lo}).p(g)
            if first is None: first = t
            elif abs(t - first) > 1e-6*(1 + abs(t) + abs(first)): return True
        return False
    def barrier(self, I, a, k): return None
    def distribute_dimension(self, I, a, k):
        v = dict(zip(('data', 'max_axis', 'comm'), a)); v.update(k)
        if v.get('comm') is None: raise Unsupported('no communicator')
        return self.local(A_(I, v['data']), I.cint(v['max_axis']))
    def distribute(self, ax):
        """contract of distribute: the array cut along axis ax"""
        def f(I, a, k):
            v = dict(zip(('data', 'comm'), a)); v.update(k)
            x = v['data']; shape = tuple(x.sizes())
            if v.get('comm') is None:
                if self.par: self.ctx.cond(I, 'the data are distributed', False)
                return (x, ax, shape)
            return (self.local(x, ax), ax, shape)
        return f
    def distribute_data(self, ax):
        """contract of distribute_data: the first axis (time) is whole, space axis ax is cut"""
        def f(I, a, k):
            v = dict(zip(('data', 'comm'), a)); v.update(k)
            x = v['data']; shape = tuple(x.sizes()[1:])
            if v.get('comm') is None:
                if self.par: self.ctx.cond(I, 'the data are distributed', False)
                return (x, ax, shape)
            return (self.local(x, ax + 1), ax, shape)
        return f


def A_(I, x):
    from pyvc.npmodel import A_ as g
    return g(I, x)


def explore(ctx, run):
    """the root and the other processes, then: the same collective operations with the same summands everywhere.
    run(I, root) returns its Dist (None: path not feasible)"""
    logs = {}
    for root in (True, False):
        def one(I):
            d = run(I, root)
            if d is not None: logs.setdefault(root, {})[tuple(I.choices)] = (d, I)
        ctx.explore(one)
    # a sum that the rules do not cover: refuted if two decompositions give different sums
    f = [d for d in ctx.pool.get('dists', []) if d.failed]
    for d in f:
        o = [e for e in f if e.root is not d.root and e.I.choices == d.I.choices]
        if d.root or not o: continue
        g, F, idx = d.failed; h, _, jdx = o[0].failed
        if len(idx) != len(jdx): continue
        h = subst(h, dict(zip(map(the, jdx), idx)))
        if not prove_eq(g, h, F).ok: continue              # root and others contribute something else
        inst = refute(F, [g, d.N], lambda ev: d.sum_varies(ev, g), ctx.seed)
        if inst is not None: ctx.record('the sum over the processes does not depend on the decomposition', 'refuted', d.I, f'{str(g)[:300]} for {inst}', instance=inst)
    for key in set(logs.get(True, {})) | set(logs.get(False, {})):
        a, b = logs.get(True, {}).get(key), logs.get(False, {}).get(key)
        name = 'every process takes part in the same collective operations'
        if a is None or b is None: ctx.record(name, 'undecided', detail='the root and the other processes take different branches'); continue
        la, lb, I = a[0].log, b[0].log, b[1]
        # decompositions, extremes ... of replicated data: the same definition everywhere
        da, db = a[1].derivs, b[1].derivs
        for (ta, xa, pa), (tb, xb, pb) in zip(da, db):
            if ta is not tb or not all(a[0].free(q) for q in pa): continue
            s = dict(zip(map(the, xb), xa))
            if not all(prove_eq(q, subst(r, s), I.facts).ok for q, r in zip(pa, pb)): ctx.record('replicated values are the same on every process', 'undecided', detail=f'{pa} vs {pb}')
        same = [x[0] for x in la] == [x[0] for x in lb]
        ctx.cond(I, name, same)
        if not same: continue
        ea, eb = ([e for e in q[1].effects if e.name == 'save'] for q in (a, b))
        ctx.cond(I, name, len(ea) == len(eb) and all(len(x.binders) == len(y.binders) for x, y in zip(ea, eb)))
        for x, y in zip(ea, eb):
            F = I.facts; v = [p[0] for p in x.binders]
            for j, (p, q) in enumerate(zip(x.binders, y.binders)):
                s = dict(zip([the(z[0]) for z in y.binders[:j]], v))
                ctx.eqt(name, p[1], subst(q[1], s), F); ctx.eqt(name, p[2], subst(q[2], s), F)
                F = F.child(ge(p[0], p[1]), lt(p[0], p[2]))
            pa, pb = x.at(*v), y.at(*v)
            ctx.streq(I, name + ' (file)', pa[0], pb[0]); ctx.cond(I, name, to(pa[2]) == to(pb[2]))
        for x, y in zip(la, lb):
            if x[0] == 'allreduce':
                s = dict(zip(map(the, y[1]), x[1]))
                F = I.facts.child(*[c for i, n in zip(x[1], x[3] if len(x) > 3 else []) for c in (ge(i, 0), lt(i, n))])
                ctx.lemma('every process contributes to the same sum', x[2], subst(y[2], s), F)


@contract('C09', 'distribution lemmas')
def lemmas(ctx):
    """telescoping: the parts [S(q), S(q+1)) of a monotone cut with S(0) = 0 add up to the sum over [0, S(P)) - induction on q"""
    def run(I):
        Sx, G = Tensor('S', 'i', 1), Tensor('g', 'r', 1); q, P = var('q'), var('P'); x, i = fresh('x'), fresh('i')
        S = lambda k: el(Sx, [k])
        I.assume(ge(q, 0), lt(q, P), eq(S(ZERO), 0), le(0, S(q)), le(S(q), S(q + 1)))
        ctx.lemma('base: no process, empty sum', subst(summ(x, ZERO, S(q), el(G, [x])), {the(q): ZERO}), ZERO, I.facts.child(eq(q, 0)))
        part = summ(i, ZERO, S(q + 1) - S(q), el(G, [i + S(q)]))
        ctx.lemma('step: one more process', summ(x, ZERO, S(q), el(G, [x])) + part, summ(x, ZERO, S(q + 1), el(G, [x])), I.facts)
        ctx.reachable(I)
    ctx.explore(run)


def allreduce_body(ctx, nd, kind, par, swapped=False):
    """post: every process gets the sum of what all of them passed; the array passed is unchanged; serial: the array itself"""
    def run(I):
        dims = [var(f'd{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for d in dims])
        S = ctx.T('S', kind, nd + 1); size, rank = var('P'), var('rank'); I.assume(ge(size, 1), ge(rank, 0), lt(rank, size))
        me = lambda i: el(S, [rank] + list(i)); q = fresh('q'); tot = lambda i: summ(q, 0, size, el(S, [q] + list(i)))
        x = mkarr([(d,) for d in dims], me, kind); x.buf.swapped = swapped; calls = []
        comm = Obj('$comm', dict(size=size, rank=rank)) if par else None
        def contributes(y):
            y = A.asarr(I.arrlike(y)) if not isinstance(y, Arr) else y
            ctx.cond(I, 'the array is contributed', y.nd == nd)
            if y.nd != nd: raise PathEnd()
            for a, b in zip(y.sizes(), dims): ctx.eqt('the array is contributed (shape)', a, b, I.facts)
            idx, F = ctx.each(I, dims); ctx.eqt('the array is contributed', y.at([i for i, a in zip(idx, y.axes) for _ in a]), me(idx), F)
        def red(I, a, k):
            op = k.get('op', a[3] if len(a) > 3 else 'SUM')
            if op != 'SUM': ctx.cond(I, 'the reduction is a sum', False); raise PathEnd()
            calls.append('Allreduce'); contributes(a[1]); ctx.cond(I, 'contribution and result in the byte order of the machine', not a[1].buf.swapped and not a[2].buf.swapped)
            A.assign(I, a[2], mkarr([(d,) for d in dims], tot, kind))
        def red_obj(I, a, k):
            op = k.get('op', a[2] if len(a) > 2 else 'SUM')
            if op != 'SUM': ctx.cond(I, 'the reduction is a sum', False); raise PathEnd()
            calls.append('allreduce'); contributes(a[1])
            return mkarr([(d,) for d in dims], tot, kind)
        I.models = {**I.models, **COMM, '$comm.Allreduce': red, '$comm.allreduce': red_obj}
        mpi = Obj('$MPI', dict(SUM='SUM', MAX='MAX', MIN='MIN', PROD='PROD', IN_PLACE='IN_PLACE'))
        I.contracts = {**I.contracts, U + '_get_module_MPI': lambda I, a, k: mpi}
        r = I.call(find(I, U + 'allreduce'), [], dict(data=x, comm=comm))
        if not ctx.reachable(I): return
        ctx.cond(I, 'one reduction', len(calls) == (1 if par else 0))
        if not isinstance(r, Arr) and nd == 0: r = A.asarr(I.arrlike(r))
        if not isinstance(r, Arr) or r.nd != nd: ctx.cond(I, 'an array of the same shape', False); return
        idx, F = ctx.each(I, dims)
        ctx.eqt('sum over all processes' if par else 'the data themselves', r.at([i for i, a in zip(idx, r.axes) for _ in a]), tot(idx) if par else me(idx), F)
        ctx.unchanged_at(I, 'array passed unchanged', x, me)
    ctx.explore(run)


for _nd in (0, 1, 2, 3):
    for _k in 'rci':
        for _par in (True, False): contract('C09', f'{U}allreduce[{_nd}-d, {_k}, {"parallel" if _par else "serial"}]')(lambda ctx, n=_nd, k=_k, p=_par: allreduce_body(ctx, n, k, p))
for _nd in (1, 2): contract('C09', f'{U}allreduce[{_nd}-d, r, parallel, not in the byte order of the machine]')(lambda ctx, n=_nd: allreduce_body(ctx, n, 'r', True, True))
