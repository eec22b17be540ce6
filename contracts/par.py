"""C08: domain decomposition (utils/parallel.py)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc import term as T
from . import contract

U = 'pyspod.utils.parallel.'


def sp(f):
    """the same contract for arguments given in single precision, which _set_dtype does not copy"""
    def g(ctx):
        ctx.single = True; return f(ctx)
    return g
SP = ', arguments in single precision'


def mkcomm(I, tag=''):
    size, rank = var('P' + tag), var('rank' + tag)
    I.assume(ge(size, 1), ge(rank, 0), lt(rank, size))
    return Obj('$comm', dict(size=size, rank=rank)), size, rank


COMM = {
    '$comm.Barrier': lambda I, a, k: None,
    '$comm.Get_size': lambda I, a, k: a[0].st['size'],
    '$comm.Get_rank': lambda I, a, k: a[0].st['rank'],
}


@contract('C08 C09 C14 C15 C20', U + '_blockdist')
def blockdist(ctx):
    """pre: N >= 0, 1 <= size, 0 <= rank < size.
    post: the ranges (s, n) are contiguous in rank order, start at 0, end at N, and differ in length by at most one"""
    def run(I):
        N, size = var('N'), var('P'); r1, r2 = var('r1'), var('r2')
        I.assume(ge(N, 0), ge(size, 1), ge(r1, 0), lt(r1, size), ge(r2, 0), lt(r2, size))
        f = find(I, U + '_blockdist')
        n1, s1 = I.call(f, [N, size, r1], {}); n2, s2 = I.call(f, [N, size, r2], {})
        n1, s1, n2, s2 = map(to, (n1, s1, n2, s2))
        ctx.cond(I, 'length not negative', ge(n1, 0))
        ctx.cond(I, 'rank 0 starts at 0', T.Implies(eq(r1, 0), eq(s1, 0)))
        ctx.cond(I, 'next rank starts where this one ends', T.Implies(eq(r2, r1 + 1), eq(s2, s1 + n1)))
        ctx.cond(I, 'last rank ends at N', T.Implies(eq(r1, size - 1), eq(s1 + n1, N)))
        ctx.cond(I, 'lengths differ by at most one', And(le(n1 - n2, 1), le(n2 - n1, 1)))
        ctx.cond(I, 'rank 0 has a longest range', T.Implies(eq(r1, 0), ge(n1, n2)))
        r3 = var('r3'); I.assume(ge(r3, size)); n3, s3 = I.call(f, [N, size, r3], {})
        ctx.cond(I, 'nothing is left for further ranks', And(eq(to(n3), 0), eq(to(s3), 0)))
        ctx.reachable(I)
    ctx.explore(run)


def dist_pre(I, nd, name='X'):
    dims = [var(f'd{i}') for i in range(nd)]
    I.assume(*[ge(d, 1) for d in dims])
    t = Tensor(name, 'r', nd)
    return t, dims, tensor_arr(t, dims)


def spec_range(I, N, size, rank):
    """the contract of _blockdist, as the verified function computes it"""
    n, s = I.call(find(I, U + '_blockdist'), [N, size, rank], {})
    return to(n), to(s)


class Dist:
    """the ranges of N items over size processes, known by the contract of _blockdist only"""
    def __init__(self, I, name, N, size):
        self.I, self.N, self.size = I, to(N), to(size)
        self.nt, self.st = Tensor(name + '_len', 'i', 1), Tensor(name + '_start', 'i', 1)
        def num(ev, i):
            N, P = int(round(ev.p(self.N).real)), int(round(ev.p(self.size).real))
            if i >= P: return 0, N
            q, m = divmod(N, P); return q + (i < m), i*q + min(i, m)
        self.nt.info['num'] = lambda ev, idx: num(ev, idx[0])[0]; self.st.info['num'] = lambda ev, idx: num(ev, idx[0])[1]
        self.know(ZERO)
    def n(self, r): return el(self.nt, [r])
    def s(self, r):
        """first item of rank r; N past the last rank"""
        return el(self.st, [r])
    def facts(self, r):
        r = to(r); n, s, n1, s1 = self.n(r), self.s(r), self.n(r + 1), self.s(r + 1)
        return [ge(n, 0), ge(s, 0), le(s + n, self.N), le(n, self.n(ZERO)), eq(self.s(ZERO), 0), eq(s1, s + n), T.Implies(ge(r, self.size), And(eq(n, 0), eq(s, self.N))), T.Implies(ge(r + 1, self.size), And(eq(n1, 0), eq(s1, self.N)))]
    def know(self, r): self.I.assume(*self.facts(r))
    def call(self, I, rank):
        self.know(rank)
        if I.facts.entails(lt(rank, self.size)): return self.n(rank), self.s(rank)
        if I.generic: return self.n(rank), T.ite(lt(rank, self.size), self.s(rank), ZERO)
        return (self.n(rank), self.s(rank)) if I.decide(lt(rank, self.size)) else (ZERO, ZERO)


def by_contract(I, dists):
    """calls of _blockdist for these distributions are answered by its contract; any other call runs the body"""
    def f(I, a, k):
        if len(a) == 3 and not k:
            for d in dists:
                if I.facts.entails(eq(to(a[0]), d.N)) and I.facts.entails(eq(to(a[1]), d.size)): return d.call(I, to(a[2]))
        saved = I.contracts; I.contracts = {q: v for q, v in saved.items() if q != U + '_blockdist'}
        try: return I.call(find(I, U + '_blockdist'), a, k)
        finally: I.contracts = saved
    I.contracts = {**I.contracts, U + '_blockdist': f}


def dist_case(ctx, fname, nd, lead, explicit):
    """lead: leading axes that are never cut; explicit: the axis is given by the caller"""
    def run(I):
        t, dims, x = dist_pre(I, nd)
        comm, size, rank = mkcomm(I)
        f = find(I, U + fname)
        if explicit is not None: out = I.call(f, [x, explicit, comm], {}); ax = explicit; r = out
        else:
            r, ax, gs = I.call(f, [x, comm], {})
            sp = dims[lead:]
            ctx.eq(I, 'global shape returned', tuple(gs), tuple(sp))
            ax = I.cint(ax)
            for d in sp: ctx.cond(I, 'the longest axis is cut', le(d, sp[ax]))
            ax = ax + lead
        N = dims[ax]
        n, s = spec_range(I, N, size, rank)
        want = [d if j != ax else n for j, d in enumerate(dims)]
        for j in range(nd): ctx.eqt(f'local shape', r.sizes()[j], want[j], I.facts)
        idx, F = ctx.each(I, want)
        src = list(idx); src[ax] = src[ax] + s
        ctx.eqt('local content is the range of the global array', r.at(idx), el(t, src), F)
        ctx.unchanged(I, 'input unchanged', x, t)
        ctx.reachable(I)
    ctx.explore(run)


for _nd in (2, 3, 4):
    contract('C08 C09', f'{U}distribute_data[{_nd}-d]', models=COMM)(lambda ctx, n=_nd: dist_case(ctx, 'distribute_data', n, 1, None))
for _nd in (1, 2, 3):
    contract('C08 C09 C13', f'{U}distribute[{_nd}-d]', models=COMM)(lambda ctx, n=_nd: dist_case(ctx, 'distribute', n, 0, None))
    for _ax in range(_nd):
        contract('C08 C09 C14', f'{U}distribute_dimension[{_nd}-d, axis {_ax}]', models=COMM)(lambda ctx, n=_nd, a=_ax: dist_case(ctx, 'distribute_dimension', n, 0, a))
