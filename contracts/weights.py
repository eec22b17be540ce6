"""C13, C11: quadrature weights and their normalization (utils/weights.py, utils/parallel.pvar)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.npmodel import PI
from pyvc import term as T
from pyvc.interp import Func
from . import contract
from .par import COMM, mkcomm

W = 'pyspod.utils.weights.'


def geo_spec(i, n1, n2, R, j):
    """R^2 |cos(lat_i)| dlat_i dlon on the regular grid: latitude -90..90 with half cells at the ends, longitude periodic"""
    lat = (to(-90) + i*180*inv(n1 - 1))*PI*inv(to(180))
    h = PI*inv(n1 - 1)
    dlat = ite(Or(eq(i, 0), eq(i, n1 - 1)), h.scale(T.Fr(1, 2)), h)
    return R*R*absv(T.fn('cos', [lat]))*dlat*PI*2*inv(n2)


@contract('C13', W + 'geo_trapz_2D')
def geo2(ctx):
    """pre: at least 4 latitudes and 2 longitudes. post: weights = R^2 |cos lat| dlat dlon, axes [lat, lon, variable]"""
    def run(I):
        n1, n2, nv = var('n1'), var('n2'), var('nv'); R = var('R', 'r')
        I.assume(ge(n1, 4), ge(n2, 2), ge(nv, 1), ge(R, 0))
        w = I.call(find(I, W + 'geo_trapz_2D'), [n1, n2, nv], dict(R=R))
        a = w.st['weights']
        for x, y in zip(a.sizes(), (n1, n2, nv)): ctx.eqt('axes [lat, lon, variable]', x, y, I.facts)
        if a.nd != 3: return ctx.cond(I, 'axes [lat, lon, variable]', False)
        (i, j, v), F = ctx.each(I, [n1, n2, nv])
        ctx.eqt('cell weight (longitudes after the first)', a.at([i, j, v]), geo_spec(i, n1, n2, R, j), F.child(ge(j, 1)))
        ctx.eq_known(I, 'cell weight (first longitude)', a.at([i, ZERO, v]), geo_spec(i, n1, n2, R, j), F, 'geo-first-longitude', ZERO)
        ctx.reachable(I)
    ctx.explore(run)


@contract('C13', W + 'geo_trapz_2D (default radius)')
def geo2d(ctx):
    """the radius defaults to 1"""
    def run(I):
        n1, n2, nv = var('n1'), var('n2'), var('nv')
        I.assume(ge(n1, 4), ge(n2, 2), ge(nv, 1))
        a = I.call(find(I, W + 'geo_trapz_2D'), [n1, n2, nv], {}).st['weights']
        b = I.call(find(I, W + 'geo_trapz_3D'), [n1, n2, var('n3'), nv], {}).st['weights']
        (i, j, v), F = ctx.each(I, [n1, n2, nv])
        ctx.eqt('unit radius', a.at([i, j, v]), geo_spec(i, n1, n2, ONE, j), F.child(ge(j, 1)))
        ctx.reachable(I)
    ctx.explore(run)


@contract('C13', W + 'geo_trapz_3D')
def geo3(ctx):
    """post: the weight of a point is that of its (lat, lon) cell, the same for every level and variable"""
    def run(I):
        n1, n2, n3, nv = var('n1'), var('n2'), var('n3'), var('nv'); R = var('R', 'r')
        I.assume(ge(n1, 4), ge(n2, 2), ge(n3, 1), ge(nv, 1), ge(R, 0))
        w = I.call(find(I, W + 'geo_trapz_3D'), [n1, n2, n3, nv], dict(R=R))
        a = w.st['weights']
        ctx.eqt('number of entries', size(a.sizes()), n1*n2*n3*nv, I.facts)
        # documented layout: space, then variable.  Recorded finding geo3d-variables-first: the variables are merged into the first axis
        sz = a.sizes()
        good = a.nd == 4 and all(x == y for x, y in zip(sz, (n1, n2, n3, nv)))
        if good:
            (i, j, k, v), F = ctx.each(I, [n1, n2, n3, nv]); e = a.at([i, j, k, v])
            ctx.record('axes [lat, lon, level, variable]', 'discharged', I, backend='pyvc')
        elif a.nd == 3 and len(a.axes[0]) == 2 and a.axes[0][0] == nv and a.axes[0][1] == n1:
            (i, j, k, v), F = ctx.each(I, [n1, n2, n3, nv]); e = a.at([v, i, j, k])
            ctx.record('axes [lat, lon, level, variable]', 'known', I, 'known finding geo3d-variables-first'); ctx.obs['axes [lat, lon, level, variable]']['finding'] = 'geo3d-variables-first'
        else: return ctx.record('axes [lat, lon, level, variable]', 'undecided', I, str(sz))
        ctx.eqt('cell weight (longitudes after the first)', e, geo_spec(i, n1, n2, R, j), F.child(ge(j, 1)))
        e0 = subst(e, {the(j): ZERO})
        ctx.eq_known(I, 'cell weight (first longitude)', e0, geo_spec(i, n1, n2, R, j), F, 'geo-first-longitude', ZERO)
        ctx.reachable(I)
    ctx.explore(run)


# ---------------------------------------------------------------- variance
def moments(n, m, v): return n, n*m, n*(v + m*conj(m))


def over_ranks(p, rank, size):
    """sum over all ranks of a local quantity"""
    r = fresh('rk'); return summ(r, 0, size, subst(to(p), {the(rank): r}))


def allreduce_stat(I, a, kw, kind='r'):
    """contract of comm.allreduce(x, op): the fold of op over the contributions of the ranks, in some grouping.
    A property of triples that every contribution has for its own rank and that op preserves for disjoint groups
    holds for the result.  Here: n, n*m and n*(v+|m|^2) are the sums of the rank contributions; both premises are
    proof obligations."""
    comm, x = a[0], a[1]; op = kw.get('op', a[2] if len(a) > 2 else None); ctx = I.ctx
    size, rank = comm.st['size'], comm.st['rank']
    if not isinstance(op, Func):
        # the default operation: sum
        if isinstance(x, (P, int)): return over_ranks(x, rank, size)
        raise Unsupported('allreduce')
    na, nb = fresh('na'), fresh('nb'); (ma, mb), (va, vb) = (fresh(q, kind) for q in ('ma', 'mb')), (fresh(q, 'r') for q in ('va', 'vb'))
    saved = I.facts
    for case, cs in (('both groups empty', [eq(na, 0), eq(nb, 0)]), ('groups', [ge(na, 0), ge(nb, 0), gt(na + nb, 0)])):
        I.facts = saved.child(*cs)
        r = I.call(op, [(na, ma, va), (nb, mb, vb)], {})
        r = I.concrete_list(r)
        got = moments(*map(to, r)); A, Bm = moments(na, ma, va), moments(nb, mb, vb)
        for nm, g, p, q in zip(('counts', 'sums', 'sums of squares'), got, A, Bm):
            F = I.facts
            if case == 'both groups empty': F = F; g = subst(g, {the(na): ZERO, the(nb): ZERO}); p = q = ZERO
            ctx.eqt(f'reduction operator adds {nm} ({case})', g, p + q, F)
    I.facts = saved
    n, m, v = map(to, I.concrete_list(x))
    n1, m1, v1 = fresh('ng'), fresh('mg', kind), fresh('vg', 'r')
    S = [over_ranks(q, rank, size) for q in moments(n, m, v)]
    I.stat = (n1, m1, v1, S)
    I.local_stat = (n, m, v)
    return (n1, m1, v1)


def dist_data(I, rank, nd=2, kind='r'):
    """data of this rank: an array whose first axis is local"""
    Ln = Tensor('len', 'i', 1); X = Tensor('X', kind, nd + 1)
    dims = [el(Ln, [rank])] + [var(f'm{i}') for i in range(1, nd)]
    I.assume(ge(dims[0], 0), *[ge(d, 1) for d in dims[1:]])
    return X, dims, mkarr([(d,) for d in dims], lambda idx: el(X, [rank] + list(idx)), kind)


SUMR = dict(COMM); SUMR['$comm.allreduce'] = allreduce_stat
SUMC = {**COMM, '$comm.allreduce': lambda I, a, k: allreduce_stat(I, a, k, 'c')}


@contract('C11', 'pyspod.utils.parallel.pvar', models=SUMR)
def pvar(ctx, kind='r'):
    """post: n, m, v of the global array, for any distribution over any number of ranks (empty ranks included)"""
    def run(I):
        comm, size, rank = mkcomm(I)
        X, dims, x = dist_data(I, rank, kind=kind)
        v, m, n = I.call(find(I, 'pyspod.utils.parallel.pvar'), [x, comm], {})
        n1, m1, v1, S = I.stat
        ctx.eqt('count returned', n, n1, I.facts); ctx.eqt('mean returned', m, m1, I.facts); ctx.eqt('variance returned', v, v1, I.facts)
        # the local contribution has the moments of the local data
        i, j = fresh('i'), fresh('j')
        ln, lm, lv = I.local_stat
        e = el(X, [rank, i, j])
        s1 = summ(i, 0, dims[0], summ(j, 0, dims[1], e)); s2 = summ(i, 0, dims[0], summ(j, 0, dims[1], e*conj(e)))
        ctx.eqt('local count', ln, dims[0]*dims[1], I.facts)
        F = I.facts.child(gt(dims[0], 0))
        ctx.eqt('local sum', ln*lm, s1, F); ctx.eqt('local sum of squares', ln*(lv + lm*conj(lm)), s2, F)
        G = I.facts.child(eq(dims[0], 0))
        ctx.eqt('local sum (no local data)', ln*lm, ZERO, G)
        ctx.eqt('local sum of squares (no local data)', ln*(lv + lm*conj(lm)), ZERO, G)
        # conclusion: with n > 0, m = S1/n and v = S2/n - m^2 (the population variance)
        ctx.unchanged_at(I, 'data unchanged', x, lambda idx: el(X, [rank] + list(idx)))
        ctx.reachable(I)
    ctx.explore(run)
contract('C11', 'pyspod.utils.parallel.pvar[complex]', models=SUMC)(lambda ctx: pvar(ctx, 'c'))


def pvar_contract(I, a, kw):
    """the verified contract of pvar: v = S2/n - (S1/n)^2 over all ranks"""
    x = a[0]; comm = kw.get('comm', a[1] if len(a) > 1 else None)
    size, rank = comm.st['size'], comm.st['rank']
    f = x.snap(); vs = [fresh('i') for _ in x.factors()]
    def tot(g):
        r = g(f(vs))
        for v, d in reversed(list(zip(vs, x.factors()))): r = summ(v, 0, d, r)
        return over_ranks(r, rank, size)
    n = over_ranks(A.size(x.factors()), rank, size)
    s1, s2 = tot(lambda e: e), tot(lambda e: e*conj(e))
    m = s1*inv(n)
    return (s2*inv(n) - m*conj(m), m, n)
from pyvc import arrays as A


def wsetup(I, nd, X, xdims, nv):
    wd = xdims[1:-1] + [nv]
    Wt = Tensor('Wt', 'r', len(wd))
    return Wt, wd, tensor_arr(Wt, wd)


def popvar(X, dims, v):
    """population variance of X[..., v] over all other axes"""
    vs = [fresh('i') for _ in dims]
    def tot(g):
        r = g(el(X, vs + [v]))
        for a, d in reversed(list(zip(vs, dims))): r = summ(a, 0, d, r)
        return r
    n = ONE
    for d in dims: n = n*d
    m = tot(lambda e: e)*inv(n)
    vs2 = [fresh('i') for _ in dims]; r = (el(X, vs2 + [v]) - m)*conj(el(X, vs2 + [v]) - m)
    for a, d in reversed(list(zip(vs2, dims))): r = summ(a, 0, d, r)
    return r*inv(n)


def norm_serial(ctx, nd, method, kind='r', wkind='r'):
    def run(I):
        dims = [var('nt')] + [var(f'm{i}') for i in range(nd)]; nv = var('nv')
        I.assume(*[ge(d, 1) for d in dims + [nv]])
        X = Tensor('X', kind, nd + 2); x = tensor_arr(X, dims + [nv])
        Wt = Tensor('Wt', wkind, nd + 1); w = tensor_arr(Wt, dims[1:] + [nv])
        kw = dict(data=x, weights=w, n_vars=nv)
        if method is not None: kw['method'] = method
        r = I.call(find(I, W + 'apply_normalization'), [], kw)
        for a, b in zip(r.sizes(), dims[1:] + [nv]): ctx.eqt('shape of the weights', a, b, I.facts)
        idx, F = ctx.each(I, dims[1:] + [nv])
        if method in (None, 'variance', 'Variance'):
            ctx.eqt('weights divided by the population variance of the variable', r.at(idx), el(Wt, idx)*inv(popvar(X, dims, idx[-1])), F)
        else: ctx.eqt('weights untouched', r.at(idx), el(Wt, idx), F)
        ctx.unchanged(I, 'weights of the caller unchanged', w, Wt); ctx.unchanged(I, 'data unchanged', x, X)
        ctx.reachable(I)
    ctx.explore(run)
for _nd in (1, 2, 3):
    for _m in (None, 'variance', 'Variance', 'none'):
        contract('C11 C19', f'{W}apply_normalization[serial, {_nd} space axes, {_m}]')(lambda ctx, n=_nd, m=_m: norm_serial(ctx, n, m))
    contract('C11', f'{W}apply_normalization[serial, {_nd} space axes, variance, complex data]')(lambda ctx, n=_nd: norm_serial(ctx, n, 'variance', 'c'))
    contract('C11 C19', f'{W}apply_normalization[serial, {_nd} space axes, variance, integer weights]')(lambda ctx, n=_nd: norm_serial(ctx, n, 'variance', 'r', 'i'))


def norm_par(ctx, nd, method, kind='r', wkind='r'):
    def run(I):
        comm, size, rank = mkcomm(I)
        Ln = Tensor('len', 'i', 1); Ln.info['gen'] = lambda rng, idx: rng.randint(0, 3)
        dims = [var('nt'), el(Ln, [rank])] + [var(f'm{i}') for i in range(1, nd)]; nv = var('nv')
        I.assume(*[ge(d, 0 if d is dims[1] else 1) for d in dims + [nv]])          # a process may own no points
        X = Tensor('X', kind, nd + 3); x = mkarr([(d,) for d in dims + [nv]], lambda idx: el(X, [rank] + list(idx)), kind)
        Wt = Tensor('Wt', wkind, nd + 1); w = tensor_arr(Wt, dims[1:] + [nv])
        r = I.call(find(I, W + 'apply_normalization'), [], dict(data=x, weights=w, n_vars=nv, method=method, comm=comm))
        for a, b in zip(r.sizes(), dims[1:] + [nv]): ctx.eqt('shape of the weights', a, b, I.facts)
        idx, F = ctx.each(I, dims[1:] + [nv])
        if method == 'variance':
            vs = [fresh('i') for _ in dims]
            def tot(g):
                q = g(el(X, [rank] + vs + [idx[-1]]))
                for a, d in reversed(list(zip(vs, dims))): q = summ(a, 0, d, q)
                return over_ranks(q, rank, size)
            n = over_ranks(A.size(dims), rank, size); m = tot(lambda e: e)*inv(n)
            ctx.eqt('weights divided by the global population variance of the variable', r.at(idx), el(Wt, idx)*inv(tot(lambda e: e*conj(e))*inv(n) - m*conj(m)), F)
        else: ctx.eqt('weights untouched', r.at(idx), el(Wt, idx), F)
        ctx.unchanged(I, 'weights of the caller unchanged', w, Wt)
        ctx.unchanged_at(I, 'data unchanged', x, lambda i: el(X, [rank] + list(i)))
        ctx.reachable(I)
    ctx.explore(run)
for _nd in (1, 2):
    for _m in ('variance', 'none'):
        contract('C11 C19 C09', f'{W}apply_normalization[parallel, {_nd} space axes, {_m}]', models=COMM, contracts={'pyspod.utils.parallel.pvar': pvar_contract})(lambda ctx, n=_nd, m=_m: norm_par(ctx, n, m))
    contract('C11 C09', f'{W}apply_normalization[parallel, {_nd} space axes, variance, complex data]', models=COMM, contracts={'pyspod.utils.parallel.pvar': pvar_contract})(lambda ctx, n=_nd: norm_par(ctx, n, 'variance', 'c'))
    contract('C11 C09', f'{W}apply_normalization[parallel, {_nd} space axes, variance, integer weights]', models=COMM, contracts={'pyspod.utils.parallel.pvar': pvar_contract})(lambda ctx, n=_nd: norm_par(ctx, n, 'variance', 'r', 'i'))
