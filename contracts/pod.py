"""C20: proper orthogonal decomposition (pod/base.py, pod/standard.py, pod/utils.py); C09, C19 for it."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from . import contract, spod
from .modes import save_contract, allreduce_serial, sqsum, Ls
from .spod import cls, data, norm_contract
from .dist import Dist, explore
from .par import U, sp, SP
from .proj import files, stored, same_array, REC
from pyvc.loops import freeze

PB = 'pyspod.pod.base.'
PS = 'pyspod.pod.standard.'
PU = 'pyspod.pod.utils.'
NOOP = {'$noop': (PB + 'Base.print_parameters', PB + 'Base._pr0', 'pyspod.utils.parallel.pr0'), 'os.path.exists': lambda I, a, k: True, 'os.makedirs': lambda I, a, k: None}
CON = {U + 'npy_save': save_contract, U + 'allreduce': allreduce_serial}


def params(I, **over):
    d = dict(time_step=var('dt', 'r'), n_space_dims=2, n_variables=var('nv'), savedir='out', normalize_data=T.pred('option normalize_data'))
    d.update(over)
    return DictV(d)


def new(I, par=None, weights=None, comm=None):
    o = I.call(cls(I, PS + 'Standard'), [par if par is not None else params(I), weights, comm], {})
    o.stub = True
    if spod.OLD:                # fitted to another record before
        n, m = var('old_points'), var('old_snapshots'); I.assume(ge(n, 1), ge(m, 2)); A_ = lambda name, *dims: tensor_arr(Tensor('old ' + name, 'r', len(dims)), list(dims))
        o.st.update(_t_mean=A_('mean', n), _weights=A_('weights', n, to(1)), _weights_name='old', _nt=m, _nx=n, _xshape=(n,), _shape=(to(1), n, to(1)), _dim=3, _isrealx=T.pred('old record is real'), _max_axis=0, _global_shape=(n, to(1)),
                    _savedir_sim='OLD', _data=A_('record', m, n, to(1)), _eigs=A_('eigs', m), _pb_size_f=var('old_gb', 'r'), _file_coeffs='OLD/c.npy', _coeffs_dir='OLD', _file_recons='OLD/r.npy', _n_modes_save=var('old_modes')); I.assume(ge(var('old_modes'), 1))
    return o


# ------------------------------------------------------------------------------------------------ fit
def fit_case(ctx, nd, cut=None, aslist=True):
    """pre: contract of _initialize (data X [time, points], mean, weights; saved modes <= snapshots; X is written as mean + fluctuation).
    post: modes.npy [space, variable, mode] holds orthonormal modes (weighted inner product) of descending energy that diagonalize
    the weighted covariance of the fluctuations, for the eigenvalues reported; whatever the number of processes"""
    def run(I, root=None):
        nt, ms = var('nt'), var('nms'); ax = cut or 0
        I.assume(ge(nt, 1), ge(ms, 1), le(ms, nt))
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        D = Dist(ctx, I, root, dims[ax])
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]; sh = lambda i: [to(q) + D.lo if j == ax else q for j, q in enumerate(i)]
        X, M_, W = ctx.T('X', 'r', nd + 2), ctx.T('M', 'r', nd + 1), ctx.T('Wt', 'r', nd + 1); W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        s = new(I, comm=D.comm); log = []
        given = Opaque('data')
        def init(I, a, k):
            ctx.cond(I, 'the data are given as a list', isinstance(a[1], ListV))
            o = a[0]; log.append('init')
            for key, v in dict(_nt=nt, _n_modes_save=ms, _xshape=tuple(xs), _nv=nv, _nx=A.size(xs), _max_axis=ax, _savedir_sim='SIM',
                               _data=mkarr([(d,) for d in [nt] + ldims], lambda i: el(X, [i[0]] + sh(i[1:])) + el(M_, sh(i[1:])), 'r'), _t_mean=mkarr([tuple(ldims)], lambda i: el(M_, sh(i)), 'r'),
                               _weights=mkarr([tuple(ldims), (ONE,)], lambda i: el(W, sh(i[:-1])), 'r')).items(): I.setattr(o, key, v)
            kept.append(ctx.frame(I, *[I.getattr(o, q) for q in ('_data', '_t_mean', '_weights')], soft=True))
        kept = []
        I.contracts = {**I.contracts, PB + 'Base._initialize': init, PB + 'Base._store_and_save': lambda I, a, k: log.append('stored')}
        r = I.call(I.getattr(s, 'fit'), [ListV([given]) if aslist else given], {})
        if not ctx.reachable(I): return
        for q in kept: q('record, mean and weights')
        ctx.cond(I, 'fit returns the object', r is s); ctx.cond(I, 'results are stored after the decomposition', log == ['init', 'stored'])
        saves = [e for e in I.effects if e.name == 'save']
        ctx.cond(I, 'one file of modes', len(saves) == 1)
        if len(saves) != 1: return
        path, phi, axis = saves[0].at()
        ctx.cond(I, 'file of the modes', path == 'SIM/modes.npy'); ctx.cond(I, 'layout [space, variable, mode]', phi.nd == nd + 2)
        if D.par: ctx.cond(I, 'distributed axis', to(axis) == to(ax))
        if phi.nd != nd + 2: return
        for a, b in zip(phi.sizes(), dims + [ms]): ctx.eqt('layout [space, variable, mode]', a, b, I.facts)
        eigs = I.getattr(s, '_eigs'); ctx.eqt('one eigenvalue per snapshot', eigs.sizes()[0], nt, I.facts)
        if len(I.eigs) != 1: raise Unsupported('another way of diagonalizing')
        L = I.eigs[0]['L']
        j, m = var('j'), var('m'); P = lambda p, j: phi.at(list(p) + [j])
        F = I.facts.child(ge(j, 0), lt(j, ms), ge(m, 0), lt(m, ms))
        F = F.child(*order_lemmas(I, [[]], [j, m, nt - 1 - j, nt - 1 - m]))
        e = eigs.at([j])
        Fp = F.child(*[gt(x, 0) for t in (P([fresh('x') for _ in dims], j), P([fresh('x') for _ in dims], m), e) for x in Ls(t, L)])
        p = [fresh('p') for _ in dims]; t = fresh('t'); w = lambda p: el(W, list(p)); d = lambda t, p: el(X, [t] + list(p))
        ctx.eqt('modes are normalized in the weighted inner product', sqsum(I, p, dims, P(p, j)*w(p)*P(p, j)), ONE, Fp)
        ctx.eqt('different modes are orthogonal in the weighted inner product', sqsum(I, p, dims, P(p, j)*w(p)*P(p, m)), ZERO, Fp.child(ne(j, m)))
        x, Fx = ctx.each(I, dims); Fx = Fp.child(*[c for i, q in zip(x, dims) for c in (ge(i, 0), lt(i, q))])
        cov = summ(t, 0, nt, d(t, x)*sqsum(I, p, dims, d(t, p)*w(p)*P(p, j)))
        ctx.eqt('modes are eigenvectors of the weighted covariance of the fluctuations for the eigenvalue reported', cov, e*P(x, j), Fx)
        F2 = I.facts.child(ge(j, 0), le(j, m), lt(m, nt)).child(*order_lemmas(I, [[]], [j, m, nt - 1 - j, nt - 1 - m]))
        ctx.cond_f('eigenvalues in descending order', ge(T.re(eigs.at([j])), T.re(eigs.at([m]))), F2)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c, _l in ((1, None, True), (1, None, False), (2, None, True), (3, None, True), (1, 0, True), (2, 0, True), (2, 1, True), (1, 1, True)):
    contract('C20' + (' C09' if _c is not None else ' C19' if _nd == 1 else ''), f'{PS}Standard.fit[{_nd} space axes{"" if _l else ", no list"}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(lambda ctx, a=(_nd, _c, _l): fit_case(ctx, *a))


# ------------------------------------------------------------------------------------------------ set-up
def mean_case(ctx, nd, par=False):
    """post: mean over all snapshots, each counted once"""
    def run(I):
        nt = var('nt'); I.assume(ge(nt, 1))
        X, dims, x = data(I, nt, nd)
        s = new(I); I.setattr(s, '_nt', nt)
        m = I.call(I.getattr(s, 'long_t_mean'), [x], {})
        idx, F = ctx.each(I, dims[1:]); t = fresh('t')
        ctx.eqt('one mean value per point and variable', A.size(m.factors()), A.size(dims[1:]), I.facts); ctx.cond(I, 'flattened', m.nd == 1)
        ctx.eqt('mean over all snapshots, each counted once', A.reshape(I, m, dims[1:]).at(idx), summ(t, 0, nt, el(X, [t] + idx))*inv(nt), F)
        ctx.unchanged(I, 'data unchanged', x, X); ctx.reachable(I)
    ctx.explore(run)
for _nd in (1, 2, 3): contract('C20 C19', f'{PB}Base.long_t_mean[{_nd} space axes]')(lambda ctx, n=_nd: mean_case(ctx, n))


def select_mean(ctx, mean):
    def run(I):
        s = new(I, params(I, mean_type=mean)); m = tensor_arr(Tensor('ltm', 'r', 1), [var('np')])
        I.contracts = {**I.contracts, PB + 'Base.long_t_mean': lambda I, a, k: m}
        st, e = ctx.attempt(I, lambda: I.call(I.getattr(s, 'select_mean'), [Opaque('data')], {}))
        known = mean.lower() in ('longtime', 'zero')
        ctx.cond(I, 'unknown mean types are rejected, the others are not', (st == 'ok') == known)
        if st == 'raise': ctx.cond(I, 'rejected with ValueError', e.typ == 'ValueError')
        elif known: ctx.eq(I, 'the mean asked for is subtracted', I.getattr(s, '_t_mean'), m if mean.lower() == 'longtime' else 0.0)
        ctx.reachable(I)
    ctx.explore(run)
for _m in ('longtime', 'LongTime', 'zero', 'other'): contract('C20', f'{PB}Base.select_mean[{_m}]')(lambda ctx, m=_m: select_mean(ctx, m))
for _m in ('longtime', 'zero'): contract('C20', f'{PB}Base.select_mean[{_m}, fitted before]')(spod.refit(lambda ctx, m=_m: select_mean(ctx, m)))


def init_case(ctx, nd, nc, wts, cut=None, noaxis=False, norm=False):
    """pre: nc arrays of consecutive snapshots.  post: data = their concatenation, weights in the order of the data, number of saved modes
    clipped to the number of snapshots; nothing of the caller modified"""
    def run(I, root=None):
        ax = cut or 0
        xs = [var(f'm{i}') for i in range(nd)]; nv = ONE if noaxis else var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        if cut is not None: I.assume(*[(lt if j < ax else le)(d, dims[ax]) for j, d in enumerate(dims) if j != ax])
        D = Dist(ctx, I, root, dims[ax]); ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]; sh = lambda i: [to(q) + D.lo if j == ax else q for j, q in enumerate(i)]
        X = ctx.T('X', 'r', nd + 2); Ls_ = [var(f'L{c}') for c in range(nc)]; I.assume(*[ge(l, 1) for l in Ls_])
        arrs, off, offs = [], ZERO, []
        drop = lambda i: list(i) + [ZERO] if noaxis else list(i)
        for l in Ls_:
            arrs.append(mkarr([(d,) for d in [l] + xs + ([] if noaxis else [nv])], lambda i, off=off: el(X, [off + i[0]] + drop(i[1:])), 'r')); offs.append(off); off = off + l
        nt = off; nm = var('n_modes_save'); I.assume(ge(nm, 1))
        W = ctx.T('Wt', 'r', nd + 1); w = None
        if wts == 'dict': w = DictV(dict(weights=tensor_arr(W, dims), weights_name='given'))
        if wts == 'flat': w = DictV(dict(weights=mkarr([tuple(dims)], lambda i: el(W, i), 'r'), weights_name='given'))
        if w and getattr(ctx, 'single', False): w.st['weights'].buf.single = True
        if wts == 'wrong': w = DictV(dict(weights=tensor_arr(ctx.T('Wt1', 'r', 1), [var('nw')]), weights_name='given')); I.assume(ge(var('nw'), 1))
        s = new(I, params(I, n_space_dims=nd, n_variables=1 if noaxis else nv, n_modes_save=nm, **(dict(normalize_weights=True) if norm else {})), w, D.comm); done = []; Fac = ctx.T('factor', 'r', 1)
        LT = ctx.T('ltm', 'r', nd + 1); mean = []
        def use_mean(I, a, k):
            d = a[1]; mean.append(1)
            same_array(ctx, I, 'the mean is taken over the record', d, [nt] + ldims, lambda i: el(X, [i[0]] + sh(i[1:])))
            return mkarr([tuple(ldims)], lambda i: el(LT, sh(i)), 'r')
        I.contracts = {**I.contracts, PB + 'Base.long_t_mean': use_mean}
        if norm: norm_contract(ctx, I, done, Fac, ldims, D.comm)
        if D.par: I.contracts[U + 'distribute_data'] = D.distribute_data(ax)
        for a in arrs: a.buf.single = getattr(ctx, 'single', False)
        lst = ListV(list(arrs))
        st, e = ctx.attempt(I, lambda: I.call(I.getattr(s, '_initialize'), [lst], {}))
        if not ctx.reachable(I): return
        if wts == 'wrong':
            bad = T.Not(eq(var('nw'), A.size(dims)))
            if st == 'raise': ctx.cond(I, 'rejected with ValueError', e.typ == 'ValueError'); ctx.cond(I, 'only weights of the wrong size are rejected', bad)
            else: ctx.cond(I, 'weights of the wrong size are rejected', T.Not(bad))
            return D if st == 'ok' else None
        ctx.cond(I, 'data are accepted', st == 'ok')
        if st != 'ok': return
        g = lambda a: I.getattr(s, a)
        ctx.eqt('number of snapshots', g('_nt'), nt, I.facts); ctx.eqt('number of points', g('_nx'), A.size(xs), I.facts)
        ctx.eq(I, 'shape of the points', tuple(g('_xshape')), tuple(xs))
        ctx.eqt('saved modes never exceed the number of snapshots', g('_n_modes_save'), ite(gt(nm, nt), nt, nm), I.facts)
        same_array(ctx, I, 'the record: all arrays in order', g('_data'), [nt] + ldims, lambda i: el(X, [i[0]] + sh(i[1:])))
        wt = g('_weights'); ctx.cond(I, 'weights as a column', wt.nd == 2)
        if wt.nd == 2:
            ctx.eqt('weights as a column', wt.sizes()[1], ONE, I.facts); ctx.eqt('weights as a column', wt.sizes()[0], A.size(ldims), I.facts)
            idx, F = ctx.each(I, ldims); ctx.eqt('weights given, in the order of the data' if w else 'unit weights when none are given', A.reshape(I, wt, ldims).at(idx), (el(W, sh(idx)) if w else ONE)*(el(Fac, [idx[-1]]) if norm else ONE), F)
        ctx.cond(I, 'weights are normalized exactly if asked for', len(done) == bool(norm))
        ctx.cond(I, 'the long-time mean is computed', len(mean) == 1)
        if D.par: ctx.cond(I, 'axis along which the data are cut', to(g('_max_axis')) == to(ax))
        for a, o in zip(arrs, offs): ctx.unchanged_at(I, 'data of the caller unchanged', a, lambda i, o=o: el(X, [o + i[0]] + drop(i[1:])))
        if w: ctx.unchanged_at(I, 'weights of the caller unchanged', w.st['weights'], lambda i: el(W, i))
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _nc, _w, _c, _n, *_z in ((1, 1, 'flat', None, False, True), (2, 2, 'flat', 1, False), (2, 1, 'flat', 0, False, True), (2, 1, 'dict', 1, False, True), (2, 1, 'flat', None, False), (1, 1, None, None, False), (1, 2, 'dict', None, False), (2, 1, 'dict', None, False), (2, 3, None, None, False), (2, 2, 'wrong', None, False), (3, 1, 'dict', None, False), (1, 1, 'dict', None, True), (2, 2, None, None, True),
        (1, 2, 'dict', 0, False), (2, 1, 'dict', 0, False), (2, 2, 'dict', 1, False), (2, 1, None, 1, False), (2, 1, 'wrong', 1, False), (1, 1, 'dict', 0, True), (1, 1, 'dict', 1, False), (1, 2, None, 1, False)):
    contract('C20 C19' + (' C13' if _w == 'wrong' else '') + (' C09' if _c is not None else ''), f'{PB}Base._initialize[{_nc} arrays, {_nd} space axes{", no variables axis" if _n else ""}, weights {_w or "not given"}{", normalized" if _z else ""}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(lambda ctx, a=(_nd, _nc, _w, _c, _n, *_z): init_case(ctx, *a))
for _nd, _w, _c, _z in ((1, 'flat', None, True), (2, 'dict', None, False), (1, 'dict', 0, True)):
    contract('C20 C19' + (' C09' if _c is not None else ''), f'{PB}Base._initialize[1 arrays, {_nd} space axes, weights {_w}{", normalized" if _z else ""}{"" if _c is None else f", parallel, axis {_c} cut"}{SP}]', models=NOOP, contracts=CON, cost=2)(sp(lambda ctx, a=(_nd, 1, _w, _c, False, _z): init_case(ctx, *a)))

for _nd, _nc, _w, _c, _z in ((1, 2, None, None, False), (2, 1, 'dict', None, False), (1, 1, 'dict', None, True), (2, 1, 'dict', 1, False)):
    contract('C20' + (' C09' if _c is not None else ''), f'{PB}Base._initialize[{_nc} arrays, {_nd} space axes, weights {_w or "not given"}{", normalized" if _z else ""}{"" if _c is None else f", parallel, axis {_c} cut"}, fitted before]', models=NOOP, contracts=CON, cost=2)(
        spod.refit(lambda ctx, n=_nd, c=_nc, w=_w, k=_c, z=_z: init_case(ctx, n, c, w, k, norm=z)))


def store(ctx, nd, cut=None):
    """post: weights.npy, eigs.npz, params_modes.yaml hold the weights [space, variable], the eigenvalues and the parameters of the fit"""
    def run(I, root=None):
        nt, ms = var('nt'), var('ms'); dt = var('dt', 'r'); I.assume(ge(nt, 1), gt(dt, 0))
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        ax = cut or 0; D = Dist(ctx, I, root, dims[ax]); ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]; sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        W, E = ctx.T('W', 'r', len(dims)), ctx.T('E', 'r', 1)
        s = new(I, params(I, time_step=dt, n_space_dims=nd), comm=D.comm); st = {}
        files(ctx, I, st, root)
        I.models = {**I.models, **{f: (lambda I, a, k: I.effects.append(Effect('savez', (a[0], {q: freeze(v) for q, v in k.items()})))) for f in ('numpy.savez', 'numpy.savez_compressed')}}
        for k, v in dict(_savedir_sim='SIM', _dt=dt, _xshape=tuple(xs), _nv=nv, _max_axis=ax, _weights=mkarr([tuple(ldims), (ONE,)], lambda i: el(W, sh(i[:-1])), 'r'), _eigs=tensor_arr(E, [nt])).items(): I.setattr(s, k, v)
        I.call(I.getattr(s, '_store_and_save'), [], {})
        if not ctx.reachable(I): return
        saves = [e for e in I.effects if e.name == 'save']; ctx.cond(I, 'weights are written', len(saves) == 1)
        for e in saves:
            p, arr, a_ = e.at(); ctx.cond(I, 'file of the weights', p == 'SIM/weights.npy')
            same_array(ctx, I, 'content of weights.npy [space, variable]', arr, dims, lambda i: el(W, i))
            if D.par: ctx.cond(I, 'distributed axis of the file', to(a_) == to(ax))
        z = [e for e in I.effects if e.name == 'savez']; ctx.cond(I, 'eigenvalues are written by the root only', len(z) == (0 if root is False else 1))
        if z and root is not False:
            p, d = z[0].args; ctx.cond(I, 'file of the eigenvalues', p in ('SIM/eigs', 'SIM/eigs.npz') and 'eigs' in d)
            if 'eigs' in d: same_array(ctx, I, 'eigenvalues written', d['eigs'], [nt], lambda i: el(E, i))
        y = st['yaml']; ctx.cond(I, 'parameters are written by the root', len(y) == (0 if root is False else 1))
        if y and root is not False:
            nm, mode, c = y[0]; ctx.cond(I, 'file of the parameters', nm == 'SIM/params_modes.yaml' and mode == 'w')
            for k, v in dict(n_variables=nv, n_space_dims=to(nd), time_step=dt).items():
                if k in c: ctx.eqt(f'parameter {k} of the fit', c[k], v, I.facts)
                else: ctx.cond(I, f'parameter {k} is written', False)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c in ((1, None), (2, None), (3, None), (1, 0), (2, 1), (1, 1)): contract('C20' + ('' if _c is None else ' C09'), f'{PB}Base._store_and_save[{_nd} space axes{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON)(lambda ctx, a=(_nd, _c): store(ctx, *a))


# ------------------------------------------------------------------------------------------------ projection, reconstruction
def coeffs_op(ctx, nd, cut=None, noaxis=False, savedir=None):
    """pre: the files of a fit.  post: coefficient j at time t = sum over points and variables of Phi_j W (X_t - mean); files written"""
    def run(I, root=None):
        xs = [var(f'm{i}') for i in range(nd)]; nv = ONE if noaxis else var('nv'); nt, R = var('nt'), var('R'); ax = cut or 0
        dims = xs + [nv]; n = len(dims); I.assume(*[ge(d, 1) for d in dims + [nt, R]])
        D = Dist(ctx, I, root, dims[ax]); st = {}; ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]; sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        X, W, PHI, E = ctx.T('X', 'r', n + 1), ctx.T('W', 'r', n), ctx.T('PHI', 'r', n + 1), ctx.T('E', 'r', 1)
        drop = lambda i: list(i) + ([ZERO] if noaxis else [])
        x = mkarr([(d,) for d in [nt] + xs + ([] if noaxis else [nv])], lambda i: el(X, drop(i)), 'r')
        x.buf.single = getattr(ctx, 'single', False)
        FL = {'SIM/weights.npy': lambda: tensor_arr(W, dims), 'SIM/modes.npy': lambda: tensor_arr(PHI, dims + [R]), 'SIM/eigs.npz': lambda: DictV(dict(eigs=tensor_arr(E, [var('ne')])))}
        arrs = stored(ctx, I, st, FL, {'SIM/params_modes.yaml': dict(n_variables=1 if noaxis else nv, n_space_dims=nd)}, root)
        I.contracts = {**I.contracts, U + 'distribute_data': D.distribute_data(ax)}
        if not D.par: I.contracts[U + 'npy_save'] = save_contract
        f, d = I.call(find(I, PU + 'compute_coeffs_op'), [x, 'SIM'], dict(comm=D.comm, **(dict(savedir=savedir) if savedir else {})))
        if not ctx.reachable(I): return
        base = 'SIM/coeffs' + ('/' + savedir if savedir else '')
        ctx.streq(I, 'folder of the coefficients', d, base); ctx.streq(I, 'file of the coefficients', f, base + '/coeffs.npy')
        u, p = fresh('u'), [fresh('p') for _ in dims]; mean = lambda q: inv(nt)*summ(u, 0, nt, el(X, [u] + list(q)))
        saves = [e for e in I.effects if e.name == 'save']; co = [e for e in I.effects if e.name == 'np.save']
        ctx.cond(I, 'modes and mean are written', len(saves) == 2)
        for e in saves:
            q, arr, a_ = e.at()
            if D.par: ctx.cond(I, 'modes and mean are cut like the data', to(a_) == to(ax))
            if q == base + '/modes_r.npy': same_array(ctx, I, 'content of the modes file', arr, dims + [R], lambda i: el(PHI, i))
            else: ctx.cond(I, 'file of the mean', q == base + '/ltm.npy'); same_array(ctx, I, 'content of the mean file', arr, dims, lambda i: mean(i))
        ctx.cond(I, 'coefficients are written by the root only', len(co) == (0 if root is False else 1))
        if co and root is not False:
            q, arr = co[0].at(); ctx.streq(I, 'file of the coefficients', q, f)
            same_array(ctx, I, 'coefficients [mode, time]: weighted inner products of the modes with the fluctuations', arr, [R, nt], lambda i: sqsum(I, p, dims, el(PHI, p + [i[0]])*el(W, p)*(el(X, [i[1]] + p) - mean(p))))
        y = st['yaml']; ctx.cond(I, 'parameters are written', len(y) >= 1)
        if y:
            nm, mode, c = y[-1]; ctx.cond(I, 'file of the parameters', nm == base + '/params_coeffs.yaml' and mode == 'w')
            ctx.cond(I, 'cut axis recorded', to(c.get('max_axis', -7)) == to(ax))
        ctx.unchanged_at(I, 'data of the caller unchanged', x, lambda i: el(X, drop(i)))
        for q, g in FL.items():
            if isinstance(arrs.get(q), Arr): ctx.unchanged_at(I, 'stored results unchanged', arrs[q], lambda i, g=g: g().at(i))
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c, _n, _s in ((1, None, False, None), (2, None, False, 'SUB'), (3, None, False, None), (1, None, True, None), (1, 0, False, None), (2, 1, False, None), (2, 0, True, None), (1, 1, False, None)):
    contract('C20 C19' + ('' if _c is None else ' C09'), f'{PU}compute_coeffs_op[{_nd} space axes{", no variables axis" if _n else ""}{", savedir" if _s else ""}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON)(lambda ctx, a=(_nd, _c, _n, _s): coeffs_op(ctx, *a))
for _nd, _c in ((1, None), (2, None), (2, 1)):
    contract('C20 C19' + ('' if _c is None else ' C09'), f'{PU}compute_coeffs_op[{_nd} space axes{"" if _c is None else f", parallel, axis {_c} cut"}{SP}]', models=NOOP, contracts=CON)(sp(lambda ctx, a=(_nd, _c, False, None): coeffs_op(ctx, *a)))


def reconstruction(ctx, nd, sel, given, cut=None, savedir=None, filename=None):
    """post: the file [time, space, variable] holds mean + sum_j Phi_j a_j(t) for the times asked for, in that order"""
    def run(I, root=None):
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); R, nt, ns = var('R'), var('nt'), var('ns'); ax = cut or 0
        dims = xs + [nv]; n = len(dims); I.assume(*[ge(d, 1) for d in dims + [R, nt]], ge(ns, 1))
        D = Dist(ctx, I, root, dims[ax]); st = {}
        PHI, MEAN, A_ = ctx.T('PHI', 'r', n + 1), ctx.T('MEAN', 'r', n), ctx.T('A', 'r', 2)
        TI = ctx.T('ti', 'i', 1); TI.info.update(gen=lambda rng, i: rng.randint(0, 3), range=(0, nt - 1))
        FL = {'CO/ltm.npy': lambda: tensor_arr(MEAN, dims), 'CO/modes_r.npy': lambda: tensor_arr(PHI, dims + [R])}
        if not given: FL['CO/coeffs.npy'] = lambda: tensor_arr(A_, [R, nt])
        arrs = stored(ctx, I, st, FL, {'CO/params_coeffs.yaml': dict(max_axis=to(ax))}, root)
        if sel == 'list': ti = ListV(SymSeq(ns, lambda i: el(TI, [i]))); seq0 = ti.st; cnt, tid = ns, (lambda t: el(TI, [t]))
        elif sel == 'fixed': I.assume(ge(nt, 4)); ti = ListV([to(3), to(0), to(3)]); cnt, tid = to(3), (lambda t: T.ite(eq(t, 1), ZERO, to(3)))
        else: ti = sel; s = REC[sel.lower()]; cnt = idiv(nt + (s - 1), to(s)); tid = lambda t: t*s
        co = tensor_arr(A_, [R, nt]) if given else None
        if given: co.buf.single = getattr(ctx, 'single', False)
        kw = {**(dict(coeffs=co) if given else {}), **(dict(savedir=savedir) if savedir else {}), **(dict(filename=filename) if filename else {})}
        if not D.par: I.contracts = {**I.contracts, U + 'npy_save': save_contract}
        f, d = I.call(find(I, PU + 'compute_reconstruction'), ['CO'], dict(time_idx=ti, comm=D.comm, **kw))
        if not ctx.reachable(I): return
        cut_ = lambda p: p.split('CWD/', 1)[-1] if isinstance(p, str) else p
        want = 'CO' + ('/' + savedir if savedir else '')
        ctx.streq(I, 'folder', cut_(d), want); ctx.streq(I, 'file', cut_(f), want + '/' + (filename or 'reconstructed') + '.npy')
        saves = [e for e in I.effects if e.name == 'save']; ctx.cond(I, 'one file is written', len(saves) == 1)
        if len(saves) == 1:
            p, arr, a_ = saves[0].at(); ctx.streq(I, 'file', cut_(p), cut_(f)); j = fresh('j')
            if D.par: ctx.cond(I, 'cut like the mean', to(a_) == to(ax + 1))
            same_array(ctx, I, 'file [time, space, variable]: mean + modes * coefficients at the times asked for', arr, [cnt] + dims, lambda i: el(MEAN, i[1:]) + summ(j, 0, R, el(PHI, i[1:] + [j])*el(A_, [j, tid(i[0])])))
        for p, g in FL.items():
            if p in arrs: ctx.unchanged_at(I, 'stored results unchanged', arrs[p], lambda i, g=g: g().at(i))
        if given: ctx.unchanged(I, 'coefficients of the caller unchanged', co, A_)
        if sel == 'list': ctx.cond(I, 'list of times of the caller unchanged', ti.st is seq0)
        if sel == 'fixed': ctx.cond(I, 'list of times of the caller unchanged', [to(x) for x in ti.st] == [to(3), to(0), to(3)])
        return D
    if cut is not None: explore(ctx, run)
    else: ctx.explore(run)
for _nd, _s, _g, _c, _d, _f in ((1, 'all', False, None, None, None), (1, 'fixed', False, None, None, None), (2, 'fixed', True, 0, None, None), (2, 'list', True, None, None, None), (3, 'half', False, None, 'SUB', 'REC'), (1, 'Quarter', False, None, None, None), (1, 'tenth', True, None, None, None), (1, 'hundredth', False, None, None, None), (1, 'list', False, 0, None, None), (2, 'all', False, 1, None, None), (1, 'list', False, 1, None, None)):
    contract('C20 C19' + ('' if _c is None else ' C09'), f'{PU}compute_reconstruction[{_nd} space axes, {_s}, coefficients {"given" if _g else "read"}{", savedir" if _d else ""}{", filename" if _f else ""}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON)(lambda ctx, a=(_nd, _s, _g, _c, _d, _f): reconstruction(ctx, *a))
contract('C20 C19', f'{PU}compute_reconstruction[1 space axes, all, coefficients given{SP}]', models=NOOP, contracts=CON)(sp(lambda ctx: reconstruction(ctx, 1, 'all', True)))


@contract('C20', 'POD lemmas')
def lemmas(ctx):
    """a field in the span of orthonormal modes is reproduced by its coefficients: sum_j a_j <phi_j, phi_i> = a_i"""
    def run(I):
        R, n = var('R'), var('n'); I.assume(ge(R, 1), ge(n, 1))
        PHI, W, C, G = Tensor('PHI', 'r', 2), Tensor('W', 'r', 1), Tensor('C', 'r', 1), None
        i, j, p = var('i'), fresh('j'), fresh('p'); F = I.facts.child(ge(i, 0), lt(i, R))
        gram = lambda a, b: ite(eq(a, b), ONE, ZERO)        # orthonormality (postcondition of fit)
        ctx.lemma('coefficients of a field in the span of the modes', summ(j, 0, R, gram(i, j)*el(C, [j])), el(C, [i]), F)
        ctx.reachable(I)
    ctx.explore(run)
