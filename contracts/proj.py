"""C14, C15: expansion coefficients by oblique projection, reconstruction."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.linalg import svd
from . import contract
from .modes import NOOP, save_contract, allreduce_serial, sqsum
from .dist import Dist, explore
from .par import U, sp, SP
from pyvc.loops import freeze
from pyvc.prover import prove_eq
from pyvc.npmodel import dftW
from .spod import hamming
from .post import PP, SU

CON = {'pyspod.utils.parallel.npy_save': save_contract, 'pyspod.utils.parallel.allreduce': allreduce_serial}


def gram(I, k, dims, PHI, W):
    """(matrix M, projection Q of X): sums over all points and variables"""
    p = [fresh('p') for _ in dims]; q = [fresh('p') for _ in dims]
    Mx = mkarr([(k,), (k,)], lambda i: sqsum(I, p, dims, el(PHI, p + [i[0]], True)*el(W, p)*el(PHI, p + [i[1]])), 'c')
    Q = lambda X, a, t: sqsum(I, q, dims, el(PHI, q + [a], True)*el(W, q)*el(X, [t] + q))
    return Mx, Q


def projection(ctx, variant, kind, nd=0, par=False):
    """pre: modes PHI [points, modes], weights W [points, 1], fluctuations X [time, points] (points: space axes and
    variables, cut along the first axis in a parallel run).  With M = PHI^H W PHI = U diag(L) V^H: post  A = sum over
    L_j > tol*L_0 of V_j U_j^H Q / L_j,  Q = PHI^H W X  (one formula for both variants and any number of processes), so
    that M A is the projection of Q on the retained singular vectors, and M A = Q if none is cut"""
    def run(I, root=None):
        k, nt = var('k'), var('nt'); tol = var('tol', 'r')
        dims = [var(f'm{i}') for i in range(nd + 1)]; n = len(dims)
        I.assume(*[ge(d, 1) for d in dims], ge(k, 1), ge(nt, 1), ge(tol, 0), lt(tol, 1))
        D = Dist(ctx, I, root, dims[0])
        PHI, W, X = ctx.T('PHI', 'c', n + 1), ctx.T('W', 'r', n), ctx.T('X', kind, n + 1)
        W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        ldims = [D.ln] + dims[1:]; sh = lambda i: [i[0] + D.lo] + list(i[1:])
        phi = mkarr([tuple(ldims), (k,)], lambda i: el(PHI, sh(i[:-1]) + [i[-1]]), 'c')
        w = mkarr([tuple(ldims), (ONE,)], lambda i: el(W, sh(i[:n])), 'r')
        x = mkarr([(nt,), tuple(ldims)], lambda i: el(X, [i[0]] + sh(i[1:])), kind)
        kw = {} if variant is None else dict(svd=variant)
        r = I.call(find(I, SU + '_oblique_projection'), [phi, w, x, tol], dict(**kw, dtype='double', comm=D.comm))
        if not ctx.reachable(I): return
        if not isinstance(r, Arr): ctx.cond(I, 'an array is returned', False); return
        if r.nd != 2: ctx.cond(I, 'one row per mode, one column per snapshot', False); return
        for d, e in zip(r.sizes(), [k, nt]): ctx.eqt('one row per mode, one column per snapshot', d, e, I.facts)
        Mx, Q = gram(I, k, dims, PHI, W)
        U, L, V, _, _ = svd(I, Mx)
        (a, t), F = ctx.each(I, [k, nt]); F = F.child(*order_lemmas(I, [[]], [a]))
        j, b, c = fresh('j'), fresh('b'), fresh('c')
        keep = lambda z: gt(el(L, [z]), tol*el(L, [ZERO]))
        want = summ(j, 0, k, ite(keep(j), el(V, [a, j])*inv(el(L, [j]))*summ(b, 0, k, el(U, [b, j], True)*Q(X, b, t)), ZERO))
        ctx.eqt('coefficients = pseudo-inverse of the modes\' Gram matrix times the projections', r.at([a, t]), want, F)
        MA = summ(c, 0, k, Mx.at([a, c])*r.at([c, t]))
        proj = summ(j, 0, k, ite(keep(j), el(U, [a, j])*summ(b, 0, k, el(U, [b, j], True)*Q(X, b, t)), ZERO))
        ctx.eqt('normal equations on the retained singular vectors', MA, proj, F)
        full = summ(j, 0, k, el(U, [a, j])*summ(b, 0, k, el(U, [b, j], True)*Q(X, b, t)))
        ctx.lemma('normal equations hold exactly if no singular value is cut', full, Q(X, a, t), F)
        if kind == 'c':
            # data in the span of the modes (X = PHI C) have the coefficients C
            C = Tensor('C', 'c', 2); d = fresh('d')
            QC = lambda z: summ(d, 0, k, Mx.at([z, d])*el(C, [d, t]))
            ctx.lemma('data in the span of the modes are recovered if no singular value is cut', summ(j, 0, k, el(V, [a, j])*inv(el(L, [j]))*summ(b, 0, k, el(U, [b, j], True)*QC(b))), el(C, [a, t]), F)
        ctx.unchanged_at(I, 'modes unchanged', phi, lambda i: el(PHI, sh(i[:-1]) + [i[-1]])); ctx.unchanged_at(I, 'data unchanged', x, lambda i: el(X, [i[0]] + sh(i[1:])))
        ctx.unchanged_at(I, 'weights unchanged', w, lambda i: el(W, sh(i[:n])))
        return D
    if par: explore(ctx, run)
    else: ctx.explore(run)


for _v in (None, True, False):
    for _k in ('r', 'c'):
        for _par in (False, True):
            contract('C14 C15' + (' C09' if _par else ''), f'{SU}_oblique_projection[{"default" if _v is None else "svd" if _v else "pinv"}, {"real" if _k == "r" else "complex"} data, {"parallel" if _par else "serial"}]', models=NOOP, contracts=CON, cost=2)(lambda ctx, v=_v, k=_k, p=_par: projection(ctx, v, k, 1, p))


# ------------------------------------------------------------------------------------------------ compute_coeffs_op
def files(ctx, I, st, root=None):
    """the file system: directories and files written, in order"""
    def makedirs(I, a, k): st['dirs'].append(a[0])
    def save(I, a, k): I.effects.append(Effect('np.save', (a[0], freeze(a[1]))))
    def opened(I, a, k): return Obj('$file', dict(name=a[0], mode=a[1] if len(a) > 1 else k.get('mode', 'r')))
    def dump(I, a, k):
        f = a[1] if len(a) > 1 else k.get('stream')
        st['yaml'].append((f.st['name'], f.st['mode'], dict(a[0].st)))
    st.update(dirs=[], yaml=[])
    there = lambda I, a, k: T.pred('exists') if root is None else False
    I.models = {**I.models, 'os.path.exists': there, 'os.path.isdir': there, 'os.makedirs': makedirs, 'numpy.save': save, 'open': opened, 'builtins.open': opened,
                'yaml.dump': dump, 'yaml.safe_dump': dump, 'os.chdir': lambda I, a, k: ctx.cond(I, 'the working directory is not changed', False)}


def shapes(nd):
    """extents: space axes, variables"""
    return [var(f'm{i}') for i in range(nd)], var('nv')


def same_array(ctx, I, name, x, dims, f, F=None, at=lambda i: i):
    ctx.cond(I, name + ' (number of axes)', isinstance(x, Arr) and x.nd == len(dims))
    if not isinstance(x, Arr) or x.nd != len(dims): return
    for a, b in zip(x.sizes(), dims): ctx.eqt(name + ' (shape)', a, b, I.facts)
    idx, G = ctx.each(I, dims)
    if F: G = G.child(*F)
    ctx.eqt(name, x.at([i for i, a in zip(idx, x.axes) for _ in a]), f(idx), G)


def convolution(ctx, I, arr, shp, n, dims, PHI, W, X, ids):
    cnt, nt, nms = shp
    ctx.cond(I, 'coefficients [frequency, time, mode]', arr.nd == 3)
    if arr.nd != 3: return
    for a, b in zip(arr.sizes(), shp): ctx.eqt('coefficients [frequency, time, mode]', a, b, I.facts)
    (f, t, m), F = ctx.each(I, shp); p = [fresh('p') for _ in dims]; r = fresh('r'); h = -1*T.floor(-1*to(n)/2)
    row = lambda r: t - h + to(r)
    full = sqsum(I, p, dims, T.conj(PHI(f, p, m))*W(p)*summ(r, ZERO, n, hamming(n)(r)*dftW(n, ids(f), to(r))*ite(And(ge(row(r), 0), lt(row(r), nt)), X(row(r), p), ZERO)))
    ctx.eqt('coefficients away from the ends', arr.at([f, t, m]), full, F.child(ge(t, h), lt(t, nt - h)))


def coeffs_op(ctx, nd, sel, kind, cut=None, noaxis=False, savedir=None, variant=None, conv=False, single=False):
    """pre: the files of a fit (verified contracts of _get_required_data, _get_modes, find_nearest_freq, distribute*,
    _oblique_projection, npy_save).  post: frequencies retained; the projection receives modes, weights and the data minus
    their time mean; the files written.  conv: the coefficients are weighted inner products of the modes with the windowed
    transform of the n_dft snapshots from t - ceil(n_dft/2) on (zero outside the record), up to a factor that depends on t
    only and is 1 half a block away from both ends"""
    def run(I, root=None):
        xs, nv = shapes(nd); ax = cut or 0
        if noaxis: nv = ONE
        nt, nf, nms, nk = var('nt'), var('nf'), var('nms'), var('nk')
        I.assume(*[ge(d, 1) for d in xs + [nv, nt, nf, nms]])
        D = Dist(ctx, I, root, (xs + [nv])[ax]); st = {}
        files(ctx, I, st, root)
        dims = xs + [nv]; n = len(dims)
        X = ctx.T('X', kind, 1 + n); W = ctx.T('W', 'r', n); PHI = ctx.T('PHI', 'c', n + 2); COEF = ctx.T('COEF', 'c', 3); FR = ctx.T('freq', 'r', 1); IDS = ctx.T('ids', 'i', 1)
        IDS.info.update(gen=lambda rng, i: rng.randint(0, 3), range=(0, nf - 1))
        dd = [nt] + xs + ([] if noaxis else [nv])
        x = mkarr([(d,) for d in dd], lambda i: el(X, list(i) + ([ZERO] if noaxis else [])), kind)
        x.buf.single = single       # data in single precision are not copied by _set_dtype
        sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]
        par = DictV(dict(n_space_dims=nd, n_variables=1 if noaxis else nv, n_freq=nf, n_modes_save=nms))
        n_dft = var('n_dft')
        if conv: par.st['n_dft'] = n_dft; I.assume(ge(n_dft, 4), le(nf, n_dft))
        name = 'compute_coeffs_conv' if conv else 'compute_coeffs_op'
        def one_freq(I, a, k):
            v = dict(zip(('results_path', 'freq_idx'), a)); v.update(k)
            ctx.cond(I, 'modes of the fit', v['results_path'] == 'DIR'); f = to(v['freq_idx'] if not isinstance(v['freq_idx'], Arr) else v['freq_idx'].at([]))
            return mkarr([(d,) for d in dims + [nms]], lambda i: el(PHI, [f] + list(i)), 'c')
        def required(I, a, k):
            ctx.cond(I, 'parameters, frequencies and weights of the fit', a[0] == 'DIR')
            return (par, DictV(dict(freq=tensor_arr(FR, [nf]))), mkarr([(d,) for d in dims], lambda i: el(W, i), 'r'))
        Tl, Tu = var('T_lb', 'r'), var('T_ub', 'r'); ilb, iub = var('ilb'), var('iub')
        def nearest(I, a, k):
            v = dict(zip(('freq_req', 'freq'), a)); v.update(k)
            ctx.unchanged(I, 'frequencies are looked up on the axis of the fit', v['freq'], FR)
            q = to(v['freq_req'])
            if prove_eq(q, inv(Tu), I.facts).ok: i = ilb
            elif prove_eq(q, inv(Tl), I.facts).ok: i = iub
            else:
                ctx.cond(I, 'frequencies 1/T_ub and 1/T_lb are looked up', Or(eq(q, inv(Tu)), eq(q, inv(Tl)))); raise PathEnd()
            return (el(FR, [i]), i)
        if sel == 'all': kw = {}; lb, ub, cnt, ids = ZERO, nf - 1, nf, (lambda f: f)
        elif sel == 'ids':
            I.assume(ge(nk, 1)); q = fresh('q')
            kw = dict(freq_idx=ListV(SymSeq(nk, lambda i: el(IDS, [i])))); lb = ub = None; cnt, ids = nk, (lambda f: el(IDS, [f]))
        else:
            I.assume(gt(Tl, 0), ge(Tu, Tl), ge(ilb, 0), le(ilb, iub), lt(iub, nf))
            kw = dict(T_lb=Tl, T_ub=Tu); lb, ub, cnt, ids = ilb, iub, iub - ilb + 1, (lambda f: f + ilb)
        calls = []
        def modes(I, a, k):
            v = dict(zip(('results_dir', 'n_freq', 'freq_idx', 'max_axis', 'xsize', 'n_modes_save', 'dt_complex', 'comm'), a)); v.update(k)
            ctx.cond(I, 'modes of the fit', v['results_dir'] == 'DIR')
            ctx.eqt('modes: number of frequencies', v['n_freq'], cnt, I.facts); ctx.eqt('modes: number of modes', v['n_modes_save'], nms, I.facts)
            same_array(ctx, I, 'modes: the retained frequencies', I.arrlike(v['freq_idx']), [cnt], lambda i: ids(i[0]))
            ctx.eqt('modes: local points', v['xsize'], A.size(ldims), I.facts)
            ctx.cond(I, 'modes: cut like the data', v.get('comm') is D.comm and (not D.par or v['max_axis'] == ax))
            return mkarr([tuple(ldims), (cnt, nms)], lambda i: el(PHI, [ids(i[-2])] + sh(i[:n]) + [i[-1]]), 'c')
        u = fresh('u')
        mean = lambda p: inv(nt)*summ(u, 0, nt, el(X, [u] + list(p)))
        tol = var('tol', 'r')
        def oblique(I, a, k):
            v = dict(zip(('phir', 'weights', 'data', 'tol', 'svd', 'dtype', 'comm'), a)); v.update(k)
            calls.append(1)
            ph = A.reshape(I, v['phir'], ldims + [cnt, nms])
            same_array(ctx, I, 'projection: modes', ph, ldims + [cnt, nms], lambda i: el(PHI, [ids(i[-2])] + sh(i[:n]) + [i[-1]]))
            w = v['weights']; ctx.cond(I, 'projection: one weight per point and variable', w.nd == 2)
            same_array(ctx, I, 'projection: weights', A.reshape(I, w, ldims), ldims, lambda i: el(W, sh(i)))
            d = v['data']; ctx.cond(I, 'projection: one row per snapshot', d.nd == 2); ctx.eqt('projection: one row per snapshot', d.sizes()[0], nt, I.facts)
            same_array(ctx, I, 'projection: data minus their time mean', A.reshape(I, d, [nt] + ldims), [nt] + ldims, lambda i: el(X, [i[0]] + sh(i[1:])) - mean(sh(i[1:])))
            ctx.eqt('projection: tolerance', v['tol'], tol, I.facts)
            ctx.cond(I, 'projection: variant asked for, all processes', v.get('svd', False) == (variant or False) and v.get('comm') is D.comm)
            return mkarr([(cnt, nms), (nt,)], lambda i: el(COEF, i), 'c')
        I.contracts = {**I.contracts, SU + '_get_required_data': required, PP + 'find_nearest_freq': nearest, SU + '_get_modes': modes, SU + '_oblique_projection': oblique, **({PP + 'get_modes_at_freq': one_freq} if conv else {}), U + 'distribute_data': D.distribute_data(ax)}
        if not D.par: I.contracts[U + 'npy_save'] = save_contract
        if savedir: kw['savedir'] = savedir
        if variant is not None: kw['svd'] = variant
        f, d = I.call(find(I, SU + name), [x, 'DIR'], dict(tol=tol, comm=D.comm, **kw))
        if not ctx.reachable(I): return
        if not conv: ctx.cond(I, 'one projection', len(calls) == 1)
        P_ = lambda p: p.parts if isinstance(p, SymStr) else (p,)
        if lb is not None:
            base = ['DIR/coeffs_', (lb, ''), '_', (ub, '')] + (['/' + savedir] if savedir else [])
            ctx.streq(I, 'folder of the coefficients', d, mkstr(base)); ctx.streq(I, 'file of the coefficients', f, mkstr(base + ['/coeffs.npy']))
        else: ctx.streq(I, 'file of the coefficients', f, mkstr(list(P_(d)) + ['/coeffs.npy']))
        saves = [e for e in I.effects if e.name == 'save']; co = [e for e in I.effects if e.name == 'np.save']
        ctx.cond(I, 'modes and mean are written', len(saves) == 2)
        for e in saves:
            p, arr, a_ = e.at()
            p = P_(p)
            if D.par: ctx.cond(I, 'modes and mean are cut like the data', to(a_) == to(ax))
            if p[-1].endswith('/modes_r.npy'):
                ctx.streq(I, 'file of the modes', e.args[0], mkstr(list(P_(d)) + ['/modes_r.npy']))
                ctx.cond(I, 'modes file [space, variable, retained mode]', arr.nd == n + (2 if conv else 1))
                if arr.nd == n + (2 if conv else 1): same_array(ctx, I, 'content of the modes file', A.reshape(I, arr, dims + [cnt, nms]), dims + [cnt, nms], lambda i: el(PHI, [ids(i[-2])] + list(i[:n]) + [i[-1]]))
            else:
                ctx.streq(I, 'file of the mean', e.args[0], mkstr(list(P_(d)) + ['/ltm.npy']))
                same_array(ctx, I, 'content of the mean file [space, variable]', arr, dims, lambda i: mean(i))
        ctx.cond(I, 'coefficients are written by the root only', len(co) == (0 if root is False else 1))
        if len(co) == 1 and root is not False:
            p, arr = co[0].at(); ctx.streq(I, 'file of the coefficients', p, f)
            if conv: convolution(ctx, I, arr, [cnt, nt, nms], n_dft, dims, lambda f, p, m: el(PHI, [ids(f)] + p + [m]), lambda p: el(W, p), lambda t, p: el(X, [t] + p) - mean(p), ids)
            else:
              ctx.cond(I, 'coefficients [retained mode, time]', arr.nd == 2)
              same_array(ctx, I, 'content of the coefficients file', A.reshape(I, arr, [cnt, nms, nt]), [cnt, nms, nt], lambda i: el(COEF, i))
        y = [q for q in st['yaml']]
        ctx.cond(I, 'parameters are written', len(y) >= 1 and y[-1][1] == 'w')
        if y:
            nm, _, c = y[-1]; ctx.streq(I, 'file of the parameters', nm, mkstr(list(P_(d)) + ['/params_coeffs.yaml']))
            get = lambda q: c.get(q) if not isinstance(c.get(q), Arr) else c.get(q).at([])
            if all(q in c for q in ('n_freq_r', 'freq_idx_lb', 'freq_idx_ub', 'freq_lb', 'freq_ub', 'max_axis')):
                ctx.eqt('number of retained frequencies', get('n_freq_r'), cnt, I.facts)
                ctx.eqt('cut axis recorded', get('max_axis'), to(ax), I.facts)
                if lb is not None:
                    ctx.eqt('first frequency id', get('freq_idx_lb'), lb, I.facts); ctx.eqt('last frequency id', get('freq_idx_ub'), ub, I.facts)
                ctx.eqt('first frequency', get('freq_lb'), el(FR, [to(get('freq_idx_lb'))]), I.facts); ctx.eqt('last frequency', get('freq_ub'), el(FR, [to(get('freq_idx_ub'))]), I.facts)
            else: ctx.cond(I, 'parameters recorded', False)
        ctx.unchanged_at(I, 'data of the caller unchanged', x, lambda i: el(X, list(i) + ([ZERO] if noaxis else [])))
        return D
    if cut is not None: explore(ctx, run)
    else: ctx.explore(run)


for _nd, _s, _k, _c, _n, _d, _v in [(1, 'all', 'r', None, False, None, None), (2, 'all', 'r', None, False, None, None), (2, 'ids', 'r', None, False, 'SUB', True), (2, 'periods', 'r', None, False, None, False), (1, 'periods', 'c', None, False, None, None), (3, 'all', 'r', None, False, None, None),
        (1, 'all', 'r', None, True, None, None), (2, 'periods', 'c', None, True, None, None), (1, 'all', 'r', 0, False, None, None), (2, 'periods', 'r', 1, False, None, True), (2, 'ids', 'c', 0, False, 'SUB', None), (2, 'all', 'r', 1, True, None, None), (1, 'all', 'r', 1, False, None, None), (2, 'ids', 'r', 2, False, None, None)]:
    contract('C14 C19' + (' C09' if _c is not None else ''), f'{SU}compute_coeffs_op[{_nd} space axes, {_s}, {"real" if _k == "r" else "complex"}{", no variables axis" if _n else ""}{", savedir" if _d else ""}{"" if _v is None else f", svd={_v}"}, {"serial" if _c is None else f"parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(
        lambda ctx, a=(_nd, _s, _k, _c, _n, _d, _v): coeffs_op(ctx, *a))


for _nd, _s, _k, _c, _n, _d in [(1, 'all', 'r', None, False, None), (2, 'ids', 'c', None, False, 'SUB'), (2, 'periods', 'r', None, True, 'SUB'), (1, 'all', 'c', 0, False, None), (2, 'ids', 'r', 1, False, None), (1, 'periods', 'r', 1, False, None)]:
    contract('C28 C15 C19' + (' C09' if _c is not None else ''), f'{SU}compute_coeffs_conv[{_nd} space axes, {_s}, {"real" if _k == "r" else "complex"}{", no variables axis" if _n else ""}{", savedir" if _d else ""}, {"serial" if _c is None else f"parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(
        lambda ctx, a=(_nd, _s, _k, _c, _n, _d, None, True): coeffs_op(ctx, *a))


for _conv in (False, True):
    for _nd, _s, _k, _c in [(1, 'all', 'r', None), (2, 'ids', 'r', 1), (1, 'periods', 'c', None)]:
        contract('C19 ' + ('C28 C15' if _conv else 'C14') + (' C09' if _c is not None else ''), f'{SU}compute_coeffs_{"conv" if _conv else "op"}[{_nd} space axes, {_s}, {"real" if _k == "r" else "complex"}, data in single precision, {"serial" if _c is None else f"parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(
            lambda ctx, a=(_nd, _s, _k, _c, False, None, None, _conv, True): coeffs_op(ctx, *a))


# ------------------------------------------------------------------------------------------------ reconstruction
REC = {'all': 1, 'half': 2, 'quarter': 4, 'tenth': 10, 'hundredth': 100}


def stored(ctx, I, st, files_, params=None, root=None):
    """files that are read: name -> array maker; yaml parameters: name -> dictionary"""
    files(ctx, I, st, root)
    full = lambda p: p.split('CWD/', 1)[-1] if isinstance(p, str) else p
    arrs = {}
    def load(I, a, k):
        p = full(a[0]); mode = a[1] if len(a) > 1 else k.get('mode', 'r+')
        if mode not in (None, 'r', 'r+', 'c'): ctx.cond(I, 'stored results are opened for reading', False)
        if p not in files_: raise PyRaise('FileNotFoundError', str(p))
        arrs[p] = files_[p](); st.setdefault('read', []).append(p)
        return arrs[p]
    def yload(I, a, k):
        p = full(a[0].st['name'])
        if p not in (params or {}): raise Unsupported(f'file {p}')
        return DictV(dict(params[p]))
    I.models = {**I.models, 'numpy.lib.format.open_memmap': load, 'numpy.load': load, 'yaml.load': yload, 'yaml.safe_load': yload, 'os.getcwd': lambda I, a, k: 'CWD'}
    return arrs


def reconstruction(ctx, nd, sel, given, kind='c', cut=None, savedir=None, filename=None, conv=False):
    """pre: the files written by compute_coeffs_op (its contract): ltm.npy [space, variable], modes_r.npy [space, variable,
    retained mode], coeffs.npy [retained mode, time] (conv: [.., frequency, mode] and [frequency, time, mode]), params_coeffs.yaml.  post: the file [time, space, variable] holds
    mean + sum_j Phi_j a_j(t) for the times asked for, in that order, whatever the number of processes"""
    def run(I, root=None):
        xs, nv = shapes(nd); ax = cut or 0
        R, nt, ns = var('R'), var('nt'), var('ns')
        dims = xs + [nv]; n = len(dims)
        I.assume(*[ge(d, 1) for d in dims + [R, nt]], ge(ns, 1))
        D = Dist(ctx, I, root, (xs + [nv])[ax]); st = {}
        R2 = var('R2'); I.assume(ge(R2, 1))
        PHI, MEAN, A_ = ctx.T('PHI', 'c', n + 1 + conv), ctx.T('MEAN', kind, n), ctx.T('A', 'c', 2 + conv)
        pd = dims + ([R, R2] if conv else [R]); ad = [R, nt] + ([R2] if conv else [])
        TI = ctx.T('ti', 'i', 1); TI.info.update(gen=lambda rng, i: rng.randint(0, 3), range=(0, nt - 1))
        FL = {'CO/ltm.npy': lambda: tensor_arr(MEAN, dims), 'CO/modes_r.npy': lambda: tensor_arr(PHI, pd)}
        if not given: FL['CO/coeffs.npy'] = lambda: tensor_arr(A_, ad)
        arrs = stored(ctx, I, st, FL, {'CO/params_coeffs.yaml': dict(max_axis=to(ax))}, root)
        if sel == 'list': ti = ListV(SymSeq(ns, lambda i: el(TI, [i]))); seq0 = ti.st; cnt, tid = ns, (lambda t: el(TI, [t]))
        elif sel == 'fixed': I.assume(ge(nt, 4)); ti = ListV([to(3), to(0), to(3)]); cnt, tid = to(3), (lambda t: T.ite(eq(t, 1), ZERO, to(3)))
        else: ti = sel; s = REC[sel.lower()]; cnt = idiv(nt + (s - 1), to(s)); tid = lambda t: t*s
        co = tensor_arr(A_, ad) if given else None
        if given: co.buf.single = getattr(ctx, 'single', False)
        kw = dict(coeffs=co) if given else {}
        if savedir: kw['savedir'] = savedir
        if filename: kw['filename'] = filename
        if not D.par: I.contracts = {**I.contracts, U + 'npy_save': save_contract}
        f, d = I.call(find(I, SU + 'compute_reconstruction'), ['CO'], dict(time_idx=ti, comm=D.comm, **kw))
        if not ctx.reachable(I): return
        cut_ = lambda p: mkstr([p]).split('CWD/', 1)[-1] if isinstance(mkstr([p]), str) else p
        want = 'CO' + ('/' + savedir if savedir else '')
        ctx.streq(I, 'folder', cut_(d), want); ctx.streq(I, 'file', cut_(f), want + '/' + (filename or 'reconstructed') + '.npy')
        saves = [e for e in I.effects if e.name == 'save']; ctx.cond(I, 'one file is written', len(saves) == 1)
        if len(saves) == 1:
            p, arr, a_ = saves[0].at(); ctx.streq(I, 'file', cut_(p), cut_(f))
            if D.par: ctx.cond(I, 'cut like the mean', to(a_) == to(ax + 1))
            j, h = fresh('j'), fresh('h')
            term = (lambda i: summ(j, 0, R, summ(h, 0, R2, el(PHI, i[1:] + [j, h])*el(A_, [j, tid(i[0]), h])))) if conv else (lambda i: summ(j, 0, R, el(PHI, i[1:] + [j])*el(A_, [j, tid(i[0])])))
            same_array(ctx, I, 'file [time, space, variable]: mean + modes * coefficients at the times asked for', arr, [cnt] + dims, lambda i: el(MEAN, i[1:]) + term(i))
        for p, g in FL.items():
            if p in arrs: ctx.unchanged_at(I, 'stored results unchanged', arrs[p], lambda i, g=g: g().at(i))
        if given: ctx.unchanged(I, 'coefficients of the caller unchanged', co, A_)
        if sel == 'list': ctx.cond(I, 'list of times of the caller unchanged', ti.st is seq0)
        if sel == 'fixed': ctx.cond(I, 'list of times of the caller unchanged', [to(x) for x in ti.st] == [to(3), to(0), to(3)])
        return D
    if cut is not None: explore(ctx, run)
    else: ctx.explore(run)


for _nd, _s, _g, _c, _d, _f, *_x in [(1, 'list', False, None, None, None, True), (2, 'all', True, None, None, None, True), (2, 'half', False, 1, None, None, True), (1, 'fixed', True, None, None, None), (1, 'fixed', False, None, None, None, True), (2, 'fixed', True, 1, None, None), (1, 'all', False, None, None, None), (2, 'half', True, None, None, None), (2, 'list', False, None, 'SUB', None), (3, 'list', True, None, None, 'REC'), (1, 'Quarter', False, None, None, None), (1, 'tenth', True, None, None, None), (1, 'hundredth', False, None, None, None),
        (1, 'all', True, 0, None, None), (2, 'list', False, 0, None, None), (2, 'list', True, 1, 'SUB', 'REC'), (3, 'half', False, 2, None, None), (2, 'ALL', False, 1, None, None), (1, 'list', False, 1, None, None), (2, 'all', False, 2, None, None), (1, 'half', False, 1, None, None, True)]:
    contract('C15 C19' + (' C09' if _c is not None else ''), f'{SU}compute_reconstruction[{_nd} space axes, {_s}, {"convolution, " if _x else ""}coefficients {"given" if _g else "read"}{", savedir" if _d else ""}{", filename" if _f else ""}, {"serial" if _c is None else f"parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=1)(
        lambda ctx, a=(_nd, _s, _g, 'r', _c, _d, _f, bool(_x)): reconstruction(ctx, *a))
for _x in (False, True):
    contract('C15 C19', f'{SU}compute_reconstruction[1 space axes, all, {"convolution, " if _x else ""}coefficients given{SP}]', models=NOOP, contracts=CON, cost=1)(sp(lambda ctx, x=_x: reconstruction(ctx, 1, 'all', True, 'r', None, None, None, x)))


def required_data(ctx, missing):
    """post: the parameters, the frequencies and the weights of the fit in that folder, unchanged"""
    def run(I):
        nf, nx, nv = var('nf'), var('nx'), var('nv'); I.assume(*[ge(d, 1) for d in (nf, nx, nv)]); st = {}
        FR, W = ctx.T('freq', 'r', 1), ctx.T('W', 'r', 2)
        FL = {'DIR/eigs_freq.npz': lambda: DictV(dict(freq=tensor_arr(FR, [nf]))), 'DIR/weights.npy': lambda: tensor_arr(W, [nx, nv])}
        if missing: del FL['DIR/eigs_freq.npz']
        arrs = stored(ctx, I, st, FL, {'DIR/params_modes.yaml': dict(n_freq=nf, n_dft='X')})
        s, v = ctx.attempt(I, lambda: I.call(find(I, SU + '_get_required_data'), ['DIR'], {}))
        if not ctx.reachable(I): return
        if missing: ctx.cond(I, 'a folder without a fit is rejected', s == 'raise'); return
        ctx.cond(I, 'files of the fit are found', s == 'ok')
        if s != 'ok': return
        p, e, w = v
        ctx.cond(I, 'parameters of the fit', isinstance(p, DictV) and set(p.st) == {'n_freq', 'n_dft'} and p.st['n_freq'] == nf and p.st['n_dft'] == 'X')
        ctx.unchanged(I, 'frequencies of the fit', I.getitem(e, 'freq'), FR)
        same_array(ctx, I, 'weights of the fit', w, [nx, nv], lambda i: el(W, i))
    ctx.explore(run)
for _m in (False, True): contract('C14 C15 C16', f'{SU}_get_required_data[{"no fit" if _m else "fit"}]', models=NOOP)(lambda ctx, m=_m: required_data(ctx, m))
