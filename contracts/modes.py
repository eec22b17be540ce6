"""C05, C06, C15 (shapes): eigen-decomposition of the cross-spectral density and the modes written to disk."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.npmodel import PI
from . import contract
from .par import COMM, mkcomm
from .dist import Dist, explore
from .spod import B, S, cls, params, new, block_self, geti, data, hamming, FILES

SAVE = {'$save': effect('npy_save')}
NOOP = {'$noop': FILES['$noop']}


def save_contract(I, a, k):
    """contract of utils_par.npy_save(comm, path, array, axis): one file with the (global) array"""
    from pyvc.loops import freeze
    names = ('comm', 'filename', 'array', 'axis')
    v = dict(zip(names, a)); v.update(k)
    I.effects.append(Effect('save', (v['filename'], freeze(v['array']), v.get('axis', 0))))


def allreduce_serial(I, a, k):
    v = dict(zip(('data', 'comm'), a)); v.update(k)
    if v.get('comm') is None: return v['data']
    raise Unsupported('allreduce')


def sqsum(I, idx, dims, f):
    """sum over points and variables"""
    for i, d in reversed(list(zip(idx, dims))): f = summ(i, 0, d, f)
    return f


def spectrum(ctx, I, s, P, f, F0, q, w, dims, nf, nb, ms, n, up, lo, real, full, modes=None):
    """P(p, j): value of mode j at frequency f, point and variable p.  The modes are orthonormal and diagonalize the weighted
    cross-spectral density, ordered by energy; eigenvalues and confidence bounds"""
    j, m = modes or (var('j'), var('m'))
    eigs = I.getattr(s, '_eigs')
    ctx.eqt('one eigenvalue per frequency and block', eigs.sizes()[0], nf, I.facts); ctx.eqt('one eigenvalue per frequency and block', eigs.sizes()[1], nb, I.facts)
    # eigenvalue records: raw spectrum of the cross-spectral density at f
    F = F0.child(ge(j, 0), lt(j, ms), ge(m, 0), lt(m, ms))
    idxs = [j, m, nb - 1 - j, nb - 1 - m]
    F = F.child(*order_lemmas(I, [[f]], idxs))
    e = eigs.at([f, j])
    if len(I.eigs) != 1: raise Unsupported('another way of diagonalizing')
    L = I.eigs[0]['L']
    # the factor that doubles one-sided energy
    if real and not full: dbl = ite(And(gt(f, 0), Not(eq(2*f, n))), 2, 1)
    else: dbl = ONE
    # eigenvalue belonging to mode j: lam(j); every L met is positive (the property excludes numerically zero ones)
    pos = lambda G, *terms: G.child(*[gt(x, 0) for t in terms for x in Ls(t, L)])
    Fp = pos(F, P([fresh('x') for _ in dims], j), P([fresh('x') for _ in dims], m), e)
    lam = lambda x: F.simplify(x)
    raw = e*inv(dbl)
    p = [fresh('p') for _ in dims]
    gram = sqsum(I, p, dims, conj(P(p, j))*w(p)*P(p, m))
    ctx.eqt('modes are normalized in the weighted inner product', sqsum(I, p, dims, conj(P(p, j))*w(p)*P(p, j)), ONE, Fp)
    ctx.eqt('different modes are orthogonal in the weighted inner product', gram, ZERO, Fp.child(ne(j, m)))
    x, Fx = ctx.each(I, dims); Fx = Fp.child(*[c for i, d in zip(x, dims) for c in (ge(i, 0), lt(i, d))])
    b = fresh('b')
    csd = inv(nb)*summ(b, 0, nb, q(f, x, b)*sqsum(I, p, dims, conj(q(f, p, b))*w(p)*P(p, j)))
    ctx.eqt('modes are eigenvectors of the cross-spectral density for the eigenvalue reported', csd*dbl, e*P(x, j), Fx)
    ctx.cond_f('eigenvalues in descending order', T.Implies(le(j, m), ge(eigs.at([f, j]), eigs.at([f, m]))), Fp)
    # non-negative: the eigenvalue is the weighted energy of the projection on its mode
    ctx.cond_f('eigenvalues not negative', ge(e, 0), F)
    ctx.eqt('eigenvalue = weighted energy of the realizations along the mode', e,
            dbl*inv(nb)*summ(b, 0, nb, sqsum(I, p, dims, conj(q(f, p, b))*w(p)*P(p, j))*conj(sqsum(I, p2(p), dims, conj(q(f, p2(p), b))*w(p2(p))*P(p2(p), j)))), Fp)
    ec = I.getattr(s, '_eigs_c')
    for a, c in zip(ec.sizes(), [nf, nb, to(2)]): ctx.eqt('bounds for every eigenvalue', a, c, I.facts)
    ctx.eqt('lower confidence bound', ec.at([f, j, ZERO]), e*2*nb*inv(lo), Fp)
    ctx.eqt('upper confidence bound', ec.at([f, j, ONE]), e*2*nb*inv(up), Fp)


def standard_spod(ctx, nd, real, full, cut=None):
    """pre: Q_hats[f] is the [points*variables, n_blocks] matrix of Fourier realizations, weights a column of that height.
    post: the modes written are orthonormal and diagonalize the weighted cross-spectral density, ordered by energy"""
    def run(I, root=None):
        n, nb, nf = var('n_dft'), var('nb'), var('nf')
        par = {'fullspectrum': True} if full else {}
        ms = var('nms'); ax = cut or 0
        I.assume(ge(n, 4), ge(nb, 2), ge(ms, 1), le(ms, nb))
        nf = idiv(n, to(2)) + 1 if real and not full else n
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv')
        dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        D = Dist(ctx, I, root, dims[ax])
        s = new(I, par=params(I, ('normalize_data', 'savefft', 'reuse_blocks', 'normalize_weights'), **par), comm=D.comm)
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]; sh = lambda i: [to(q) + D.lo if j == ax else q for j, q in enumerate(i)]
        Q = ctx.T('Q', 'c', 2 + len(dims)); W = ctx.T('Wt', 'r', len(dims)); W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        q = lambda f, p, b: el(Q, [f] + list(p) + [b])
        w = lambda p: el(W, list(p))
        QH = DictV({SYM: [(ZERO, nf, lambda f: mkarr([tuple(ldims), (nb,)], lambda i: q(to(f), sh(i[:-1]), i[-1]), 'c'))]})
        Ec = mkarr([(nf,), (nb,), (to(2),)], lambda i: ZERO, 'r')
        up, lo = var('xi2_upper', 'r'), var('xi2_lower', 'r'); I.assume(gt(up, 0), gt(lo, 0))
        for k, v in dict(_n_blocks=nb, _n_freq=nf, _weights=mkarr([tuple(ldims), (ONE,)], lambda i: w(sh(i[:-1])), 'r'), _n_modes_save=ms,
                         _xshape=tuple(xs), _nv=nv, _modes_dir='MODES', _max_axis=ax, _eigs_c=Ec, _xi2_upper=up, _xi2_lower=lo, _isrealx=real,
                         _freq=tensor_arr(ctx.T('freq', 'r', 1), [nf]), _savefreq_disk=True, _savefreq_disk2=False,
                         _eigs=mkarr([(nf,), (nb,)], lambda i: ZERO, 'c')).items(): I.setattr(s, k, v)
        same = ctx.frame(I, I.getattr(s, '_weights'), soft=True)
        I.call(I.getattr(s, '_compute_standard_spod'), [QH], {})
        if not ctx.reachable(I): return
        same('the weights')
        saves = [e for e in I.effects if e.name == 'save']
        if len(saves) != 1 or len(saves[0].binders) != 1: raise Unsupported(f'{len(saves)} places write modes')
        E = saves[0]
        (f,), F0 = ctx.each(I, [nf])
        ctx.eqt('one file for every frequency', E.binders[0][1], ZERO, I.facts); ctx.eqt('one file for every frequency', E.binders[0][2], nf, I.facts)
        path, phi, axis = E.at(f)
        ctx.streq(I, 'file of frequency f', path, mkstr(['MODES/freq_idx_', (f, '08d'), '.npy']))
        ctx.cond(I, 'distributed axis', to(axis) == to(ax))
        ctx.cond(I, 'layout [space, variable, mode]', phi.nd == nd + 2)
        if phi.nd != nd + 2: return
        for a, b in zip(phi.sizes(), dims + [ms]): ctx.eqt('layout [space, variable, mode]', a, b, I.facts)
        P = lambda p, j: phi.at(list(p) + [j])
        spectrum(ctx, I, s, P, f, F0, q, w, dims, nf, nb, ms, n, up, lo, real, full)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)


_p2 = {}
def p2(p):
    """a second set of summation variables"""
    k = tuple(p)
    if k not in _p2: _p2[k] = [fresh('p') for _ in p]
    return _p2[k]


def Ls(t, L):
    """the elements of tensor L in a term"""
    out = []
    def go(p):
        for k in p.m:
            for a, _ in k:
                if a.kind == 'el' and a.key[2] is L: out.append(at(a))
                from pyvc.prover import _parts
                for q in _parts(a): go(q)
    go(to(t)); return out


CON = {'pyspod.utils.parallel.npy_save': save_contract, 'pyspod.utils.parallel.allreduce': allreduce_serial}
for _nd in (1, 2):
    for _r, _f in ((True, False), (True, True), (False, False)):
        contract('C05 C06' + (' C19' if _nd == 1 else ''), f'{S}Standard._compute_standard_spod[{_nd} space axes, {"real" if _r else "complex"}, {"full" if _f else "default"} spectrum]', models=NOOP, contracts=CON, cost=5)(lambda ctx, n=_nd, r=_r, f=_f: standard_spod(ctx, n, r, f))
        if _r and not _f:
            for _c in range(_nd + (_nd == 1)): contract('C09 C05', f'{S}Standard._compute_standard_spod[parallel, {_nd} space axes, axis {_c} cut]', models=NOOP, contracts=CON, cost=8)(lambda ctx, n=_nd, c=_c: standard_spod(ctx, n, True, False, c))


# ------------------------------------------------------------------------------------------------ fit: C02 -> C05, C18
def fit_case(ctx, nd, reuse, savefft, cut=None, flat=False):
    """pre: contracts of _initialize, _compute_blocks, _are_blocks_present, _compute_standard_spod.
    post: the matrix given to the decomposition at bin f holds in column i the realization of block i at bin f, computed or
    read back from the file fft_block{i}_freq{f}; the blocks are written under those names when asked for
    (parallel: the rows of this process's points; the files do not depend on the number of processes).
    flat: the points are one flattened axis [points, variable], as the readers of files give them"""
    def run(I, root=None):
        n, nb, nf = var('n_dft'), var('nb'), var('nf')
        I.assume(ge(n, 4), ge(nb, 2), ge(nf, 1))
        par = {}
        if reuse: par['reuse_blocks'] = True
        if savefft: par['savefft'] = True
        xs = [var('nx')] if flat else [var(f'm{i}') for i in range(nd)]; nv = var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        ax = cut or 0; D = Dist(ctx, I, root, dims[ax])
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]
        sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        s = new(I, par=params(I, **par), comm=D.comm)
        H = ctx.T('H', 'c', 2 + len(dims))        # realizations of the data: block, bin, point..., variable
        S_ = ctx.T('S', 'c', 2 + len(dims))       # content of the stored files
        X = ctx.T('X', 'r', 1 + len(dims)); nt = var('nt'); I.assume(ge(nt, 1))
        x = mkarr([(d,) for d in [nt] + ldims], lambda e: el(X, [e[0]] + sh(e[1:])), 'r')
        log = []
        def init(I, a, k):
            """verified contract of _initialize"""
            o = a[0]
            for key, v in dict(_n_blocks=nb, _n_freq=nf, _xshape=tuple(xs), _nv=nv, _nx=A.size(xs), _max_axis=ax, data=x, _local_shape=ldims[0] if flat else None, _blocks_folder='BLOCKS', _savedir_sim='SIM',
                               _reader=Obj('$reader', dict(_flattened=flat, _local_shape=ldims[0] if flat else None)), _isrealx=True, _dtype=DType('r'), _complex=DType('c'), _freq=tensor_arr(ctx.T('freq', 'r', 1), [nf])).items(): I.setattr(o, key, v)
        def comp(I, a, k):
            """verified contract of _compute_blocks"""
            i = to(a[1])
            I.ob('block number in range', And(ge(i, 0), lt(i, nb)))
            return (mkarr([(nf,), tuple(ldims)], lambda e: el(H, [i, e[0]] + sh(e[1:])), 'c'), i*7)
        def present(I, a, k):
            """contract of _are_blocks_present: true only if the file of every block and bin exists"""
            want = [nb, nf]
            ctx.cond(I, 'reuse is decided on the blocks and bins of this fit', And(eq(to(a[-4]), nb), eq(to(a[-3]), nf)))
            ctx.cond(I, 'reuse is decided on the folder of the blocks', a[-2] == 'BLOCKS')
            return T.pred('blocks_complete')
        def load(I, a, k):
            p = a[0]
            if not (isinstance(p, SymStr) and len(p.parts) == 5 and p.parts[0] == 'BLOCKS/fft_block' and p.parts[2] == '_freq' and p.parts[4] == '.npy' and p.parts[1][1] == p.parts[3][1] == '08d'): raise Unsupported(f'load of {p}')
            i, f = to(p.parts[1][0]), to(p.parts[3][0])
            return mkarr([(d,) for d in dims], lambda e: el(S_, [i, f] + list(e)), 'c')
        def spod(I, a, k):
            log.append(a[1]); return None
        I.contracts = dict(I.contracts); I.models = dict(I.models)
        I.contracts.update({B + 'Base._initialize': init, S + 'Standard._compute_blocks': comp, B + 'Base._are_blocks_present': present, S + 'Standard._compute_standard_spod': spod, B + 'Base._store_and_save': lambda I, a, k: log.append('stored')})
        I.models['numpy.load'] = load
        r = I.call(I.getattr(s, 'fit'), [x], {})
        if not ctx.reachable(I): return
        ctx.cond(I, 'fit returns the object', r is s)
        ctx.cond(I, 'results stored after the decomposition', len(log) == 2 and log[1] == 'stored')
        if len(log) != 2: return
        f = var('f'); I.assume(ge(f, 0), lt(f, nf))
        Q = I.dictget(log[0], f) if isinstance(log[0], DictV) else I.getitem(log[0], f)
        ctx.eqt('one row per point and variable', Q.sizes()[0], A.size(ldims), I.facts); ctx.eqt('one column per block', Q.sizes()[1], nb, I.facts)
        Q2 = A.reshape(I, Q, ldims + [nb])
        idx, F = ctx.each(I, ldims + [nb]); p, b = sh(idx[:-1]), idx[-1]
        reused = reuse and I.facts.decide(T.pred('blocks_complete'))
        ctx.cond(I, 'blocks are reused exactly if complete', reused is not None)
        if reused: ctx.eqt('column i is the stored realization of block i', Q2.at(idx), el(S_, [b, f] + p), F)
        else: ctx.eqt('column i is the realization of block i computed from the data', Q2.at(idx), el(H, [b, f] + p), F)
        saves = [e for e in I.effects if e.name == 'save']
        ctx.cond(I, 'blocks are written exactly when asked for', (len(saves) > 0) == bool(savefft and not reused))
        if savefft and not reused and len(saves) == 1:
            E = saves[0]
            if len(E.binders) != 2: raise Unsupported('other loops write the blocks')
            for q, h in zip(E.binders, (nb, nf)): ctx.eqt('every block and bin is written', q[1], ZERO, I.facts); ctx.eqt('every block and bin is written', q[2], h, I.facts)
            i = var('i'); G = I.facts.child(ge(i, 0), lt(i, nb))
            path, arr, ax_ = E.at(i, f)
            ctx.streq(I, 'name of the file of block i, bin f', path, mkstr(['BLOCKS/fft_block', (i, '08d'), '_freq', (f, '08d'), '.npy']))
            for d, e in zip(arr.sizes(), dims): ctx.eqt('layout of the file', d, e, G)
            idx, F = ctx.each(I, dims); F = F.child(*G.bs)
            ctx.eqt('content of the file', arr.at(idx), el(H, [i, f] + idx), F)
            if D.par: ctx.cond(I, 'distributed axis of the file', to(ax_) == to(ax))
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd in (1, 2):
    for _re in (False, True):
        for _sv in (False, True):
            if _nd == 2 and not _re: continue
            contract('C02 C18' if not _re else 'C18', f'{S}Standard.fit[{_nd} space axes{", reuse" if _re else ""}{", blocks saved" if _sv else ""}]', models=NOOP, contracts=CON, cost=2)(lambda ctx, n=_nd, r=_re, v=_sv: fit_case(ctx, n, r, v))
for _nd, _re, _sv, _c, _fl in ((1, False, True, 0, False), (2, True, True, 1, False), (2, True, False, 0, False), (1, False, False, 1, False), (1, True, True, None, True), (1, True, True, 0, True)):
    contract(('C18 C12' if _c is None else 'C09 C18') + (' C12' if _fl else ''), f'{S}Standard.fit[{"flattened points" if _fl else f"{_nd} space axes"}{", reuse" if _re else ""}{", blocks saved" if _sv else ""}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=2)(lambda ctx, a=(_nd, _re, _sv, _c, _fl): fit_case(ctx, *a))


# ------------------------------------------------------------------------------------------------ C18
@contract('C18', B + 'Base._are_blocks_present', models=NOOP, cost=1)
def blocks_present(ctx):
    """post: True if and only if the number of blocks whose nf files all exist equals the number of blocks (by the counting
    lemma - n indicators sum to n iff all hold - iff the file of every block and bin exists)"""
    def run(I):
        nb, nf = var('nb'), var('nf'); I.assume(ge(nb, 1), ge(nf, 1))
        def exists(I, a, k):
            p = a[0]
            if not (isinstance(p, SymStr) and len(p.parts) == 5): raise Unsupported(f'file name {p}')
            ctx.cond(I, 'name of the file looked for', p.parts[0] == 'DIR/fft_block' and p.parts[2] == '_freq' and p.parts[4] == '.npy' and p.parts[1][1] == p.parts[3][1] == '08d')
            return T.pred('file', p.parts[1][0], p.parts[3][0])
        I.models = dict(I.models); I.models['os.path.exists'] = exists; I.models['os.path.isfile'] = exists
        f = I.getattr(cls(I, B + 'Base'), '_are_blocks_present')
        r = I.call(f, [nb, nf, 'DIR', None], {})
        if not ctx.reachable(I): return
        i, j = fresh('i'), fresh('j')
        want = eq(summ(i, 0, nb, ite(eq(summ(j, 0, nf, ite(T.pred('file', i, j), ONE, ZERO)), nf), ONE, ZERO)), nb)
        if not isinstance(r, (bool, B)): ctx.cond(I, 'a truth value', False); return
        if isinstance(r, bool): r = TRUE if r else FALSE
        ctx.cond(I, 'true if and only if every file exists', Or(And(r, want), And(Not(r), Not(want))))
    ctx.explore(run)


def store(ctx, nd, cut=None, flat=False, conf=True):
    """pre: the state after the decomposition.  post: weights.npy and ltm_modes.npy hold weights and mean [space, variable],
    eigs_freq.npz the eigenvalues, the frequency axis and the bounds, params_modes.yaml the parameters of the fit that the
    projection reads"""
    def run(I, root=None):
        n, nb, nf, ms, ov = var('n_dft'), var('nb'), var('nf'), var('ms'), var('ov'); dt = var('dt', 'r')
        I.assume(ge(n, 4), ge(nb, 2), ge(nf, 1), ge(ms, 1), ge(ov, 0), gt(dt, 0))
        xs = [var('nx')] if flat else [var(f'm{i}') for i in range(nd)]; nv = var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        ax = cut or 0; D = Dist(ctx, I, root, dims[ax])
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]
        sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        W, LT = ctx.T('W', 'r', len(dims)), ctx.T('LT', 'r', len(dims)); E, EC, FR = ctx.T('E', 'r', 2), ctx.T('EC', 'r', 3), ctx.T('freq', 'r', 1)
        s = new(I, par=params(I, ('normalize_data', 'savefft', 'reuse_blocks', 'normalize_weights', 'fullspectrum'), n_dft=n, time_step=dt), comm=D.comm)
        st = {}
        from .proj import files, same_array
        files(ctx, I, st, root)
        I.models = {**I.models, 'numpy.savez': lambda I, a, k: I.effects.append(Effect('savez', (a[0], {q: freeze(v) for q, v in k.items()}))), 'numpy.savez_compressed': lambda I, a, k: I.effects.append(Effect('savez', (a[0], {q: freeze(v) for q, v in k.items()})))}
        w = mkarr([tuple(ldims), (ONE,)], lambda i: el(W, sh(i[:len(dims)])), 'r'); lt = mkarr([tuple(ldims)], lambda i: el(LT, sh(i)), 'r')
        for k, v in dict(_n_freq=nf, _savedir_sim='SIM', _dt=dt, _n_dft=n, _n_blocks=nb, _n_overlap=ov, _n_modes_save=ms, _reader=Obj('$reader', dict(_flattened=flat)), _local_shape=ldims[0] if flat else None,
                         _xshape=tuple(xs), _nv=nv, _max_axis=ax, _weights=w, _lt_mean=lt, _eigs=tensor_arr(E, [nf, nb]), _freq=tensor_arr(FR, [nf]), **(dict(_eigs_c=tensor_arr(EC, [nf, nb, to(2)])) if conf else {})).items(): I.setattr(s, k, v)
        if not conf:
            d = dict(s.st); d.pop('_eigs_c', None); s.st = d; s.stub = False
        I.call(I.getattr(s, '_store_and_save'), [], {})
        if not ctx.reachable(I): return
        saves = [e for e in I.effects if e.name == 'save']
        ctx.cond(I, 'weights and mean are written', len(saves) == 2)
        for e in saves:
            p, arr, a_ = e.at()
            if p == 'SIM/weights.npy': same_array(ctx, I, 'content of weights.npy [space, variable]', arr, dims, lambda i: el(W, i))
            else:
                ctx.cond(I, 'file of the mean', p == 'SIM/ltm_modes.npy'); same_array(ctx, I, 'content of ltm_modes.npy [space, variable]', arr, dims, lambda i: el(LT, i))
            if D.par: ctx.cond(I, 'distributed axis of the files', to(a_) == to(ax))
        z = [e for e in I.effects if e.name == 'savez']
        ctx.cond(I, 'eigenvalues and frequencies are written by the root only', len(z) == (0 if root is False else 1))
        if z and root is not False:
            p, d = z[0].args
            ctx.cond(I, 'file of the eigenvalues', p in ('SIM/eigs_freq', 'SIM/eigs_freq.npz'))
            for k_, nm_ in (('eigs', 'eigenvalues'), ('freq', 'frequencies')): ctx.cond(I, f'the {nm_} are written under their name', k_ in d)
            if 'eigs' in d: same_array(ctx, I, 'eigenvalues written', d['eigs'], [nf, nb], lambda i: el(E, i))
            if 'freq' in d: same_array(ctx, I, 'frequencies written', d['freq'], [nf], lambda i: el(FR, i))
            if conf:
                ctx.cond(I, 'bounds written', 'eigs_c_l' in d and 'eigs_c_u' in d)
                if 'eigs_c_l' in d: same_array(ctx, I, 'lower bounds written', d['eigs_c_l'], [nf, nb], lambda i: el(EC, list(i) + [ZERO]))
                if 'eigs_c_u' in d: same_array(ctx, I, 'upper bounds written', d['eigs_c_u'], [nf, nb], lambda i: el(EC, list(i) + [ONE]))
        y = st['yaml']
        ctx.cond(I, 'parameters are written by the root', len(y) == (0 if root is False else 1))
        if y and root is not False:
            nm, mode, c = y[0]; ctx.cond(I, 'file of the parameters', nm == 'SIM/params_modes.yaml' and mode == 'w')
            for k, v in dict(n_freq=nf, n_modes_save=ms, n_blocks=nb, n_dft=n, n_overlap=ov, time_step=dt, n_variables=nv, n_space_dims=to(2)).items():
                if k in c: ctx.eqt(f'parameter {k} of the fit', c[k], v, I.facts)
                else: ctx.cond(I, f'parameter {k} is written', False)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c, _fl, _cf in ((1, None, False, True), (2, None, False, False), (3, None, False, True), (1, 0, False, True), (2, 1, False, True), (3, 2, False, False), (1, 1, False, True), (1, None, True, True), (1, 0, True, True)):
    contract('C05 C06 C14' + (' C12' if _fl else '') + ('' if _c is None else ' C09'), f'{B}Base._store_and_save[{"flattened points" if _fl else f"{_nd} space axes"}{"" if _cf else ", no bounds"}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP, contracts=CON, cost=1)(lambda ctx, a=(_nd, _c, _fl, _cf): store(ctx, *a))
