"""C16, C17: retrieval of stored modes, orthogonality check, lookups."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from . import contract
from .par import COMM, mkcomm
from .spod import B, S, cls, params, new, data, FILES
from .modes import NOOP, save_contract, allreduce_serial
from .dist import Dist, explore

PP = 'pyspod.utils.postproc.'
SU = 'pyspod.spod.utils.'


def stored_modes(ctx, I, nd, prefix='freq_idx_', per_mode=False):
    """the modes files of a fit: DIR/modes/freq_idx_{k:08d}.npy with content PHI[k, point..., variable, mode]"""
    xs = [var(f'm{i}') for i in range(nd)]; nv, nms, nf = var('nv'), var('nms'), var('nf')
    dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims + [nms, nf]])
    PHI = ctx.T('PHI', 'c', 2 + len(dims))
    def load(I, a, k):
        p = a[0]
        if not isinstance(p, SymStr): raise Unsupported(f'file {p}')
        ps = p.parts
        mode = a[1] if len(a) > 1 else k.get('mode')
        if mode not in (None, 'r', 'r+', 'c'): ctx.cond(I, 'stored modes are opened for reading', False)
        if len(ps) == 3 and ps[0] in ('DIR/modes/freq_idx_',) and ps[1][1] == '08d' and ps[2] == '.npy':
            f = to(ps[1][0]); I.ob('a stored file is read', And(ge(f, 0), lt(f, nf)))
            return mkarr([(d,) for d in dims + [nms]], lambda i: el(PHI, [f] + list(i)), 'c')
        if len(ps) == 5 and ps[0] == 'DIR/modes/freq_idx_f' and ps[1][1] == '08d' and ps[2] == '_m' and ps[3][1] == '08d' and ps[4] == '.npy':
            f, m = to(ps[1][0]), to(ps[3][0]); I.ob('a stored file is read', And(ge(f, 0), lt(f, nf), ge(m, 0), lt(m, nms)))
            return mkarr([(d,) for d in dims], lambda i: el(PHI, [f] + list(i) + [m]), 'c')
        raise Unsupported(f'file {p}')
    perm = ctx.T('order', 'i', 1); perm.info['perm'] = True
    def glob(I, a, k):
        """the matching files in arbitrary order"""
        p = a[0]
        if p == 'DIR/modes/*.npy':
            n = nf; mk_ = lambda i: mkstr(['DIR/modes/freq_idx_', (i, '08d'), '.npy'])
        elif isinstance(p, SymStr) and len(p.parts) == 3 and p.parts[0] == 'DIR/modes/freq_idx_f' and p.parts[2] in ('_m*.npy',) and p.parts[1][1] == '08d':
            n = nms; mk_ = lambda i: mkstr(['DIR/modes/freq_idx_f', p.parts[1], '_m', (i, '08d'), '.npy'])
        else: raise Unsupported(f'glob of {p}')
        perm.info['num'] = lambda ev, idx: ev.i(n) - 1 - idx[0]
        return ListV(SymSeq(n, lambda i: mk_(el(perm, [i]))))
    I.models = dict(I.models)
    for f in ('numpy.lib.format.open_memmap', 'numpy.load'): I.models[f] = load
    I.models['glob.glob'] = glob; I.models['glob.escape'] = lambda I, a, k: a[0]
    ex = T.pred('one_file_per_frequency')
    def exists(I, a, k):
        p = a[0]
        if isinstance(p, SymStr) and p.parts[0] == 'DIR/modes/freq_idx_' and p.parts[2:] == ('.npy',): return ex
        raise Unsupported(f'exists {p}')
    I.models['os.path.exists'] = exists; I.models['os.path.isfile'] = exists
    I.models['os.chdir'] = lambda I, a, k: ctx.cond(I, 'the working directory is not changed', False)
    return dims, nms, nf, PHI, ex


def modes_at_freq(ctx, nd):
    """post: the array of bin k with axes [space, variable, mode], from one file per frequency or one file per mode"""
    def run(I):
        dims, nms, nf, PHI, ex = stored_modes(ctx, I, nd)
        k = var('k'); I.assume(ge(k, 0), lt(k, nf))
        r = I.call(find(I, PP + 'get_modes_at_freq'), ['DIR', k], {})
        if not ctx.reachable(I): return
        if not isinstance(r, Arr): ctx.cond(I, 'an array is returned', False); return
        for d, e in zip(r.sizes(), dims + [nms]): ctx.eqt('axes [space, variable, mode]', d, e, I.facts)
        ctx.cond(I, 'number of axes', r.nd == nd + 2)
        idx, F = ctx.each(I, dims + [nms])
        ctx.eqt('modes of bin k', r.at(idx), el(PHI, [k] + idx), F)
    ctx.explore(run)
for _nd in (1, 2, 3): contract('C16', f'{PP}get_modes_at_freq[{_nd} space axes]', models=NOOP)(lambda ctx, n=_nd: modes_at_freq(ctx, n))


def all_modes(ctx, nd):
    """post: all stored modes stacked in frequency order"""
    def run(I):
        dims, nms, nf, PHI, ex = stored_modes(ctx, I, nd)
        r = I.call(find(I, PP + 'get_all_modes'), ['DIR'], {})
        if not ctx.reachable(I): return
        ctx.cond(I, 'number of axes', isinstance(r, Arr) and r.nd == nd + 3)
        for d, e in zip(r.sizes(), [nf] + dims + [nms]): ctx.eqt('axes [frequency, space, variable, mode]', d, e, I.facts)
        idx, F = ctx.each(I, [nf] + dims + [nms])
        ctx.eqt('frequency order', r.at(idx), el(PHI, idx), F)
    ctx.explore(run)
for _nd in (1, 2): contract('C16', f'{PP}get_all_modes[{_nd} space axes]', models=NOOP)(lambda ctx, n=_nd: all_modes(ctx, n))


# ------------------------------------------------------------------------------------------------ _get_modes, orthogonality check
def get_modes_mat(ctx, nd, cut=None):
    """post: column f*n_modes+m of the matrix is mode m of the f-th requested frequency; the other columns are zero (parallel: the
    rows of this process's points)"""
    def run(I, root=None):
        dims, nms, nf, PHI, ex = stored_modes(ctx, I, nd); ax = cut or 0
        D = Dist(ctx, I, root, dims[ax]); ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]
        sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        nk = var('nk'); I.assume(ge(nk, 1), le(nk, nf))
        IDS = ctx.T('ids', 'i', 1)
        IDS.info['gen'] = lambda rng, i: rng.randint(0, 3)
        ids = tensor_arr(IDS, [nk])
        got = []
        def at_freq(I, a, k):
            """verified contract of get_modes_at_freq"""
            f = to(k.get('freq_idx', a[1] if len(a) > 1 else None))
            return mkarr([(d,) for d in dims + [nms]], lambda i: el(PHI, [f] + list(i)), 'c')
        I.contracts = dict(I.contracts); I.contracts[PP + 'get_modes_at_freq'] = at_freq
        r = I.call(find(I, SU + '_get_modes'), ['DIR', nf, ids, ax, A.size(ldims), nms, DType('c'), D.comm], {})
        if not ctx.reachable(I): return
        ctx.eqt('one row per point and variable', r.sizes()[0], A.size(ldims), I.facts)
        ctx.eqt('one column per frequency and mode', r.sizes()[1], nf*nms, I.facts)
        q = A.reshape(I, r, ldims + [nf, nms])
        idx, F = ctx.each(I, ldims + [nk, nms]); p, f, m = idx[:-2], idx[-2], idx[-1]
        ctx.eqt('column f*n_modes+m is mode m of the f-th requested frequency', q.at(idx), el(PHI, [el(IDS, [f])] + sh(p) + [m]), F)
        idx2, F2 = ctx.each(I, ldims + [nf, nms]); F2 = F2.child(ge(idx2[-2], nk))
        ctx.eqt('no other column', q.at(idx2), ZERO, F2)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c in ((1, None), (2, None), (1, 0), (2, 0), (2, 1), (1, 1)): contract('C14 C15 C16' + ('' if _c is None else ' C09'), f'{SU}_get_modes[{_nd} space axes{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP)(lambda ctx, n=_nd, c=_c: get_modes_mat(ctx, n, c))


def orthogonality(ctx, nd, same, cut=None):
    """post: the weighted inner product of the two modes, and whether it is 1 or 0 within the tolerance"""
    def run(I, root=None):
        dims, nms, nf, PHI, ex = stored_modes(ctx, I, nd)
        D = Dist(ctx, I, root, dims[cut or 0])
        I.contracts = {**I.contracts, 'pyspod.utils.parallel.distribute': D.distribute(cut or 0)}
        W = ctx.T('W', 'r', len(dims)); W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        f = var('f'); I.assume(ge(f, 0), lt(f, nf))
        m1 = var('i'); I.assume(ge(m1, 0), lt(m1, nms))
        m2 = m1 if same else var('j')
        if not same: I.assume(ge(m2, 0), lt(m2, nms), Not(eq(m1, m2)))
        def required(I, a, k):
            """the files a fit writes: params_modes.yaml, eigs_freq.npz, weights.npy"""
            return (DictV(dict(n_space_dims=nd, n_variables=dims[-1], n_freq=nf, n_modes_save=nms)), DictV(dict(freq=tensor_arr(Tensor('freq', 'r', 1), [nf]))),
                    mkarr([(d,) for d in dims], lambda i: el(W, i), 'r'))
        I.contracts = dict(I.contracts); I.contracts[SU + '_get_required_data'] = required
        def at_freq(I, a, k):
            g = to(k.get('freq_idx', a[1] if len(a) > 1 else None))
            return mkarr([(d,) for d in dims + [nms]], lambda i: el(PHI, [g] + list(i)), 'c')
        I.contracts[PP + 'get_modes_at_freq'] = at_freq
        r, O = I.call(find(I, SU + 'check_orthogonality'), [], dict(results_dir='DIR', mode_idx1=ListV([m1]), mode_idx2=ListV([m2]), freq_idx=ListV([f]), comm=D.comm))
        if not ctx.reachable(I): return
        from .modes import sqsum
        p = [fresh('p') for _ in dims]
        want = sqsum(I, p, dims, el(PHI, [f] + p + [m1], True)*el(W, p)*el(PHI, [f] + p + [m2]))
        got = O if isinstance(O, P) else O.at([ZERO]*len(O.factors()))
        ctx.eqt('weighted inner product of the modes', got, want, I.facts)
        fl = r.at([ZERO]*len(r.factors())) if isinstance(r, Arr) else r
        if isinstance(fl, bool): fl = TRUE if fl else FALSE
        dist = absv(got - (1 if same else 0))
        ctx.cond(I, 'true only if orthonormal within the tolerance', Implies(fl, le(dist, to(T.Fr(1, 1000)))))
        ctx.cond(I, 'true if orthonormal to round-off', Implies(le(dist, to(T.Fr(1, 10**9))), fl))
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd, _c in ((1, None), (2, None), (1, 0), (2, 1), (1, 1)):
    for _s in (True, False): contract('C16' + ('' if _c is None else ' C09'), f'{SU}check_orthogonality[{_nd} space axes, {"same mode" if _s else "two modes"}{"" if _c is None else f", parallel, axis {_c} cut"}]', models=NOOP)(lambda ctx, n=_nd, s=_s, c=_c: orthogonality(ctx, n, s, c))


# ------------------------------------------------------------------------------------------------ C17
def bounds_of(I, idx):
    """the defining property of every minimum taken, at the indices given"""
    return [e['lemma']([], idx) for e in I.extremes if e['nk'] == 0 and e['nr'] == len(idx)]


@contract('C17 C19', PP + 'find_nearest_freq')
def nearest_freq(ctx):
    def run(I):
        n = var('n'); I.assume(ge(n, 1)); req = var('f', 'r')
        FR = Tensor('freq', 'r', 1)
        arr = tensor_arr(FR, [n])
        r = I.call(find(I, PP + 'find_nearest_freq'), [req, arr], {})
        v, i = r
        i = to(i if not isinstance(i, Arr) else i.at([]))
        if not ctx.reachable(I): return
        ctx.cond(I, 'an index of the axis', And(ge(i, 0), lt(i, n)))
        ctx.eqt('the frequency at that index', v if not isinstance(v, Arr) else v.at([]), el(FR, [i]), I.facts)
        (j,), F = ctx.each(I, [n]); F = F.child(*bounds_of(I, [j]))
        d = lambda q: absv(el(FR, [q]) - req)
        ctx.cond_f('no other frequency is nearer', le(d(i), d(j)), F)
        ctx.unchanged(I, 'the axis is unchanged', arr, FR)
    ctx.explore(run)


def nearest_coords(ctx, nd, ok, ints=()):
    def run(I):
        ns = [var(f'm{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for d in ns])
        X = [Tensor(f'x{i}', 'i' if i in ints else 'r', 1) for i in range(nd)]
        q = [var(f'c{i}', 'r') for i in range(nd)]
        xs = [tensor_arr(t, [d]) for t, d in zip(X, ns)]
        f = find(I, PP + 'find_nearest_coords')
        if not ok:
            other = [var(f'o{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for d in other]); I.assume(Or(*[Not(eq(a, b)) for a, b in zip(other, ns)]))
            st, v = ctx.attempt(I, lambda: I.call(f, [ListV(q), ListV(xs), tuple(other)], {}))
            if not ctx.reachable(I): return
            ctx.cond(I, 'coordinates that do not match the data are rejected with ValueError', st == 'raise' and v.typ == 'ValueError'); return
        st, v = ctx.attempt(I, lambda: I.call(f, [ListV(q), ListV(xs), tuple(ns)], {}))
        if not ctx.reachable(I): return
        ctx.cond(I, 'matching coordinates are accepted', st == 'ok')
        if st != 'ok': return
        xi, idx = v
        ctx.cond(I, 'one result per dimension', len(xi) == nd and len(idx) == nd)
        for a in range(nd):
            i = to(idx[a]); w = xi[a] if isinstance(xi[a], P) else xi[a].at([])
            ctx.cond(I, 'an index along its own axis', And(ge(i, 0), lt(i, ns[a])))
            ctx.eqt('the coordinate at that index', w, el(X[a], [i]), I.facts)
            js, F = ctx.each(I, ns); F = F.child(*bounds_of(I, js))
            d = lambda t: absv(el(X[a], [t]) - q[a])
            ctx.cond_f('no other grid coordinate is nearer', le(d(i), d(js[a])), F)
            ctx.unchanged(I, 'the coordinates are unchanged', xs[a], X[a])
    ctx.explore(run)
for _nd in (1, 2, 3):
    for _ok in (True, False): contract('C17 C19', f'{PP}find_nearest_coords[{_nd} axes{"" if _ok else ", other shape"}]')(lambda ctx, n=_nd, o=_ok: nearest_coords(ctx, n, o))
for _nd, _is in ((1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1))): contract('C17 C19', f'{PP}find_nearest_coords[{_nd} axes, integers along {_is}]')(lambda ctx, n=_nd, i=_is: nearest_coords(ctx, n, True, i))
