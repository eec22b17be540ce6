"""C01-C06: spectral estimation (spod/base.py, spod/standard.py)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.npmodel import PI
from pyvc.interp import Native
from pyvc.npmodel import all_real
from . import contract
from .par import COMM, mkcomm, sp, SP

B = 'pyspod.spod.base.'
S = 'pyspod.spod.standard.'


def cls(I, qual):
    mod, name = qual.rsplit('.', 1)
    return I.glob(mod, name)


OPTS = ('normalize_data', 'savefft', 'reuse_blocks', 'fullspectrum')
def params(I, _free=(), **over):
    """a parameter dictionary with symbolic entries; only the required ones unless given"""
    n_dft, dt = var('n_dft'), var('dt', 'r')
    d = dict(n_dft=n_dft, time_step=dt, n_space_dims=2, n_variables=var('nv'))
    for o in _free: d[o] = T.pred('option ' + o)          # options the function does not depend on
    d.update(over)
    return DictV(d)


def new(I, qual=S + 'Standard', par=None, weights=None, comm=None):
    o = I.call(cls(I, qual), [par if par is not None else params(I), weights, comm], {})
    o.stub = True            # attributes the contract does not provide are outside the contract, not errors
    if OLD: old_fit(I, o)
    return o


OLD = []
def old_fit(I, o):
    """the object has been fitted to another record before: what a fit computes is there, with other values"""
    n, m, b, f = [var('old_' + x) for x in ('points', 'snapshots', 'blocks', 'freqs')]; I.assume(ge(n, 1), ge(m, 4), ge(b, 2), ge(f, 2))
    A_ = lambda name, *dims, k='r': tensor_arr(Tensor('old ' + name, k, len(dims)), list(dims))
    o.st.update(_lt_mean=A_('mean', n), _t_mean=A_('mean', n), _weights=A_('weights', n, to(1)), _weights_name='old', _freq=A_('freq', f), _n_freq=f, _n_blocks=b, _nt=m, _nx=n,
                _isrealx=T.pred('old record is real'), _eigs=A_('eigs', f, b), _eigs_c=A_('bounds', f, b, to(2), k='c'), _xi2_upper=var('old_xi2u', 'r'), _xi2_lower=var('old_xi2l', 'r'), _win_weight=var('old_gain', 'r'),
                _savedir_sim='OLD', _modes_dir='OLD/modes', _blocks_folder='OLD/blocks', _max_axis=0, _dim=3, _shape=(m, n, to(1)), _xshape=(n,), data=A_('record', m, n, to(1)), _n_modes=b, _n_modes_save=b)
    if isinstance(o.st.get('_window'), Arr) and o.st['_window'].nd == 1: o.st['_window'] = I.call(I.getattr(o.st['_window'], 'reshape'), [o.st['_window'].sizes()[0], 1], {})
def refit(f):
    def g(ctx):
        OLD.append(1)
        try: return f(ctx)
        finally: OLD.pop()
    return g


def hamming(n):
    """w[t] of the symmetric Hamming window"""
    return lambda t: to(T.Fr(27, 50)) - to(T.Fr(23, 50))*T.fn('cos', [2*PI*to(t)*inv(n - 1)])


# ------------------------------------------------------------------------------------------------ C01
def ceil_spec(I, n_dft, ov):
    """the least integer >= n_dft*ov/100"""
    return -T.floor(-(n_dft*ov)*inv(to(100)))


@contract('C01', B + 'Base.__init__')
def base_init(ctx):
    """pre: n_dft >= 1, 0 <= overlap.  post: n_overlap = ceil(n_dft*overlap/100); n_overlap > n_dft - 1 raises ValueError"""
    def run(I):
        n, ov = var('n_dft'), var('ov', 'r')
        I.assume(ge(n, 2), ge(ov, 0))
        st, s = ctx.attempt(I, lambda: new(I, par=params(I, OPTS + ('normalize_weights',), overlap=ov)))
        nov = ceil_spec(I, n, ov)
        if st == 'raise':
            ctx.cond(I, 'only ValueError is raised', s.typ == 'ValueError')
            ctx.cond(I, 'rejected only when no new snapshot per block is left', gt(nov, n - 1))
        else:
            ctx.cond(I, 'an overlap that leaves no new snapshot is rejected', le(nov, n - 1))
            ctx.eqt('n_overlap is the ceiling of n_dft*overlap/100', I.getattr(s, '_n_overlap'), nov, I.facts)
            ctx.eqt('n_dft is kept', I.getattr(s, '_n_dft'), n, I.facts)
            w = I.getattr(s, '_window'); idx, F = ctx.each(I, [n])
            ctx.eqt('window length', w.sizes()[0], n, I.facts)
            ctx.eqt('symmetric Hamming window', w.at(idx), hamming(n)(idx[0]), F)
        ctx.reachable(I)
    ctx.explore(run)


@contract('C01', B + 'Base.__init__[defaults]')
def base_init_defaults(ctx):
    """no overlap, long-time mean, 95% confidence unless given"""
    def run(I):
        I.assume(ge(var('n_dft'), 2))
        s = new(I)
        ctx.eqt('default overlap', I.getattr(s, '_n_overlap'), ZERO, I.facts)
        ctx.reachable(I)
    ctx.explore(run)


# ------------------------------------------------------------------------------------------------ C04
def freq_case(ctx, real, full):
    def run(I):
        n, dt = var('n_dft'), var('dt', 'r')
        I.assume(ge(n, 4), gt(dt, 0))
        s = new(I, par=params(I, tuple(o for o in OPTS if o != 'fullspectrum') + ('normalize_weights',), **({'fullspectrum': True} if full else {})))
        I.setattr(s, '_isrealx', real)
        I.call(I.getattr(s, 'get_freq_axis'), [], {})
        f, nf = I.getattr(s, '_freq'), I.getattr(s, '_n_freq')
        want = idiv(n, to(2)) + 1 if real and not full else n
        ctx.eqt('number of bins', nf, want, I.facts); ctx.eqt('length of the axis', f.sizes()[0], want, I.facts)
        (k,), F = ctx.each(I, [want])
        base = k*inv(n)*inv(dt)
        if real or full: ctx.eqt('label of bin k', f.at([k]), base, F)
        else:
            ctx.eqt('label of bin k below Nyquist', f.at([k]), base, F.child(lt(2*k, n)))
            ctx.eqt('label of bin k above Nyquist', f.at([k]), (k - n)*inv(n)*inv(dt), F.child(gt(2*k, n)))
            v = f.at([k]); G = F.child(eq(2*k, n))
            ctx.eqt('label of the Nyquist bin (either sign)', (v - base)*(v - (k - n)*inv(n)*inv(dt)), ZERO, G)
        ctx.reachable(I)
    ctx.explore(run)
for _r in (True, False):
    for _f in (False, True):
        contract('C04', f'{B}Base.get_freq_axis[{"real" if _r else "complex"}, {"full" if _f else "default"} spectrum]')(lambda ctx, r=_r, f=_f: freq_case(ctx, r, f))


# ------------------------------------------------------------------------------------------------ C03
def mean_array(ctx, nd, kind):
    """pre: a record of nt >= 2 snapshots in memory, split into any number of blocks"""
    def run(I):
        n, nt, nb = var('n_dft'), var('nt'), var('n_blocks')
        I.assume(ge(n, 4), ge(nt, 1), ge(nb, 2), le(nb, nt))
        s = new(I)
        X, dims, x = data(I, nt, nd, kind)
        for k, v in dict(_nt=nt, _n_blocks=nb, data=x).items(): I.setattr(s, k, v)
        m = I.call(I.getattr(s, 'long_t_mean'), [x], {})
        idx, F = ctx.each(I, dims[1:])
        t = fresh('t')
        size = A.size(dims[1:])
        ctx.eqt('one mean value per point and variable', A.size(m.factors()), size, I.facts)
        m2 = A.reshape(I, m, dims[1:])
        ctx.eqt('mean over all snapshots, each counted once', m2.at(idx), summ(t, 0, nt, el(X, [t] + idx))*inv(nt), F)
        ctx.unchanged(I, 'data unchanged', x, X)
        ctx.reachable(I)
    ctx.explore(run)


def data(I, nt, nd, kind='r', ctx=None, name='X'):
    dims = [nt] + [var(f'm{i}') for i in range(nd)] + [var('nv')]
    I.assume(*[ge(d, 1) for d in dims])
    X = ctx.T(name, kind, len(dims)) if ctx else Tensor(name, kind, len(dims))
    return X, dims, tensor_arr(X, dims)


for _nd in (1, 2, 3):
    for _k in 'rc':
        contract('C03 C19', f'{B}Base.long_t_mean[array, {_nd} space axes, {"real" if _k == "r" else "complex"}]')(lambda ctx, n=_nd, k=_k: mean_array(ctx, n, k))


def chunks(I, nc, nd, kind='r'):
    """a record held as nc consecutive chunks (two-stage reader): {i: {v: rows s..e-1, s, e}}"""
    rest = [var('npts'), var('nv')] if nd == 0 else [var(f'm{i}') for i in range(nd)] + [var('nv')]
    I.assume(*[ge(d, 1) for d in rest])
    X = Tensor('X', kind, 1 + len(rest))
    s = ZERO; d = {}
    for c in range(nc):
        L = var(f'L{c}'); I.assume(ge(L, 1))
        v = mkarr([(x,) for x in [L] + rest], (lambda s: lambda idx: el(X, [s + idx[0]] + list(idx[1:])))(s), kind)
        d[c] = DictV(dict(v=v, s=s, e=s + L)); s = s + L
    return X, [s] + rest, DictV(d)


def mean_dict(ctx, nc, kind):
    """pre: the record is held as consecutive chunks"""
    def run(I):
        X, dims, D = chunks(I, nc, 0, kind)
        I.assume(ge(var('n_dft'), 4))
        s = new(I)
        for k, v in dict(_nt=dims[0], _n_blocks=var('n_blocks'), data=D).items(): I.setattr(s, k, v)
        m = I.call(I.getattr(s, 'long_t_mean'), [D], {})
        idx, F = ctx.each(I, dims[1:]); t = fresh('t')
        m2 = A.reshape(I, m, dims[1:])
        ctx.eqt('mean over all snapshots, each counted once', m2.at(idx), summ(t, 0, dims[0], el(X, [t] + idx))*inv(dims[0]), F)
        ctx.reachable(I)
    ctx.explore(run)
for _c in (1, 2, 3):
    for _k in 'rc':
        contract('C03', f'{B}Base.long_t_mean[{_c} chunks, {"real" if _k == "r" else "complex"}]')(lambda ctx, n=_c, k=_k: mean_dict(ctx, n, k))


# ------------------------------------------------------------------------------------------------ C01, C02
def block_self(I, par=None, **kw):
    """a Standard object after initialisation: record of nt snapshots, n_blocks as the record allows"""
    ov = var('ov', 'r'); I.assume(ge(ov, 0), ge(var('n_dft'), 4))
    p = params(I, OPTS[2:3] + ('normalize_weights',), overlap=ov, **(par or {}))
    st, s = 'ok', new(I, par=p)
    nov, n, nt = to(I.getattr(s, '_n_overlap')), to(I.getattr(s, '_n_dft')), var('nt')
    nb = idiv(nt - nov, n - nov)
    I.assume(ge(nb, 2), ge(nov, 0), le(nov, n - 1), ge(nt, n))
    for k, v in dict(_nt=nt, _n_blocks=nb, **kw).items(): I.setattr(s, k, v)
    return s, n, nov, nt, nb


def rejected(ctx, I, s): raise PathEnd()


def geti(I, f):
    """paths on which the code rejects the parameters end here (their exceptions are the business of C01)"""
    try: return f()
    except PyRaise as e:
        if e.typ == 'ValueError': raise PathEnd()
        raise


def get_block(ctx, nd, kind):
    def run(I):
        s, n, nov, nt, nb = geti(I, lambda: block_self(I))
        X, dims, x = data(I, nt, nd, kind)
        I.setattr(s, 'data', x)
        st = var('start'); I.assume(ge(st, 0), le(st + n, nt))
        q = I.call(I.getattr(s, '_get_block'), [st, st + n], {})
        idx, F = ctx.each(I, [n] + dims[1:])
        ctx.eqt('one row per snapshot', q.sizes()[0], n, I.facts); ctx.eqt('one column per point and variable', q.sizes()[1], A.size(dims[1:]), I.facts)
        q3 = A.reshape(I, q, [n] + dims[1:])
        ctx.eqt('snapshots start..end-1 in order', q3.at(idx), el(X, [st + idx[0]] + idx[1:]), F)
        ctx.unchanged(I, 'the record is not modified', x, X)
        ctx.reachable(I)
    ctx.explore(run)


for _nd in (1, 2, 3):
    for _k in 'rc':
        contract('C01 C19', f'{S}Standard._get_block[array, {_nd} space axes, {"real" if _k == "r" else "complex"}]')(lambda ctx, n=_nd, k=_k: get_block(ctx, n, k))


def get_block_dict(ctx, nc):
    def run(I):
        s, n, nov, nt, nb = geti(I, lambda: block_self(I))
        X, dims, D = chunks(I, nc, 0)
        I.assume(eq(nt, dims[0]))
        I.setattr(s, 'data', D)
        st = var('start'); I.assume(ge(st, 0), le(st + n, dims[0]))
        q = I.call(I.getattr(s, '_get_block'), [st, st + n], {})
        idx, F = ctx.each(I, [n] + dims[1:])
        q3 = A.reshape(I, q, [n] + dims[1:])
        ctx.eqt('snapshots start..end-1 in order', q3.at(idx), el(X, [st + idx[0]] + idx[1:]), F)
        # the chunks that hold rows at or after start are kept: later blocks start later
        D2 = I.getattr(s, 'data')
        for c in range(nc):
            if c not in D2.st:
                ctx.cond(I, 'only chunks before the block are dropped', le(ends(nc)[c], st))
        ctx.reachable(I)
    ctx.explore(run)


def ends(nc):
    out, s = [], ZERO
    for c in range(nc): s = s + var(f'L{c}'); out.append(s)
    return out


for _c in (1, 2, 3):
    contract('C01 C12', f'{S}Standard._get_block[{_c} chunks]')(lambda ctx, n=_c: get_block_dict(ctx, n))


def get_block_contract(nd, X, dims):
    """the verified contract of _get_block (arrays): a fresh [n, points*variables] copy of rows start..end-1"""
    def c(I, a, kw):
        s, st, en = a[0], to(a[1]), to(a[2])
        n = to(I.getattr(s, '_n_dft'))
        I.ob('block requested inside the record', And(ge(st, 0), le(en, dims[0]), eq(en - st, n)))
        return mkarr([(n,), tuple(dims[1:])], lambda idx: el(X, [st + idx[0]] + list(idx[1:])), X.sort)
    return c


def blocks(ctx, mean, norm, real, full, held=None, nd=1):
    """pre: the state Base._initialize leaves.  post: offset and Fourier realization of block i, for every i.
    held: None - _get_block by its contract; 'array' / a number of chunks - the object holds the record (body of _get_block), and
    the record is as before, which the overlapping blocks, a second fit and the caller need"""
    def run(I):
        par = dict(mean_type=mean)
        if norm: par['normalize_data'] = True
        if full: par['fullspectrum'] = True
        s, n, nov, nt, nb = geti(I, lambda: block_self(I, par))
        dims = [nt] + [var(f'm{i}') for i in range(nd)] + [var('nv')]
        I.assume(*[ge(d, 1) for d in dims])
        X = Tensor('X', 'r' if real else 'c', nd + 2)
        if held is None: I.contracts = dict(I.contracts); I.contracts[S + 'Standard._get_block'] = get_block_contract(nd, X, dims)
        elif held == 'array': rec = tensor_arr(X, dims); rec.buf.single = getattr(ctx, 'single', False)
        else:
            X, dims, rec = chunks(I, held, 0, 'r' if real else 'c'); I.assume(eq(nt, dims[0]))
        if held is not None: I.setattr(s, 'data', rec); same = ctx.frame(I, *([rec] if held == 'array' else [q.st['v'] for q in rec.st.values()]))
        w = I.getattr(s, '_window')
        I.setattr(s, '_win_weight', 1/ONE*inv(summ(fresh('t'), 0, 0, ONE)) if False else None)
        t = fresh('t'); wbar = summ(t, 0, n, hamming(n)(t))*inv(n)
        I.setattr(s, '_win_weight', inv(wbar))
        I.setattr(s, '_window', A.reshape(I, w, [n, ONE]))
        Tm = Tensor('ltm', X.sort, nd + 1)
        I.setattr(s, '_t_mean', mkarr([tuple(dims[1:])], lambda idx: el(Tm, list(idx)), X.sort) if mean.lower() == 'longtime' else 0.0)
        I.setattr(s, '_isrealx', real)
        nf = idiv(n, to(2)) + 1 if real and not full else n
        I.setattr(s, '_n_freq', nf)
        i = var('i'); I.assume(ge(i, 0), lt(i, nb))
        if held is not None: kept = ctx.frame(I, *[I.getattr(s, q) for q in ('_t_mean', '_window')])
        qh, off = I.call(I.getattr(s, '_compute_blocks'), [i], {})
        if held is not None: same('the record'); kept('mean and window')
        ctx.eqt('block i starts at i*(n_dft - n_overlap)', off, i*(n - nov), I.facts)
        ctx.cond(I, 'the last snapshot of the block is in the record', le(to(off) + n, nt))
        ctx.eqt('number of bins kept', qh.sizes()[0], nf, I.facts); ctx.eqt('one value per point and variable', qh.sizes()[1], A.size(dims[1:]), I.facts)
        q3 = A.reshape(I, qh, [nf] + dims[1:])
        idx, F = ctx.each(I, [nf] + dims[1:]); k, p = idx[0], idx[1:]
        o = i*(n - nov)
        x = lambda t: el(X, [o + to(t)] + p)
        if mean.lower() == 'longtime': x0 = x; x = lambda t: x0(t) - el(Tm, p)
        elif mean.lower() == 'blockwise':
            j = fresh('j'); x1 = x; m = summ(j, 0, n, x1(j))*inv(n); x = lambda t: x1(t) - m
        if norm:
            j = fresh('j'); y = x
            mm = summ(j, 0, n, y(j))*inv(n)
            j2 = fresh('j'); V = summ(j2, 0, n, (y(j2) - mm)*conj(y(j2) - mm))*inv(n - 1)
            d = ite(lt(V, T.Fr(4, 2**52)), ONE, V)
            x = lambda t: y(t)*inv(d)
        t = fresh('t')
        spec = inv(n)*inv(wbar)*summ(t, 0, n, hamming(n)(t)*x(t)*T.fn('W', [n, k, t], sort='c'))
        ctx.eqt('Fourier realization of bin k', q3.at(idx), spec, F)
        ctx.reachable(I)
    ctx.explore(run)
for _m in ('longtime', 'blockwise', 'zero', 'Blockwise'):
    for _r in (True, False):
        for _f in (False, True):
            for _n in (False, True):
                if _m == 'Blockwise' and (_f or _n): continue
                contract('C01 C02', f'{S}Standard._compute_blocks[{_m} mean{", unit variance" if _n else ""}, {"real" if _r else "complex"}, {"full" if _f else "default"} spectrum]')(lambda ctx, m=_m, n=_n, r=_r, f=_f: blocks(ctx, m, n, r, f))
for _m, _n, _r, _f, _h in (('longtime', False, True, False, 'array'), ('zero', False, True, False, 'array'), ('blockwise', True, True, False, 'array'), ('blockwise', False, False, False, 'array'), ('zero', False, False, True, 'array'), ('longtime', True, True, False, 'array'),
        ('longtime', False, True, False, 1), ('zero', False, True, False, 2), ('blockwise', False, False, False, 2)):
    for _sp in ((False, True) if _h == 'array' else (False,)):
        if _sp and _m == 'longtime': continue
        contract('C01 C02 C19' if _h == 'array' else 'C01 C02 C12', f'{S}Standard._compute_blocks[{_m} mean{", unit variance" if _n else ""}, {"real" if _r else "complex"}, {"full" if _f else "default"} spectrum, record held as {_h if _h == "array" else f"{_h} chunks"}{SP if _sp else ""}]')((sp if _sp else lambda f: f)(lambda ctx, a=(_m, _n, _r, _f, _h): blocks(ctx, *a)))


def select_mean(ctx, mean):
    def run(I):
        I.assume(ge(var('n_dft'), 4))
        s = new(I, par=params(I, OPTS + ('normalize_weights',), mean_type=mean))
        LT = Tensor('ltm', 'r', 1); m = tensor_arr(LT, [var('np')])
        I.contracts = dict(I.contracts); I.contracts[B + 'Base.long_t_mean'] = lambda I, a, k: m
        st, e = ctx.attempt(I, lambda: I.call(I.getattr(s, 'select_mean'), [Opaque('data')], {}))
        known = mean.lower() in ('longtime', 'blockwise', 'zero')
        ctx.cond(I, 'unknown mean types are rejected, the others are not', (st == 'ok') == known)
        if st == 'raise': ctx.cond(I, 'rejected with ValueError', e.typ == 'ValueError')
        if st == 'ok' and known:
            t = I.getattr(s, '_t_mean')
            if mean.lower() == 'longtime': ctx.eq(I, 'the long-time mean is subtracted', t, m)
            else: ctx.eq(I, 'nothing is subtracted before the block mean', t, 0.0)
            ctx.eq(I, 'the long-time mean is kept for the results', I.getattr(s, '_lt_mean'), m)
        ctx.reachable(I)
    ctx.explore(run)
for _m in ('longtime', 'LongTime', 'blockwise', 'zero', 'other'):
    contract('C02 C03', f'{B}Base.select_mean[{_m}]')(lambda ctx, m=_m: select_mean(ctx, m))
    contract('C02 C03', f'{B}Base.select_mean[{_m}, fitted before]')(refit(lambda ctx, m=_m: select_mean(ctx, m)))


# ------------------------------------------------------------------------------------------------ C01, C13, C06: _initialize
FILES = {
    'os.path.exists': lambda I, a, k: True,
    'os.makedirs': lambda I, a, k: None,
    'scipy.special.gammaincinv': lambda I, a, k: T.fn('gammaincinv', [to(a[0]), to(a[1])]),
    '$noop': ('pyspod.spod.base.Base._print_parameters', 'pyspod.spod.base.Base._pr0', 'pyspod.utils.parallel.pr0'),
}


def use_mean(I, a, k):
    """contract of long_t_mean: one mean value per point and variable (its value is C03's business, verified there)"""
    d = a[1]
    return tensor_arr(I.ctx.T('ltm', 'c' if d.kind == 'c' else 'r', 1), [A.size(d.sizes()[1:])])


def use_freq(I, a, k):
    """contract of get_freq_axis (verified for C04)"""
    nf = var('n_freq'); I.assume(ge(nf, 1))
    I.setattr(a[0], '_freq', tensor_arr(I.ctx.T('freq', 'r', 1), [nf])); I.setattr(a[0], '_n_freq', nf)


def norm_contract(ctx, I, log, Fac, dims, comm):
    """contract of apply_normalization (verified for C11): weights [space, variable] of the points of the data, one factor per variable"""
    def c(I, a, k):
        v = dict(zip(('data', 'weights', 'n_vars', 'method', 'comm'), a)); v.update(k); log.append(1)
        ctx.cond(I, 'normalization: on all processes', v.get('comm') is comm)
        w = v['weights']; ctx.cond(I, 'normalization: weights [space, variable]', w.nd == len(dims))
        if w.nd != len(dims): raise PathEnd()
        for p, q in zip(w.sizes(), dims): ctx.eqt('normalization: weights [space, variable]', p, q, I.facts)
        ctx.eqt('normalization: number of variables', v['n_vars'], dims[-1], I.facts)
        f = w.snap()
        return mkarr(w.axes, lambda i: f(i)*el(Fac, [i[-1]]), 'r')
    I.contracts['pyspod.utils.weights.apply_normalization'] = c


def init_case(ctx, nd, real, wts, extra, cut=None):
    """post: set-up derived from the record and the parameters (parallel: data, weights and mean of this process's points; everything
    else as in a serial run)"""
    from .dist import Dist, explore
    def run(I, root=None):
        ax = cut or 0
        I.contracts = {**I.contracts, B + 'Base.long_t_mean': use_mean, B + 'Base.get_freq_axis': use_freq}
        n, ov, nt = var('n_dft'), var('ov', 'r'), var('nt')
        I.assume(ge(n, 2), ge(ov, 0), ge(nt, 1))
        X, dims, x = data(I, nt, nd, 'r' if real else 'c', ctx)
        for j, d in enumerate(dims[1:]):
            if cut is not None and j != ax: I.assume((lt if j < ax else le)(d, dims[1 + ax]))         # the longest axis is cut
        D = Dist(ctx, I, root, dims[1 + ax]); sp = [D.ln if j == ax else d for j, d in enumerate(dims[1:])]; sh = lambda p: [to(q) + D.lo if j == ax else q for j, q in enumerate(p)]
        if D.par:
            I.contracts['pyspod.utils.parallel.distribute_data'] = D.distribute_data(ax)
            I.models['$comm.allreduce'] = lambda I, a, k: var('sizes')
        nm = var('n_modes_save'); I.assume(ge(nm, 1))
        W = ctx.T('Wt', 'r', nd + 1); w = None
        if wts == 'dict': w = DictV(dict(weights=tensor_arr(W, dims[1:]), weights_name='given'))
        if wts == 'flat': w = DictV(dict(weights=mkarr([tuple(dims[1:])], lambda i: el(W, i), 'r'), weights_name='given'))
        norm = []
        if 'normalize_weights' in extra: norm_contract(ctx, I, norm, ctx.T('factor', 'r', 1), sp if D.par else dims[1:], D.comm)
        if wts == 'wrong': w = DictV(dict(weights=tensor_arr(ctx.T('Wt', 'r', 1), [var('nw')]), weights_name='given')); I.assume(ge(var('nw'), 1))
        if w and getattr(ctx, 'single', False): w.st['weights'].buf.single = x.buf.single = True
        cl = var('c_level', 'r')
        par = params(I, OPTS, overlap=ov, n_modes_save=nm, n_space_dims=nd, conf_level=cl, savedir='out', **extra)
        st, s = ctx.attempt(I, lambda: new(I, par=par, weights=w, comm=D.comm))
        if st == 'raise': raise PathEnd()
        nov = to(I.getattr(s, '_n_overlap')); nb = idiv(nt - nov, n - nov)
        st, e = ctx.attempt(I, lambda: I.call(I.getattr(s, '_initialize'), [x], {}))
        size = A.size(dims[1:])
        bad = T.Or(lt(n, 4), lt(nb, 2))
        if wts == 'wrong': bad = T.Or(bad, T.Not(eq(var('nw'), size)))
        if st == 'raise':
            ctx.cond(I, 'rejected with ValueError', e.typ == 'ValueError')
            ctx.cond(I, 'only impossible set-ups are rejected', bad)
        else:
            ctx.cond(I, 'impossible set-ups are rejected', T.Not(bad))
            g = lambda a: I.getattr(s, a)
            ctx.eqt('number of blocks', g('_n_blocks'), nb, I.facts)
            if wts == 'wrong': return
            ctx.eqt('number of snapshots', g('_nt'), nt, I.facts)
            ctx.eqt('saved modes never exceed the number of blocks', g('_n_modes_save'), ite(gt(nm, nb), nb, nm), I.facts)
            t = fresh('t'); wbar = summ(t, 0, n, hamming(n)(t))*inv(n)
            ctx.eqt('window gain correction', g('_win_weight'), inv(wbar), I.facts)
            win = g('_window'); (t,), F = ctx.each(I, [n])
            ctx.eqt('window as a column', win.sizes()[0], n, I.facts); ctx.eqt('window as a column', win.sizes()[1], ONE, I.facts)
            ctx.eqt('window values', win.at([t]) if len(win.factors()) == 1 else win.at([t, ZERO]), hamming(n)(t), F)
            wt = g('_weights')
            ctx.eqt('weights as a column', wt.sizes()[0], A.size(sp), I.facts); ctx.eqt('weights as a column', wt.sizes()[1], ONE, I.facts)
            idx, F = ctx.each(I, sp)
            w2 = A.reshape(I, wt, sp)
            if wts is None: ctx.eqt('unit weights when none are given', w2.at(idx), ONE, F)
            elif wts in ('dict', 'flat'): ctx.eqt('weights given, in the order of the data', w2.at(idx), el(W, sh(idx))*(el(ctx.T('factor', 'r', 1), [idx[-1]]) if norm else ONE), F)
            ctx.cond(I, 'weights are normalized exactly if asked for', len(norm) == ('normalize_weights' in extra))
            d = g('data'); i2, F = ctx.each(I, [nt] + sp); j2 = [i2[0]] + sh(i2[1:])
            for a, b in zip(d.sizes(), [nt] + sp): ctx.eqt('data kept', a, b, I.facts)
            isr = all_real(x) if not real else T.TRUE       # complex numbers with zero imaginary parts only are read as real data
            ctx.eqt('data kept', d.at(i2), el(X, j2) if real else ite(isr, T.re(el(X, j2)), el(X, j2)), F)
            if D.par: ctx.cond(I, 'axis along which the data are cut', to(g('_max_axis')) == to(ax))
            ctx.eqt('number of points', g('_nx'), A.size(dims[1:-1]), I.facts); ctx.eq(I, 'shape of the points', tuple(g('_xshape')), tuple(dims[1:-1]))
            v = I.truthb(g('_isrealx')); v = T.TRUE if v is True else T.FALSE if v is False else v
            ctx.cond(I, 'data are real exactly if no entry has an imaginary part', And(T.Implies(v, isr), T.Implies(isr, v)))
            up, lo = g('_xi2_upper'), g('_xi2_lower')
            gi = lambda q: 2*T.fn('gammaincinv', [nb, q])
            ctx.eqt('upper chi-squared quantile', up, gi(1 - cl), I.facts)
            ctx.eqt('lower chi-squared quantile', lo, gi(cl), I.facts)
            if wts == 'dict': ctx.unchanged(I, 'weights of the caller unchanged', w.st['weights'], W)
            if wts == 'flat': ctx.unchanged_at(I, 'weights of the caller unchanged', w.st['weights'], lambda i: el(W, i))
        ctx.unchanged(I, 'data of the caller unchanged', x, X)
        return D if ctx.reachable(I) and st == 'ok' else None
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)
for _nd in (1, 2, 3):
    for _w in (None, 'dict', 'wrong'):
        for _r in (True, False):
            if not _r and _w != 'dict': continue
            contract('C01 C06 C13 C19' if _w != 'wrong' else 'C01 C13', f'{B}Base._initialize[{_nd} space axes, {"real" if _r else "complex"}, weights {_w or "not given"}]', models=FILES, cost=3)(lambda ctx, n=_nd, w=_w, r=_r: init_case(ctx, n, r, w, {}))
for _nd, _w, _c, _r, _n in ((1, 'dict', 0, True, 0), (2, 'dict', 0, True, 0), (2, None, 1, True, 0), (1, 'dict', 0, False, 0), (2, 'wrong', 1, True, 0), (2, 'flat', 1, True, 0), (1, 'flat', 0, True, 1), (2, 'dict', 0, True, 1)):
    contract('C09 C13 C11', f'{B}Base._initialize[parallel, {_nd} space axes, axis {_c} cut, {"real" if _r else "complex"}, weights {_w or "not given"}{", normalized" if _n else ""}]', models=FILES, cost=3)(lambda ctx, n=_nd, w=_w, c=_c, r=_r, z=_n: init_case(ctx, n, r, w, dict(normalize_weights=True) if z else {}, c))
for _nd, _w, _n in ((1, 'flat', 0), (2, 'flat', 1), (2, 'dict', 1)):
    contract('C13 C11 C19', f'{B}Base._initialize[{_nd} space axes, real, weights {_w}{", normalized" if _n else ""}]', models=FILES, cost=3)(lambda ctx, n=_nd, w=_w, z=_n: init_case(ctx, n, True, w, dict(normalize_weights=True) if z else {}))
for _nd, _w, _n in ((1, 'flat', 0), (2, 'dict', 1)):
    contract('C13 C11 C19', f'{B}Base._initialize[{_nd} space axes, real, weights {_w}{", normalized" if _n else ""}{SP}]', models=FILES, cost=3)(sp(lambda ctx, n=_nd, w=_w, z=_n: init_case(ctx, n, True, w, dict(normalize_weights=True) if z else {})))
for _nd, _w, _c, _n in ((1, 'dict', None, 0), (2, None, None, 0), (1, 'flat', None, 1), (1, 'wrong', None, 0), (1, 'dict', 0, 0)):
    contract('C01 C06 C11 C13' + ('' if _c is None else ' C09'), f'{B}Base._initialize[{"" if _c is None else f"parallel, axis {_c} cut, "}{_nd} space axes, real, weights {_w or "not given"}{", normalized" if _n else ""}, fitted before]', models=FILES, cost=3)(refit(lambda ctx, n=_nd, w=_w, c=_c, z=_n: init_case(ctx, n, True, w, dict(normalize_weights=True) if z else {}, c)))
