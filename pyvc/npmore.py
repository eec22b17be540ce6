"""Further library contracts (assumed, see DESIGN 3): rearrangements, windows, frequency axes, small helpers."""
import ast
from fractions import Fraction as Fr
from .values import *
from .arrays import *
from . import arrays as A, term as T
from .npmodel import M, model, arg, only, A_, conc, scal, unary, PI, dftW, intaxis, concat, nearest, kmax, kind_of, NUM, conv


def one_axis(I, x, ax):
    """the axis as a number; merged axes are left out"""
    ax = I.cint(ax) % x.nd
    if len(x.axes[ax]) > 1: raise Unsupported('a merged axis')
    return ax, sum(len(a) for a in x.axes[:ax])


def gather(I, x, ax, n, f):
    """x with its axis ax replaced by n entries, entry i being the entry f(i) of x"""
    ax, pos = one_axis(I, x, ax); g = x.snap(); drop = len(x.axes[ax]) == 0
    def e(i):
        i = list(i)
        if drop: i.pop(pos)
        else: i[pos] = f(to(i[pos]))
        return g(i)
    return mkarr(list(x.axes[:ax]) + [(n,)] + list(x.axes[ax + 1:]), e, x.kind)


def shifted(I, x, s, ax):
    n = size(x.axes[I.cint(ax) % x.nd]); s = to(s)
    def f(i):
        j = i - s
        # the usual case needs no division: |shift| <= n
        if I.facts.entails(ge(s, 0)) and I.facts.entails(le(s, n)): return ite(ge(j, 0), j, j + n)
        if I.facts.entails(le(s, 0)) and I.facts.entails(ge(s, -n)): return ite(lt(j, n), j, j - n)
        return j - n*idiv(j, n)
    return gather(I, x, ax, n, f)


@model('numpy.roll')
def _roll(I, a, k):
    only(k, 'axis', 'shift')
    x = A_(I, a[0]); s = scal(arg(a, k, 1, 'shift')); ax = arg(a, k, 2, 'axis', None)
    if ax is None:
        if x.nd != 1: raise Unsupported('roll of the flattened array')
        ax = 0
    if isinstance(ax, (tuple, ListV)): raise Unsupported('roll of several axes')
    return shifted(I, x, s, ax)


def _shift(sign):
    def g(I, a, k):
        only(k, 'axes')
        x = A_(I, a[0]); ax = arg(a, k, 1, 'axes', None)
        axs = range(x.nd) if ax is None else [ax] if not isinstance(ax, (tuple, ListV)) else conc(I, ax)
        for j in axs:
            n = size(x.axes[I.cint(j) % x.nd]); x = shifted(I, x, idiv(n, to(2)) if sign > 0 else -idiv(n, to(2)), j)
        return x
    return g
M['numpy.fft.fftshift'] = M['scipy.fft.fftshift'] = _shift(1)
M['numpy.fft.ifftshift'] = M['scipy.fft.ifftshift'] = _shift(-1)


@model('numpy.fft.fftfreq', 'scipy.fft.fftfreq')
def _fftfreq(I, a, k):
    only(k, 'd')
    n, d = to(scal(a[0])), to(scal(arg(a, k, 1, 'd', 1)))
    if n.sort != 'i': raise PyRaise('ValueError', 'n should be an integer')
    return mkarr([(n,)], lambda i: ite(le(to(i[0]), idiv(n - 1, to(2))), to(i[0]), to(i[0]) - n)*inv(n*d), 'r')
@model('numpy.fft.rfftfreq', 'scipy.fft.rfftfreq')
def _rfftfreq(I, a, k):
    only(k, 'd')
    n, d = to(scal(a[0])), to(scal(arg(a, k, 1, 'd', 1)))
    if n.sort != 'i': raise PyRaise('ValueError', 'n should be an integer')
    return mkarr([(idiv(n, to(2)) + 1,)], lambda i: to(i[0])*inv(n*d), 'r')
@model('numpy.fft.ifft', 'scipy.fft.ifft')
def _ifft(I, a, k):
    only(k, 'axis')
    x = A_(I, a[0]); ax, pos = one_axis(I, x, arg(a, k, 2, 'axis', -1)); f = x.snap(); n = size(x.axes[ax])
    if not x.axes[ax]: raise Unsupported('ifft of one sample')
    def e(i):
        i = list(i); kk = i[pos]; t = fresh('t'); i[pos] = t
        return summ(t, 0, n, f(i)*conj(dftW(n, kk, t)))*inv(n)
    return mkarr(x.axes, e, 'c')


def _window(*c):
    """sum of c_j cos(2 pi j i/(n-1))"""
    def g(I, a, k):
        only(k, 'sym')
        n = to(scal(a[0]))
        if n.sort != 'i': raise Unsupported('length of a window')
        den = n - 1 if I.truth(arg(a, k, 1, 'sym', True)) else n
        if not I.facts.entails(gt(den, 0)): raise Unsupported('a window of undecided length')
        def e(i):
            r = to(Fr(c[0]))
            for j, q in enumerate(c[1:], 1): r = r + to(Fr(q))*T.fn('cos', [to(2*j)*PI*to(i[0])*inv(den)])
            return r
        return mkarr([(n,)], e, 'r')
    return g
for _m, _c in (('hamming', ('27/50', '-23/50')), ('hanning', ('1/2', '-1/2')), ('hann', ('1/2', '-1/2')), ('blackman', ('21/50', '-1/2', '2/25'))):
    for _p in ('numpy.', 'scipy.signal.', 'scipy.signal.windows.'): M[_p + _m] = _window(*_c)


@model('numpy.repeat', 'ndarray.repeat')
def _repeat(I, a, k):
    only(k, 'axis')
    x = A_(I, a[0]); r = scal(arg(a, k, 1, 'repeats')); ax = arg(a, k, 2, 'axis', None)
    if not isinstance(r, NUM): raise Unsupported('repeat by an array')
    if ax is None: x = A.reshape(I, x, [size(x.sizes())]); ax = 0
    ax = I.cint(ax) % x.nd; f = x.snap(); e = sum(len(q) for q in x.axes[:ax + 1])
    return mkarr(list(x.axes[:ax]) + [tuple(x.axes[ax]) + (to(r),)] + list(x.axes[ax + 1:]), lambda i: f(list(i[:e]) + list(i[e + 1:])), x.kind)


@model('numpy.take', 'ndarray.take')
def _take(I, a, k):
    only(k, 'axis')
    x = A_(I, a[0]); ax = arg(a, k, 2, 'axis', None); q = arg(a, k, 1, 'indices')
    if ax is None: x = A.reshape(I, x, [size(x.sizes())]); ax = 0
    ax = I.cint(ax) % x.nd
    if isinstance(q, (tuple, ListV)): q = M['numpy.array'](I, [q], {})
    r = A.index(I, x, (slice(None),)*ax + (q,))
    return A.copy(r) if isinstance(r, Arr) else r


def _logical(op):
    def g(I, a, k):
        only(k)
        for v in a:
            if not (isinstance(v, (bool, T.B)) or isinstance(v, Arr) and v.kind == 'b'): raise Unsupported('logical operation on numbers')
        return I.binop(op, a[0], a[1])
    return g
M['numpy.logical_and'] = _logical(ast.BitAnd); M['numpy.logical_or'] = _logical(ast.BitOr)
@model('numpy.logical_not')
def _not(I, a, k):
    v = a[0]
    if isinstance(v, bool): return not v
    if isinstance(v, T.B): return T.Not(v)
    if isinstance(v, Arr) and v.kind == 'b': return elementwise(I, lambda q: T.Not(q), [v], 'b')
    raise Unsupported('logical operation on numbers')


@model('numpy.sign')
def _sign(I, a, k):
    def f(I, x):
        if x.sort == 'c': raise Unsupported('sign of a complex number')
        return ite(gt(x, 0), ONE, ite(lt(x, 0), to(-1), ZERO))
    return unary(f)(I, a, k)
M['numpy.hypot'] = lambda I, a, k: M['numpy.sqrt'](I, [I.binop(ast.Add, I.binop(ast.Mult, a[0], a[0]), I.binop(ast.Mult, a[1], a[1]))], {})
M['numpy.degrees'] = M['numpy.rad2deg'] = unary(lambda I, x: x*to(180)*inv(PI), 'r')
M['numpy.tan'] = unary(lambda I, x: T.fn('sin', [x])*inv(T.fn('cos', [x])), 'r')
M['math.cos'], M['math.sin'], M['math.exp'], M['math.tan'], M['math.radians'] = M['numpy.cos'], M['numpy.sin'], M['numpy.exp'], M['numpy.tan'], M['numpy.deg2rad']
M['math.fabs'] = lambda I, a, k: M['builtins.abs'](I, a, k)
for _q in ('clip', 'round', 'cumsum'): M['ndarray.' + _q] = lambda I, a, k, q=_q: M['numpy.' + q](I, a, k)
M['math.prod'] = lambda I, a, k: M['numpy.prod'](I, a, k)
M['math.fsum'] = lambda I, a, k: M['builtins.sum'](I, a, k)
M['builtins.pow'] = M['operator.pow'] = lambda I, a, k: I.binop(ast.Pow, a[0], a[1]) if len(a) == 2 else (_ for _ in ()).throw(Unsupported('pow'))
for _n, _o in (('mul', ast.Mult), ('add', ast.Add), ('sub', ast.Sub), ('floordiv', ast.FloorDiv), ('truediv', ast.Div), ('mod', ast.Mod), ('matmul', ast.MatMult)): M['operator.' + _n] = lambda I, a, k, o=_o: I.binop(o, a[0], a[1])


@model('numpy.average')
def _average(I, a, k):
    only(k, 'axis', 'weights')
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', None); w = arg(a, k, 2, 'weights', None)
    if w is None: return M['numpy.mean'](I, [x], dict(axis=ax))
    w = A_(I, w)
    if w.nd == 1 and x.nd > 1:
        if ax is None: raise PyRaise('TypeError', 'axis must be specified when shapes of a and weights differ')
        j = I.cint(ax) % x.nd; w = A.index(I, w, (slice(None),) + (None,)*(x.nd - 1 - j))
    elif w.nd != x.nd: raise PyRaise('TypeError', 'axis must be specified when shapes of a and weights differ')
    one = M['numpy.ones_like'](I, [x], {})
    s = lambda v: M['numpy.sum'](I, [v], dict(axis=ax))
    return I.binop(ast.Div, s(I.binop(ast.Mult, x, w)), s(I.binop(ast.Mult, one, w)))


@model('numpy.full_like')
def _full_like(I, a, k):
    only(k, 'dtype')
    z = M['numpy.zeros_like'](I, [a[0]], k); v = to(scal(conv(I, mkarr([], lambda i: to(scal(a[1])), kind_of(scal(a[1]))), z.kind)))
    return mkarr(z.axes, lambda i: v, z.kind)


@model('numpy.column_stack')
def _colstack(I, a, k):
    v = [A_(I, x) for x in conc(I, a[0])]
    return concat(I, [A.index(I, x, (slice(None), None)) if x.nd == 1 else x for x in v], 1)
@model('numpy.atleast_2d')
def _al2(I, a, k):
    x = A_(I, a[0])
    return x if x.nd >= 2 else A.index(I, x, (None, slice(None)) if x.nd else (None, None))


def _split(even):
    def g(I, a, k):
        only(k, 'axis')
        x = A_(I, a[0]); q = arg(a, k, 1, 'indices_or_sections'); ax = I.cint(arg(a, k, 2, 'axis', 0)) % x.nd; n = size(x.axes[ax])
        if isinstance(q, (tuple, ListV)) or isinstance(q, Arr) and q.nd == 1:
            cuts = [to(scal(c)) for c in (conc(I, q) if not isinstance(q, Arr) else I.concrete_list(q))]
        else:
            c = to(scal(q)).const()
            if c is None: raise Unsupported('split into a symbolic number of parts')
            c = int(c)
            if even and I.facts.entails(eq(n, c*idiv(n, to(c)))) is not True: raise Unsupported('equal split')
            m = idiv(n, to(c)); rest = n - c*m
            cuts = [j*m + (ite(lt(rest, to(j)), rest, to(j)) if not even else ZERO) for j in range(1, c)]
        b = [ZERO] + cuts + [n]
        return ListV([A.index(I, x, (slice(None),)*ax + (slice(p, r),)) for p, r in zip(b, b[1:])])
    return g
M['numpy.split'] = _split(True); M['numpy.array_split'] = _split(False)


@model('ndarray.fill')
def _fill(I, a, k): I.setitem(a[0], Ellipsis, a[1]); return None
@model('numpy.copyto')
def _copyto(I, a, k):
    only(k); I.setitem(a[0], Ellipsis, a[1]); return None
@model('numpy.diagonal', 'ndarray.diagonal')
def _diagonal(I, a, k):
    x = a[0]
    if len(a) > 1 or k or not isinstance(x, Arr) or x.nd != 2 or any(len(q) != 1 for q in x.axes): raise Unsupported('diagonal')
    if not I.facts.entails(eq(size(x.axes[0]), size(x.axes[1]))): raise Unsupported('diagonal of a rectangle')
    f = x.snap(); return mkarr([x.axes[0]], lambda i: f([i[0], i[0]]), x.kind)
@model('numpy.divmod')
def _divmod(I, a, k): return (I.binop(ast.FloorDiv, a[0], a[1]), I.binop(ast.Mod, a[0], a[1]))
@model('functools.reduce')
def _reduce(I, a, k):
    xs = conc(I, a[1]); r = a[2] if len(a) > 2 else None
    if r is None: r, xs = xs[0], xs[1:]
    for x in xs: r = I.call(a[0], [r, x], {})
    return r
@model('itertools.product')
def _product(I, a, k):
    only(k); out = [()]
    for q in a: out = [p + (x,) for p in out for x in conc(I, q)]
    return ListV(out)
@model('itertools.chain')
def _chain(I, a, k): return ListV([x for q in a for x in conc(I, q)])


def _anyall(name, comb):
    def g(I, a, k):
        only(k); v = a[0]
        if isinstance(v, (bool, T.B)): return v
        if isinstance(v, (tuple, ListV)):
            xs = conc(I, v)
            if all(isinstance(x, (bool, T.B)) for x in xs): return comb(*[x if isinstance(x, T.B) else T.TRUE if x else T.FALSE for x in xs])
            raise Unsupported(name)
        if isinstance(v, Arr) and v.kind == 'b' and all(s.const() is not None for s in v.sizes()):
            import itertools
            ns = [int(s.const()) for s in v.sizes()]
            if all(len(q) <= 1 for q in v.axes): return comb(*[v.at(list(map(to, i))) for i in itertools.product(*map(range, ns))])
        raise Unsupported(name)
    return g
for _n, _c in (('any', Or), ('all', And)):
    for _p in ('numpy.', 'ndarray.'): M.setdefault(_p + _n, _anyall(_n, _c))


def out_kw(f):
    """the result is written into the array given as out"""
    def g(I, a, k):
        if k.get('out') is None: return f(I, a, {x: v for x, v in k.items() if x != 'out'} if 'out' in k else k)
        o = k['out']; k = {x: v for x, v in k.items() if x != 'out'}
        if isinstance(o, tuple) and len(o) == 1: o = o[0]
        if not isinstance(o, Arr): raise Unsupported('out')
        r = f(I, a, k)
        if 'birc'.index(kind_of(r)) > 'birc'.index(o.kind): raise PyRaise('TypeError', 'Cannot cast ufunc output')
        if isinstance(r, Arr) and r.nd > o.nd: raise PyRaise('ValueError', 'non-broadcastable output operand')
        A.assign(I, o, r); return o
    return g
for _f in 'add subtract multiply divide true_divide floor_divide mod remainder power sqrt square abs absolute conj conjugate exp log log10 sin cos tan negative maximum minimum matmul dot sum mean'.split():
    if 'numpy.' + _f in M: M['numpy.' + _f] = out_kw(M['numpy.' + _f])
