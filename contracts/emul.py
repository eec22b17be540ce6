"""C21, C22: scaling of the coefficients, training and prediction windows of the emulator."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.npmodel import all_real
from . import contract

E = 'pyspod.emulation.base.'
N = 'pyspod.emulation.neural_nets.'


def emulator(I, typ, norm, cls=E + 'Base', **kw):
    o = Obj(I.prog.classes[cls] if False else find(I, cls), {})
    o.stub = True
    I.setattr(o, '_data_type', typ); I.setattr(o, '_normalization', norm)
    for k, v in kw.items(): I.setattr(o, k, v)
    return o


def matrix(I, kind):
    r, t = var('n_rows'), var('nt'); I.assume(ge(r, 1), ge(t, 1))
    X = Tensor('X', kind, 2)
    return X, r, t, tensor_arr(X, [r, t])


def bounds(I, i, j):
    """the bound of every extreme: over a row (instantiated at row i, column j) and over the whole matrix or the rows"""
    out = []
    for e in I.extremes:
        if e['nk'] == 1 and e['nr'] == 1: out += [e['lemma']([i], [j]), e['attained']([i])]
        if e['nk'] == 0 and e['nr'] == 2: out += [e['lemma']([], [i, j])]
        if e['nk'] == 0 and e['nr'] == 1: out += [e['lemma']([], [i])]
    return out


def witnesses(I, i):
    """entries at which extremes are attained: (facts, [(row, column)])"""
    out, facts = [], []
    for e in I.extremes:
        if e['nk'] == 1 and e['nr'] == 1:
            out.append((i, el(e['wit'][0], [i]))); facts.append(e['attained']([i]))
            for e2 in I.extremes:
                if e2['nk'] == 0 and e2['nr'] == 1:
                    w = el(e2['wit'][0], []); out.append((w, el(e['wit'][0], [w]))); facts.append(e['attained']([w]))
        if e['nk'] == 0 and e['nr'] == 2: out.append((el(e['wit'][0], []), el(e['wit'][1], [])))
    return out, facts


def scaler(ctx, typ, norm):
    """pre: a non-empty coefficient matrix.  post: the scaling vector of the definition, row by row"""
    def run(I):
        kind = 'r' if typ.lower() == 'real' else 'c'
        X, n, nt, x = matrix(I, kind)
        o = emulator(I, typ, norm)
        st, v = ctx.attempt(I, lambda: I.call(I.getattr(o, 'scaler'), [x], {}))
        if not ctx.reachable(I): return
        ok = typ in ('real', 'Real', 'complex')
        if typ == 'other': ctx.cond(I, 'unknown data types are rejected with TypeError', st == 'raise' and v.typ == 'TypeError'); return
        ctx.cond(I, 'accepted', st == 'ok')
        if st != 'ok': return
        ctx.eqt('one component per row', v.sizes()[0], n, I.facts)
        (i,), F = ctx.each(I, [n])
        vi = v.at([i])
        parts = [('', T.re(vi) if kind == 'c' else vi, (lambda i, j: T.re(el(X, [i, j]))) if kind == 'c' else (lambda i, j: el(X, [i, j])))]
        if kind == 'c': parts.append((' (imaginary part)', T.im(vi), lambda i, j: T.im(el(X, [i, j]))))
        for tag, w, f in parts:
            if norm.lower() == 'localmax':
                (j,), G = ctx.each(I, [nt]); G = G.child(ge(i, 0), lt(i, n), *bounds(I, i, j))
                ctx.cond_f('ten times every magnitude of the row' + tag, ge(w, 10*absv(f(i, j))), G)
                U = var('U', 'r'); ws, fa = witnesses(I, i)
                ctx.cond_f('and not more' + tag, le(w, U), F.child(*fa, *[Implies(eq(a, i), le(10*absv(f(a, b)), U)) for a, b in ws]))
            elif norm.lower() == 'globalmax':
                (a, j), G = ctx.each(I, [n, nt]); G = G.child(ge(i, 0), lt(i, n), *bounds(I, a, j))
                ctx.cond_f('every magnitude of the matrix' + tag, ge(w, absv(f(a, j))), G)
                U = var('U', 'r'); ws, fa = witnesses(I, i)
                ctx.cond_f('and not more' + tag, le(w, U), F.child(*fa, *[le(absv(f(a, b)), U) for a, b in ws]))
            else: ctx.eqt('one without normalization' + tag, w, ONE, F)
        ctx.unchanged(I, 'data unchanged', x, X)
    ctx.explore(run)
for _t in ('real', 'Real', 'complex'):
    for _n in ('localmax', 'globalmax', 'none', 'GlobalMax'): contract('C21 C19' if _t != 'Real' else 'C21', f'{E}Base.scaler[{_t}, {_n}]')(lambda ctx, t=_t, n=_n: scaler(ctx, t, n))
contract('C21', f'{E}Base.scaler[other data type]')(lambda ctx: scaler(ctx, 'other', 'localmax'))


def scaling(ctx, typ, ints=False):
    """scale_data and descale_data: row i scaled by component i, and inverse to each other"""
    def run(I):
        kind = 'r' if typ.lower() == 'real' else 'c'
        X, n, nt, x = matrix(I, 'i' if ints else kind)
        V = Tensor('V', kind, 1); v = tensor_arr(V, [n])
        V.info['gen'] = lambda rng, i: rng.uniform(.3, 2.) + (1j*rng.uniform(.3, 2.) if kind == 'c' else 0)
        o = emulator(I, typ, 'localmax')
        s = I.call(I.getattr(o, 'scale_data'), [x], dict(vec=v))
        d0 = I.call(I.getattr(o, 'descale_data'), [x], dict(vec=v))
        d = I.call(I.getattr(o, 'descale_data'), [s], dict(vec=v))
        if not ctx.reachable(I): return
        (i, j), F = ctx.each(I, [n, nt])
        vi = el(V, [i]); xi = el(X, [i, j])
        F = F.child(Not(eq(T.re(vi) if kind == 'c' else vi, 0)), *([Not(eq(T.im(vi), 0))] if kind == 'c' else []))
        for a in (s, d0, d):
            ctx.eqt('shape', a.sizes()[0], n, I.facts); ctx.eqt('shape', a.sizes()[1], nt, I.facts)
        if kind == 'r':
            ctx.eqt('row i divided by component i', s.at([i, j]), xi*inv(vi), F)
            ctx.eqt('row i multiplied by component i', d0.at([i, j]), xi*vi, F)
            ctx.eqt('de-scaling inverts scaling', d.at([i, j]), xi, F)
        else:
            for q, t in ((T.re, 'real'), (T.im, 'imaginary')):
                ctx.eqt(f'row i divided by component i ({t})', q(s.at([i, j])), q(xi)*inv(q(vi)), F)
                ctx.eqt(f'row i multiplied by component i ({t})', q(d0.at([i, j])), q(xi)*q(vi), F)
                ctx.eqt(f'de-scaling inverts scaling ({t})', q(d.at([i, j])), q(xi), F)
        ctx.unchanged(I, 'data unchanged', x, X); ctx.unchanged(I, 'scaling vector unchanged', v, V)
    ctx.explore(run)
for _t in ('real', 'Real', 'complex', 'Complex'): contract('C21 C19', f'{E}Base.scale_data/descale_data[{_t}]')(lambda ctx, t=_t: scaling(ctx, t))
contract('C21 C19', f'{E}Base.scale_data/descale_data[real, integer data]')(lambda ctx: scaling(ctx, 'real', True))


# ------------------------------------------------------------------------------------------------ C22
def nets(I, **kw): return emulator(I, 'real', 'localmax', N + 'Neural_Nets', **kw)


QUIET = {'tqdm.tqdm': lambda I, a, k: a[0]}


def extract(ctx, fhc):
    """pre: at least one window fits (n_seq_in + n_seq_out + fh <= nt), n_features = rows of the data"""
    def run(I):
        X, nf, nt, x = matrix(I, 'r')
        a, b, fh = var('n_seq_in'), var('n_seq_out'), ONE if fhc == 'default' else var('fh')
        I.assume(ge(a, 1), ge(b, 1))
        if fhc == 'bad': I.assume(lt(fh, 1))
        elif fhc == 'given': I.assume(ge(fh, 1))
        nw = nt - a - b - fh + 1; I.assume(ge(nw, 1))
        o = nets(I, _n_seq_in=a, _n_seq_out=b, _n_features=nf)
        st, v = ctx.attempt(I, lambda: I.call(I.getattr(o, 'extract_sequences'), [x], {} if fhc == 'default' else dict(fh=fh)))
        if not ctx.reachable(I): return
        if fhc == 'bad': ctx.cond(I, 'a horizon below one is rejected with ValueError', st == 'raise' and v.typ == 'ValueError'); return
        ctx.cond(I, 'accepted', st == 'ok')
        if st != 'ok': return
        xi, yo = v
        for q, d in zip(xi.sizes(), [nw, a, nf]): ctx.eqt('shape of the inputs', q, d, I.facts)
        for q, d in zip(yo.sizes(), [nw, b*nf]): ctx.eqt('shape of the targets', q, d, I.facts)
        (j, s, f), F = ctx.each(I, [nw, a, nf])
        ctx.eqt('input s of window j is snapshot j+s', xi.at([j, s, f]), el(X, [f, j + s]), F)
        y3 = A.reshape(I, yo, [nw, b, nf])
        (j, s, f), F = ctx.each(I, [nw, b, nf])
        ctx.eqt('target s of window j is snapshot j+n_seq_in+fh-1+s', y3.at([j, s, f]), el(X, [f, j + a + fh - 1 + s]), F)
        ctx.cond_f('no window reaches outside the series', And(ge(j, 0), le(j + a + fh - 1 + s, nt - 1)), F)
        ctx.unchanged(I, 'data unchanged', x, X)
    ctx.explore(run)
for _f in ('default', 'given', 'bad'): contract('C22 C19', f'{N}Neural_Nets.extract_sequences[horizon {_f}]', models=QUIET)(lambda ctx, f=_f: extract(ctx, f))


def inference(ctx, kind, fits=True):
    """pre: n_seq_in, n_seq_out >= 1; the network is any function of the window it is given.
    post: the first n_seq_in snapshots are the given ones, prediction i (from the n_seq_in given snapshots before it) fills the next n_seq_out"""
    def run(I):
        X, nf, nt, x = matrix(I, kind)
        a, b = var('n_seq_in'), var('n_seq_out'); I.assume(ge(a, 1), ge(b, 1))
        I.assume(ge(nt, a) if fits else lt(nt, a))
        re_, im_ = (T.re, T.im) if kind == 'c' else ((lambda p: p), (lambda p: ZERO))
        NET = {q: Tensor(f'NET_{q}', 'r', 3) for q in ('real', 'imag')}      # output of a network for the window that starts at a snapshot
        def load(I, a_, k):
            nm = a_[1] if isinstance(a_[1], str) else str(a_[1])
            base = nm.rsplit('/', 1)[-1]
            ctx.cond(I, 'the network of this series is loaded', base in ('real7.weights.h5', 'imag7.weights.h5') and nm.startswith('SAVEDIR/'))
            I.setattr(a_[0], 'loaded', base[:4])
        def predict(I, a_, k):
            m, inp = a_[0], a_[1]
            which = m.st.get('loaded')
            if which not in NET: raise Unsupported('prediction without a network')
            part = re_ if which == 'real' else im_
            for q, d in zip(inp.sizes(), [ONE, a, nf]): ctx.eqt('shape of the batch', q, d, I.facts)
            s, f = fresh('s'), fresh('f'); F = I.facts.child(ge(s, 0), lt(s, a), ge(f, 0), lt(f, nf))
            e = F.simplify(inp.at([ZERO, s, f]))
            pos = [y.key[3][1] for mono in e.m for y, _ in mono if y.kind == 'el' and y.key[2] is X]
            if not pos: raise Unsupported(f'window of the network: {e}')
            w = pos[0] - s
            if the(s) in w.fv or the(f) in w.fv: raise Unsupported(f'window of the network: {e}')
            ctx.eqt(f'the {which} network sees the {which} part of a window of given snapshots', e, part(el(X, [f, w + s])), F)
            out = mkarr([(ONE,), (b, nf)], lambda i: el(NET[which], [w, i[1], i[2]]), 'r')
            return out
        I.models = {**I.models, '$model.load_weights': load, '$model.predict': predict}
        o = nets(I, _n_seq_in=a, _n_seq_out=b, _n_features=nf, _savedir='SAVEDIR', _network='lstm', model=Obj('$model', {}))
        st, v = ctx.attempt(I, lambda: I.call(I.getattr(o, 'model_inference'), [x], dict(idx=7)))
        if not ctx.reachable(I): return
        if not fits: ctx.cond(I, 'too short an input is rejected with ValueError', st == 'raise' and v.typ == 'ValueError'); return
        ctx.cond(I, 'accepted', st == 'ok')
        if st != 'ok': return
        ctx.eqt('shape', v.sizes()[0], nf, I.facts); ctx.eqt('shape', v.sizes()[1], nt, I.facts)
        (f, t), F = ctx.each(I, [nf, nt])
        ctx.eqt('the first snapshots are the given ones', v.at([f, t]), el(X, [f, t]), F.child(lt(t, a)))
        i, s = fresh('i'), fresh('s')
        F2 = F.child(eq(t, a + i*b + s), ge(i, 0), ge(s, 0), lt(s, b))
        isr = all_real(x) if kind == 'c' else TRUE
        t2 = a + i*b + s
        F3 = I.facts.child(ge(f, 0), lt(f, nf), ge(i, 0), ge(s, 0), lt(s, b), lt(t2, nt))
        want = el(NET['real'], [i*b, s, f])
        if kind == 'c': want = want + ite(isr, 0, T.IMAG*el(NET['imag'], [i*b, s, f]))
        ctx.eqt('prediction i fills the n_seq_out positions after its window', v.at([f, t2]), want, F3)
        ctx.unchanged(I, 'data unchanged', x, X)
    ctx.explore(run)
for _k in ('r', 'c'): contract('C22 C19', f'{N}Neural_Nets.model_inference[{"real" if _k == "r" else "complex"}]', models=QUIET, cost=2)(lambda ctx, k=_k: inference(ctx, k))
contract('C22', f'{N}Neural_Nets.model_inference[too short]', models=QUIET)(lambda ctx: inference(ctx, 'r', False))


def training(ctx, kind):
    """each network is trained on the windows of its own part (real or imaginary) of the series"""
    def run(I):
        X, nf, nt, x = matrix(I, kind)
        nv = var('nt_valid'); V = Tensor('V', kind, 2); v = tensor_arr(V, [nf, nv])
        a, b = var('n_seq_in'), var('n_seq_out')
        I.assume(ge(a, 1), ge(b, 1), ge(nt - a - b, 1), ge(nv - a - b, 1))
        re_, im_ = (T.re, T.im) if kind == 'c' else ((lambda p: p), (lambda p: ZERO))
        fits = []
        def ckpt(I, a_, k): return Obj('$ckpt', dict(file=a_[0] if a_ else k.get('filepath')))
        def fit(I, a_, k):
            cb = [c for c in I.concrete_list(k.get('callbacks')) if isinstance(c, Obj) and c.cls == '$ckpt']
            ctx.cond(I, 'the trained weights are kept in a file', len(cb) == 1)
            if len(cb) != 1: raise PathEnd()
            nm = str(cb[0].st['file']); base = nm.rsplit('/', 1)[-1]
            fits.append(base)
            ctx.cond(I, 'weights file', base in ('real7.weights.h5', 'imag7.weights.h5') and nm.startswith('SAVEDIR/'))
            part = re_ if base.startswith('real') else im_
            vd = I.concrete_list(k['validation_data'])
            for tag, (xi, yo), Z, n in (('training', (k['x'], k['y']), X, nt), ('validation', vd, V, nv)):
                nw = n - a - b
                for q, d in zip(xi.sizes(), [nw, a, nf]): ctx.eqt(f'shape of the {tag} inputs', q, d, I.facts)
                (j, s, f), F = ctx.each(I, [nw, a, nf])
                ctx.eqt(f'{base[:4]} network: {tag} inputs', xi.at([j, s, f]), part(el(Z, [f, j + s])), F)
                y3 = A.reshape(I, yo, [nw, b, nf]); (j, s, f), F = ctx.each(I, [nw, b, nf])
                ctx.eqt(f'{base[:4]} network: {tag} targets', y3.at([j, s, f]), part(el(Z, [f, j + a + s])), F)
            return Opaque('history')
        other = lambda I, a_, k: Opaque('callback')
        I.models = {**I.models, 'tensorflow.keras.callbacks.ModelCheckpoint': ckpt, '$model.fit': fit, 'tensorflow.keras.callbacks.EarlyStopping': other, 'tensorflow.keras.callbacks.ReduceLROnPlateau': other}
        o = nets(I, _n_seq_in=a, _n_seq_out=b, _n_features=nf, _savedir='SAVEDIR', _network='lstm', model=Obj('$model', {}), _epochs=1, _batch_size=1)
        I.call(I.getattr(o, 'model_train'), [], dict(data_train=x, data_valid=v, idx=7))
        if not ctx.reachable(I): return
        isr = all_real(x) if kind == 'c' else TRUE
        ctx.cond(I, 'the real part is always trained, once', fits.count('real7.weights.h5') == 1)
        k = fits.count('imag7.weights.h5')
        ctx.cond(I, 'the imaginary part is trained for complex data only', Implies(isr, TRUE if k == 0 else FALSE)); ctx.cond(I, 'the imaginary part is trained for complex data', Implies(Not(isr), TRUE if k == 1 else FALSE))
        ctx.unchanged(I, 'data unchanged', x, X)
    ctx.explore(run)
for _k in ('r', 'c'): contract('C22 C19', f'{N}Neural_Nets.model_train[{"real" if _k == "r" else "complex"}]', models=QUIET, cost=2)(lambda ctx, k=_k: training(ctx, k))
