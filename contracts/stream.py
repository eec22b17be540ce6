"""C25: the streaming algorithm (spod/streaming.py).

Streaming.fit is `prefix; while True: snapshot; suffix`.  The loop is verified with the invariant

    INV  (at every frequency)  the stored singular values are real, >= 0 and descending, and with b the number of positive
         ones the first b columns of the basis are orthonormal and the others are zero

by three contracts on the statements of the current source: the prefix establishes INV, one basis update (the body of the
for loop that calls svd, found in the syntax tree, executed from an arbitrary state satisfying INV and arbitrary data)
preserves it, and the suffix turns INV into the property.  The update is verified for every x_hat; how x_hat is
accumulated is C27 (`accumulate`).  That nothing else in the loop writes the basis or the singular values is a
syntactic side condition, checked on every run."""
import ast
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.prover import prove_eq, Facts
from pyvc.contract import NoEval
from pyvc.interp import PyRaise
from pyvc.npmodel import dftW
from pyvc.linalg import set_rule, guards_equal, drop, var_of, Mono
from . import contract
from .par import COMM, mkcomm
from .dist import Dist, explore
from .spod import B, cls, params, FILES
from .modes import sqsum, CON, NOOP

ST = 'pyspod.spod.streaming.'


def gram_rule(V, pts, dims, value, W=None):
    """sum over the points of conj(V[.., p.., J]) W[.., p.., K] -> value(lead, J, K)   (W None: V); pts: positions of p"""
    W = W or V
    def rule(m, facts):
        for a, e in m.atoms.items():
            if a.kind != 'el' or a.key[2] not in (V, W) or a.key[4] or e < 1: continue
            ps = [var_of(a.key[3][p]) for p in pts]
            if any(v is None or v not in m.binders for v in ps) or len(set(ps)) != len(ps): continue
            for b, e2 in m.atoms.items():
                if b.kind != 'el' or not b.key[4] or e2 < 1 or {a.key[2], b.key[2]} != {V, W}: continue
                if [var_of(b.key[3][p]) for p in pts] != ps: continue
                left = drop(m.atoms, {a: 1, b: 1})
                if any(v in x.fv for x in left for v in ps): continue
                oa = [x for j, x in enumerate(a.key[3]) if j not in pts]; ob = [x for j, x in enumerate(b.key[3]) if j not in pts]
                if any(v in x.fv for x in oa + ob for v in ps): continue
                rest = guards_equal(m, set(ps), [c for v, d in zip(ps, dims) for c in (le(0, at(v)), lt(at(v), d))], facts)
                if rest is None: continue
                q = value(ob, oa)
                if q is None: continue
                if q is T.FALSE: return []
                if isinstance(q, tuple):
                    return [(tuple(w for w in m.binders if w not in ps), tuple(rest), Mono(m.c, (), (), left).p()*q[1])]
                return [Mono(m.c, tuple(w for w in m.binders if w not in ps), tuple(rest) + ((q,) if q is not T.TRUE else ()), left)]
        return None
    return rule


def grid(ev, dims):
    import itertools
    return list(itertools.product(*[range(ev.i(d)) for d in dims]))


def instance(U, Dp, dims, b, np_):
    """numeric instances: a random orthonormal basis and a random vector orthogonal to it, per frequency"""
    def make(ev, f):
        import numpy as np
        key = ('basis', id(U), f)
        if key not in ev.tens:
            g = grid(ev, dims); nb = ev.i(b); n = len(g)
            if n < nb + 1 or n > 60: raise NoEval('not enough points')
            rs = np.random.RandomState(ev.rng.randint(0, 10**6))
            q, _ = np.linalg.qr(rs.randn(n, nb + 1) + 1j*rs.randn(n, nb + 1))
            ev.tens[key] = {p: i for i, p in enumerate(g)}, q
        return ev.tens[key]
    def u(ev, ix):
        pos, q = make(ev, ix[0])
        if ix[-1] >= q.shape[1] - 1 or ix[1:-1] not in pos: raise NoEval('outside')
        return complex(q[pos[ix[1:-1]], ix[-1]])
    def d(ev, ix):
        pos, q = make(ev, ix[0])
        if ix[1:] not in pos: raise NoEval('outside')
        return complex(1.7*q[pos[ix[1:]], -1])
    U.info['num'], Dp.info['num'] = u, d


def source(I):
    """(module, prefix, loop body of the snapshots, basis update loop, suffix) of the current source"""
    f = find(I, ST + 'Streaming.fit')
    body = list(f.node.body)
    w = [j for j, s in enumerate(body) if isinstance(s, (ast.While, ast.For)) and any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', '')) == 'svd' for n in ast.walk(s))]
    if len(w) != 1: raise Unsupported('the loop over the snapshots')
    loop = body[w[0]]
    inner = [n for n in ast.walk(loop) if isinstance(n, ast.For) and n is not loop and any(isinstance(c, ast.Call) and getattr(c.func, 'attr', getattr(c.func, 'id', '')) == 'svd' for c in ast.walk(n))]
    if len(inner) != 1 or not isinstance(inner[0].target, ast.Name): raise Unsupported('the loop over the frequencies')
    return f, body[:w[0]], loop, inner[0], body[w[0]+1:]


def targets(s):
    """(names and self attributes stored to, rebinding or in place), nested ones included"""
    out = set()
    def base(t):
        while isinstance(t, (ast.Subscript, ast.Starred)): t = t.value
        if isinstance(t, ast.Name): return t.id
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self': return 'self.' + t.attr
        return None
    for n in ast.walk(s):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
        for t in ts:
            for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]): out.add(base(e))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == 'out': out.add(base(k.value))
    return out


def streaming(ctx, part, nd, real, full, cut=None):
    def run(I, root=None):
        n, nf, k, nb = var('n_dft'), var('nf'), var('k'), var('nb')
        I.assume(ge(n, 4), ge(nb, 2), ge(k, 1), le(k, nb))
        par = {'fullspectrum': True} if full else {}
        nf = idiv(n, to(2)) + 1 if real and not full else n
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); dims = xs + [nv]; I.assume(*[ge(d, 1) for d in dims])
        ax = cut or 0; D = Dist(ctx, I, root, dims[ax]); held = {}
        ldims = [D.ln if j == ax else d for j, d in enumerate(dims)]
        sh = lambda p: [to(q) + D.lo if j == ax else to(q) for j, q in enumerate(p)]
        s = I.call(cls(I, ST + 'Streaming'), [], dict(params=params(I, ('normalize_data', 'savefft', 'reuse_blocks', 'normalize_weights'), **par), weights=None, comm=D.comm))
        W = ctx.T('Wt', 'r', len(dims)); W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        w = lambda p: el(W, list(p))
        X = ctx.T('X', 'r' if real else 'c', 1 + len(dims)); nt = var('nt'); I.assume(ge(nt, 1))
        over = var('n_overlap'); I.assume(ge(over, 0), le(over, n - 1))
        def init(I, a, kw):
            o = a[0]
            ctx.cond(I, 'the streaming reader is asked for', kw.get('streaming', a[3] if len(a) > 3 else False) is True)
            def get(I, a, k2):
                t = to(a[1] if len(a) > 1 else k2['ts'])
                if part == 'snapshot': return A.index(I, rec, slice(t, t + 1))          # rows of the record held in memory
                return mkarr([(ONE,)] + [(d,) for d in ldims], lambda e: el(X, [t] + sh(e[1:])), 'r' if real else 'c')
            rec = mkarr([(nt,)] + [(d,) for d in ldims], lambda e: el(X, [to(e[0])] + sh(e[1:])), 'r' if real else 'c')
            held['rec'] = ctx.frame(I, rec)
            I.models = {**I.models, '$reader.get_data': get}
            for key, v in dict(_n_blocks=nb, _n_freq=nf, _xshape=tuple(xs), _nv=nv, _nx=A.size(xs), _nt=nt, _max_axis=ax, _modes_dir='MODES', _savedir_sim='SIM',
                               _weights=mkarr([tuple(ldims), (ONE,)], lambda i: w(sh(i[:-1])), 'r'), _n_modes_save=k, _isrealx=real, _n_overlap=over,
                               _reader=Obj('$reader', dict(_flattened=False)), _window=tensor_arr(ctx.T('win', 'r', 2), [n, ONE]), _win_weight=var('ww', 'r')).items(): I.setattr(o, key, v)
            if part == 'snapshot': held['weights'] = ctx.frame(I, I.getattr(o, '_weights'), soft=True)
        before = list(I.facts.bs)
        stored = []
        I.contracts = dict(I.contracts)
        I.contracts.update({B + 'Base._initialize': init, B + 'Base._store_and_save': lambda I, a, kw: stored.append(I.getattr(a[0], '_eigs'))})
        f, prefix, loop, inner, suffix = source(I)
        fr = Frame(dict(self=s, data_list=ListV([Opaque('DATA')]), args=(), kwargs=DictV({})))
        fr.cls = getattr(f, 'cls', None)
        I.visited.add(ST + 'Streaming.fit'); I.cur.append(ST + 'Streaming.fit')
        try: I.block(prefix, fr, f.module)
        finally: I.cur.pop()
        if held.get('weights'): held['weights']('the weights')
        if part not in ('start', 'snapshot') and 'n_blocks_par' in fr.st:
            I.heap.set(fr, dict(fr.st, n_blocks_par=var('npar')))      # any number of slots; what the prefix implied is forgotten
            rules = I.facts.rules; I.facts = Facts(before + [b for b in I.facts.bs if b not in before and 'floor' not in T.show_b(b)]); I.facts.rules = rules
            I.assume(ge(var('npar'), 1), ge(var('npar')*(n - over), n))
        u, eg = fr.st.get('u_hat'), I.getattr(s, '_eigs')
        if not isinstance(u, Arr): raise Unsupported('the basis is not called u_hat')
        if part == 'start':
            if not ctx.reachable(I): return
            p, F = ctx.each(I, u.factors()); ctx.eqt('the basis starts empty', u.at(p), ZERO, F)
            p, F = ctx.each(I, eg.factors()); ctx.eqt('no singular value is positive at the start', eg.at(p), ZERO, F)
            for a, b in zip(u.sizes(), [A.size(ldims), nf, k]): ctx.eqt('one basis per frequency, a column per mode', a, b, I.facts)
            for a, b in zip(eg.sizes(), [k, nf]): ctx.eqt('one singular value per mode and frequency', a, b, I.facts)
            ctx.eqt('the blocks are counted from zero', fr.st['block_i'], ZERO, I.facts)
            return D
        if part in ('snapshot', 'block', 'corrected'):
            fr.record = held.get('rec')
            return accumulate(ctx, I, part, D, s, f, fr, loop, inner, X, dims, ldims, sh, n, nf, nt, over, real, full)
        # ---- an arbitrary state satisfying INV
        np_ = len(dims)
        fv, b = var('f'), var('b'); I.assume(ge(fv, 0), lt(fv, nf), ge(b, 0), le(b, k))
        U, Dp, C, Sg = ctx.T('U', 'c', np_ + 2), ctx.T('D', 'c', np_ + 1), ctx.T('C', 'c', 2), ctx.T('Sg', 'r', 2)
        Sg.info['gen'] = lambda rng, i: 3.0/(1 + i[-1])
        pts = list(range(1, np_ + 1))
        set_rule(I, 'basis', gram_rule(U, pts, dims, lambda cj, un: eq(cj[1], un[1]) if cj[0] == un[0] else None))
        set_rule(I, 'complement', gram_rule(U, pts, dims, lambda cj, un: T.FALSE if cj[0] == un[0] else None, Dp))
        ub = lambda p, f, j: ite(lt(j, b), el(U, [f] + list(p) + [j]), ZERO)
        sg = lambda f, j: ite(lt(j, b), el(Sg, [f, j]), ZERO)
        I.heap.set(fr, dict(fr.st, u_hat=mkarr([tuple(ldims), (nf,), (k,)], lambda i: ub(sh(i[:np_]), i[np_], i[np_+1]), 'c')))
        I.setattr(s, '_eigs', mkarr([(k,), (nf,)], lambda i: sg(i[1], i[0]), 'c'))
        if part == 'end':
            from pyvc.interp import Return
            try: I.block(suffix, fr, f.module)
            except Return as r: ctx.cond(I, 'fit returns the object', r.v is s)
            if not ctx.reachable(I): return
            saves = [e for e in I.effects if e.name == 'save']
            if len(saves) != 1 or len(saves[0].binders) != 1: raise Unsupported(f'{len(saves)} places write modes')
            E = saves[0]; ctx.eqt('one file for every frequency', E.binders[0][1], ZERO, I.facts); ctx.eqt('one file for every frequency', E.binders[0][2], nf, I.facts)
            path, phi, axis = E.at(fv)
            ctx.streq(I, 'file of frequency f', path, mkstr(['MODES/freq_idx_', (fv, '08d'), '.npy']))
            ctx.cond(I, 'distributed axis', to(axis) == to(ax)); ctx.cond(I, 'layout [space, variable, mode]', phi.nd == nd + 2)
            if phi.nd != nd + 2: return
            for a, d in zip(phi.sizes(), (dims if D.par else ldims) + [k]): ctx.eqt('layout [space, variable, mode]', a, d, I.facts)
            i, j = var('i'), var('j'); p = [fresh('p') for _ in dims]
            F = I.facts.child(ge(i, 0), lt(i, b), ge(j, 0), lt(j, b), *[gt(w(p), 0)])
            g = sqsum(I, p, dims, conj(phi.at(p + [i]))*w(p)*phi.at(p + [j]))
            ctx.eqt('the modes of positive singular values are orthonormal in the weighted inner product', g, ite(eq(i, j), ONE, ZERO), F)
            ctx.cond(I, 'the results are stored once', len(stored) == 1)
            if len(stored) == 1:
                e = stored[0]
                for a, d in zip(e.sizes(), [nf, k]): ctx.eqt('one singular value per frequency and mode', a, d, I.facts)
                ctx.eqt('singular values belong to the modes', e.at([fv, j]), sg(fv, j), I.facts.child(ge(j, 0), lt(j, k)))
            return D
        # ---- one basis update
        own = {'u_hat', 'self._eigs'}
        for st in ast.walk(loop):
            if not isinstance(st, ast.stmt) or any(x is inner for x in ast.walk(st)) or any(x is st for x in ast.walk(inner)): continue
            if targets(st) & own:
                first = [x for x in ast.walk(loop) if isinstance(x, ast.If) and any(y is st for z in x.body for y in ast.walk(z)) and ast.unparse(x.test) == 'block_i == 0']
                ctx.record('only the update changes the basis', 'discharged' if first else 'undecided', I, ast.unparse(st)[:200], backend='syntax tree')
            if 'block_i' in targets(st) and isinstance(st, (ast.Assign, ast.AugAssign)):
                ctx.record('the first block already updates the basis', 'discharged' if ast.unparse(st) in ('block_i = block_i + 1', 'block_i += 1') else 'undecided', I, ast.unparse(st)[:200], backend='syntax tree')
        blk = var('block_i'); I.assume(ge(blk, 1))
        dep = part == 'dependent'
        j, i = fresh('j'), fresh('i')
        sw = fr.st['sqrt_w']
        d_ = lambda p, f: ZERO if dep else el(Dp, [f] + list(p))
        Et = ctx.T('E', 'r', 1)                 # squared norm of the complement
        Et.info['num'] = lambda ev, ix: float(sum(abs(ev.tensor(Dp, (ix[0],) + q))**2 for q in grid(ev, dims)))
        E = ZERO if dep else el(Et, [fv])
        if not dep:
            I.assume(gt(E, 0))
            set_rule(I, 'norm', gram_rule(Dp, pts, dims, lambda cj, un: (T.TRUE, el(Et, cj)) if cj == un else None))
        instance(U, Dp, dims, b, np_)
        xw = lambda p, f: summ(j, ZERO, b, el(U, [f] + p + [j])*el(C, [f, j])) + d_(p, f)
        xh = mkarr([tuple(ldims), (nf,)], lambda q: xw(sh(q[:np_]), q[np_])*inv(sw.at(list(q[:np_]) + [ZERO])), 'c')
        base = I.contracts['pyspod.utils.parallel.allreduce']
        seen = []
        def reduced(I, a, kw):
            """the sum over the processes; recognized ones are replaced by the ghost values they are proved equal to"""
            g = base(I, a, kw)
            if isinstance(g, Arr) and g.nd == 2:
                q = [fresh('e') for _ in g.factors()]; F = I.facts.child(*[c for v, n_ in zip(q, g.factors()) for c in (ge(v, 0), lt(v, n_))])
                want = ite(lt(q[0], b), el(C, [fv, q[0]]), ZERO) if not seen else E
                seen.append(1)
                if len(q) and prove_eq(g.at(q), want, F).ok:
                    z = [the(v) for v in q]
                    return mkarr(g.axes, lambda ix: subst(want, dict(zip(z, map(to, ix)))), g.kind if want is not E else 'r')
            return g
        I.contracts['pyspod.utils.parallel.allreduce'] = reduced
        I.heap.set(fr, dict(fr.st, x_hat=xh, block_i=blk, **{inner.target.id: fv}))
        I.cur.append(ST + 'Streaming.fit')
        try: I.block(inner.body, fr, f.module)
        except PyRaise as e:
            if e.typ in ('NameError', 'UnboundLocalError'): raise Unsupported('the update needs another part of the loop')
            raise
        finally: I.cur.pop()
        if not ctx.reachable(I): return
        if len(I.svds) != 1: raise Unsupported('another way of updating')
        V = I.svds[0]; Q, L, R, K = V['U'], V['L'], V['V'], V['f']
        ctx.eqt('size of the small matrix', V['n'], k + 1, I.facts)
        u2, e2 = fr.st['u_hat'], I.getattr(s, '_eigs')
        a, c, r = var('a'), var('c'), var('r')
        F = I.facts.child(ge(a, 0), lt(a, k), ge(c, 0), lt(c, k)).child(*order_lemmas(I, [[]], [a, c]))
        ev = e2.at([a, fv])
        ctx.eqt('the singular values reported are those of the update', ev, el(L, [a]), F)
        ctx.cond_f('singular values not negative', ge(ev, 0), F)
        ctx.cond_f('singular values in descending order', T.Implies(le(a, c), ge(ev, e2.at([c, fv]))), F)
        loc = [fresh('x') for _ in dims]; Fx = F.child(*[t for x, n_ in zip(loc, ldims) for t in (ge(x, 0), lt(x, n_))])
        rE = ONE if dep else inv(T.sqrt(E))
        col = lambda p, a: summ(j, ZERO, b, el(U, [fv] + p + [j])*el(Q, [j, a])) + d_(p, fv)*rE*el(Q, [k, a])
        ctx.eqt('column a of the new basis combines the old basis and the normalized complement by column a of the left factor', u2.at(loc + [fv, a]), col(sh(loc), a), Fx)
        # Gram matrix of the new basis (by the formula just proved)
        p = [fresh('p') for _ in dims]
        part_ = lambda lo, hi: summ(j, lo, hi, conj(el(Q, [j, a]))*el(Q, [j, c]))
        last = ZERO if dep else conj(el(Q, [k, a]))*el(Q, [k, c])
        ctx.lemma('Gram matrix of the new basis', sqsum(I, p, dims, conj(col(p, a))*col(p, c)), part_(ZERO, b) + last, F)
        G = ctx.T('G', 'c', 1)                  # the columns of the left factor are orthonormal: their inner product, split by rows
        ctx.lemma('rows of the left factor: old basis, unused, complement', summ(j, ZERO, b, el(G, [j])) + summ(j, b, k, el(G, [j])) + el(G, [k]), summ(j, ZERO, k + 1, el(G, [j])), F)
        # rows of the small matrix that belong to no column: L[a] Q[r, a] = sum_i K[r, i] R[i, a] = 0, so Q[r, a] = 0 where L[a] > 0
        Fr_ = F.child(ge(r, b), lt(r, k))
        ctx.eqt('rows of the small matrix without basis vector vanish', K([r, i]), ZERO, Fr_.child(ge(i, 0), lt(i, k + 1)))
        if dep: ctx.eqt('rows of the small matrix without complement vanish', K([k, i]), ZERO, F.child(ge(i, 0), lt(i, k + 1)))
        # columns: conj(sum_r K[r, i] conj(Q[r, a])) = L[a] R[i, a] = 0 where L[a] = 0, so Q[i, a] = 0 for i < b, then for i = k
        Fi = F.child(ge(i, 0), lt(i, b), gt(el(Sg, [fv, i]), 0))
        w2 = (blk + 1)*inv(to(blk + 2)*(blk + 2))
        ctx.eqt('weight of the old basis in the recursion', Fi.simplify(K([i, i]))*Fi.simplify(K([i, i])), (blk + 1)*inv(blk + 2)*el(Sg, [fv, i])*el(Sg, [fv, i]), Fi)
        ctx.eqt('weight of the new data in the recursion', Fi.simplify(K([i, k]))*conj(Fi.simplify(K([i, k]))), w2*el(C, [fv, i])*conj(el(C, [fv, i])), Fi)
        if not dep:
            ctx.eqt('weight of the complement in the recursion', F.simplify(K([k, k]))*F.simplify(K([k, k])), w2*E, F)
            ctx.eqt('data and complement in proportion', Fi.simplify(K([i, k]))*F.simplify(K([k, k])), w2*el(C, [fv, i])*T.sqrt(E), Fi)
        Fc = Fi.child(ge(r, 0), lt(r, k + 1)); ctx.eqt('columns of the small matrix: old singular values on the diagonal', Fc.simplify(K([r, i])), ite(eq(r, i), Fc.simplify(K([i, i])), ZERO), Fc)
        ctx.cond_f('positive singular values stay on the diagonal', gt(Fi.simplify(K([i, i])), 0), Fi)
        if not dep: ctx.cond_f('the complement stays on the diagonal', gt(F.simplify(K([k, k])), 0), F)
        return D
    if cut is None: ctx.explore(run)
    else: explore(ctx, run)


def accumulate(ctx, I, part, D, s, f, fr, loop, inner, X, dims, ldims, sh, n, nf, nt, over, real, full):
    """C27: the transforms entering the update.  With t snapshots received mu is their mean, and the sum of the slot j whose
    sliding index is T_j is  sum over 0 <= r < T_j of window[r] D[r, f] X[t - T_j + r]"""
    np_ = len(dims); x = [fresh('x') for _ in dims]; fv, r, q = fresh('f'), fresh('r'), fresh('s')
    W = I.getattr(s, '_window'); dft = fr.st['dft']; ts = fr.st['t_idx']; npar = fr.st['n_blocks_par']
    two = ONE if full or not real else ite(T.Or(eq(fv, 0), eq(2*to(fv), n)), ONE, to(2))
    wd = lambda r: W.at([r, ZERO])*two*dftW(n, fv, to(r))
    def facts(*more):
        return I.facts.child(ge(fv, 0), lt(fv, nf), *[c for v, d in zip(x, ldims) for c in (ge(v, 0), lt(v, d))], *more)
    def at_(a, *last):
        fs = a.factors(); last = list(last)
        if len(fs) == np_ + len(last): return a.at(list(x) + last)
        if len(fs) == np_ + len([v for v in last if v is not ZERO]): return a.at(list(x) + [v for v in last if v is not ZERO])
        raise Unsupported(f'axes {fs}')
    snap = lambda t: el(X, [to(t)] + sh(x))
    def block(stmts, **st):
        I.heap.set(fr, dict(fr.st, **st)); I.cur.append(ST + 'Streaming.fit')
        try: I.block(stmts, fr, f.module)
        except PyRaise as e:
            if e.typ in ('NameError', 'UnboundLocalError'): raise Unsupported('a part of the loop needs another one')
            raise
        finally: I.cur.pop()
    pos = [i for i, z in enumerate(loop.body) if any(y is inner for y in ast.walk(z))]
    slots = [i for i, z in enumerate(loop.body) if isinstance(z, ast.For) and i < pos[0]]
    if len(pos) != 1 or len(slots) != 1 or not isinstance(loop.body[pos[0]], ast.If): raise Unsupported('the shape of the loop over the snapshots')
    slot = loop.body[slots[0]]
    kind = 'r' if real else 'c'
    t = var('t'); I.assume(ge(t, 0), lt(t, nt))
    if part == 'snapshot':
        if not ctx.reachable(I): return
        ctx.eqt('the transform matrix', dft.at([r, fv]), two*dftW(n, fv, to(r)), facts(ge(r, 0), lt(r, n)))
        j = fresh('j'); ctx.eqt('block j starts at snapshot j*(n_dft - n_overlap)', ts.at([j, ZERO]), -1*to(j)*(n - over), I.facts.child(ge(j, 0), lt(j, npar)))
        a = n*inv(n - over); ctx.cond(I, 'as many blocks in flight as overlap', prove_eq(npar, -1*T.floor(-1*a), I.facts).ok or prove_eq(npar, idiv(n + (n - over) - 1, n - over), I.facts).ok)
        old = mkarr([tuple(ldims), (ONE,)], lambda e: ite(eq(t, 0), ZERO, summ(q, ZERO, t, el(X, [q] + sh(e[:np_])))*inv(t)), 'c')
        block(loop.body[:slots[0]], ti=t - 1, mu=old)
        if not ctx.reachable(I): return
        ctx.eqt('snapshots are counted', fr.st['ti'], t, I.facts)
        ctx.eqt('the next snapshot is read', at_(fr.st['x_new'], ZERO), snap(t), facts())
        ctx.eqt('mu is the mean of the snapshots received', at_(fr.st['mu'], ZERO)*(t + 1), summ(q, ZERO, t + 1, snap(q)), facts())
        ctx.cond(I, 'no update before a block is complete', fr.st['update'] is False)
        fr.record('the record')
        return D
    Mu = ctx.T('Mu', kind, np_)
    block(loop.body[:slots[0]], ti=t - 1, mu=mkarr([tuple(ldims), (ONE,)], lambda e: el(Mu, list(e[:np_])), kind))
    if part == 'block':
        if not isinstance(slot.target, ast.Name): raise Unsupported('the loop over the slots')
        be, jj = var('slot'), fresh('j'); Tt = ctx.T('T', 'i', 1); Y = ctx.T('Y', 'c', np_ + 2)
        T0 = el(Tt, [be])
        ga = var('newest'); I.assume(ge(be, 0), lt(be, npar), lt(T0, n), ge(ga, 0), lt(ga, npar))
        I.assume(T.Implies(eq(T0, n - 1), le(el(Tt, [ga]), T0 - (npar - 1)*(n - over))))     # the slots are at least dn apart
        sofar = lambda p, f, T, t: summ(r, ZERO, T, subst(wd(r), {the(fv): to(f)})*el(X, [to(t) - T + to(r)] + sh(p)))
        xs = mkarr([tuple(ldims), (nf,), (npar,)], lambda e: ite(eq(e[-1], be), sofar(e[:np_], e[np_], T0, t), el(Y, list(e))), 'c')
        xn = mkarr([tuple(ldims), (ONE,)], lambda e: el(X, [t] + sh(e[:np_])), kind); same = ctx.frame(I, xn)
        block(slot.body, x_sum=xs, t_idx=mkarr([(npar,), (ONE,)], lambda e: el(Tt, [e[0]]), 'i'), update=False, ti=t,
              x_new=xn, **{slot.target.id: be})
        if not ctx.reachable(I): return
        same('the snapshot')
        done = fr.st['update'] is True
        T1 = fr.st['t_idx'].at([be, ZERO]); F = facts()
        if done:
            ctx.cond_f('a block is complete with its last snapshot only', eq(T0, n - 1), F)
            ctx.eqt('the completed sum is the windowed transform of the last n_dft snapshots', at_(fr.st['x_hat'], fv), summ(r, ZERO, n, wd(r)*el(X, [t - n + 1 + to(r)] + sh(x))), F)
            F = F.child(*[e['lemma']([], [ga, ZERO]) for e in I.extremes if e['nk'] == 0 and e['nr'] == 2], *[e['lemma']([], [ga]) for e in I.extremes if e['nk'] == 0 and e['nr'] == 1])
            ctx.cond_f('the next block of the slot has not started', le(T1, 0), F)
            F = F.child(le(T1, 0))
        else:
            ctx.cond_f('a complete block is used', lt(T0, n - 1), F)
            ctx.eqt('the slot advances by one snapshot', T1, T0 + 1, F)
        ctx.eqt('the sum of the slot', at_(fr.st['x_sum'], fv, be), sofar(x, fv, T1, t + 1), F)
        Fj = F.child(ge(jj, 0), lt(jj, npar), T.Not(eq(jj, be)))
        ctx.eqt('sums of other slots unchanged', at_(fr.st['x_sum'], fv, jj), el(Y, list(x) + [fv, jj]), Fj)
        ctx.eqt('indices of other slots unchanged', fr.st['t_idx'].at([jj, ZERO]), el(Tt, [jj]), Fj)
        return D
    # ---- the completed sum, corrected for mean, window and length
    upd = loop.body[pos[0]]; k_ = [i for i, z in enumerate(upd.body) if any(y is inner for y in ast.walk(z))]
    if len(k_) != 1: raise Unsupported('where the update starts')
    Y = ctx.T('Y', 'c', np_ + 1)
    blk = var('block_i'); I.assume(ge(blk, 0))
    block(upd.body[:k_[0]], x_hat=mkarr([tuple(ldims), (nf,)], lambda e: el(Y, list(e)), 'c'), block_i=blk, update=True, ti=t,
          mu=mkarr([tuple(ldims), (ONE,)], lambda e: el(Mu, list(e[:np_])), kind))
    if not ctx.reachable(I): return
    ctx.eqt('blocks are counted', fr.st['block_i'], blk + 1, I.facts)
    ctx.eqt('mean removed, corrected for window and length', at_(fr.st['x_hat'], fv), var('ww', 'r')*inv(n)*(el(Y, list(x) + [fv]) - summ(r, ZERO, n, wd(r))*el(Mu, list(x))), facts())
    ctx.eqt('mean kept', at_(fr.st['mu'], ZERO), el(Mu, list(x)), facts())
    return D


_PN = dict(snapshot='next snapshot', block='snapshot into a block', corrected='complete block', start='start', step='update by independent data', dependent='update by dependent data', end='end')
for _pt in _PN:
    _pid = {'snapshot': 'C19 C27', 'block': 'C19 C27', 'corrected': 'C27', 'end': 'C25'}.get(_pt, 'C25 C27')
    for _nd in (1, 2):
        contract(_pid, f'{ST}Streaming.fit[{_PN[_pt]}, {_nd} space axes]', models=NOOP, contracts=CON, cost=3)(lambda ctx, q=_pt, n=_nd: streaming(ctx, q, n, True, False))
        for _ax in range(_nd + (_nd == 1)):
            contract('C09 ' + _pid, f'{ST}Streaming.fit[{_PN[_pt]}, {_nd} space axes, parallel, axis {_ax}]', models={**COMM, **NOOP}, contracts=CON, cost=5)(
                lambda ctx, q=_pt, n=_nd, a=_ax: streaming(ctx, q, n, True, False, a))
    contract(_pid, f'{ST}Streaming.fit[{_PN[_pt]}, 3 space axes]', models=NOOP, contracts=CON, cost=3)(lambda ctx, q=_pt: streaming(ctx, q, 3, True, False))
    for _re, _fu in ((True, True), (False, False)):
        contract(_pid, f'{ST}Streaming.fit[{_PN[_pt]}, 1 space axis, {"real, two-sided" if _re else "complex"}]', models=NOOP, contracts=CON, cost=3)(
            lambda ctx, q=_pt, r=_re, u=_fu: streaming(ctx, q, 1, r, u))
