"""Contracts of numpy's eigen-decompositions and sorting: fresh tensors with rewriting rules / ordering lemmas.

eig(H), H Hermitian: real L and V with  sum_b H[a,b] V[b,j] = L[j] V[a,j]  and orthonormal columns.
The rule for the first equation is generated from the normal form of H's element, so that it applies wherever the
expanded product appears."""
import math
from fractions import Fraction as Fr
from .values import *
from .arrays import *
from . import arrays as A, term as T
from .prover import prove_eq, normal, guards_flat, M as Mono, linear_in, flat
from .npmodel import M, model, arg, only, A_, conc


def var_of(p):
    a = the(p)
    return a if a is not None and a.kind == 'var' else None


def match_term(p, q, holes, s, bset, used):
    """extend s (hole atom -> P) so that p under s equals q; holes that are binders of the pattern map to distinct binders"""
    v = var_of(p)
    if v is not None and v in holes:
        if v in s: return s if s[v] == q else None
        if holes[v] == 'binder':
            w = var_of(q)
            if w is None or w not in bset or w in used: return None
            s = dict(s); s[v] = q; used.add(w); return s
        s = dict(s); s[v] = q; return s
    r = subst(p, s)
    if any(h in r.fv and h not in s for h in holes):
        # c*hole + rest
        open_ = [h for h in holes if h in r.fv and h not in s]
        if len(open_) != 1: return None
        h = open_[0]; l = linear_in(r, h)
        if l is None or abs(l[0]) != 1: return None
        val = (q - l[1]).scale(1/l[0])
        if holes[h] == 'binder':
            w = var_of(val)
            if w is None or w not in bset or w in used: return None
            used.add(w)
        s = dict(s); s[h] = val; return s
    return s if r == q else None


def match_atoms(core, m, holes, s, facts):
    """all substitutions that map every core atom (with multiplicity) to an atom of m; yields (s, matched)"""
    bset = set(m.binders)
    def go(i, s, used, taken):
        if i == len(core): yield s, taken; return
        a, e = core[i]
        for b, e2 in m.atoms.items():
            left = e2 - taken.get(b, 0)
            if b.kind != a.kind or (left < e if e > 0 else left > e) or (e > 0) != (e2 > 0): continue
            if a.kind in ('el', 'fn'):
                if b.key[2] != a.key[2] or b.key[4] != a.key[4] or len(a.key[3]) != len(b.key[3]): continue
                s2, u2 = s, set(used)
                for p, q in zip(a.key[3], b.key[3]):
                    s2 = match_term(p, q, holes, s2, bset, u2)
                    if s2 is None: break
                if s2 is None: continue
            else:
                s2, u2 = s, set(used)
                t = the(subst(at(a), s2))
                if t is not b: continue
            t2 = dict(taken); t2[b] = t2.get(b, 0) + e
            yield from go(i + 1, s2, u2, t2)
    yield from go(0, s, set(), {})


def guards_equal(m, gone, expected, facts):
    """the guards of m on the binders in `gone` say exactly `expected`"""
    gs = guards_flat(m)
    mine = [g for g in gs if any(v in g.fv for v in gone)]
    rest = [g for g in gs if not any(v in g.fv for v in gone)]
    ex = [x for g in expected for x in (g.key[1] if g.key[0] == 'and' else (g,)) if x is not T.TRUE]
    if set(mine) == set(ex): return rest
    f1 = facts.child(*rest)
    if not all(g in ex or f1.child(*ex).entails(g) for g in mine): return None
    if not all(g in mine or f1.child(*mine).entails(g) for g in ex): return None
    return rest


def drop(atoms, taken):
    d = dict(atoms)
    for a, e in taken.items():
        d[a] = d[a] - e
        if not d[a]: d.pop(a)
    return d


def set_rule(I, tag, rule):
    """replace the rule of that tag (rules are shared by all fact sets of the run)"""
    rule.tag = tag
    R = I.facts.rules
    R[:] = [r for r in R if getattr(r, 'tag', None) != tag] + [rule]


def eig_rule(pat, c0, holes, hole_a, hole_b, lead, V, L, n, out=None, left=False):
    """sum_b pat(a, b) V[lead, b, J] -> L[lead, J] V[lead, a, J] / const   (out: the tensor written in place of V; only
    the unconjugated form is rewritten then)"""
    B0, G0, atoms = pat
    inner = set(B0) | {hole_a, hole_b}
    core = [(a, e) for a, e in atoms.items() if not a.fv.isdisjoint(inner)]
    const = [(a, e) for a, e in atoms.items() if a.fv.isdisjoint(inner)]
    core.sort(key=lambda t: -len(t[0].fv & inner))
    def rule(m, facts):
        for va, e in list(m.atoms.items()):
            if va.kind != 'el' or va.key[2] is not V or e < 1: continue
            ix = va.key[3]; nl = len(lead)
            v = var_of(ix[nl])
            if v is None or v not in m.binders: continue
            conjd = va.key[4]
            if out is not None and bool(conjd) != left: continue
            s = dict(zip(lead, ix[:nl])); s[hole_a if conjd else hole_b] = at(v)
            rest_m = Mono(m.c, m.binders, m.guards, drop(m.atoms, {va: 1}))
            hs = {h: k for h, k in holes.items()}
            for s2, taken in match_atoms(core, rest_m, hs, s, facts):
                other = hole_b if conjd else hole_a
                if other not in s2 or any(h not in s2 for h in B0): continue
                gone = {v} | {var_of(s2[h]) for h in B0}
                if None in gone or len(gone) != 1 + len(B0): continue
                leftover = drop(rest_m.atoms, taken)
                if any(w in a.fv for a in leftover for w in gone) or any(w in s2[other].fv for w in gone) or any(w in ix[nl+1].fv for w in gone): continue
                ex = [subst(g, s2) for g in G0] + [le(0, at(v)), lt(at(v), subst(n, s2))]
                rest = guards_equal(m, gone, ex, facts)
                if rest is None: continue
                q = Mono(m.c/c0, (), (), leftover).p()*el(L, list(ix[:nl]) + [ix[nl+1]])
                w = el(V if out is None else out, list(ix[:nl]) + [s2[other], ix[nl+1]])
                q = q*(conj(w) if conjd else w)
                for a, e2 in const:
                    x = subst(at(a), s2); q = q*(inv(x)**e2 if e2 > 0 else x**(-e2))
                bs = tuple(b for b in m.binders if b not in gone)
                return [(bs, tuple(rest), q)]
        return None
    return rule


def ortho_rule(V, nl, n, lead, cols=True):
    """sum_a conj(V[lead, a, J]) V[lead, a, K] -> [J = K]   (rows: sum_a V[lead, J, a] conj(V[lead, K, a]))"""
    p0, p1 = (nl, nl+1) if cols else (nl+1, nl)
    def rule(m, facts):
        vs = [(a, e) for a, e in m.atoms.items() if a.kind == 'el' and a.key[2] is V]
        real = V.sort != 'c'
        for a, e in vs:
            if a.key[4] or e < 1: continue
            v = var_of(a.key[3][p0])
            if v is None or v not in m.binders: continue
            for b, e2 in vs:
                if real:
                    if e2 < (2 if a is b else 1): continue
                elif not b.key[4] or e2 < 1: continue
                if var_of(b.key[3][p0]) is not v: continue
                if any(x != y for x, y in zip(a.key[3][:nl], b.key[3][:nl])): continue
                left = drop(m.atoms, {a: 2} if a is b else {a: 1, b: 1})
                J, K = a.key[3][p1], b.key[3][p1]
                if any(v in x.fv for x in left) or v in J.fv or v in K.fv: continue
                s = dict(zip(lead, a.key[3][:nl]))
                rest = guards_equal(m, {v}, [le(0, at(v)), lt(at(v), subst(n, s))], facts)
                if rest is None: continue
                g = eq(J, K)
                if g is T.FALSE: return []
                return [Mono(m.c, tuple(w for w in m.binders if w is not v), tuple(rest) + ((g,) if g is not T.TRUE else ()), left)]
        return None
    return rule


def eig(I, x, herm=False):
    """(L, V) of a Hermitian matrix, or stack of matrices"""
    if x.nd < 2: raise Unsupported('eig of a vector')
    if len(x.axes[-1]) != 1 or len(x.axes[-2]) != 1: raise Unsupported('eig of merged axes')
    n = x.axes[-1][0]
    lead_axes = x.axes[:-2]; dims = [d for a in lead_axes for d in a]
    lv = list(I.loopvars); nl = len(lv) + len(dims)
    f = x.snap()
    hl = [fresh('h') for _ in dims]; ha, hb = fresh('ha'), fresh('hb')
    rng = [c for h, d in zip(hl + [ha, hb], dims + [n, n]) for c in (ge(h, 0), lt(h, d))]
    F = I.facts.child(*rng)
    L, V = I.site('eig', lambda: I.derive('eig', [('L', 'r', nl + 1), ('V', 'c' if x.kind == 'c' else 'r', nl + 2)], lv + hl + [ha, hb], [f(hl + [ha, hb]), n] + dims))
    # precondition: Hermitian
    where = I.cur[-1] if I.cur else ''
    I.obq.append((f'{where}: matrix given to the eigensolver is Hermitian', (f(hl + [ha, hb]), conj(f(hl + [hb, ha]))), F, 'equality'))
    tag = f'eig{id(L)}'
    lead = [the(h) for h in lv] + [the(h) for h in hl]
    ms = None
    try: ms = normal(f(hl + [ha, hb]), F)
    except OverflowError: pass
    if ms is not None and len(ms) == 1 and ms[0].c:
        m0 = ms[0]
        gs = [g for g in guards_flat(m0)]
        holes = {b: 'binder' for b in m0.binders}
        holes.update({h: 'free' for h in lead}); holes[the(ha)] = holes[the(hb)] = 'free'
        set_rule(I, tag, eig_rule((m0.binders, gs, m0.atoms), m0.c, holes, the(ha), the(hb), lead, V, L, n))
    elif ms is not None and len(ms) == 0: pass
    set_rule(I, tag + 'o', ortho_rule(V, nl, n, lead))
    def solve(ev, idx):
        import numpy as np
        from .contract import NoEval
        key = ('eig', id(L)); cache = ev.tens.setdefault(key, {})
        if idx in cache: return cache[idx]
        old = dict(ev.loc)
        for v, i in zip(lv, idx): ev.loc[the(v)] = i
        try:
            N = ev.i(n)
            if N > (12 if ev.until is None else 150): raise NoEval('large matrix')
            ld = [to(i) for i in idx[len(lv):]]
            H = np.array([[complex(ev.p(f(ld + [to(a), to(b)]))) for b in range(N)] for a in range(N)])
        finally: ev.loc.clear(); ev.loc.update(old)
        if x.kind != 'c': H = H.real
        w, v = np.linalg.eigh((H + H.conj().T)/2) if np.allclose(H, H.conj().T) else np.linalg.eig(H)
        p = np.random.RandomState(7).permutation(N) if not herm else np.arange(N)
        cache[idx] = (w[p].real, v[:, p])
        return cache[idx]
    L.info['num'] = lambda ev, idx: float(solve(ev, tuple(idx[:-1]))[0][idx[-1]])
    V.info['num'] = lambda ev, idx: (complex if x.kind == 'c' else float)(solve(ev, tuple(idx[:-2]))[1][idx[-2], idx[-1]])
    rec = dict(L=L, V=V, n=n, dims=dims, lv=lv)
    I.eigs[:] = [e for e in I.eigs if e['L'] is not L] + [rec]
    if herm:
        def lemma(args, i, j):
            """ascending"""
            return T.Implies(And(ge(i, 0), le(i, j), lt(j, n)), le(el(L, list(args) + [i]), el(L, list(args) + [j])))
        I.perms[:] = [e for e in I.perms if e['tensor'] is not L] + [dict(tensor=L, n=n, lemma=lemma, nargs=nl)]
    l = mkarr(list(lead_axes) + [(n,)], lambda idx: el(L, lv + list(idx)), x.kind if not herm else 'r')
    v = mkarr(list(lead_axes) + [(n,), (n,)], lambda idx: el(V, lv + list(idx)), x.kind)
    return l, v


def svd(I, x):
    """tensors (U, L, V) of a square matrix M = U diag(L) V^H: U and V unitary, L >= 0 descending"""
    if x.nd != 2 or len(x.axes[0]) != 1 or len(x.axes[1]) != 1: raise Unsupported('svd of this kind of array')
    n = x.axes[0][0]
    if not I.facts.entails(eq(n, x.axes[1][0])): raise Unsupported('svd of a matrix not known to be square')
    lv = list(I.loopvars)
    if lv: raise Unsupported('svd inside a loop')
    f = x.snap(); kind = 'c' if x.kind == 'c' else 'r'
    ha, hb = fresh('ha'), fresh('hb')
    F = I.facts.child(ge(ha, 0), lt(ha, n), ge(hb, 0), lt(hb, n))
    for e in I.svds:                       # the decomposition is a function of the matrix
        if I.facts.entails(eq(e["n"], n)) and prove_eq(e['f']([ha, hb]), f([ha, hb]), F).ok: return e['U'], e['L'], e['V'], n, kind
    U, L, V = I.derive('svd', [('U', kind, 2), ('S', 'r', 1), ('V', kind, 2)], [ha, hb], [f([ha, hb]), n])
    ms = None
    try: ms = normal(f([ha, hb]), F)
    except OverflowError: pass
    if ms is not None and len(ms) == 1 and ms[0].c:
        m0 = ms[0]; holes = {b: 'binder' for b in m0.binders}
        holes[the(ha)] = holes[the(hb)] = 'free'
        set_rule(I, f'svd{id(L)}', eig_rule((m0.binders, list(guards_flat(m0)), m0.atoms), m0.c, holes, the(ha), the(hb), [], V, L, n, U))
        set_rule(I, f'svd{id(L)}l', eig_rule((m0.binders, list(guards_flat(m0)), m0.atoms), m0.c, holes, the(ha), the(hb), [], U, L, n, V, True))
    for t in (U, V):
        set_rule(I, f'svd{id(t)}o', ortho_rule(t, 0, n, []))
        set_rule(I, f'svd{id(t)}u', ortho_rule(t, 0, n, [], False))
    def lemma(args, i, j):
        """descending, not negative"""
        return And(T.Implies(And(ge(i, 0), le(i, j), lt(j, n)), ge(el(L, [i]), el(L, [j]))), T.Implies(And(ge(i, 0), lt(i, n)), ge(el(L, [i]), 0)))
    I.perms[:] = I.perms + [dict(tensor=L, n=n, lemma=lemma, nargs=0)]
    I.assume(ge(el(L, [ZERO]), 0))
    def solve(ev):
        import numpy as np
        from .contract import NoEval
        key = ('svd', id(L))
        if key not in ev.tens:
            N = ev.i(n)
            if N > (12 if ev.until is None else 150): raise NoEval('large matrix')
            H = np.array([[complex(ev.p(f([to(a), to(b)]))) for b in range(N)] for a in range(N)]).reshape(N, N)
            if kind != 'c': H = H.real
            u, s, v = np.linalg.svd(H)
            if s[-1] < 1e-6*s[0]: raise NoEval('singular matrix')   # round-off decides which values are cut
            ev.tens[key] = (u, s, v.conj().T)
        return ev.tens[key]
    cv = complex if kind == 'c' else float
    U.info['num'] = lambda ev, i: cv(solve(ev)[0][i]); L.info['num'] = lambda ev, i: float(solve(ev)[1][i]); V.info['num'] = lambda ev, i: cv(solve(ev)[2][i])
    L.info['desc'] = True
    I.svds.append(dict(f=f, n=n, U=U, L=L, V=V))
    return U, L, V, n, kind


@model('numpy.linalg.svd', 'scipy.linalg.svd')
def _svd(I, a, k):
    only(k, 'full_matrices')               # square: no effect
    x = A_(I, a[0]); U, L, V, n, kind = svd(I, x)
    return (mkarr([(n,), (n,)], lambda i: el(U, i), kind), mkarr([(n,)], lambda i: el(L, i), 'r'), mkarr([(n,), (n,)], lambda i: conj(el(V, [i[1], i[0]])), kind))


@model('numpy.linalg.pinv')
def _pinv(I, a, k):
    """V diag(1/L where L > rcond*max L) U^H; for a Hermitian matrix `hermitian=True` gives the same"""
    only(k, 'rcond', 'rtol', 'hermitian')
    x = A_(I, a[0]); tol = arg(a, k, 1, 'rcond', k.get('rtol'))
    if tol is None and "rtol" not in k: tol = to(T.Fr(1, 10**15))
    if tol is None: raise Unsupported("pinv with the default tolerance")
    tol = to(tol) if not isinstance(tol, Arr) else tol.at([])
    U, L, V, n, kind = svd(I, x)
    j = fresh('j')
    return mkarr([(n,), (n,)], lambda i: summ(j, 0, n, ite(gt(el(L, [j]), tol*el(L, [ZERO])), el(V, [i[0], j])*inv(el(L, [j]))*conj(el(U, [i[1], j])), ZERO)), kind)


@model('numpy.linalg.eig', 'scipy.linalg.eig')
def _eig(I, a, k): only(k); return eig(I, A_(I, a[0]))
@model('numpy.linalg.eigh', 'scipy.linalg.eigh')
def _eigh(I, a, k): only(k); return eig(I, A_(I, a[0]), True)
@model('numpy.linalg.eigvals')
def _eigvals(I, a, k): return eig(I, A_(I, a[0]))[0]
@model('numpy.linalg.eigvalsh')
def _eigvalsh(I, a, k): return eig(I, A_(I, a[0]), True)[0]


@model('numpy.real_if_close')
def _ric(I, a, k):
    x = A_(I, a[0])
    e = x.at([fresh('x') for _ in x.factors()])
    if e.sort == 'c': raise Unsupported('real_if_close of values not known to be real')
    return mkarr(x.axes, x.snap(), 'r' if x.kind == 'c' else x.kind)


def perm_of(I, x, ax):
    """sorting permutation along axis ax: (perm element function on the axes of x)"""
    if len(x.axes[ax]) != 1: raise Unsupported('sorting a merged axis')
    n = x.axes[ax][0]
    lead = [d for j, a in enumerate(x.axes) if j != ax for d in a]
    pos = sum(len(a) for a in x.axes[:ax])
    lv = list(I.loopvars); nl = len(lv) + len(lead)
    f = x.snap()
    e = f([fresh('x') for _ in x.factors()])
    if e.sort == 'c': raise Unsupported('sorting complex values')
    xs = [fresh('x') for _ in x.factors()]
    Pm = I.site('argsort', lambda: I.derive('argsort', [('perm', 'i', nl + 1)], lv + xs, [f(xs)] + x.factors())[0])
    lva = [the(v) for v in lv]
    if not any(v in T.deps(n) for v in lva): Pm.info['range'] = (ZERO, n - 1)
    def key(args, i):
        l = list(args[len(lv):]); l[pos:pos] = [i]
        return subst(f(l), dict(zip(lva, args)))
    def lemma(args, i, j):
        args = list(args)
        pi, pj = el(Pm, args + [i]), el(Pm, args + [j]); N = subst(n, dict(zip(lva, args)))
        ri, rj = And(ge(i, 0), lt(i, N)), And(ge(j, 0), lt(j, N))
        return And(T.Implies(ri, And(ge(pi, 0), lt(pi, N))), T.Implies(rj, And(ge(pj, 0), lt(pj, N))),
                   T.Implies(And(ri, rj, ne(i, j)), ne(pi, pj)), T.Implies(And(ri, rj, le(i, j)), le(key(args, pi), key(args, pj))))
    def num(ev, idx):
        old = dict(ev.loc)
        for v, i in zip(lva, idx): ev.loc[v] = i
        try:
            N = ev.i(n); vals = []
            for i in range(N):
                l = [to(q) for q in idx[len(lv):-1]]; l[pos:pos] = [to(i)]
                v = ev.p(f(l)); vals.append(v.real if isinstance(v, complex) else v)
        finally: ev.loc.clear(); ev.loc.update(old)
        return sorted(range(N), key=lambda i: float(vals[i]))[idx[-1]]
    Pm.info['num'] = num
    I.perms[:] = [q for q in I.perms if q['tensor'] is not Pm] + [dict(tensor=Pm, n=n, lemma=lemma, nargs=nl)]
    def g(idx):
        idx = list(idx); i = idx.pop(pos)
        return el(Pm, lv + idx + [i])
    return g, f, pos
@model('numpy.argsort', 'ndarray.argsort')
def _argsort(I, a, k):
    only(k, 'axis', 'kind')
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', -1)
    ax = I.cint(ax) % x.nd
    g, f, pos = perm_of(I, x, ax)
    return mkarr(x.axes, g, 'i')
@model('numpy.sort')
def _sort(I, a, k):
    only(k, 'axis')
    x = A_(I, a[0]); ax = I.cint(arg(a, k, 1, 'axis', -1)) % x.nd
    g, f, pos = perm_of(I, x, ax)
    def h(idx):
        l = list(idx); l[pos] = g(idx); return f(l)
    return mkarr(x.axes, h, x.kind)


def order_lemmas(I, argsets, indices):
    """instances of the ordering lemmas of every permutation/ascending spectrum met"""
    out = []
    for q in I.perms:
        for args in argsets:
            if len(args) != q['nargs']: continue
            for i in indices:
                for j in indices:
                    out.append(q['lemma'](args, to(i), to(j)))
    return out
