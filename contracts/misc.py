"""C24: error norms."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from . import contract

ER = 'pyspod.utils.errors.'


def sum_over(idx, dims, body):
    for i, d in reversed(list(zip(idx, dims))): body = summ(i, 0, d, body)
    return body


def lemmas(I, idx):
    """the bound of every extreme taken over one whole array, at the indices given"""
    return [e['lemma']([], idx) for e in I.extremes if e['nk'] == 0 and e['nr'] == len(idx)]


def is_max(ctx, I, name, r, e, dims):
    """r is the least upper bound of e over dims"""
    js, F = ctx.each(I, dims)
    ctx.cond_f(f'{name}: an upper bound', ge(r, e(js)), F.child(*lemmas(I, js)))
    U = var('U', 'r')
    ws = [[el(q, []) for q in x['wit']] for x in I.extremes if x['nk'] == 0 and x['nr'] == len(dims)]
    F = I.facts.child(*[le(e(w), U) for w in ws])
    ctx.cond_f(f'{name}: the least one', le(r, U), F)


def l_errors(ctx, nd, norm, kind):
    """pre: two arrays of the same shape (reference without zeros for the relative norms)"""
    def run(I):
        dims = [var(f'm{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for d in dims])
        X, R = Tensor('X', kind, nd), Tensor('R', 'r' if norm.endswith('_rel') else kind, nd)
        R.info['gen'] = lambda rng, i: rng.choice([-1, 1])*rng.uniform(.3, 2.)
        x, r = tensor_arr(X, dims), tensor_arr(R, dims)
        f = find(I, ER + 'compute_l_errors')
        st, v = ctx.attempt(I, lambda: I.call(f, [x, r], dict(norm_type=norm)))
        if not ctx.reachable(I): return
        known = norm in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel')
        ctx.cond(I, 'unknown norms are rejected with ValueError, the others are not', (st == 'ok') if known else (st == 'raise' and v.typ == 'ValueError'))
        if st != 'ok' or not known: return
        v = to(v) if not isinstance(v, Arr) else v.at([])
        rel = norm.endswith('_rel')
        e = lambda i: absv(el(X, i) - el(R, i))*(inv(el(R, i)) if rel else 1)
        n = ONE
        for d in dims: n = n*d
        p = [fresh('p') for _ in dims]
        if norm.startswith('l1'): ctx.eqt('sum of the absolute differences / number of entries', v, sum_over(p, dims, absv(e(p)))*inv(n), I.facts)
        elif norm.startswith('l2'): ctx.eqt('root of the sum of the squares / number of entries', v, sqrt(sum_over(p, dims, e(p)*e(p)))*inv(n), I.facts)
        else: is_max(ctx, I, 'greatest difference', v, e, dims)
        ctx.unchanged(I, 'data unchanged', x, X); ctx.unchanged(I, 'reference unchanged', r, R)
    ctx.explore(run)
for _nd in (1, 2, 3):
    for _n in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel', 'l3'):
        for _k in ('r', 'c'):
            if _k == 'c' and (_n.endswith('_rel') or _nd != 2): continue
            contract('C24', f'{ER}compute_l_errors[{_nd} axes, {_n}{", complex" if _k == "c" else ""}]')(lambda ctx, d=_nd, n=_n, k=_k: l_errors(ctx, d, n, k))


def h_errors(ctx, nd, norm, kind='r'):
    """pre: two real or complex records of nt >= 1 snapshots, time step dt > 0"""
    def run(I):
        dims = [var('nt')] + [var(f'm{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for d in dims])
        dt = var('dt', 'r'); I.assume(gt(dt, 0))
        X, R = Tensor('X', kind, nd + 1), Tensor('R', kind, nd + 1)
        x, r = tensor_arr(X, dims), tensor_arr(R, dims)
        st, v = ctx.attempt(I, lambda: I.call(find(I, ER + 'compute_h_errors'), [x, r, dt], dict(norm_type=norm)))
        if not ctx.reachable(I): return
        known = norm == 'h1'
        ctx.cond(I, 'unknown norms are rejected with ValueError, the others are not', (st == 'ok') if known else (st == 'raise' and v.typ == 'ValueError'))
        if st != 'ok' or not known: return
        t, p = fresh('t'), [fresh('p') for _ in dims[1:]]
        D = lambda t: el(X, [t] + p) - el(R, [t] + p)
        q = (D(t) - D(t - 1))*inv(dt)
        ctx.eqt('root of the time integral of the squared first differences', to(v), sqrt(summ(t, 1, dims[0], dt*sum_over(p, dims[1:], q*conj(q)))), I.facts)
        ctx.unchanged(I, 'data unchanged', x, X); ctx.unchanged(I, 'reference unchanged', r, R)
    ctx.explore(run)
for _nd in (0, 1, 2):
    for _k in 'rc': contract('C24', f'{ER}compute_h_errors[{_nd} space axes, h1{", complex" if _k == "c" else ""}]')(lambda ctx, d=_nd, k=_k: h_errors(ctx, d, 'h1', k))
contract('C24', f'{ER}compute_h_errors[unknown]')(lambda ctx: h_errors(ctx, 1, 'h2'))
