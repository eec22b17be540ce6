"""C07, C12: readers (utils/reader.py)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.invariant import Inv
from . import contract
from .par import COMM, mkcomm, spec_range
from .spod import cls

R = 'pyspod.utils.reader.'


def sets(I, nset, nd, trail, kind):
    """nset consecutive datasets of one record with the same spatial shape; rows of the concatenation"""
    sp = [var(f'm{i}') for i in range(nd)]
    nv = var('nv') if trail else ONE
    rest = sp + ([nv] if trail else [])
    I.assume(*[ge(d, 1) for d in rest])
    X = Tensor('X', kind, 1 + len(rest))
    out, s = [], ZERO
    for c in range(nset):
        L = var(f'L{c}'); I.assume(ge(L, 1))
        out.append(mkarr([(x,) for x in [L] + rest], (lambda s: lambda idx: el(X, [s + idx[0]] + list(idx[1:])))(s), kind)); s = s + L
    return X, s, sp, nv, out


def read1(ctx, nset, nd, trail, kind, par):
    """pre: consecutive datasets of one record, 0 <= ts < te <= nt.
    post: rows ts..te-1 of the concatenation, the points of this process, a trailing variable axis"""
    def run(I):
        X, nt, sp, nv, ds = sets(I, nset, nd, trail, kind)
        comm = mkcomm(I)[0] if par else None
        lst = ListV(ds); same = ctx.frame(I, lst)
        r = I.call(cls(I, R + 'reader_1stage'), [lst if nset > 1 else ds[0], nd, npdt(I, kind), comm, nv], {})
        ctx.eqt('number of snapshots', I.getattr(r, 'nt'), nt, I.facts)
        ctx.eqt('number of points', I.getattr(r, 'nx'), A.size(sp), I.facts)
        ctx.eq(I, 'spatial shape', tuple(I.getattr(r, 'xshape')), tuple(sp))
        ts, te = var('ts'), var('te')
        I.assume(ge(ts, 0), lt(ts, te), le(te, nt))
        d = I.call(I.getattr(r, 'get_data_for_time'), [ts, te], {})
        same('the datasets')
        loc, off = list(sp), [ZERO]*nd
        if par:
            ax = I.cint(I.getattr(r, 'max_axis'))
            full = sp + ([nv] if trail else [])
            for v in full: ctx.cond(I, 'the longest axis is cut', le(v, full[ax]))
            if ax >= nd: return           # cutting the variables axis is outside the property
            n, s = spec_range(I, sp[ax], I.getattr(comm, 'size'), I.getattr(comm, 'rank'))
            loc[ax] = n; off[ax] = s
        want = [te - ts] + loc + [nv]
        ctx.cond(I, 'one axis per dimension, variables last', len(d.sizes()) == len(want))
        for a, b in zip(d.sizes(), want): ctx.eqt('shape of the rows read', a, b, I.facts)
        isr = I.getattr(r, 'is_real'); isr = I.decide(isr) if isinstance(isr, T.B) else isr
        if kind == 'c':
            allr = And(*[I.call_model('$isreal.all', [Obj('$isreal', dict(arr=x))]) for x in ds])
            ctx.cond(I, 'declared real exactly if every value of every dataset is', allr if isr is True else T.Not(allr))
        else: ctx.cond(I, 'real data are declared real', isr is True)
        idx, F = ctx.each(I, want)
        src = [ts + idx[0]] + [i + o for i, o in zip(idx[1:1 + nd], off)] + ([idx[-1]] if trail else [])
        ctx.eqt('row t is snapshot ts + t of the concatenation', d.at(idx), T.re(el(X, src)) if isr is True else el(X, src), F)
        ctx.reachable(I)
    ctx.explore(run)


def npdt(I, kind): return I.getattr(I.glob('pyspod.utils.reader', 'np'), 'float64')


for _s in (1, 2, 3):
    for _nd in (1, 2):
        for _t in (True, False):
            for _k in 'rc':
                for _p in (False, True):
                    if _s == 3 and (_nd == 2 or _k == 'c') : continue
                    contract('C07' + (' C09' if _p else '') + (' C19' if _nd == 1 else ''), f'{R}reader_1stage[{_s} datasets, {_nd} space axes, {"variables axis" if _t else "no variables axis"}, {"real" if _k == "r" else "complex"}, {"parallel" if _p else "serial"}]', models=COMM)(
                        lambda ctx, s=_s, n=_nd, t=_t, k=_k, p=_p: read1(ctx, s, n, t, k, p))


# ------------------------------------------------------------------------------------------------ any number of datasets
def read_any(ctx, nd, trail, kind, par):
    """as above for a list of any number of datasets: dataset j holds snapshots O[j]..O[j+1]-1 of the record.
    invariant of the loop over the datasets: tmp_nt = O[j]; the requested snapshots before O[j] have been read into the
    leading rows, in order; nothing has been allocated before the first of them"""
    def run(I):
        sp = [var(f'm{i}') for i in range(nd)]; nv = var('nv') if trail else ONE
        rest = sp + ([nv] if trail else [])
        n, nt, ts, te = var('n_sets'), var('nt'), var('ts'), var('te')
        I.assume(*[ge(d, 1) for d in rest], ge(n, 1), ge(ts, 0), lt(ts, te), le(te, nt))
        X = Tensor('X', kind, 1 + len(rest)); OT = Tensor('O', 'i', 1)
        ends = Tensor('L', 'i', 1); ends.info['gen'] = lambda rng, idx: rng.randint(1, 3)
        def onum(ev, idx): return sum(ev.tensor(ends, (j,)) for j in range(idx[0]))
        OT.info['num'] = onum
        O = lambda k: el(OT, [k])
        def facts(k):          # cumulative numbers of snapshots: from 0, growing, up to nt
            I.assume(eq(O(ZERO), 0), eq(O(n), nt), ge(O(k), 0), T.Implies(lt(k, n), And(lt(O(k), O(k + 1)), le(O(k + 1), nt))), le(O(k), nt))
        facts(ZERO)
        def item(k):
            k = to(k); facts(k)
            return mkarr([(x,) for x in [O(k + 1) - O(k)] + rest], lambda idx: el(X, [O(k) + idx[0]] + list(idx[1:])), kind)
        comm, loc, off = None, list(sp), [ZERO]*nd
        if par:
            comm, size, rank = mkcomm(I); ax = 0
            for v in rest: I.assume(le(v, sp[0]))             # the first axis is a longest one
            for v in rest[1:]: I.assume(lt(v, sp[0]))
            ln, s = spec_range(I, sp[0], size, rank); loc[0] = ln; off[0] = s
        r = Obj(cls(I, R + 'reader_1stage'), {}); r.stub = True
        shape = tuple([ONE] + sp + [nv])
        for k, v in dict(_data_list=ListV(SymSeq(n, item)), _comm=comm, _nt=nt, _nv=nv, _dtype=npdt(I, kind) if kind == 'r' else I.getattr(I.glob('pyspod.utils.reader', 'np'), 'complex128'),
                         _shape=shape, _xdim=nd, _xshape=tuple(sp), _dim=nd + 2, _is_real=kind == 'r', _global_shape=None, _max_axis=0, _flattened=False).items(): I.setattr(r, k, v)
        want = [te - ts] + loc + [nv]
        src = lambda idx: [ts + idx[0]] + [i + o for i, o in zip(idx[1:1 + nd], off)] + ([idx[-1]] if trail else [])
        Z = Tensor('unset', kind, len(want))
        cum = lambda k: T.ite(le(O(k), ts), ZERO, T.ite(le(te, O(k)), te, O(k)) - ts)
        def state(I, k):
            k = to(k); facts(k)
            st = dict(tmp_nt=O(k))
            if I.decide(le(O(k), ts)): st.update(cum_read=ZERO, data=None)
            else:
                c = (te if I.decide(le(te, O(k))) else O(k)) - ts
                st.update(cum_read=c, data=mkarr([(x,) for x in want], lambda idx: T.ite(lt(idx[0], c), el(X, src(idx)), el(Z, list(idx))), kind))
            return st
        def check(I, fr, k):
            k = to(k); facts(k)
            loc_ = fr.st
            for nm in ('tmp_nt', 'cum_read', 'data'):
                if nm not in loc_: raise Unsupported(f'invariant about {nm}')
            ctx.eqt('invariant: snapshots passed so far', loc_['tmp_nt'], O(k), I.facts)
            before = I.decide(le(O(k), ts))
            c = ZERO if before else (te if I.decide(le(te, O(k))) else O(k)) - ts
            ctx.eqt('invariant: rows filled so far', loc_['cum_read'], c, I.facts)
            d = loc_['data']
            if before: ctx.cond(I, 'invariant: nothing is allocated before the first snapshot', d is None); return
            if not isinstance(d, Arr): ctx.cond(I, 'invariant: the rows read are held', False); return
            ctx.cond(I, 'invariant: axes', len(d.sizes()) == len(want))
            for a, b in zip(d.sizes(), want): ctx.eqt('invariant: shape', a, b, I.facts)
            idx, F = ctx.each(I, [c] + want[1:])
            ctx.eqt('invariant: leading rows are the requested snapshots', d.at(idx), el(X, src(idx)), F)
        I.invariants = {R + 'reader_1stage.get_data_for_time': {0: Inv(state, check, lambda ref, a: ref is r and a == '_global_shape')}}
        d = I.call(I.getattr(r, 'get_data_for_time'), [ts, te], {})
        if not isinstance(d, Arr): ctx.cond(I, 'rows are returned', False); return
        ctx.cond(I, 'one axis per dimension, variables last', len(d.sizes()) == len(want))
        for a, b in zip(d.sizes(), want): ctx.eqt('shape of the rows read', a, b, I.facts)
        idx, F = ctx.each(I, want)
        ctx.eqt('row t is snapshot ts + t of the concatenation', d.at(idx), el(X, src(idx)), F)
        ctx.reachable(I)
    ctx.explore(run)


for _nd in (1, 2):
    for _t in (True, False):
        for _k in 'rc':
            for _p in (False, True):
                contract('C07' + (' C09' if _p else '') + (' C19' if _nd == 1 else ''), f'{R}reader_1stage.get_data_for_time[any number of datasets, {_nd} space axes, {"variables axis" if _t else "no variables axis"}, {"real" if _k == "r" else "complex"}, {"parallel" if _p else "serial"}]', models=COMM)(
                    lambda ctx, n=_nd, t=_t, k=_k, p=_p: read_any(ctx, n, t, k, p))
