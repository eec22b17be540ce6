"""C05, C09, C16: modes written one file per frequency and mode (savefreq_disk2): the parts of every mode are sent to one
process, which puts them together and writes the file.

One process is verified.  Message of process s for file i (= frequency i // n_modes_save, mode i % n_modes_save): its part of
that mode, padded to the largest part.  Every process is obliged to send exactly that, in pass k = i // size to process
i % size (checked here for an arbitrary one), so it is what arrives; between two processes there is at most one message per
pass, so receives match."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.invariant import Inv
from pyvc.prover import divide_out, prove_eq, _parts, map_atoms
from pyvc.loops import freeze
from pyvc.contract import PathEnd
from pyvc.values import Buf
from . import contract
from .par import COMM
from .par import Dist as Shares
from .dist import Dist, explore
from .spod import S, params, new, geti
from .modes import NOOP, spectrum

FN = S + 'Standard._compute_standard_spod'


def flat(i, dims):
    p = ZERO
    for q, m in zip(i, dims): p = p*m + q
    return p


def sums_in(t):
    out = set()
    def go(p):
        for k in p.m:
            for a, _ in k:
                if a.kind == 'sum': out.add(a)
                for q in _parts(a): go(q)
    go(to(t)); return out


def disk2(ctx, nd, nproc, nms, root):
    """pre: as for the other ways of writing modes; the points are flattened and cut among the processes.
    post: file freq_idx_f{f}_m{m} is written by exactly one process and holds mode m at frequency f at all points and
    variables; the modes diagonalize the weighted cross-spectral density (as in the contract of the one-file way)"""
    unrolled = nproc is not None
    def run(I, root=root):
        n, nb, ms = var('n_dft'), var('nb'), var('nms')
        par = {}
        I.assume(ge(n, 4), ge(nb, 2), ge(ms, 1), le(ms, nb))
        if unrolled: I.assume(eq(n, 4), eq(ms, nms)); n, ms = to(4), to(nms)
        nf = to(3) if unrolled else idiv(n, to(2)) + 1
        xs = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); I.assume(*[ge(d, 1) for d in xs + [nv]])
        N = to(A.size(xs)); dims = [N, nv]; I.assume(ge(N, 1))
        D = Dist(ctx, I, root)
        if unrolled: D.P = to(nproc); D.comm.st['size'] = D.P; I.assume(eq(var('P'), nproc))
        P, rank = D.P, D.rank; I.assume(lt(rank, P))
        pt = Shares(I, 'points', N, P); pt.know(rank); pt.know(ZERO)
        D.lo, D.ln = pt.s(rank), pt.n(rank); D.cut(N)
        total = nf*ms; I.assume(ge(total, 1))
        mx = pt.n(ZERO)*nv; I.assume(le(D.ln*nv, mx), ge(D.ln*nv, 0), ge(mx, 1))
        s = new(I, par=params(I, **par), comm=D.comm)
        ldims = [D.ln, nv]; sh = lambda i: [to(i[0]) + D.lo, i[1]]
        Q = ctx.T('Q', 'c', 4); W = ctx.T('Wt', 'r', 2); W.info['gen'] = lambda rng, i: rng.uniform(.3, 2.)
        q = lambda f, p, b: el(Q, [f] + list(p) + [b]); w = lambda p: el(W, list(p))
        QH = DictV({SYM: [(ZERO, nf, lambda f: mkarr([tuple(ldims), (nb,)], lambda i: q(to(f), sh(i[:-1]), i[-1]), 'c'))]}) if not unrolled else \
            DictV({f: (lambda f: mkarr([tuple(ldims), (nb,)], lambda i: q(to(f), sh(i[:-1]), i[-1]), 'c'))(f) for f in range(3)})
        up, lo = var('xi2_upper', 'r'), var('xi2_lower', 'r'); I.assume(gt(up, 0), gt(lo, 0))
        for k, v in dict(_n_blocks=nb, _n_freq=nf, _weights=mkarr([tuple(ldims), (ONE,)], lambda i: w(sh(i[:-1])), 'r'), _n_modes_save=ms,
                         _xshape=tuple(xs), _nv=nv, _modes_dir='MODES', _max_axis=0, _eigs_c=mkarr([(nf,), (nb,), (to(2),)], lambda i: ZERO, 'r'), _xi2_upper=up, _xi2_lower=lo, _isrealx=True,
                         _freq=tensor_arr(ctx.T('freq', 'r', 1), [nf]), _savefreq_disk=False, _savefreq_disk2=True, _complex=DType('c'), _reader=Obj('$reader', dict(_flattened=True)),
                         _eigs=mkarr([(nf,), (nb,)], lambda i: ZERO, 'c')).items(): I.setattr(s, k, v)
        # ---------------------------------------------------------------- the mode a process holds a part of
        modes = {}                       # (f, m) -> part shifted to global points; or the general one
        def part(I, a, F):
            """g(x, v) with a = the values of g at the own points; no rank in g"""
            if not isinstance(a, Arr) or a.nd > 2: raise Unsupported('part of a mode')
            if a.nd == 1: ctx.eqt('the part of a mode has one value per own point and variable', a.sizes()[0], D.ln*nv, F)
            if a.nd == 1: a = A.reshape(I, a, ldims)
            x, v, x0 = fresh('x'), fresh('v'), fresh('x')
            g = F.child(ge(x0, 0), lt(x0, D.ln), ge(v, 0), lt(v, nv), ge(x0*nv + v, 0), lt(x0*nv + v, D.ln*nv)); g = divide_out(g.simplify(a.at([x0, v])), g)
            G = F.child(ge(x, D.lo), lt(x, D.lo + D.ln), ge(v, 0), lt(v, nv), ge(x, 0), lt(x, N))
            g = G.simplify(subst(g, {the(x0): x - D.lo}))
            if not D.free(g): g = G.simplify(divide_out(g, G))
            if not D.free(g): raise Unsupported(f'part of a mode depends on the cut: {str(g)[:200]}')
            return lambda p: subst(g, {the(x): to(p[0]), the(v): to(p[1])})
        fm = lambda i: (idiv(to(i), ms), to(i) - idiv(to(i), ms)*ms)
        def G(f, m, p):
            """mode m at frequency f"""
            f, m = to(f), to(m)
            if 'all' in modes: return modes['all'](f, m, p)
            k = (int(f.const()), int(m.const()))
            if k not in modes: raise Unsupported('mode not seen')
            return modes[k](p)
        # ---------------------------------------------------------------- messages
        ghost = dict(files=[], sent=ZERO, recv=ZERO, wrote=[], msgs=[], got=[], start=ZERO, wait=0)
        mpi = Obj('$MPI', dict(C_FLOAT_COMPLEX=Obj('$datatype', dict(kind='c')), C_DOUBLE_COMPLEX=Obj('$datatype', dict(kind='c')), MAX='MAX', MIN='MIN', SUM='SUM', Request=Obj('$Request', {})))
        def allreduce(I, a, k):
            op = k.get('op', a[2] if len(a) > 2 else 'SUM')
            if op != 'MAX': raise Unsupported('other reduction')
            ctx.eqt('own number of values enters the reduction', to(a[1]), D.ln*nv, I.facts); return mx
        def allgather(I, a, k):
            x = a[1].at([]) if isinstance(a[1], Arr) else to(a[1])
            ctx.eqt('own number of values is announced', x, D.ln*nv, I.facts)
            ctx.eqt('one number per process', a[2].sizes()[0], P, I.facts)
            A.assign(I, a[2], mkarr([(P,)], lambda i: pt.n(i[0])*nv, 'i'))
        def unit(m):
            if not isinstance(m, ListV) or len(m.st) != 2: raise Unsupported('message')
            v, t = m.st
            ctx.eqt('one unit of a message is a padded part', t.st.get('contiguous', ZERO), mx, I.facts); return v
        def is_part(v, f, m):
            """v is the padded own part of mode m at frequency f"""
            ctx.eqt('length of a message', v.sizes()[0], mx, I.facts)
            x, F = ctx.each(I, [D.ln, nv])
            j = x[0]*nv + x[1]; F = F.child(ge(j, 0), lt(j, D.ln*nv), lt(j, mx), lt(x[0], pt.n(ZERO)))
            ctx.eqt('message = the own part of the mode', A.reshape(I, v, [pt.n(ZERO), nv]).at(x), G(f, m, [D.lo + x[0], x[1]]), F)
        def isend(I, a, k):
            v, dest = unit(a[1]), to(k.get('dest', a[2] if len(a) > 2 else None))
            if unrolled:
                if ghost['wait']:                   # the next pass
                    ghost.update(wait=0, msgs=[], got=[], wrote=[]); ghost['pass'] = ghost['pass'] + 1
                ghost['msgs'].append((freeze(v), dest)); ghost.setdefault('live', []).append((v, ghost['msgs'][-1][0]))
            else:
                i = ghost['start'] + ghost['sent']
                ctx.eqt('file number i goes to process i modulo their number', dest, ghost['sent'], I.facts)
                is_part(v, *fm(i))
                ghost['sent'] = ghost['sent'] + 1
            return Obj('$req', {})
        def irecv(I, a, k):
            v, src = unit(a[1]), to(k.get('source', a[2] if len(a) > 2 else None))
            ok = len(v.view) == 1 and len(v.axes) == 1 and len(v.view[0][1]) == 1 and to(v.view[0][1][0][1]).const() == 1 and len(v.buf.dims) == 1
            ctx.cond(I, 'parts arrive in one array', ok)
            if not ok: raise PathEnd()
            if unrolled: ghost['got'].append((v.buf, v.view[0][0], v.sizes()[0], src))
            else:
                r = ghost['recv']
                ctx.eqt('one part from every process', src, r, I.facts)
                ctx.eqt('the part of process r lands at r times the largest part', v.view[0][0], mx*r, I.facts)
                I.assume(le(mx*(r + 1), mx*P))      # r + 1 <= P, mx >= 1
                ctx.cond(I, 'the part of process r fits', ge(v.sizes()[0], mx))
                ctx.cond(I, 'parts arrive in the array that is written', v.buf is ghost['data'])
                ghost['recv'] = r + 1
            return Obj('$req', {})
        def waitall(I, a, k):
            l = a[1]; cnt = l.st.n if isinstance(l.st, SymSeq) else to(len(l.st))
            ghost['wait'] += 1
            k_ = ghost['pass']
            if ghost['wait'] == 1:
                # the sends of this pass
                if unrolled:
                    left = min(nproc, 3*nms - k_*nproc)
                    ctx.cond(I, 'every message is waited for', to(cnt) == to(len(ghost['msgs'])))
                    ctx.cond(I, 'one message per file of the pass', len(ghost['msgs']) == left)
                    for v, sent in ghost.pop('live', []):
                        x, F = ctx.each(I, v.factors()); ctx.eqt('a message is left alone until it is sent', v.at(x), sent.at(x), F)
                    for j in range(left):
                        q_ = [v for v, d in ghost['msgs'] if d.const() == j]
                        ctx.cond(I, 'every writer of the pass is sent one message', len(q_) == 1)
                        if len(q_) != 1: raise PathEnd()
                        f, m = divmod(k_*nproc + j, nms)
                        v = A.reshape(I, q_[0], [pt.n(ZERO), nv])
                        modes[(f, m)] = part(I, v, I.facts)
                        ctx.eqt('length of a message', q_[0].sizes()[0], mx, I.facts)
                else: ctx.eqt('every message is waited for', cnt, ghost['sent'], I.facts)
                return
            ctx.cond(I, 'one more wait, for the parts', ghost['wait'] == 2)
            if unrolled:
                ctx.cond(I, 'every part is waited for', to(cnt) == to(nproc) and len(ghost['got']) == nproc)
                bufs = {id(b): b for b, *_ in ghost['got']}
                ctx.cond(I, 'parts arrive in one array', len(bufs) == 1)
                if len(bufs) != 1 or len(ghost['got']) != nproc: raise PathEnd()
                for r in range(nproc):
                    q_ = [x for x in ghost['got'] if x[3].const() == r]
                    ctx.cond(I, 'one part from every process', len(q_) == 1)
                    if len(q_) != 1: raise PathEnd()
                    ctx.cond(I, 'the part of process r fits', ge(q_[0][2], mx))
                    arrive(I, q_[0][0], q_[0][1], to(r), k_)
            else:
                ctx.eqt('every part is waited for', cnt, P, I.facts); ctx.eqt('every part is waited for', ghost['recv'], P, I.facts)
                landed(I, ghost['buf'])
        RT = Tensor('received', 'c', 1)
        def arrive(I, buf, at, r, k_):
            """the message of process r: its part of mode (f, m), then zeros"""
            pt.know(r); j0 = k_*nproc + int(rank.const() if rank.const() is not None else rk(I)); f, m = divmod(j0, nms)
            I.assume(le(pt.n(r)*nv, mx), ge(pt.n(r)*nv, 0), le(pt.s(r)*nv, mx*r), eq((pt.s(r) + pt.n(r))*nv, pt.s(r)*nv + pt.n(r)*nv))
            whole = Arr(buf, [(at, ((0, ONE),))], [(mx,)])
            def value(i):
                j = i[0]; x = idiv(j, nv)
                return T.ite(lt(j, pt.n(r)*nv), G(f, m, [pt.s(r) + x, j - x*nv]), ZERO)
            A.assign(I, whole, mkarr([(mx,)], value, 'c'))
        def rk(I):
            for r in range(nproc):
                if I.decide(eq(rank, r)): return r
            raise PathEnd()
        def landed(I, buf):
            whole = Arr(buf, [(ZERO, ((0, ONE),))], [(buf.dims[0],)])
            ctx.eqt('extent of the array received into', buf.dims[0], mx*P, I.facts)
            A.assign(I, whole, mkarr([(mx*P,)], lambda i: el(RT, [i[0]]), 'c'))
        def arrived(t, r, x, v, F):
            """what arrived from process r (its obligation, checked above for an arbitrary process)"""
            f, m = fm(ghost['pass']*P + rank)
            t = F.simplify(t); sub = {}
            for y in sums_in(t):
                for k_, z in ghost['parts']:
                    if prove_eq(at(y), k_, F).ok: sub[y] = z; break
            t = map_atoms(t, sub.get); want = the(el(RT, [mx*r + x*nv + v]))
            return map_atoms(t, lambda y: G(f, m, [pt.s(r) + x, v]) if y is want else None)
        def save(I, a, k):
            path, arr = a[0], a[1]
            k_ = ghost['pass']
            i = k_*P + rank; f, m = fm(i) if not unrolled else divmod(k_*nproc + rk(I), nms)
            if ghost['wrote']: ctx.cond(I, 'one file per pass and process', False); return
            ghost['wrote'].append(True)
            if unrolled: ghost['files'].append(k_*nproc + rk(I))
            ctx.cond(I, 'a file is written after the parts have arrived', ghost['wait'] == 2)
            ctx.cond(I, 'the file belongs to an existing frequency and mode', lt(i, total))
            ctx.streq(I, 'name of the file', path, mkstr(['MODES/freq_idx_f', (to(f), '08d'), '_m', (to(m), '08d'), '.npy']) if not unrolled else f'MODES/freq_idx_f{f:08d}_m{m:08d}.npy')
            ctx.cond(I, 'layout [space, variable]', isinstance(arr, Arr) and arr.nd == nd + 1)
            if not isinstance(arr, Arr) or arr.nd != nd + 1: return
            for x, y in zip(arr.sizes(), xs + [nv]): ctx.eqt('layout [space, variable]', x, y, I.facts)
            e, F = ctx.each(I, xs + [nv]); p = flat(e[:-1], xs)
            F = F.child(ge(p, 0), lt(p, N), ge(p*nv + e[-1], 0), lt(p*nv + e[-1], N*nv))
            ctx.eqt('content of the file: the mode at every point and variable', arr.at(e), G(f, m, [p, e[-1]]), F)
        def plain(I, a, k): raise Unsupported('other way of writing')
        I.models = {**I.models, **COMM, 'mpi4py.MPI': mpi, '$comm.allreduce': allreduce, '$comm.Allgather': allgather, '$comm.Irecv': irecv, '$comm.Isend': isend, '$Request.Waitall': waitall, 'numpy.save': save,
                    '$datatype.Create_contiguous': lambda I, a, k: Obj('$datatype', dict(contiguous=a[1])), '$datatype.Commit': lambda I, a, k: a[0], '$datatype.Free': lambda I, a, k: None}
        I.contracts = {**I.contracts, 'pyspod.utils.parallel.npy_save': plain, 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
        # ---------------------------------------------------------------- number of values of the processes before one
        def sums(I, k):
            """the parts of the processes before k: s(k) points, at most k times the largest (induction on k, lemmas below)"""
            pt.know(k); r = fresh('r')
            t = summ(r, 0, k, pt.n(r)*nv)
            ghost.setdefault('parts', []).append((t, pt.s(k)*nv))
            I.assume(eq(t, pt.s(k)*nv), le(pt.s(k), to(k)*pt.n(ZERO)), le(pt.s(k)*nv, to(k)*pt.n(ZERO)*nv), ge(pt.s(k)*nv, 0), le(pt.n(k)*nv, mx), ge(pt.n(k)*nv, 0))
        invs = {}
        if not unrolled:
            def phis(i, log):
                """entries of files i, i + 1, ... are there"""
                f0 = idiv(to(i), ms)
                def inner(f):
                    f = to(f)
                    first = T.ite(eq(f, f0), to(i) - f0*ms, T.ite(lt(f, f0), ms, ZERO))
                    d = DictV({SYM: [(first, ms, lambda m: mkarr([tuple(ldims)], lambda e: G(f, to(m), sh(e)), 'c'))]})
                    log.append((f, d)); return d
                return DictV({SYM: [(ZERO, nf, inner)]})
            def deleted(I, d, log, i):
                """only entries of files before i have been taken out"""
                if '$del' in d.st: raise Unsupported('a frequency is deleted')
                for f, e in log:
                    for key in e.st.get('$del', ()): ctx.cond(I, 'only sent parts are deleted', lt(f*ms + to(key), i))
            lg = dict(o=[], i=[])
            def s5(I, k):
                k = to(k); ghost.update(wrote=[], wait=0, sent=ZERO, recv=ZERO, start=k*P); ghost['pass'] = k
                I.assume(ge(k*P, 0), T.Implies(lt(k, idiv(total + P - 1, P)), lt(k*P, total)), T.Implies(ge(k, idiv(total + P - 1, P)), ge(k*P, total)))
                lg['o'] = []
                return dict(phi_dict=phis(k*P, lg['o']))
            def c5(I, fr, k):
                k = to(k); d = fr.st.get('phi_dict')
                if not isinstance(d, DictV): raise Unsupported('invariant about phi_dict')
                if I.facts.entails(eq(k, 0)):
                    f, m = fresh('f'), fresh('m'); I.assume(ge(f, 0), lt(f, nf), ge(m, 0), lt(m, ms))
                    g = part(I, I.dictget(I.dictget(d, f), m), I.facts)
                    modes['all'] = lambda f1, m1, p: subst(g(p), {the(f): to(f1), the(m): to(m1)})
                    return
                i = (k - 1)*P + rank
                ctx.cond(I, 'in every pass a process writes its file, if there is one left', lt(i, total) if ghost['wrote'] else ge(i, total))
                ctx.eqt('in every pass the parts of all its files are sent', ghost['start'] + ghost['sent'], T.min2(k*P, total), I.facts)
                deleted(I, d, lg['i'], k*P)
            def s6(I, i):
                i = to(i); st = ghost['start']; ghost['sent'] = i - st
                f0, m0 = fm(i)
                I.assume(T.Implies(lt(i, T.min2(st + P, total)), And(eq(idiv(i, P), ghost['pass']), lt(f0, nf))), ge(f0, 0), ge(m0, 0), lt(m0, ms))
                lg['i'] = []
                mine = I.decide(lt(st + rank, i))
                fw, mw = fm(st + rank)
                if mine: ghost['recv'] = P
                else: ghost['recv'] = ZERO
                r = dict(phi_dict=phis(i, lg['i']), reqs_s=ListV(SymSeq(i - st, lambda j: Obj('$req', {}))), reqs_r=ListV(SymSeq(P, lambda j: Obj('$req', {})) if mine else ()),
                         s_msgs=DictV({SYM: [(st, i, lambda j: ListV([None, None]))]}), write=(fw, mw) if mine else None)
                if mine and 'data' in ghost: ghost['buf'] = ghost['data']
                return r
            def c6(I, fr, i):
                i = to(i); d = fr.st.get('phi_dict')
                if not isinstance(d, DictV) or not isinstance(fr.st.get('data'), Arr): raise Unsupported('invariant about phi_dict, data')
                st = ghost['start']; ghost['data'] = fr.st['data'].buf
                for nm in ('reqs_s', 'reqs_r'):
                    if not isinstance(fr.st.get(nm), ListV): raise Unsupported(f'invariant about {nm}')
                ln = lambda l: l.st.n if isinstance(l.st, SymSeq) else to(len(l.st))
                ctx.eqt('invariant: one message per file passed', ghost['sent'], i - st, I.facts)
                ctx.eqt('invariant: the messages can be waited for', ln(fr.st['reqs_s']), i - st, I.facts)
                if I.facts.entails(eq(i, st)):
                    ctx.eqt('invariant: no part asked for yet', ln(fr.st['reqs_r']), ZERO, I.facts); ctx.cond(I, 'invariant: nothing to write yet', fr.st.get('write') is None)
                    ctx.eqt('first file of the pass', st, ghost['pass']*P, I.facts); return
                mine = I.decide(lt(st + rank, i))
                wr = fr.st.get('write')
                ctx.cond(I, 'invariant: a process writes its own file', (wr is not None) == mine)
                if mine and isinstance(wr, tuple):
                    own = i - 1 if I.facts.entails(eq(i - 1, st + rank)) else st + rank
                    for x, y in zip(wr, fm(own)): ctx.eqt('invariant: a process writes its own file', x, y, I.facts)
                    ctx.eqt('invariant: parts asked for', ghost['recv'], P, I.facts)
                ctx.eqt('invariant: the parts can be waited for', ln(fr.st['reqs_r']), P if mine else ZERO, I.facts)
                deleted(I, d, lg['i'], i)
            def s7(I, r):
                ghost['recv'] = to(r); ghost['buf'] = ghost['data']
                return dict(reqs_r=ListV(SymSeq(to(r), lambda j: Obj('$req', {}))))
            def c7(I, fr, r):
                l = fr.st.get('reqs_r')
                if not isinstance(l, ListV): raise Unsupported('invariant about reqs_r')
                ctx.eqt('invariant: one part per process passed', ghost['recv'], to(r), I.facts); ctx.eqt('invariant: one part per process passed', l.st.n if isinstance(l.st, SymSeq) else to(len(l.st)), to(r), I.facts)
            def s8(I, r):
                r = to(r); sums(I, r); sums(I, r + 1); f, m = fm(ghost['pass']*P + rank)
                U = Tensor('moved', 'c', 1)
                def value(i):
                    j = i[0]; x = idiv(j, nv)
                    return T.ite(lt(j, pt.s(r)*nv), G(f, m, [x, j - x*nv]), T.ite(ge(j, mx*r), el(RT, [j]), el(U, [j])))
                a = mkarr([(mx*P,)], value, 'c'); ghost['cur'] = a
                return dict(data=a)
            def c8(I, fr, r):
                r = to(r); a = fr.st.get('data')
                if not isinstance(a, Arr) or a.nd != 1: raise Unsupported('invariant about data')
                ctx.eqt('invariant: extent', a.sizes()[0], mx*P, I.facts)
                f, m = fm(ghost['pass']*P + rank)
                if I.facts.entails(eq(r, 0)):
                    e, F = ctx.each(I, [mx*P]); ctx.eqt('invariant: what has arrived', a.at(e), el(RT, e), F); return
                r = r - 1
                # the parts of the processes before r, the part of r, what follows
                x, v = fresh('x'), fresh('v'); I.assume(eq(pt.s(r + 1)*nv, pt.s(r)*nv + pt.n(r)*nv), ge(x, 0), ge(v, 0), lt(v, nv), le(mx*r + mx, mx*P), ge(mx*r, 0))
                F = I.facts.child(lt(x, pt.s(r)), lt(x*nv + v, pt.s(r)*nv), ge(x*nv + v, 0))
                ctx.eqt('invariant: the parts put together stay', a.at([x*nv + v]), G(f, m, [x, v]), F)
                F = I.facts.child(lt(x, pt.n(r)), lt(x*nv + v, pt.n(r)*nv), ge(x*nv + v, 0))
                ctx.eqt('invariant: the part of process r follows', arrived(a.at([pt.s(r)*nv + x*nv + v]), r, x, v, F), G(f, m, [pt.s(r) + x, v]), F)
                e, F = ctx.each(I, [mx*P]); F = F.child(ge(e[0], mx*(r + 1)))
                ctx.eqt('invariant: the other parts are untouched', a.at(e), el(RT, e), F)
            own = lambda ref, a: True if isinstance(ref, Buf) and ref is ghost.get('data') else False
            invs = {5: Inv(s5, c5, own), 6: Inv(s6, c6, own), 7: Inv(s7, c7, own), 8: Inv(s8, c8, own)}
        else:
            ghost['pass'] = 0
        I.invariants = {FN: invs} if invs else {}
        I.call(I.getattr(s, '_compute_standard_spod'), [QH], {})
        if not ctx.reachable(I): return
        if unrolled:
            left = [j for j in range(3*nms) if j % nproc == rk(I)]
            ctx.cond(I, 'every file of this process is written', ghost['files'] == left)
        if not unrolled:
            (f,), F0 = ctx.each(I, [nf])
            spectrum(ctx, I, s, lambda p, j: G(f, j, p), f, F0, q, w, dims, nf, nb, ms, n, up, lo, True, False)
            return D
        L, V = I.eigs[0]['L'], I.eigs[0]['V']; order = [o['tensor'] for o in I.perms if o['tensor'] is not L]
        if len(order) != 3: raise Unsupported('another way of ordering')
        for (f, m), g in modes.items():
            p, F = ctx.each(I, dims); b = fresh('b'); o = el(order[f], [nb - 1 - m])
            F = F.child(ge(o, 0), lt(o, nb), gt(el(L, [to(f), o]), 0))
            ctx.eqt('mode m: the realizations weighted by eigenvector m', g(p), summ(b, 0, nb, q(to(f), p, b)*el(V, [to(f), b, o]))*inv(T.sqrt(nb)*T.sqrt(el(L, [to(f), o]))), F)
        return D
    ctx.explore(lambda I: run(I) and None)


@contract('C05 C09', 'parts of the modes: lemmas')
def lemmas(ctx):
    """the parts of the processes before k hold s(k) points, at most k times the largest part - induction on k"""
    def run(I):
        N, P, k, nv = var('N'), var('P'), var('k'), var('nv'); I.assume(ge(N, 1), ge(P, 1), ge(k, 0), lt(k, P), ge(nv, 1))
        pt = Shares(I, 'points', N, P); pt.know(k); pt.know(ZERO); r = fresh('r')
        tot = lambda h: summ(r, 0, h, pt.n(r)*nv)
        ctx.lemma('base: no process, no point', tot(ZERO), pt.s(ZERO)*nv, I.facts)
        I.assume(eq(pt.s(k + 1)*nv, pt.s(k)*nv + pt.n(k)*nv), ge(pt.n(k)*nv, 0), ge(pt.s(k)*nv, 0))
        ctx.lemma('step: one more process', pt.s(k)*nv + pt.n(k)*nv, pt.s(k + 1)*nv, I.facts)
        ctx.lemma('step: one more term of the sum', tot(k) + pt.n(k)*nv, tot(k + 1), I.facts)
        F = I.facts.child(le(pt.s(k), k*pt.n(ZERO)))
        ctx.cond_f('step: at most k times the largest part', le(pt.s(k + 1), (k + 1)*pt.n(ZERO)), F)
        ctx.reachable(I)
    ctx.explore(run)


for _root in (True, False):
    contract('C05 C09 C16', f'{FN}[one file per mode, any number of processes, {"root" if _root else "others"}]', models=NOOP, cost=6)(lambda ctx, r=_root: disk2(ctx, 2, None, None, r))


for _P, _m in ((2, 1), (3, 2), (4, 1)):
    for _root in (True, False):
        contract('C05 C09 C16', f'{FN}[one file per mode, {_P} processes, {_m} modes, {"root" if _root else "others"}]', models=NOOP, cost=6)(lambda ctx, a=_P, b=_m, r=_root: disk2(ctx, 1 if a == 4 else 2, a, b, r))
