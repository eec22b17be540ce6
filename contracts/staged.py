"""C12: the staged readers (utils/reader.py reader_2stage, reader_mat): rows read by time on each process, exchanged so that
every process holds all times of its own points."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from pyvc.invariant import Inv
from pyvc.interp import PyRaise
from . import contract
from .par import COMM, mkcomm, Dist, by_contract
from .spod import cls

R = 'pyspod.utils.reader.'


def share(N, size, r, F=None):
    """the contract of _blockdist: (length, start); past the last process the range is empty and starts at N"""
    N, size, r = to(N), to(size), to(r); q = idiv(N, size); rem = N - q*size
    inside = F.decide(lt(r, size)) if F is not None else None
    if inside is True: return q + T.ite(lt(r, rem), ONE, ZERO), r*q + T.min2(r, rem)
    if inside is False: return ZERO, N
    return T.ite(lt(r, size), q + T.ite(lt(r, rem), ONE, ZERO), ZERO), T.ite(lt(r, size), r*q + T.min2(r, rem), N)


class World:
    """one process of the exchange.  message(s, r): what process s sends to process r -- rows of s, points of r.  Every process is
    obliged to send that (checked here), so it is what arrives from every source"""
    def __init__(self, ctx, I, X, ts, te, nx, nv, P, rank, nread, opaque):
        self.ctx, self.I, self.X, self.ts, self.te, self.nx, self.nv, self.P, self.rank, self.nread = ctx, I, X, ts, te, nx, nv, P, rank, nread
        self.N = te - ts; self.limit = var('count_limit'); self.top = None; self.pending = 0
        I.assume(ge(self.limit, 1))
        self.rows = lambda s: share(self.N, nread, s, I.facts)
        self.pts = lambda r: share(nx, P, r, I.facts)
        if opaque:
            self.dr, self.dp = Dist(I, 'rows', self.N, nread), Dist(I, 'points', nx, P)
            def of(d):
                def f(r): d.know(r); return d.n(r), d.s(r)
                return f
            self.rows, self.pts = of(self.dr), of(self.dp); by_contract(I, [self.dr, self.dp])
        self.mpi = Obj('$MPI', dict(FLOAT=Obj('$datatype', dict(kind='r')), DOUBLE=Obj('$datatype', dict(kind='r')), VERSION=var('MPI_VERSION'), MAX='MAX', MIN='MIN', SUM='SUM', Request=Obj('$Request', {})))
        I.models = {**I.models, **COMM, 'mpi4py.MPI': self.mpi, '$comm.allreduce': self.allreduce, '$comm.reduce': lambda I, a, k: a[1], '$comm.Irecv': self.irecv, '$comm.Isend': self.isend, '$comm.Igatherv': self.igatherv,
                    '$Request.Waitall': self.waitall, '$datatype.Create_contiguous': lambda I, a, k: Obj('$datatype', dict(contiguous=a[1])), '$datatype.Commit': lambda I, a, k: a[0], '$datatype.Free': lambda I, a, k: None,
                    'numpy.iinfo': lambda I, a, k: Obj('$iinfo', dict(max=self.limit)), 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
        I.contracts = {**I.contracts, 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
    def allreduce(self, I, a, k):
        """the largest number of rows of a process (the own value is its contribution): not below any share, so size times it covers all"""
        if k.get('op', 'SUM') != 'MAX': raise Unsupported('other reduction')
        self.ctx.eqt('own number of rows enters the reduction', to(a[1]), self.rows(self.rank)[0], I.facts)
        self.top = m = fresh('m'); m0 = self.rows(ZERO)[0]
        I.assume(eq(m, m0), ge(m*self.P, self.N)); return m
    def small(self, rows, pts):
        """a message fits the counts of the library: fewer elements than the limit, unless the library takes large counts"""
        I = self.I; mx = self.pts(ZERO)[0]; a = self.top*self.P
        for x, y, c in ((rows, a, pts*self.nv), (pts, mx, a*self.nv)): I.assume(T.Implies(And(ge(x, 0), le(x, y), ge(c, 0)), le(x*c, y*c)))
        I.assume(T.Implies(And(ge(a, 0), ge(self.nv, 0)), ge(a*self.nv, 0)), T.Implies(And(ge(pts, 0), ge(self.nv, 0)), ge(pts*self.nv, 0)), ge(a, 0))
        self.ctx.cond(I, 'messages stay below the largest count', T.Or(ge(self.mpi.st['VERSION'], 4), lt(rows*pts*self.nv, self.limit)))
    def msg(self, m):
        if not isinstance(m, ListV) or len(m.st) < 2: raise Unsupported('message')
        return m.st
    def irecv(self, I, a, k):
        v, _ = self.msg(a[1])[:2]
        if not isinstance(v, Arr): raise Unsupported('receive buffer')
        I.effects.append(Effect('irecv', (v.buf, tuple(v.view), tuple(v.axes), k.get('source', a[2] if len(a) > 2 else None))))
        return Obj('$req', {})
    def isend(self, I, a, k):
        v, _ = self.msg(a[1])[:2]
        I.effects.append(Effect('isend', (freeze(v), k.get('dest', a[2] if len(a) > 2 else None))))
        return Obj('$req', {})
    def payload(self, v, r, npts, F0=None):
        """v is the message to process r, of npts points (zero padded)"""
        ctx, I = self.ctx, self.I
        n, s = self.rows(self.rank); m, o = self.pts(r)
        if not isinstance(v, Arr) or v.nd != 3: ctx.cond(I, 'messages hold snapshots, points, variables', False); return
        for x, y in zip(v.sizes(), (n, npts, self.nv)): ctx.eqt('extent of the message sent', x, y, F0 or I.facts)
        idx, F = ctx.each(I, [n, m, self.nv])
        if F0 is not None: F = F.child(*F0.bs) if hasattr(F0, 'bs') else F
        ctx.eqt('the message to process r holds the own snapshots at the points of r', v.at(idx), el(self.X, [self.ts + s + idx[0], o + idx[1], idx[2]]), F)
    def landed(self, buf, npts):
        """all messages have arrived"""
        I, X = self.I, self.X
        m, o = self.pts(self.rank); Z = Tensor('padding', 'r', 3)
        whole = Arr(buf, [(ZERO, ((j, ONE),)) for j in range(3)], [(d,) for d in buf.dims])
        A.assign(I, whole, mkarr([(self.N,), (npts,), (self.nv,)], lambda i: T.ite(lt(i[1], m), el(X, [self.ts + i[0], o + i[1], i[2]]), el(Z, list(i))) if npts is not m else el(X, [self.ts + i[0], o + i[1], i[2]]), 'r'))
    def every(self, name, pos):
        """[(rank, arguments)] : the effects of this name, one per rank"""
        ctx, I = self.ctx, self.I
        es = [e for e in I.effects if e.name == name]
        c = self.P.const()
        if c is not None and all(not e.binders for e in es):
            ctx.cond(I, f'one {name} per process', len(es) == int(c))
            out = []
            for j in range(int(c)):
                q = [e for e in es if to(e.args[pos]).const() == j]
                ctx.cond(I, f'one {name} per process', len(q) == 1)
                if len(q) == 1: out.append((to(j), q[0].args))
            return out
        ctx.cond(I, f'one {name} per process', len(es) == 1 and len(es[0].binders) == 1)
        if len(es) != 1 or len(es[0].binders) != 1: return []
        _, lo, hi = es[0].binders[0]
        ctx.eqt(f'one {name} per process', lo, ZERO, I.facts); ctx.eqt(f'one {name} per process', hi, self.P, I.facts)
        s = fresh('s'); I.assume(ge(s, 0), lt(s, self.P)); args = es[0].at(s)
        ctx.eqt(f'the partner of {name} is the loop rank', args[pos], s, I.facts)
        return [(s, args)]
    def waitall(self, I, a, k):
        ctx = self.ctx
        n = a[1].st.n if isinstance(a[1].st, SymSeq) else to(len(a[1].st))
        if not any(e.name in ('irecv', 'isend') for e in I.effects):
            if self.P.const() is not None: ctx.cond(I, 'every request is waited for', eq(n, self.pending))
            self.pending = 0; return None        # gathers; what they bring is written when they start
        ctx.eqt('every request is waited for', n, self.P*2, I.facts)
        for r, (v, _) in self.every('isend', 1): self.payload(v, r, self.pts(r)[0])
        buf = None
        m, o = self.pts(self.rank)
        for r, (v, _) in self.every('isend', 1): self.small(self.rows(self.rank)[0], self.pts(r)[0])
        for s, (b, view, axes, _) in self.every('irecv', 3):
            buf = buf or b; n_, s_ = self.rows(s)
            ok = b is buf and len(view) == 3 and len(axes) == 3 and all(len(t) == 1 and t[0][0] == j and to(t[0][1]).const() == 1 for j, (_, t) in enumerate(view)) and all(len(x) == 1 for x in axes)
            ctx.cond(I, 'messages arrive in consecutive rows of one array', ok)
            if not ok: return None
            for x, y in zip(buf.dims, (self.N, m, self.nv)): ctx.eqt('extent of the array received into', x, y, I.facts)
            for j in (1, 2): ctx.eqt('the rows received are whole', view[j][0], ZERO, I.facts); ctx.eqt('the rows received are whole', axes[j][0], buf.dims[j], I.facts)
            ctx.cond(I, 'the message of process s lands on its snapshots', T.Implies(gt(n_, 0), eq(view[0][0], s_)))
            self.small(self.N, m)
            ctx.cond(I, 'the message of process s fits', T.Implies(gt(n_, 0), ge(axes[0][0], n_)))
        I.effects[:] = [e for e in I.effects if e.name not in ('irecv', 'isend')]
        if buf is not None: self.landed(buf, m)
        return None
    def igatherv(self, I, a, k):
        ctx = self.ctx
        self.pending += 1
        root, send, recv = k.get('root', ZERO), k['sendbuf'] if 'sendbuf' in k else a[1], k['recvbuf'] if 'recvbuf' in k else a[2]
        mx, _ = self.pts(ZERO)
        v, ft = self.msg(send)[:2]
        ctx.eqt('one unit of the gather is a padded row', ft.st.get('contiguous', ZERO), mx, I.facts)
        self.payload(v, root, mx)
        if recv is None: ctx.cond(I, 'the root of the gather gives a buffer', T.ne(root, self.rank))
        else:
            ctx.cond(I, 'only the root gives a buffer', eq(root, self.rank))
            b, spec, ft = self.msg(recv)[:3]
            counts = spec[0]
            ctx.cond(I, 'messages are laid one after the other', spec[1] is None)
            ctx.cond(I, 'the counts given to the library are integers', counts.kind == 'i')
            ctx.eqt('one unit of the gather is a padded row', ft.st.get('contiguous', ZERO), mx, I.facts)
            for x, y in zip(b.sizes(), (self.N, mx, self.nv)): ctx.eqt('extent of the array gathered into', x, y, I.facts)
            idx, F = ctx.each(I, [self.P])
            ctx.eqt('rows announced by process s', counts.at(idx), self.rows(idx[0])[0]*self.nv, F)
            self.landed(b.buf, mx)
        return Obj('$req', {})


def dataset_models(ctx, I, X, O, sp, nv, nfile):
    """xarray: a file holds consecutive snapshots of the record, one variable per name, time first"""
    M = {}
    def opn(I, a, k): return Obj('$xds', dict(file=fileno(a[0]), lo=None))
    def get(I, a, k):
        d, v = a
        if isinstance(v, str): raise Unsupported('coordinate of a file')
        return Obj('$xvar', dict(ds=d, v=v.st['v'], dims=('time',) + tuple(f'x{j}' for j in range(len(sp)))))
    def isel(I, a, k):
        ix = a[1] if len(a) > 1 else DictV({x: y for x, y in k.items() if x != 'drop'})
        if not isinstance(ix, DictV) or set(ix.st) != {'time'}: raise Unsupported('selection')
        s = ix.st['time']
        if not isinstance(s, slice) or s.step is not None or s.start is None or s.stop is None or a[0].st['lo'] is not None: raise Unsupported('selection')
        j = a[0].st['file']; lo, hi = to(s.start), to(s.stop)
        ctx.cond(I, 'the snapshots selected are in the file', And(ge(lo, 0), le(lo, hi), le(hi, O(j + 1) - O(j))))
        return Obj('$xds', dict(file=j, lo=lo, hi=hi))
    def values(I, a, k): raise Unsupported('values')
    def value_of(I, x):
        d, v = x.st['ds'], x.st['v']; j = d.st['file']
        lo = d.st['lo'] if d.st['lo'] is not None else ZERO; hi = d.st['hi'] if d.st['lo'] is not None else O(j + 1) - O(j)
        def elem(i):
            p = ZERO
            for q, m in zip(i[1:], sp): p = p*m + q
            return el(X, [O(j) + lo + i[0], p, v])
        return mkarr([(hi - lo,)] + [(m,) for m in sp], elem, 'r')
    I.models = {**I.models, 'xarray.open_dataset': opn, '$xds.__getitem__': get, '$xds.isel': isel, '$xds.close': lambda I, a, k: None, '$xvar.values@get': value_of}


def fileno(k): return to(int(k[1:])) if isinstance(k, str) else k.st['j'] if isinstance(k, Obj) else to(k)


def record(I, nd):
    """dimensions of the record and of the request"""
    sp = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); ts, te, nt = var('ts'), var('te'), var('nt')
    I.assume(*[ge(d, 1) for d in sp], ge(nv, 1), ge(ts, 0), lt(ts, te), le(te, nt))
    return sp, nv, ts, te, nt


def files(I, nt, nf):
    """cumulative numbers of snapshots of the files; nf: number, or a constant"""
    if nf.const() is not None:
        c = int(nf.const()); L = [var(f'L{j}') for j in range(c)]; I.assume(*[ge(x, 1) for x in L])
        s = [ZERO]
        for x in L: s.append(s[-1] + x)
        I.assume(eq(s[-1], nt))
        return lambda k: s[int(to(k).const())], lambda k: None
    OT = Tensor('O', 'i', 1); ends = Tensor('L', 'i', 1); ends.info['gen'] = lambda rng, idx: rng.randint(1, 3)
    OT.info['num'] = lambda ev, idx: sum(ev.tensor(ends, (j,)) for j in range(idx[0]))
    O = lambda k: el(OT, [k])
    def facts(k): I.assume(eq(O(ZERO), 0), eq(O(nf), nt), ge(O(k), 0), T.Implies(lt(k, nf), And(lt(O(k), O(k + 1)), le(O(k + 1), nt))), le(O(k), nt))
    facts(ZERO)
    return O, facts


def read2(ctx, nd, nf, P, nread, which, pad=None):
    """pre: the files hold consecutive snapshots of the record, 0 <= ts < te <= nt.
    post: all snapshots ts..te-1 at the points of this process, in order, a trailing variable axis.
    nf, P: numbers of files and processes (None: any number, with invariants); nread: 'all' or 'some' processes read"""
    mat = which == 'reader_mat'
    def run(I):
        sp, nv, ts, te, nt = record(I, nd)
        nx = A.size(sp) if not isinstance(A.size(sp), int) else to(A.size(sp))
        n_f = var('n_files') if nf is None else to(nf)
        comm, size, rank = mkcomm(I)
        if P is not None:
            size = to(P); comm.st['size'] = size; I.assume(lt(rank, size))
        if nf is None: I.assume(ge(n_f, 1))
        if mat:
            O, facts = (lambda k: to(k)), (lambda k: None); I.assume(eq(n_f, nt))
            if nf is not None: I.assume(eq(nt, nf))
        else: O, facts = files(I, nt, n_f)
        rd = size
        if nread == 'some': rd = to(2) if P == 3 else var('n_readers'); I.assume(ge(rd, 1), le(rd, size))
        X = Tensor('X', 'r', 3)
        W = World(ctx, I, X, ts, te, nx, nv, size, rank, rd, P is None)
        I.assume(ge(W.mpi.st['VERSION'], 1))
        r = Obj(cls(I, R + which), {}); r.stub = True
        st = dict(_dtype=I.getattr(I.glob(R[:-1], 'np'), 'float64'), _comm=comm, _nv=nv, _shape=tuple([nt] + sp + [nv]), _xdim=nd, _dim=nd + 2, _xshape=tuple(sp), _nx=nx, _is_real=True, _local_shape=None, _nblocks=3, _nchunks=var('n_chunks'), _flattened=True, _files_size=var('files_size'))
        if mat:
            fl = lambda j: Obj('$fname', dict(j=to(j)))
            st['_files'] = ListV(SymSeq(n_f, fl)) if nf is None else ListV([fl(j) for j in range(nf)])
            def get(I, a, k):
                j = a[0].st['file']
                return mkarr([(nv,)] + [(m,) for m in sp], lambda i: el(X, [j, flat(i[1:], sp), i[0]]), 'r')
            I.models = {**I.models, 'h5py.File': lambda I, a, k: Obj('$h5', dict(file=fileno(a[0]))), '$h5.keys': lambda I, a, k: ListV(['data']), '$h5.get': get, '$h5.__getitem__': get,
                        'numpy.isfinite': lambda I, a, k: Obj('$finite', {}), '$finite.all': lambda I, a, k: True}
        else:
            st.update(_file_time=DictV({SYM: [(ZERO, n_f, lambda k: (O(to(k)), O(to(k) + 1)))]}) if nf is None else DictV({f'f{j}': (O(j), O(j + 1)) for j in range(nf)}),
                      _variables=ListV(SymSeq(nv, lambda v: Obj('$varname', dict(v=to(v))))), _nreaders=rd)
            dataset_models(ctx, I, X, O, sp, nv, n_f)
        for k, v in st.items(): I.setattr(r, k, v)
        I.decide(lt(rank, rd))
        nrow, srow = W.rows(rank)
        js, je = ts + srow, ts + srow + nrow
        # ---- invariants
        invs = {}
        own = lambda ref, a: ref is r and a == '_local_shape'
        if nf is None:
            def cut(k):
                if I_.decide(le(O(k), js)): return ZERO
                return nrow if I_.decide(le(je, O(k))) else O(k) - js
            I_ = I
            def s0(I, k):
                k = to(k); facts(k); c = cut(k)
                return dict(cum_t=O(k), cum_read=c, input_data=mkarr([(nrow,), (nx,), (nv,)], lambda i: T.ite(lt(i[0], c), el(X, [js + i[0], i[1], i[2]]), ZERO), 'r'))
            def c0(I, fr, k):
                k = to(k); facts(k); d = fr.st.get('input_data')
                for nm in ('cum_t', 'cum_read', 'input_data'):
                    if nm not in fr.st: raise Unsupported(f'invariant about {nm}')
                ctx.eqt('invariant: snapshots passed so far', fr.st['cum_t'], O(k), I.facts)
                c = cut(k)
                ctx.eqt('invariant: rows filled so far', fr.st['cum_read'], c, I.facts)
                ctx.cond(I, 'invariant: axes', d.nd == 3)
                for a, b in zip(d.sizes(), (nrow, nx, nv)): ctx.eqt('invariant: shape', a, b, I.facts)
                idx, F = ctx.each(I, [nrow, nx, nv])
                F1 = F.child(lt(idx[0], c))
                ctx.eqt('invariant: leading rows are the requested snapshots', d.at(idx), el(X, [js + idx[0], idx[1], idx[2]]), F1)
                ctx.eqt('invariant: later rows are untouched', d.at(idx), ZERO, F.child(ge(idx[0], c)))
            invs[0] = Inv(s0, c0, own)
        if P is None:
            b = 1 if mat else 2
            def s1(I, k):
                k = to(k)
                def mess(j):
                    m, o = W.pts(j)
                    return mkarr([(nrow,), (m,), (nv,)], lambda i: el(X, [js + i[0], o + i[1], i[2]]), 'r')
                return dict(offset=mkarr([(size + 1,)], lambda i: T.ite(le(i[0], k), W.dr.s(i[0]), ZERO), 'i'), s_msgs=DictV({SYM: [(ZERO, k, mess)]}))
            def c1(I, fr, k):
                k = to(k)
                o, s = fr.st.get('offset'), fr.st.get('s_msgs')
                if not isinstance(o, Arr) or not isinstance(s, DictV): raise Unsupported('invariant about offset, s_msgs')
                ctx.eqt('invariant: extent of the offsets', o.sizes()[0], size + 1, I.facts)
                ctx.eqt('invariant: first row of the process that comes next', o.at([k]), W.rows(k)[1], I.facts)
                idx, F = ctx.each(I, [size + 1])
                ctx.eqt('invariant: first rows of the processes passed', o.at(idx), W.dr.s(idx[0]), F.child(lt(idx[0], k)))
                ctx.eqt('invariant: later offsets are untouched', o.at(idx), ZERO, F.child(gt(idx[0], k)))
                if I.facts.entails(eq(k, 0)): ctx.cond(I, 'invariant: no message yet', not s.st); return
                j = fresh('j'); I.assume(ge(j, 0), lt(j, k))
                if I.decide(lt(j, k - 1)): pass
                else: I.assume(eq(j, k - 1)); j = k - 1
                W.payload(I.dictget(s, j), j, W.pts(j)[0])
            invs[b] = Inv(s1, c1, own)
            mx = W.pts(ZERO)[0]
            def s2(I, k):
                k = to(k); q = fresh('q'); I.assume(ge(q, 0), lt(q, 1024), T.Implies(eq(k, size), eq(q, 0)))
                buf = mkarr([(te - ts,), (mx,), (nv,)], lambda i: ZERO, 'r')
                if I.decide(gt(k, rank)): W.landed(buf.buf, mx)
                return dict(reqs=ListV(SymSeq(q, lambda i: Obj('$req', {}))), data_padded=buf, t_waitall=var('t_waitall'))
            def c2(I, fr, k):
                k = to(k); q, d = fr.st.get('reqs'), fr.st.get('data_padded')
                if not isinstance(q, ListV) or not isinstance(d, Arr): raise Unsupported('invariant about reqs, data_padded')
                n = q.st.n if isinstance(q.st, SymSeq) else to(len(q.st))
                ctx.cond(I, 'invariant: requests are waited for', And(lt(n, 1024), T.Implies(eq(k, size), eq(n, 0))))
                for a, b_ in zip(d.sizes(), (te - ts, mx, nv)): ctx.eqt('invariant: extent of the array gathered into', a, b_, I.facts)
                if I.decide(gt(k, rank)):
                    m, o = W.pts(rank); idx, F = ctx.each(I, [te - ts, m, nv])
                    ctx.eqt('invariant: own rows have been gathered', d.at(idx), el(X, [ts + idx[0], o + idx[1], idx[2]]), F)
            invs[b + 4] = Inv(s2, c2, own)
        I.invariants = {R + which + '.get_data_for_time': invs}
        d = I.call(I.getattr(r, 'get_data_for_time'), [ts, te], {})
        if P is not None: ctx.cond(I, 'every request is waited for', W.pending == 0)
        m, o = W.pts(rank)
        ctx.cond(I, 'snapshots, points, variables', isinstance(d, Arr) and d.nd == 3)
        if not isinstance(d, Arr) or d.nd != 3: return
        for x, y in zip(d.sizes(), (te - ts, m, nv)): ctx.eqt('shape of the rows read', x, y, I.facts)
        idx, F = ctx.each(I, [te - ts, m, nv])
        ctx.eqt('row t is snapshot ts + t of the record at the own points', d.at(idx), el(X, [ts + idx[0], o + idx[1], idx[2]]), F)
        ctx.reachable(I)
    ctx.explore(run)


def flat(i, sp):
    p = ZERO
    for q, m in zip(i, sp): p = p*m + q
    return p


DTYPES = dict(float32=DType('r', True), float64=DType('r'), complex128=DType('c'), int16=DType('i'), uint8=DType('i'))
for _w in ('reader_2stage', 'reader_mat'):
    for _nf, _P in ((None, None), (2, 2), (2, 3)):
        for _nd in ((1, 2) if _w == 'reader_2stage' else (3,)):
            for _r in (('all', 'some') if _w == 'reader_2stage' else ('all',)):
                if _nf and _r == 'some' and _nd == 2 or _P == 3 and _nd == 2: continue
                contract('C12' + (' C09' if _nf is None else ''), f'{R}{_w}.get_data_for_time[{"any number of files and processes" if _nf is None else f"{_nf} files, {_P} processes"}, {_nd} space axes{"" if _r == "all" else ", fewer readers"}]')(
                    lambda ctx, a=_nd, b=_nf, c=_P, d=_r, w=_w: read2(ctx, a, b, c, d, w))


# ------------------------------------------------------------------------------------------------ the record in chunks and blocks
def chunks(ctx, which, nb, nc, par=False):
    """pre: get_data_for_time gives the rows asked for.
    post: entry c*nb + b holds rows s..e-1; the entries follow one another without gap or overlap from 0 to nt.
    invariant of the loop over the chunks: the entries of the chunks passed are as stated, no other entry exists"""
    def run(I):
        nt, m, nv = var('nt'), var('m_local'), var('nv')
        I.assume(ge(nt, 1), ge(m, 0), ge(nv, 1))
        comm, size, rank = mkcomm(I)
        X = Tensor('X', 'r', 3)
        calls = []
        def rows(I, a, k):
            if k or len(a) != 3: raise Unsupported('other call')
            ts, te = to(a[1]), to(a[2])
            ctx.cond(I, 'the rows asked for are in the record', And(ge(ts, 0), le(ts, te), le(te, nt)))
            return mkarr([(te - ts,), (m,), (nv,)], lambda i: el(X, [ts + i[0], i[1], i[2]]), 'r')
        n_c = var('n_chunks') if nc is None else to(nc)
        I.assume(ge(n_c, 1))
        D = Dist(I, 'chunk', nt, n_c) if nc is None else None
        clock = [0]
        def now(I, a, k): clock[0] += 1; return to(clock[0])          # assumed: reading the record takes some time
        I.models = {**I.models, **COMM, 'time.time': now, 'mpi4py.MPI': Obj('$MPI', dict(SUM='SUM')), '$comm.reduce': lambda I, a, k: a[1]}
        I.contracts = {**I.contracts, R + which + '.get_data_for_time': rows, 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
        if D: by_contract(I, [D])
        r = Obj(cls(I, R + which), {}); r.stub = True
        for q, v in dict(_shape=(nt, var('m0'), nv), _nchunks=n_c, _nblocks=nb, _comm=comm, _files_size=var('files_size')).items(): I.setattr(r, q, v)
        def block(n, b):
            q = idiv(n, nb); rem = n - q*nb
            return to(b)*q + T.min2(to(b), rem), q + T.ite(lt(to(b), rem), ONE, ZERO)
        def entry(c, b):
            s, n = block(D.n(c), b); s = D.s(c) + s
            return s, s + n
        def as_dict(s, e): return DictV(dict(s=s, e=e, v=mkarr([(e - s,), (m,), (nv,)], lambda i: el(X, [s + i[0], i[1], i[2]]), 'r')))
        def same(I, what, d, s, e):
            if not isinstance(d, DictV) or not {'s', 'e', 'v'} <= set(d.st): ctx.cond(I, what + ': start, end, rows', False); return
            ctx.eqt(what + ': start', d.st['s'], s, I.facts); ctx.eqt(what + ': end', d.st['e'], e, I.facts)
            v = d.st['v']
            for x, y in zip(v.sizes(), (e - s, m, nv)): ctx.eqt(what + ': extent', x, y, I.facts)
            idx, F = ctx.each(I, [e - s, m, nv])
            ctx.eqt(what + ': the rows of the record', v.at(idx), el(X, [s + idx[0], idx[1], idx[2]]), F)
        if nc is None:
            def state(I, k):
                k = to(k); D.know(k)
                def fn(j):
                    j = to(j); c = idiv(j, nb); return as_dict(*entry(c, j - c*nb))
                return dict(data_dict=DictV({SYM: [(ZERO, k*nb, fn)]}))
            def check(I, fr, k):
                k = to(k); d = fr.st.get('data_dict')
                if not isinstance(d, DictV): raise Unsupported('invariant about data_dict')
                if I.facts.entails(eq(k, 0)): ctx.cond(I, 'invariant: no entry yet', not d.st); return
                c = k - 1; D.know(c)
                own = set(x for x in d.st if x not in (SYM, '$ops'))
                ctx.cond(I, 'invariant: the entries', not own and len(d.st[SYM]) == nb + 1)
                for b in range(nb): same(I, 'invariant: new entry', I.dictget(d, c*nb + b), *entry(c, b))
                j = fresh('j'); I.assume(ge(j, 0), lt(j, c*nb))
                q = idiv(j, nb); same(I, 'invariant: older entries', I.dictget(d, j), *entry(q, j - q*nb))
            I.invariants = {R + which + '.get_data': {0: Inv(state, check)}}
        d = I.call(I.getattr(r, 'get_data'), [], {})
        if not isinstance(d, DictV): ctx.cond(I, 'entries by number', False); return
        if nc is None:
            ctx.cond(I, 'entries 0..n_chunks*n_blocks - 1', set(d.st) == {SYM} and len(d.st[SYM]) == 1)
            lo, hi, fn = d.st[SYM][0]
            ctx.eqt('first entry', lo, ZERO, I.facts); ctx.eqt('number of entries', hi, n_c*nb, I.facts)
            # the entries of the invariant follow one another
            c = fresh('c'); I.assume(ge(c, 0), lt(c, n_c)); D.know(c); D.know(ZERO)
            se = [entry(c, b) for b in range(nb)]
        else:
            ctx.cond(I, 'entries 0..n_chunks*n_blocks - 1', set(d.st) == set(range(nc*nb)))
            se = [(to(d.st[j].st['s']), to(d.st[j].st['e'])) for j in range(nc*nb)]
            for j in range(nc*nb): same(I, 'entry', d.st[j], *se[j])
        for (s, e), (s1, _) in zip(se, se[1:]): ctx.cond(I, 'an entry starts where the one before ends', eq(s1, e))
        for s, e in se: ctx.cond(I, 'entries do not run backwards', le(s, e))
        first, last = (D.s(c), D.s(c + 1)) if nc is None else (ZERO, nt)
        ctx.cond(I, 'the first entry starts at the beginning', eq(se[0][0], first)); ctx.cond(I, 'the last entry ends at the end', eq(se[-1][1], last))
        t0 = var('t0'); I.assume(ge(t0, 0), lt(t0, nt))
        x = I.call(I.getattr(r, 'get_data'), [t0], {})
        ctx.eqt('one snapshot', x.sizes()[0], ONE, I.facts); idx, F = ctx.each(I, [m, nv])
        ctx.eqt('the snapshot asked for', x.at([ZERO] + idx), el(X, [t0] + idx), F)
        ctx.reachable(I)
    ctx.explore(run)


for _w in ('reader_2stage', 'reader_mat'):
    for _nb in ((1, 2, 3, 5) if _w == 'reader_2stage' else (3,)):
        for _nc in (None, 2):
            if _nc and _nb == 5: continue
            contract('C12 C09', f'{R}{_w}.get_data[{"any number of" if _nc is None else _nc} chunks, {_nb} blocks]')(lambda ctx, w=_w, b=_nb, c=_nc: chunks(ctx, w, b, c))


# ------------------------------------------------------------------------------------------------ what the readers know about the record
def about(ctx, which, nd, nf, kinds):
    """pre: the files exist and hold one record with equal spatial shape, one per list entry, time (2stage) / variable (mat) first.
    post, on the root and on every other process alike: numbers of snapshots, points, axes; the snapshots of file j follow those of
    file j - 1; at least one chunk and one reader, at most one reader per process; declared real iff every file holds floats"""
    mat = which == 'reader_mat'
    def run(I):
        sp = [var(f'm{i}') for i in range(nd)]; nv = var('nv'); L = [ONE if mat else var(f'L{j}') for j in range(nf)]
        I.assume(*[ge(d, 1) for d in sp], ge(nv, 1), *[ge(x, 1) for x in L])
        nt = sum(L, ZERO)
        names = [f'f{j}' for j in (range(nf)[::-1] if mat else range(nf))]
        nr, nchk, nblk = var('nreaders'), var('nchunks'), var('nblocks')
        I.assume(ge(nr, 1), ge(nchk, 1), ge(nblk, 1), ge(nt, nchk*nblk))
        given = mat or I.decide(T.pred('number of readers given'))
        P = var('P'); rank = var('rank'); I.assume(ge(P, 2), ge(rank, 1), lt(rank, P))
        c0, c1 = Obj('$comm', dict(size=P, rank=0)), Obj('$comm', dict(size=P, rank=rank))
        sent = []
        def bcast(I, a, k):
            if k.get('root', 0) != 0: raise Unsupported('other root')
            if a[0] is c0: sent.append(a[1]); return a[1]
            if not sent: ctx.cond(I, 'every process makes the same broadcasts', False); raise Unsupported('broadcast')
            return sent.pop(0)
        def opn(I, a, k): return Obj('$xds', dict(file=int(a[0][1:])))
        def get(I, a, k):
            j = a[0].st['file']
            shape = (nv,) + tuple(sp) if mat else (L[j],) + tuple(sp)
            return Obj('$xvar', dict(shape=shape, dtype=DTYPES[kinds[j]], dims=('time',) + tuple(f'x{i}' for i in range(nd))))
        I.models = {**I.models, **COMM, '$comm.bcast': bcast, 'mpi4py.MPI': Obj('$MPI', {}), 'numpy.dtype': lambda I, a, k: Obj('$dt', dict(itemsize=8)), 'os.path.isfile': lambda I, a, k: True, 'os.path.getsize': lambda I, a, k: var('bytes'),
                    'xarray.open_dataset': opn, 'h5py.File': opn, '$xds.keys': lambda I, a, k: ListV(['data']), '$xds.get': get, '$xds.__getitem__': get, '$xds.close': lambda I, a, k: None, '$xvar.close': lambda I, a, k: None}
        I.contracts = {**I.contracts, 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
        dt = I.getattr(I.glob(R[:-1], 'np'), 'float64')
        def make(comm):
            if mat: return I.call(cls(I, R + which), [ListV(names), nd, dt, comm, nv], {})
            return I.call(cls(I, R + which), [ListV(names), nd, dt, comm, nv, ListV([f'v{i}' for i in range(2)])], dict(nchunks=nchk, nblocks=nblk, **(dict(nreaders=nr) if given else {})))
        for who, comm in (('root', c0), ('other process', c1)):
            r = make(comm)
            g = lambda n: I.getattr(r, n)
            ctx.eqt(f'{who}: number of snapshots', g('nt'), nt, I.facts); ctx.eqt(f'{who}: number of points', g('nx'), prod(sp), I.facts)
            ctx.eq(I, f'{who}: shape of the record', tuple(g('shape')), tuple([nt] + sp + [nv])); ctx.eq(I, f'{who}: spatial shape', tuple(g('xshape')), tuple(sp))
            ctx.cond(I, f'{who}: numbers of axes', I.cint(g('dim')) == nd + 2 and I.cint(g('xdim')) == nd and I.cint(g('max_axis')) == 0)
            ctx.cond(I, f'{who}: points are flattened', g('_flattened') is True)
            ctx.cond(I, f'{who}: communicator, files, number of variables are kept', g('_comm') is comm and g('_dtype') == dt and g('_nv') is nv)
            if not mat: ctx.cond(I, f'{who}: names of the variables are kept', tuple(I.concrete_list(g('_variables'))) == ('v0', 'v1'))
            isr = g('is_real'); ctx.cond(I, f'{who}: real exactly if no file holds complex numbers', isr is all(q != 'complex128' for q in (kinds[:1] if mat else kinds)))
            ctx.cond(I, f'{who}: at least one chunk', ge(g('_nchunks'), 1)); ctx.cond(I, f'{who}: blocks per chunk', eq(g('_nblocks'), 3 if mat else nblk))
            if mat: ctx.cond(I, f'{who}: one file per snapshot, in the order of the names', tuple(I.concrete_list(g('_files'))) == tuple(sorted(names)))
            else:
                ft = g('_file_time'); s = ZERO
                ctx.cond(I, f'{who}: one range per file, in the order given', isinstance(ft, DictV) and list(ft.st) == names)
                for j, f in enumerate(names):
                    a, b = ft.st[f]; ctx.eqt(f'{who}: first snapshot of a file', a, s, I.facts); s = s + L[j]; ctx.eqt(f'{who}: end of a file', b, s, I.facts)
                ctx.cond(I, f'{who}: number of readers', eq(g('_nreaders'), T.min2(nr, P) if given else P))
        ctx.cond(I, 'every process makes the same broadcasts', not sent)
        ctx.reachable(I)
    ctx.explore(run)


def prod(s):
    p = ONE
    for x in s: p = p*x
    return p


for _w in ('reader_2stage', 'reader_mat'):
    for _nf in (1, 2, 3):
        for _kd in (('float32',)*3, ('float64', 'complex128', 'float64'), ('float32', 'int16', 'uint8')):
            if _w == 'reader_mat' and _nf != 1 and _kd[1] != 'float32' or _nf == 1 and _kd[0] != 'float32' and _w != 'reader_mat': continue
            if _w == 'reader_mat' and _nf == 1: _kd = _kd[1:]
            contract('C12 C09', f'{R}{_w}[{_nf} files, {"floats" if "float32" in _kd[1:2] + _kd[:0] else "one file of integers" if "int16" in _kd else "one file of complex numbers"}]')(lambda ctx, w=_w, n=_nf, k=_kd: about(ctx, w, 3 if w == 'reader_mat' else 2, n, k[:n]))


@contract('C12', f'{R}reader_2stage[files of different spatial shapes]')
def differ(ctx):
    """files that cannot hold one record are rejected"""
    def run(I):
        m = [[var('m0'), var('m1')], [var('q0'), var('q1')]]; L = [var('L0'), var('L1')]
        I.assume(*[ge(x, 1) for y in m for x in y], *[ge(x, 1) for x in L], T.Or(T.ne(m[0][0], m[1][0]), T.ne(m[0][1], m[1][1])))
        I.models = {**I.models, **COMM, '$comm.bcast': lambda I, a, k: a[1], 'mpi4py.MPI': Obj('$MPI', {}), 'numpy.dtype': lambda I, a, k: Obj('$dt', dict(itemsize=8)), 'os.path.isfile': lambda I, a, k: True, 'os.path.getsize': lambda I, a, k: var('bytes'),
                    'xarray.open_dataset': lambda I, a, k: Obj('$xds', dict(file=int(a[0][1:]))), '$xds.__getitem__': lambda I, a, k: Obj('$xvar', dict(shape=(L[a[0].st['file']],) + tuple(m[a[0].st['file']]), dtype=DTYPES['float32'])), '$xvar.close': lambda I, a, k: None}
        I.contracts = {**I.contracts, 'pyspod.utils.parallel.pr0': lambda I, a, k: None}
        P = var('P'); I.assume(ge(P, 1))
        try: I.call(cls(I, R + 'reader_2stage'), [ListV(['f0', 'f1']), 2, I.getattr(I.glob(R[:-1], 'np'), 'float64'), Obj('$comm', dict(size=P, rank=0)), var('nv'), ListV(['v0'])], dict(nchunks=1, nblocks=1))
        except PyRaise as e: ctx.cond(I, 'rejected', e.typ == 'AssertionError'); ctx.reachable(I); return
        ctx.cond(I, 'rejected', False)
    ctx.explore(run)
