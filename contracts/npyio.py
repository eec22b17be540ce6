"""C10: distributed .npy files (utils/parallel.py npy_save, npy_load)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc import term as T, arrays as A
from . import contract
from .par import U, mkcomm

NP = 'pyspod.utils.parallel.'


class Spmd:
    """one process of a program that all processes run.  contrib(q): what rank q contributes to the reductions; every
    process is obliged to contribute that value, and may use the reduction of these values"""
    def __init__(self, ctx, I, comm, size, rank):
        self.ctx, self.I, self.size, self.rank, self.trace = ctx, I, size, rank, []
        self.M = {'$comm.Allreduce': self.allreduce, '$comm.Scan': self.scan, '$comm.Exscan': None, '$comm.Bcast': self.Bcast, '$comm.bcast': self.bcast,
                  '$comm.Barrier': lambda I, a, k: self.log('Barrier'), '$comm.Get_size': lambda I, a, k: size, '$comm.Get_rank': lambda I, a, k: rank}
        self.M = {k: v for k, v in self.M.items() if v}
        self.mpi = Obj('$MPI', dict(SUM='SUM', ORDER_C='C', ORDER_FORTRAN='F', ORDER_F='F', MODE_CREATE=1, MODE_WRONLY=4, MODE_RDONLY=2, MODE_RDWR=8, BYTE='BYTE', File=Obj('$MPIFile', {})))
        I.contracts = dict(I.contracts)
        I.contracts[U + '_get_module_MPI'] = lambda I, a, k: self.mpi
        I.contracts[U + '_get_module_dtlib'] = lambda I, a, k: Obj('$dtlib', {})
    def log(self, *what): self.trace.append(what[0] if len(what) == 1 else what)
    def op(self, k, a):
        op = k.get('op', a[3] if len(a) > 3 else 'SUM')
        if op != 'SUM': raise Unsupported('reduction other than SUM')
    def reduce(self, I, a, lo, hi):
        s, r = A.asarr(I.arrlike(a[1])) if not isinstance(a[1], Arr) else a[1], a[2]
        if s.nd: raise Unsupported('reduction of arrays')
        self.ctx.eqt('the process contributes its own length to the reduction', s.at([]), self.contrib(self.rank), I.facts)
        q = fresh('q'); A.assign(I, r, summ(q, lo, hi, self.contrib(q)))
    def allreduce(self, I, a, k): self.op(k, a); self.log('Allreduce'); self.reduce(I, a, ZERO, self.size)
    def scan(self, I, a, k): self.op(k, a); self.log('Scan'); self.reduce(I, a, ZERO, self.rank + 1)
    root_value = None
    def Bcast(self, I, a, k):
        """a ghost value, which the root is obliged to hold"""
        if (k.get('root', a[2] if len(a) > 2 else 0)) != 0: raise Unsupported('other root')
        self.log('Bcast')
        if I.facts.entails(eq(self.rank, 0)): self.ctx.eqt('the root sends the value agreed on', a[1].at([]), self.root_value, I.facts)
        elif not I.facts.entails(T.ne(self.rank, 0)): raise Unsupported('rank not known')
        A.assign(I, a[1], self.root_value)
    def bcast(self, I, a, k):
        if (k.get('root', a[2] if len(a) > 2 else 0)) != 0: raise Unsupported('other root')
        self.log('bcast')
        if I.facts.entails(eq(self.rank, 0)):
            d = a[1]
            if not isinstance(d, tuple) or len(d) != len(self.root_value): raise Unsupported('other message')
            for x, y in zip(d, self.root_value):
                if isinstance(y, (str, DType)): self.ctx.cond(I, 'the root sends the header of the file', x == y)
                else: self.ctx.eq(I, 'the root sends the header of the file', x, y)
        return self.root_value
    def same_everywhere(self):
        """collective calls in the same order on every path"""
        seqs = self.ctx.__dict__.setdefault('collectives', [])
        seqs.append(list(self.trace))
        self.ctx.cond(self.I, 'every process makes the same collective calls in the same order', seqs[-1] == seqs[0])


HDR = var('header_length')


def order(I, x):
    """memory order of an array of the caller: C, Fortran or neither"""
    if getattr(x, 'corder', False): return 'C'
    if I.decide(T.pred('C-contiguous', 0)): return 'C'
    return 'F' if I.decide(T.pred('F-contiguous', 0)) else None


def file_models(sp, st):
    """an MPI file: a sequence of events on it, checked by the contract"""
    ctx, I = sp.ctx, sp.I
    def native(x):
        if getattr(x, 'swapped', False): raise PyRaise('ValueError', 'NumPy datatype with non-native byteorder')
        return x
    fobj = Obj('$file', {})
    def ev(*x): st['events'].append(x)
    def opn(I, a, k):
        a = [x for x in a if not isinstance(x, Obj) or x.cls != '$MPIFile']
        sp.log('File.Open'); ev('open', a[1], a[2] if len(a) > 2 else k.get('amode')); return fobj
    def set_size(I, a, k): sp.log('Set_size'); ev('size', a[1])
    def write(I, a, k): ev('write', a[1])
    def set_view(I, a, k):
        sp.log('Set_view')
        names = ['disp', 'etype', 'filetype', 'datarep']
        kw = dict(zip(names, a[1:])); kw.update(k); ev('view', kw)
    def write_all(I, a, k): sp.log('Write_all'); ev('write_all', a[1])
    def read_all(I, a, k):
        sp.log('Read_all'); ev('read_all', a[1])
        st['fill'](I, a[1])
    def close(I, a, k): sp.log('Close'); ev('close')
    def subarray(I, a, k):
        kw = dict(zip(['sizes', 'subsizes', 'starts', 'order'], a[1:])); kw.update(k)
        lst = lambda v: tuple(I.concrete_list(v)) if isinstance(v, ListV) else tuple(v)
        return Obj('$datatype', dict(base=a[0], sizes=lst(kw['sizes']), subsizes=lst(kw['subsizes']), starts=lst(kw['starts']), order=kw.get('order', 'C')))
    def header_data(I, a, k):
        x = a[0]
        return DictV(dict(descr=DType(x.kind, x.buf.single, x.buf.swapped), fortran_order=order(I, x) == 'F', shape=tuple(x.sizes())))
    def header_write(I, a, k):
        a[0].st['content'] = a[1]; 
    def contiguous(I, a, k):
        r = A.copy(a[0]); r.corder = True; return r
    def flags(I, a, k):
        x = a[0]
        cc, fc = (True, T.pred(f'both orders')) if getattr(x, 'corder', False) else (T.pred('C-contiguous', 0), T.pred('F-contiguous', 0))
        return Obj('$flags', dict(c_contiguous=cc, f_contiguous=fc, contiguous=cc))
    M = {'$flags.forc@get': lambda I, o: I.truth(o.st['f_contiguous']) or I.truth(o.st['c_contiguous']), '$flags.fnc@get': lambda I, o: I.truth(o.st['f_contiguous']) and not I.truth(o.st['c_contiguous']),
         'ndarray.flags@get': lambda I, x: flags(I, [x], {}), '$MPIFile.Open': opn, '$file.Set_size': set_size, '$file.Write': write, '$file.Set_view': set_view, '$file.Write_all': write_all, '$file.Read_all': read_all,
         '$file.Sync': lambda I, a, k: sp.log('Sync'), '$file.Close': close, '$file.Get_position': lambda I, a, k: HDR,
         '$dtlib.from_numpy_dtype': lambda I, a, k: Obj('$datatype', dict(kind=native(a[1]))), '$datatype.Create_subarray': subarray,
         '$datatype.Create_contiguous': lambda I, a, k: Obj('$datatype', dict(base=a[0], contiguous=a[1])),
         '$datatype.Commit': lambda I, a, k: None, '$datatype.Free': lambda I, a, k: None,
         'numpy.lib.format.header_data_from_array_1_0': header_data, 'numpy.lib.format._write_array_header': header_write, 'numpy.lib.format.write_array_header_1_0': header_write,
         'io.BytesIO': lambda I, a, k: Obj('$bytes', {}), '$bytes.getvalue': lambda I, a, k: Obj('$header', dict(of=a[0].st['content'])), '$header.__len__': lambda I, a, k: HDR,
         'numpy.ascontiguousarray': contiguous}
    return M


def setup(ctx, I, nd, ax, kind):
    comm, size, rank = mkcomm(I)
    L = Tensor('L', 'i', 1); L.info['gen'] = lambda rng, idx: rng.randint(0, 3)
    I.assume(ge(el(L, [rank]), 0))
    dims = [var(f'd{i}') for i in range(nd)]; I.assume(*[ge(d, 1) for i, d in enumerate(dims) if i != ax], gt(HDR, 0))
    sp = Spmd(ctx, I, comm, size, rank); sp.root_value = HDR
    q = fresh('q'); sp.contrib = lambda r: el(L, [r])
    S = lambda k: summ(q, ZERO, k, el(L, [q]))
    return comm, size, rank, L, dims, sp, S


def save(ctx, nd, ax, kind, swapped=False):
    """pre: each process holds the part of its rank along the axis (any length, also none).
    post: a new file: the header of the global array, then every local element at its global position"""
    def run(I):
        comm, size, rank, L, dims, sp, S = setup(ctx, I, nd, ax, kind)
        loc = [el(L, [rank]) if j == ax else d for j, d in enumerate(dims)]
        X = Tensor('X', kind, nd + 1)                    # local part of every rank
        x = mkarr([(d,) for d in loc], lambda idx: el(X, [rank] + list(idx)), kind); x.buf.swapped = swapped
        st = dict(events=[])
        I.models = dict(I.models); I.models.update(sp.M); I.models.update(file_models(sp, st))
        I.call(find(I, U + 'npy_save'), [comm, 'FILE', x], dict(axis=ax))
        if not ctx.reachable(I): return
        sp.same_everywhere()
        e = st['events']; kinds = [x[0] for x in e]
        ctx.cond(I, 'the file asked for is opened for writing, created if missing', kinds[:1] == ['open'] and e[0][1] == 'FILE' and e[0][2] in (5, 9))
        ctx.cond(I, 'a previous file is truncated before anything is written', kinds[1:2] == ['size'] and e[1][1] == 0)
        root = I.facts.entails(eq(rank, 0))
        want = ['open', 'size'] + (['write'] if root else []) + ['view', 'write_all', 'close']
        ctx.cond(I, 'the root writes the header, then everyone its part, and the file is closed', kinds == want)
        if kinds != want: return
        glob = [S(size) if j == ax else d for j, d in enumerate(dims)]
        if root:
            h = e[2][1]; d0 = e[-2][1]
            ok = isinstance(h, Obj) and h.cls == '$header'
            ctx.cond(I, 'header of an array file', ok)
            if ok:
                of = h.st['of'].st
                ctx.cond(I, 'header: type and memory order of the array', of['descr'].kind == kind and of['descr'].swapped == d0.buf.swapped and of['fortran_order'] == (order(I, d0) == 'F'))
                ctx.cond(I, 'header: rank of the array', len(of['shape']) == nd)
                for a, b in zip(of['shape'], glob): ctx.eqt('header: shape of the global array', a, b, I.facts)
        v = e[-3][1]; d = e[-2][1]
        ctx.cond(I, 'the memory written is in the byte order of the machine', not d.buf.swapped)
        mo = order(I, d); ctx.cond(I, 'the memory written is contiguous', mo is not None)
        if mo is not None and nd > 1:
            orders = ctx.__dict__.setdefault('orders', []); orders.append(mo)
            ctx.cond(I, 'the order of the elements in the file does not depend on how a process holds its part in memory', True if mo == orders[0] else eq(size, 1))
        ctx.cond(I, 'rank of the data written', d.nd == nd)
        for a, b in zip(d.sizes(), loc): ctx.eqt('the whole local part is written', a, b, I.facts)
        idx, F = ctx.each(I, loc)
        ctx.eqt('the values written are those of the array', d.at(idx), el(X, [rank] + idx), F)
        ctx.unchanged_at(I, 'array of the caller unchanged', x, lambda i: el(X, [rank] + list(i)))
        dp = v['disp']; ctx.eqt('data start behind the header', dp.at([]) if isinstance(dp, Arr) else dp, HDR, I.facts)
        view(ctx, I, v, loc, glob, ax, S(rank), kind, mo)
    ctx.explore(run)


def view(ctx, I, v, loc, glob, ax, start, kind, order='C'):
    """the file view places local element i at global position i + start along the axis"""
    et, ft = v['etype'], v['filetype']
    ctx.cond(I, 'elements of the type of the array', isinstance(et, Obj) and et.st.get('kind') == DType(kind))
    if 'contiguous' in ft.st:
        ctx.cond(I, 'an empty view only for an empty part', And(eq(ft.st['contiguous'], 0), eq(loc[ax], 0))); return
    f = ft.st
    ctx.cond(I, 'view of the elements', f['base'] is et and f['order'] == order and len(f['sizes']) == len(f['subsizes']) == len(f['starts']) == len(loc))
    if len(f['sizes']) != len(loc): return
    for j in range(len(loc)):
        ctx.eqt('view: shape of the global array', f['sizes'][j], glob[j], I.facts)
        ctx.eqt('view: shape of the local part', f['subsizes'][j], loc[j], I.facts)
        ctx.eqt('view: first global position (the parts of the lower ranks come before)', f['starts'][j], start if j == ax else ZERO, I.facts)


for _nd in (1, 2, 3, 4):
    for _ax in range(_nd):
        for _k in 'rc' if _nd < 3 else 'c':
            contract('C10 C09', f'{U}npy_save[{_nd}-d, axis {_ax}, {"real" if _k == "r" else "complex"}]')(lambda ctx, n=_nd, a=_ax, k=_k: save(ctx, n, a, k))
for _nd, _ax, _k in ((1, 0, 'r'), (2, 1, 'c'), (3, 0, 'r')): contract('C10 C09', f'{U}npy_save[{_nd}-d, axis {_ax}, {"real" if _k == "r" else "complex"}, not in the byte order of the machine]')(lambda ctx, n=_nd, a=_ax, k=_k: save(ctx, n, a, k, True))


def load(ctx, nd, ax, kind, given, forder, swapped=False):
    """pre: an array file.  post: each process gets the global rows start(rank)..start(rank)+count(rank)-1 along the axis,
    the parts of the lower ranks come before, and without counts given they cover the axis"""
    def run(I):
        comm, size, rank, L, dims, sp, S = setup(ctx, I, nd, ax, kind)
        I.assume(*[ge(d, 0) for d in dims])
        N = dims[ax]
        share = lambda r: el(L, [r]) if given else idiv(N, size) + T.ite(T.gt(N - size*idiv(N, size), r), ONE, ZERO)
        if not given: I.decide(lt(rank, N - size*idiv(N, size)))          # case distinction: one of the ranks with a longer part?
        cnt, sp.contrib, q = share(rank), share, fresh('q')
        start = summ(q, ZERO, rank, share(q))
        sp.root_value = (HDR, tuple(dims), DType(kind, False, swapped), 'F' if forder else 'C')
        loc = [cnt if j == ax else d for j, d in enumerate(dims)]
        G = Tensor('FILE', kind, nd)
        st = dict(events=[])
        def fill(I, arr):
            arr = getattr(arr, 'raw_of', arr); st['loaded'] = arr
            A.assign(I, arr, mkarr(arr.axes, lambda i: el(G, [x + (start if j == ax else ZERO) for j, x in enumerate(i)]), kind))
        st['fill'] = fill
        I.models = dict(I.models); I.models.update(sp.M); I.models.update(file_models(sp, st))
        emp = I.models['numpy.empty']
        def empty(I, a, k):
            o = k.get('order', a[2] if len(a) > 2 else 'C')
            r = emp(I, list(a[:2]), {x: y for x, y in k.items() if x != 'order'}); r.forder = o; r.buf.swapped = getattr(k.get('dtype', a[1] if len(a) > 1 else None), 'swapped', False); return r
        I.models['numpy.empty'] = empty
        def magic(I, a, k): st['header_read'] = 1; return 'version'
        def header(I, a, k): return (tuple(dims), forder, DType(kind, False, swapped))
        I.models.update({'numpy.lib.format.read_magic': magic, 'numpy.lib.format._check_version': lambda I, a, k: None, 'numpy.lib.format._read_array_header': header, 'numpy.lib.format.read_array_header_1_0': header})
        kw = dict(axis=ax)
        if given: kw['count'] = cnt
        r = I.call(find(I, U + 'npy_load'), [comm, 'FILE'], kw)
        if not ctx.reachable(I): return
        sp.same_everywhere()
        e = st['events']; kinds = [x[0] for x in e]
        ctx.cond(I, 'the file asked for is opened for reading, read and closed', kinds == ['open', 'view', 'read_all', 'close'] and e[0][1] == 'FILE' and e[0][2] == 2)
        if kinds != ['open', 'view', 'read_all', 'close']: return
        ctx.cond(I, 'the loaded array is returned', isinstance(r, Arr) and r.nd == nd)
        if not isinstance(r, Arr) or r.nd != nd: return
        for a, b in zip(r.sizes(), loc): ctx.eqt('shape of the part of this process', a, b, I.facts)
        v = e[1][1]; d = getattr(e[2][1], 'raw_of', e[2][1])
        ctx.cond(I, 'read into an array of the type of the file (byte order)', d.buf.swapped == swapped)
        ctx.cond(I, 'read into an array of the type of the file', d.kind == kind)
        ctx.cond(I, 'memory in the order of the file', getattr(d, 'forder', 'C') == ('F' if forder else 'C'))
        for a, b in zip(d.sizes(), loc): ctx.eqt('shape of the array read', a, b, I.facts)
        dp = v['disp']; ctx.eqt('data start behind the header', dp.at([]) if isinstance(dp, Arr) else dp, HDR, I.facts)
        view(ctx, I, v, loc, dims, ax, start, kind, 'F' if forder else 'C')
        idx, F = ctx.each(I, loc)
        ctx.eqt('contiguous part of the file', r.at(idx), el(G, [x + (start if j == ax else ZERO) for j, x in enumerate(idx)]), F)
        if not given: ctx.eqt('the parts cover the axis once', summ(q, ZERO, size, share(q)), N, I.facts)
    ctx.explore(run)


for _nd in (1, 2, 3, 4):
    for _ax in range(_nd):
        for _g in (False, True):
            for _f in (False, True) if _nd < 4 else (False,):
                contract('C10 C09', f'{U}npy_load[{_nd}-d, axis {_ax}, {"counts given" if _g else "own counts"}, {"Fortran" if _f else "C"} order]')(lambda ctx, n=_nd, a=_ax, g=_g, f=_f: load(ctx, n, a, 'c' if n == 2 else 'r', g, f))
for _nd, _ax, _g in ((1, 0, False), (2, 1, True)): contract('C10 C09', f'{U}npy_load[{_nd}-d, axis {_ax}, {"counts given" if _g else "own counts"}, not in the byte order of the machine]')(lambda ctx, n=_nd, a=_ax, g=_g: load(ctx, n, a, 'r', g, False, True))


def serial(ctx, op):
    """one process: numpy's own save and load"""
    def run(I):
        X = Tensor('X', 'r', 2); dims = [var('d0'), var('d1')]; x = tensor_arr(X, dims); log = []
        I.models = dict(I.models); I.models['numpy.save'] = lambda I, a, k: log.append(a); I.models['numpy.load'] = lambda I, a, k: (log.append(a), x)[1]
        r = I.call(find(I, U + 'npy_' + op), [None, 'FILE'] + ([x] if op == 'save' else []), dict(axis=1))
        ctx.cond(I, 'one file operation on the file asked for', len(log) == 1 and log[0][0] == 'FILE')
        if op == 'load': ctx.cond(I, 'the whole array is returned', r is x)
        elif len(log) == 1:
            y = log[0][1]; ctx.eq(I, 'the array is written unchanged', y, x)
        ctx.reachable(I)
    ctx.explore(run)
for _o in ('save', 'load'): contract('C10', f'{U}npy_{_o}[serial]')(lambda ctx, o=_o: serial(ctx, o))
