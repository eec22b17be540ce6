"""Assumed contracts of numpy, the Python builtins and the other libraries PySPOD calls (trusted, exact arithmetic).

Every entry maps a dotted name to a function (interpreter, args, kwargs) -> value."""
import ast
from .values import *
from .arrays import *
from . import arrays as A, term as T
from .interp import Native, RangeV, ModuleV, Func, ClassV, ExcV, NUM, DT

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
MISSING = object()
def arg(args, kw, i, name, default=MISSING):
    if i is not None and i < len(args): return args[i]
    if name in kw: return kw[name]
    if default is MISSING: raise PyRaise('TypeError', f'missing argument {name}')
    return default
def only(kw, *names):
    bad = [k for k in kw if k not in names]
    if bad: raise Unsupported(f'keyword {bad}')
def conc(I, v):
    """python list of a concrete sequence"""
    if isinstance(v, Arr):
        if v.nd == 0: return [v.at([])]
        return I.concrete_list(v)
    return I.concrete_list(v)
def shape_of(I, v):
    if isinstance(v, NUM): return [I.sz(v)]
    return [I.sz(x) for x in conc(I, v)]
def scal(v):
    """0-d array -> scalar"""
    return v.at([]) if isinstance(v, Arr) and v.nd == 0 else v
def A_(I, v):
    v = I.arrlike(v)
    return asarr(v)
def intaxis(I, ax, nd):
    if ax is None: return None
    if isinstance(ax, (tuple, ListV)): return tuple(I.cint(x) % nd for x in conc(I, ax))
    k = I.cint(ax)
    if not -nd <= k < nd: raise PyRaise('AxisError', 'axis out of bounds')
    return k % nd
def ret(r): return r


# ------------------------------------------------------------------ builtins
@model('builtins.len')
def _len(I, a, k):
    v = a[0]
    if isinstance(v, ListV): return v.st.n if isinstance(v.st, SymSeq) else len(v.st)
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, SymStr) and all(isinstance(p, str) or padded(p) for p in v.parts): return sum(len(p) if isinstance(p, str) else int(p[1][:-1]) for p in v.parts)   # the numbers fit their width (DESIGN 3)
    if isinstance(v, SymSeq): return v.n
    if isinstance(v, Obj) and isinstance(v.cls, str) and v.cls + '.__len__' in I.models: return I.models[v.cls + '.__len__'](I, [v], {})
    if isinstance(v, Arr):
        if v.nd == 0: raise PyRaise('TypeError', 'len() of unsized object')
        s = v.sizes()[0]; c = s.const()
        return int(c) if c is not None else s
    if isinstance(v, DictV):
        if SYM in v.st:
            n = to(len([x for x in v.st if x not in (SYM, '$ops', '$del')]))
            for lo, hi, _ in v.st[SYM]: n = n + hi - lo
            return n
        return len(v.st)
    if isinstance(v, RangeV): return max2(v.hi - v.lo, 0)
    if isinstance(v, Obj):
        f = I.findattr(v, '__len__')
        if f is not None: return I.call(f, [], {})
    if isinstance(v, NUM): raise PyRaise('TypeError', 'object has no len()')
    raise Unsupported('len')
@model('builtins.range')
def _range(I, a, k):
    a = [scal(x) for x in a]
    for x in a:
        if not isinstance(x, (int, P)) or (isinstance(x, P) and x.sort != 'i'): raise PyRaise('TypeError', 'range() needs integers')
    if len(a) == 1: return RangeV(0, a[0])
    return RangeV(*a)
@model('builtins.enumerate')
def _enum(I, a, k): return Obj('enumerate', dict(it=a[0], start=arg(a, k, 1, 'start', 0)))
@model('builtins.zip')
def _zip(I, a, k): return Obj('zip', dict(its=tuple(a)))
@model('builtins.isinstance')
def _isinst(I, a, k):
    v, t = a
    for c in (t if isinstance(t, tuple) else (t,)):
        n = c.name if isinstance(c, (Opaque, Native, ModuleV, ClassV)) else repr(c)
        if n in ('builtins.list',) and isinstance(v, ListV): return True
        if n == 'builtins.dict' and isinstance(v, DictV): return True
        if n == 'builtins.tuple' and isinstance(v, tuple): return True
        if n == 'builtins.str' and isinstance(v, (str, SymStr)): return True
        if n in ('builtins.int', 'numpy.integer') and (isinstance(v, int) or isinstance(v, P) and v.sort == 'i'): return True
        if n in ('builtins.float', 'numpy.floating') and (isinstance(v, float) or isinstance(v, P) and v.sort == 'r'): return True
        if n == 'builtins.bool' and isinstance(v, (bool, B)): return True
        if n == 'numpy.ndarray' and isinstance(v, Arr) and not v.buf.name.startswith('xr'): return True
        if n.startswith('xarray') and isinstance(v, Arr) and v.buf.name.startswith('xr'): return True
        if n.startswith('xarray') and isinstance(v, Obj) and v.cls == n: return True
        if isinstance(c, ClassV) and isinstance(v, Obj) and isinstance(v.cls, ClassV):
            def sub(x): return x is c or any(sub(b) for b in x.bases if isinstance(b, ClassV))
            if sub(v.cls): return True
    return False
@model('builtins.int')
def _int(I, a, k): return I.cast(a[0] if a else 0, 'i')
@model('builtins.float')
def _float(I, a, k): return I.cast(a[0] if a else 0, 'r')
@model('builtins.complex')
def _cplx(I, a, k): return to(a[0]) + to(a[1] if len(a) > 1 else 0)*IMAG
@model('builtins.bool')
def _bool(I, a, k): return I.truthb(a[0])
@model('builtins.str')
def _str(I, a, k):
    v = a[0] if a else ''
    if isinstance(v, (str, SymStr)): return v
    r = I.fmt(v, '')
    return r if isinstance(r, str) else mkstr([r])
@model('builtins.repr', 'builtins.format')
def _repr(I, a, k): return mkstr([(fresh('str', 'r'), 'opaque')])
@model('builtins.list')
def _list(I, a, k):
    if not a: return ListV()
    it = I.iterate(a[0])
    if it[0] == 'c': return ListV(it[1])
    _, lo, hi, item = it
    return ListV(SymSeq(hi - lo, lambda i: item(i + lo)))
@model('builtins.tuple')
def _tuple(I, a, k): return tuple(conc(I, a[0])) if a else ()
@model('builtins.dict')
def _dict(I, a, k):
    d = dict(a[0].st) if a else {}
    d.update(k); return DictV(d)
@model('builtins.set')
def _set(I, a, k):
    out = []
    for x in (conc(I, a[0]) if a else []):
        if not any(x == y for y in out): out.append(x)
    return tuple(out)
def padded(p): return not isinstance(p, str) and isinstance(p[1], str) and p[1][:1] == '0' and p[1][-1:] == 'd'
def sort_seq(I, q, key=None, reverse=False):
    """a sorted sequence of symbolic length: the first component of the key that depends on the entry has to order all entries strictly (a number
    of the sequence, or a name with one zero-padded number) or to be arbitrary (a time of the file system), which gives an arbitrary order"""
    w = fresh('w'); I.compvars.append(w)
    try:
        x = q.item(w); kv = I.call(key, [x], {}) if key is not None else x
    finally: I.compvars.pop()
    dep = lambda v: the(w) in to(v).fv
    rank = None
    for c in kv if isinstance(kv, tuple) else (kv,):
        c = scal(c)
        if isinstance(c, SymStr):
            pos = [p for p in c.parts if not isinstance(p, str) and dep(p[0])]
            if len(pos) > 1 or pos and not padded(pos[0]): raise Unsupported(f'sorting by {c}')
            if pos: rank = to(pos[0][0]); break
        elif isinstance(c, NUM):
            if dep(c): rank = to(c); break
        elif not isinstance(c, str): raise Unsupported(f'sorting by {c}')
    n = q.n
    if rank is None:
        if not isinstance(kv, (tuple, str, SymStr)) and not isinstance(kv, NUM): raise Unsupported('sorting')
        order = lambda i: i
        if reverse: pass                     # Python's sort is stable, reversed or not
        return SymSeq(n, q.item)
    a = the(rank); turn = (lambda i: n - 1 - i) if reverse else (lambda i: i)
    if (rank - w).const() is not None: return SymSeq(n, lambda i: q.item(turn(to(i))))
    if (rank + w).const() is not None: return SymSeq(n, lambda i: q.item(n - 1 - turn(to(i))))
    if a is not None and a.kind == 'el' and a.key[2].info.get('arbitrary') and a.key[3][0] == w:
        per = T.Tensor('order:' + a.key[2].name, 'i', 1); per.info['perm'] = True; per.info['num'] = lambda ev, idx: (idx[0] + 1) % max(ev.i(to(n)), 1)
        def it(i):
            t = el(per, [turn(to(i))]); return q.item(t)
        return SymSeq(n, it)
    if a is None or a.kind != 'el' or not a.key[2].info.get('perm') or a.key[3][0] != w or not isinstance(x, SymStr): raise Unsupported(f'sorting of {x}')
    mark = fresh('mark'); sw = lambda t: swap_atom(to(t), a, mark)
    parts = [p if isinstance(p, str) else (sw(p[0]), p[1]) for p in x.parts]
    if any(not isinstance(p, str) and dep(p[0]) for p in parts): raise Unsupported(f'sorting of {x}')
    return SymSeq(n, lambda i: mkstr([p if isinstance(p, str) else (subst(to(p[0]), {the(mark): turn(to(i))}), p[1]) for p in parts]))
def swap_atom(t, a, new):
    from .prover import map_atoms
    return map_atoms(t, lambda x: new if x == a else None)
@model('os.path.getmtime', 'os.path.getctime', 'os.path.getatime', 'os.path.getsize')
def _mtime(I, a, k):
    """what the file system says about a file: arbitrary"""
    x = a[0]; ps = [to(p[0]) for p in x.parts if not isinstance(p, str)] if isinstance(x, SymStr) else []
    name = 'file time of ' + (''.join(p if isinstance(p, str) else '{}' for p in x.parts) if isinstance(x, SymStr) else str(x))
    t = I.__dict__.setdefault('file_times', {}).get(name)
    if t is None: t = I.file_times[name] = T.Tensor(name, 'r', max(1, len(ps))); t.info['arbitrary'] = True
    dep = [p for p in ps if any(the(w) in p.fv for w in I.compvars)]
    if len(dep) == 1:
        w = [w for w in I.compvars if the(w) in dep[0].fv][0]
        t2 = I.file_times.get(name + '/1')
        if t2 is None: t2 = I.file_times[name + '/1'] = T.Tensor(name, 'r', 1); t2.info['arbitrary'] = True
        return el(t2, [w])
    return el(t, ps or [ZERO])
@model('builtins.sorted')
def _sorted(I, a, k):
    if isinstance(a[0], ListV) and isinstance(a[0].st, SymSeq):
        only(k, 'reverse', 'key'); return ListV(sort_seq(I, a[0].st, k.get('key'), I.truth(k.get('reverse', False))))
    items = conc(I, a[0])
    only(k, 'reverse', 'key')
    ks = [I.call(k['key'], [x], {}) for x in items] if k.get('key') is not None else items
    if all(isinstance(x, (int, str)) for x in ks) or all(isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x) for x in ks):
        return ListV([items[j] for j in sorted(range(len(items)), key=lambda j: ks[j], reverse=I.truth(k.get('reverse', False)))])
    if len(items) <= 1: return ListV(items)
    raise Unsupported('sorted')
@model('builtins.reversed')
def _reversed(I, a, k): return ListV(list(reversed(conc(I, a[0]))))
def _fold(f):
    def g(I, a, k):
        if len(a) == 1 and not k:
            v = a[0]
            if isinstance(v, Arr) and v.nd == 2 and v.kind in ('i', 'r') and dim_eq(I, size(v.axes[1]), ONE) is True and not all(d.const() is not None for d in v.factors()):
                # rows of one element: the row of the extreme element
                r = extreme('max' if f is max2 else 'min')(I, [v], {}); return mkarr([(ONE,)], lambda i: r, v.kind)
            if isinstance(v, Arr) and v.nd == 1 and not all(d.const() is not None for d in v.factors()): return extreme('max' if f is max2 else 'min')(I, [v], {})
            if isinstance(v, ListV) and isinstance(v.st, SymSeq):
                w = fresh('w'); I.compvars.append(w)
                try: x = v.st.item(w)
                finally: I.compvars.pop()
                if isinstance(x, Arr) and x.nd == 0: x = x.at([])
                if not isinstance(x, NUM): raise Unsupported('max of a symbolic list')
                x = to(x)
                return extreme('max' if f is max2 else 'min')(I, [mkarr([(v.st.n,)], lambda i: subst(x, {the(w): to(i[0])}), x.sort)], {})
        items = conc(I, a[0]) if len(a) == 1 else a
        items = [scal(x) for x in items]
        if all(isinstance(x, int) for x in items): return min(items) if f is min2 else max(items)
        r = to(items[0])
        for x in items[1:]: r = f(r, to(x))
        return I.facts.simplify(r)
    return g
M['builtins.min'] = _fold(min2); M['builtins.max'] = _fold(max2)
@model('builtins.sum')
def _bsum(I, a, k):
    it = I.iterate(a[0])
    if it[0] == 'c':
        r = a[1] if len(a) > 1 else 0
        for x in it[1]: r = I.binop(ast.Add, r, x)
        return r
    _, lo, hi, item = it
    v = fresh('r'); x = item(v)
    if not isinstance(x, NUM): raise Unsupported('sum')
    return summ(v, lo, hi, to(x)) + to(a[1] if len(a) > 1 else 0)
@model('builtins.all', 'builtins.any')
def _all(I, a, k): raise Unsupported('all/any')
def _mk_all(isall):
    def g(I, a, k):
        it = I.iterate(a[0])
        if it[0] != 'c': raise Unsupported('all/any of a symbolic sequence')
        acc = isall
        for x in it[1]:
            b = I.truthb(x)
            if isinstance(b, bool):
                if b != isall: return b
                continue
            acc = b if isinstance(acc, bool) else (And(acc, b) if isall else Or(acc, b))
        return acc
    return g
M['builtins.all'] = _mk_all(True); M['builtins.any'] = _mk_all(False)
@model('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def _abs(I, a, k):
    only(k)
    v = I.arrlike(scal(a[0]))
    if isinstance(v, int): return abs(v)
    def f(x):
        if x.sort != 'c':
            if I.facts.entails(ge(x, 0)): return x
        return absv(x)
    if isinstance(v, Arr): return elementwise(I, f, [v], 'r' if v.kind != 'i' else 'i')
    return f(to(v))
@model('builtins.divmod')
def _divmod(I, a, k):
    x, y = a
    if isinstance(x, int) and isinstance(y, int): return divmod(x, y)
    q = I.num2(ast.FloorDiv, to(x), to(y)); return (q, to(x) - to(y)*q)
@model('builtins.round')
def _round(I, a, k):
    v = a[0]
    if isinstance(v, int) or isinstance(v, P) and v.sort == 'i': return v
    if len(a) > 1 or k or not isinstance(v, (P, float)): raise Unsupported('round')
    return nearest(to(v))
def nearest(x):
    """the nearest integer, ties to the even one"""
    h = floor(x + inv(to(2)))
    return ite(And(eq(x + inv(to(2)), h), ne(2*floor(h*inv(to(2))), h)), h - 1, h)
def trunc(x): return ite(ge(x, 0), floor(x), -floor(-x))
@model('builtins.print', 'builtins.hasattr@', 'warnings.warn', 'gc.collect', 'sys.stdout.flush', 'time.sleep')
def _none(I, a, k): return None
@model('builtins.hasattr')
def _hasattr(I, a, k):
    try: I.getattr(a[0], a[1]); return True
    except PyRaise: return False
@model('builtins.getattr')
def _getattr(I, a, k):
    try: return I.getattr(a[0], a[1])
    except PyRaise:
        if len(a) > 2: return a[2]
        raise
@model('builtins.setattr')
def _setattr(I, a, k): I.setattr(a[0], a[1], a[2])
@model('builtins.callable')
def _callable(I, a, k): return isinstance(a[0], (Func, Native, ClassV))
@model('builtins.type')
def _type(I, a, k):
    v = a[0]
    n = {ListV: 'builtins.list', DictV: 'builtins.dict', tuple: 'builtins.tuple', str: 'builtins.str', SymStr: 'builtins.str', int: 'builtins.int'}.get(type(v))
    if n: return Opaque(n)
    if isinstance(v, Arr): return Native('numpy.ndarray', None)
    if isinstance(v, P): return Opaque({'i': 'builtins.int', 'r': 'builtins.float', 'c': 'builtins.complex'}[v.sort])
    if isinstance(v, Obj): return v.cls if isinstance(v.cls, ClassV) else Opaque(str(v.cls))
    return Opaque(f'type({type(v).__name__})')
@model('builtins.map')
def _map(I, a, k):
    it = I.iterate(a[1])
    if it[0] != 'c': raise Unsupported('map')
    return ListV([I.call(a[0], [x], {}) for x in it[1]])
@model('builtins.slice')
def _slice(I, a, k): return slice(*a) if len(a) > 1 else slice(None, a[0])
@model('builtins.super')
def _super(I, a, k): raise Unsupported('super')

# ---- str, list, dict, tuple
@model('str.lower')
def _lower(I, a, k):
    if isinstance(a[0], str): return a[0].lower()
    raise Unsupported('lower of a symbolic string')
@model('str.upper')
def _upper(I, a, k):
    if isinstance(a[0], str): return a[0].upper()
    raise Unsupported('upper')
@model('str.strip')
def _strip(I, a, k):
    if isinstance(a[0], str): return a[0].strip(*a[1:])
    raise Unsupported('strip')
@model('str.startswith', )
def _sw(I, a, k):
    if isinstance(a[0], str): return a[0].startswith(a[1])
    raise Unsupported('startswith')
@model('str.endswith')
def _ew(I, a, k):
    s, t = a[0], a[1]
    if isinstance(s, SymStr) and isinstance(s.parts[-1], str) and (isinstance(t, tuple) or len(s.parts[-1]) >= len(t)): return s.parts[-1].endswith(t)
    if isinstance(s, str): return s.endswith(t)
    raise Unsupported('endswith')
@model('str.replace')
def _repl(I, a, k):
    if all(isinstance(x, str) for x in a): return a[0].replace(*a[1:])
    raise Unsupported('replace')
@model('str.split')
def _split(I, a, k):
    if all(isinstance(x, str) for x in a): return ListV(a[0].split(*a[1:]))
    raise Unsupported('split')
@model('str.join')
def _join(I, a, k):
    items = conc(I, a[1]); out = []
    for i, x in enumerate(items):
        if i: out.append(a[0])
        out.append(x)
    return mkstr(out) if out else ''
@model('str.format')
def _sfmt(I, a, k): return mkstr([(fresh('str', 'r'), 'opaque')])
@model('list.append')
def _append(I, a, k): I.list_append(a[0], a[1])
@model('list.extend')
def _extend(I, a, k):
    for x in conc(I, a[1]): I.list_append(a[0], x)
@model('list.index')
def _lindex(I, a, k):
    for i, x in enumerate(conc(I, a[0])):
        r = I.compare(ast.Eq(), x, a[1])
        if r is True: return i
        if r is not False: raise Unsupported('index')
    raise PyRaise('ValueError', 'not in list')
@model('list.copy')
def _lcopy(I, a, k): return ListV(a[0].st)
@model('list.insert')
def _linsert(I, a, k):
    if isinstance(a[0].st, SymSeq): raise Unsupported('insert')
    L = list(a[0].st); L.insert(I.cint(a[1]), a[2]); I.heap.set(a[0], tuple(L))
@model('list.pop')
def _lpop(I, a, k):
    if isinstance(a[0].st, SymSeq): raise Unsupported('pop')
    L = list(a[0].st); v = L.pop(I.cint(a[1]) if len(a) > 1 else -1); I.heap.set(a[0], tuple(L)); return v
@model('list.sort')
def _lsort(I, a, k):
    only(k, 'reverse', 'key')
    r = I.models['builtins.sorted'](I, [a[0]], k); I.heap.set(a[0], r.st)
@model('tuple.index')
def _tindex(I, a, k): return _lindex(I, a, k)
@model('tuple.count', 'list.count')
def _count(I, a, k): raise Unsupported('count')
@model('dict.get')
def _dget(I, a, k):
    d = a[0]
    try: return I.dictget(d, a[1])
    except PyRaise as e:
        if e.typ != 'KeyError': raise
        return a[2] if len(a) > 2 else None
@model('dict.keys')
def _keys(I, a, k):
    if SYM in a[0].st: return a[0]
    return ListV(list(a[0].st))
@model('dict.values')
def _vals(I, a, k):
    if SYM in a[0].st:
        it = I.iterate(Obj('items', dict(d=a[0])))
        return ListV(SymSeq(it[2]-it[1], lambda i: it[3](i + it[1])[1]))
    return ListV(list(a[0].st.values()))
@model('dict.items')
def _items(I, a, k): return Obj('items', dict(d=a[0]))
@model('dict.copy')
def _dcopy(I, a, k): return DictV(a[0].st)
@model('dict.update')
def _dupd(I, a, k):
    d = dict(a[0].st)
    if len(a) > 1: d.update(a[1].st)
    d.update(k); I.heap.set(a[0], d)
@model('dict.setdefault')
def _dsetd(I, a, k):
    d = dict(a[0].st)
    if a[1] in d: return d[a[1]]
    d[a[1]] = a[2]; I.heap.set(a[0], d); return a[2]
@model('dict.pop')
def _dpop(I, a, k):
    d = dict(a[0].st)
    if a[1] in d:
        v = d.pop(a[1]); I.heap.set(a[0], d); return v
    if len(a) > 2: return a[2]
    raise PyRaise('KeyError', str(a[1]))
@model('copy.copy', 'copy.deepcopy')
def _cc(I, a, k):
    v = a[0]
    if isinstance(v, Arr): return A.copy(v)
    if isinstance(v, ListV): return ListV(v.st)
    if isinstance(v, DictV): return DictV(v.st)
    if isinstance(v, (P, int, str, float, tuple)): return v
    raise Unsupported('copy')

# ------------------------------------------------------------- array creation
def const_arr(I, shape, v, kind): return mkarr([(s,) for s in shape], lambda idx: v, kind, const=True)
def kindarg(I, args, kw, i, default='r'):
    d = arg(args, kw, i, 'dtype', None)
    if d is None: return default
    k = I.dt(d)
    if k is None: raise Unsupported(f'dtype {d}')
    return k
def zero_of(k): return FALSE if k == 'b' else ZERO
@model('numpy.zeros')
def _zeros(I, a, k):
    only(k, 'shape', 'dtype', 'order')
    kd = kindarg(I, a, k, 1); z = zero_of(kd)
    return const_arr(I, shape_of(I, arg(a, k, 0, 'shape')), z, kd)
@model('numpy.ones')
def _ones(I, a, k):
    kd = kindarg(I, a, k, 1)
    return const_arr(I, shape_of(I, arg(a, k, 0, 'shape')), TRUE if kd == 'b' else ONE, kd)
@model('numpy.full')
def _full(I, a, k):
    v = scal(arg(a, k, 1, 'fill_value')); kd = kindarg(I, a, k, 2, kind_of(v))
    return const_arr(I, shape_of(I, arg(a, k, 0, 'shape')), v if kd == 'b' and isinstance(v, B) else to(scal(conv(I, mkarr([], lambda i: to(v), kind_of(v)), kd))), kd)
def conv(I, x, kd):
    """x as an array of kind kd (lossy conversions truncate, as NumPy's do)"""
    return x if kd is None or x.kind == kd else cast_arr(I, x, kd)
def undef(kd):
    if kd == 'b': return T.pred(f'undef{next(T._fresh)}')
    return fresh('undef', kd)
@model('numpy.empty')
def _empty(I, a, k):
    kd = kindarg(I, a, k, 1); v = undef(kd)
    return const_arr(I, shape_of(I, arg(a, k, 0, 'shape')), v, kd)
def _like(f, v=None):
    def g(I, a, k):
        x = A_(I, a[0]); kd = kindarg(I, a, k, 1, x.kind)
        val = undef(kd) if v is None else (zero_of(kd) if v == 0 else to(v))
        return mkarr(x.axes, lambda idx: val, kd, const=True)
    return g
M['numpy.zeros_like'] = _like(None, 0); M['numpy.ones_like'] = _like(None, 1); M['numpy.empty_like'] = _like(None)
@model('numpy.identity', 'numpy.eye')
def _eye(I, a, k):
    n = I.sz(a[0]); return mkarr([(n,), (n,)], lambda i: ite(eq(i[0], i[1]), 1, 0), kindarg(I, [], k, None))
@model('numpy.arange')
def _arange(I, a, k):
    only(k, 'dtype')
    a = [scal(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    kd = kindarg(I, [], k, None, kmax(*[kind_of(v) for v in (lo, hi, st)]))
    if 'birc'.index(kd) < 'birc'.index(kmax(*[kind_of(v) for v in (lo, hi, st)])): raise Unsupported('arange of another type')
    lo, hi, st = to(lo), to(hi), to(st)
    F = I.facts
    d = (hi - lo)*inv(st)
    n = d if d.sort == 'i' else -floor(-d)
    if not F.entails(ge(n, 0)): n = max2(n, 0)
    if F.entails(le(st, 0)): raise Unsupported('arange step')
    return mkarr([(F.simplify(n),)], lambda i: lo + to(i[0])*st, kd)
@model('numpy.linspace')
def _linspace(I, a, k):
    only(k, 'num', 'endpoint', 'start', 'stop')
    lo, hi, n = to(scal(arg(a, k, 0, 'start'))), to(scal(arg(a, k, 1, 'stop'))), to(scal(arg(a, k, 2, 'num', 50)))
    if n.sort != 'i': raise PyRaise('TypeError', 'linspace')
    ep = I.truth(arg(a, k, 3, 'endpoint', True))
    den = n - 1 if ep else n
    c = n.const()
    if c == 1: return mkarr([(n,)], lambda i: lo, 'r')
    if ep and not I.facts.entails(gt(n, 1)): raise Unsupported('linspace of an undecided length')
    return mkarr([(n,)], lambda i: lo + to(i[0])*(hi - lo)*inv(den), 'r')
@model('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.copy')
def _array(I, a, k):
    only(k, 'dtype', 'copy', 'ndmin', 'order')
    v = arg(a, k, 0, 'object'); d = arg(a, k, 1, 'dtype', None)
    kd = None if d is None else I.dt(d)
    if d is not None and kd is None: raise Unsupported('dtype')
    if isinstance(v, Arr):
        if kd is not None and kd != v.kind: return cast_arr(I, v, kd)
        return A.copy(v)
    if isinstance(v, (ListV, tuple)):
        st = v.st if isinstance(v, ListV) else v
        if isinstance(st, SymSeq): return stack_sym(I, st, kd)
        items = list(st)
        if not items: return mkarr([(ZERO,)], lambda i: ZERO, kd or 'r', const=True)
        if all(isinstance(x, (bool, B)) for x in items):
            bs = [x if isinstance(x, B) else TRUE if x else FALSE for x in items]
            def eb(i):
                c = to(i[0]).const()
                return bs[int(c)] if c is not None else Or(*[And(eq(i[0], j), b) for j, b in enumerate(bs)])
            return conv(I, mkarr([(to(len(bs)),)], eb, 'b'), kd)
        if all(isinstance(x, NUM) or isinstance(x, Arr) and x.nd == 0 for x in items):
            its = [scal(x) for x in items]
            kk = kmax(*[kind_of(x) for x in its])
            its = [to(x) for x in its]
            def e(i):
                p = to(i[0]); c = p.const()
                if c is not None: return its[int(c)]
                r = its[-1]
                for j in range(len(its)-2, -1, -1): r = ite(eq(p, j), its[j], r)
                return r
            return conv(I, mkarr([(to(len(its)),)], e, kk), kd)
        return conv(I, stack(I, [A_(I, x) for x in items], 0), kd)
    if isinstance(v, NUM): return conv(I, mkarr([], lambda i: to(v), kind_of(v)), kd)
    if isinstance(v, (bool, B)): return mkarr([], lambda i: v if isinstance(v, B) else (TRUE if v else FALSE), 'b')
    raise Unsupported(f'array of {type(v).__name__}')
def _noncopy(I, a, k):
    v = a[0]; d = arg(a, k, 1, 'dtype', None)
    if isinstance(v, Arr) and (d is None or I.dt(d) == v.kind and I.single(d) == v.buf.single and (d is None or getattr(d, 'swapped', False) == v.buf.swapped)): return v
    return _array(I, a, k)
M['numpy.asarray'] = _noncopy; M['numpy.asanyarray'] = _noncopy
def _asc(I, a, k): return _noncopy(I, a, k)
M['numpy.ascontiguousarray'] = _asc
def _npcopy(I, a, k):
    return A.copy(A_(I, a[0]))
M['numpy.copy'] = _npcopy; M['ndarray.copy'] = _npcopy
def stack_sym(I, q, kd=None):
    w = fresh('q'); wa = the(w); saved = I.facts
    I.facts = saved.child(ge(w, 0), lt(w, q.n))
    try: x = q.item(w)
    finally: I.facts = saved
    if isinstance(x, NUM):
        kk = kind_of(x); x = to(x)
        return conv(I, mkarr([(q.n,)], lambda i: subst(x, {wa: to(i[0])}), kk), kd)
    if isinstance(x, Arr):
        fx = x.snap()
        if any(wa in d.fv for d in x.factors()): raise Unsupported('ragged stack')
        def e(i):
            i = list(i)
            return subst(fx(i[1:]), {wa: to(i[0])})
        return conv(I, mkarr([(q.n,)] + list(x.axes), e, x.kind), kd)
    raise Unsupported('array of a symbolic sequence')
def same_axes(I, arrs, skip=None):
    """common axes of arrays (finest factorisation)"""
    out = []
    for j in range(arrs[0].nd):
        if j == skip: out.append(None); continue
        cur = arrs[0].axes[j]
        for x in arrs[1:]:
            ax = x.axes[j]
            if axis_eq(I, cur, ax): continue
            d = dim_eq(I, size(cur), size(ax))
            if d is False: raise PyRaise('ValueError', 'all input array dimensions except for the concatenation axis must match exactly')
            if d is None: raise Unsupported(f'concatenation of {size(cur)} with {size(ax)}')
            if len(ax) > len(cur): cur = ax
        out.append(cur)
    return out
def stack(I, arrs, axis, kd=None):
    nd = arrs[0].nd
    if any(x.nd != nd for x in arrs): raise PyRaise('ValueError', 'all input arrays must have the same shape')
    axes = same_axes(I, arrs)
    rs = [reader(I, x, axes) for x in arrs]
    axis = axis % (nd + 1)
    pos = sum(len(a) for a in axes[:axis])
    def e(i):
        i = list(i); p = to(i.pop(pos)); c = p.const()
        if c is not None: return rs[int(c)](i)
        r = rs[-1](i)
        for j in range(len(rs)-2, -1, -1): r = ite(eq(p, j), rs[j](i), r)
        return r
    kk = kmax(*[x.kind for x in arrs])
    return conv(I, mkarr(axes[:axis] + [(to(len(arrs)),)] + axes[axis:], e, kk), kd)
def concat(I, arrs, axis):
    nd = arrs[0].nd
    if any(x.nd != nd for x in arrs): raise PyRaise('ValueError', 'all the input arrays must have same number of dimensions')
    axis = axis % nd
    if len(arrs) == 1: return A.copy(arrs[0])
    axes = same_axes(I, arrs, axis)
    offs = [ZERO]
    for x in arrs: offs.append(offs[-1] + size(x.axes[axis]))
    axes[axis] = (offs[-1],)
    rs = []
    for x in arrs:
        ax = list(axes); ax[axis] = x.axes[axis]
        if len(x.axes[axis]) != 1:
            if len(x.axes[axis]) == 0: x = Arr(x.buf, x.view, x.axes[:axis] + ((ONE,),) + x.axes[axis+1:]) if False else mkunit(x, axis); ax[axis] = x.axes[axis]
            else: raise Unsupported('concatenation along a merged axis')
        rs.append(reader(I, x, ax))
    pos = sum(len(a) for a in axes[:axis])
    def e(i):
        i = list(i); p = to(i[pos]); r = None
        for j in range(len(rs)-1, -1, -1):
            i2 = list(i); i2[pos] = p - offs[j]
            if r is None: r = rs[j](i2); continue
            d = I.facts.decide(lt(p, offs[j+1]))
            if d is False: continue
            if d is True: r = rs[j](i2)
            else: r = ite(lt(p, offs[j+1]), rs[j](i2), r)
        return r
    return mkarr(axes, e, kmax(*[x.kind for x in arrs]))
def mkunit(x, axis):
    f = x.snap(); pos = sum(len(a) for a in x.axes[:axis])
    return mkarr(x.axes[:axis] + ((ONE,),) + x.axes[axis+1:], lambda i: f(list(i[:pos]) + list(i[pos+1:])), x.kind)
def concat_sym(I, q, axis):
    """concatenation of a symbolic sequence of arrays whose length along the axis does not depend on the position"""
    w = fresh('q'); x = q.item(w); wa = the(w)
    if not isinstance(x, Arr): raise Unsupported('concatenation of a symbolic sequence')
    if any(wa in d.fv for d in x.factors()): raise Unsupported('concatenation of blocks of varying length')
    axis = axis % x.nd
    n = size(x.axes[axis]); pos = sum(len(a) for a in x.axes[:axis]); na = len(x.axes[axis])
    axes = list(x.axes)
    axes[axis] = (q.n,) + tuple(x.axes[axis])
    def e(i):
        i = list(i); p = to(i.pop(pos))
        return q.item(p).at(i)
    return mkarr(axes, e, x.kind)
def seq_arrs(I, v):
    if isinstance(v, ListV) and isinstance(v.st, SymSeq): return v.st
    return [A_(I, x) for x in conc(I, v)]
@model('numpy.concatenate')
def _concat(I, a, k):
    only(k, 'axis')
    v = seq_arrs(I, a[0]); ax = I.cint(arg(a, k, 1, 'axis', 0))
    if isinstance(v, SymSeq): return concat_sym(I, v, ax)
    return concat(I, v, ax)
@model('numpy.hstack')
def _hstack(I, a, k):
    v = seq_arrs(I, a[0])
    if isinstance(v, SymSeq):
        x = v.item(fresh('q')); return concat_sym(I, v, 0 if x.nd == 1 else 1)
    v = [x if x.nd else mkarr([(ONE,)], lambda i, x=x: x.at([]), x.kind) for x in v]
    return concat(I, v, 0 if v[0].nd == 1 else 1)
@model('numpy.vstack')
def _vstack(I, a, k):
    v = seq_arrs(I, a[0])
    if isinstance(v, SymSeq): raise Unsupported('vstack')
    v = [x if x.nd > 1 else index(I, x, (None, slice(None))) for x in v]
    return concat(I, v, 0)
@model('numpy.stack')
def _stack(I, a, k):
    v = seq_arrs(I, a[0]); ax = I.cint(arg(a, k, 1, 'axis', 0))
    if isinstance(v, SymSeq):
        if ax != 0: raise Unsupported('stack')
        return stack_sym(I, v)
    return stack(I, v, ax)
@model('numpy.tile')
def _tile(I, a, k):
    x = A_(I, a[0]); reps = shape_of(I, a[1])
    nd = max(x.nd, len(reps))
    reps = [ONE]*(nd-len(reps)) + reps
    axes = [(ONE,)]*(nd-x.nd) + list(x.axes)
    f = x.snap()
    out = []; plan = []; pos = 0
    for j in range(nd):
        src = len(axes[j]) if j >= nd - x.nd else 0
        if reps[j] == ONE:
            out.append(axes[j]); plan.append((0, src)); 
            if j < nd - x.nd: plan[-1] = (1, 0)
        elif size(axes[j]) == ONE:
            out.append((reps[j],)); plan.append((1, -src))
        else:
            out.append((reps[j],) + tuple(axes[j])); plan.append((1, src))
    def e(idx):
        i = 0; full = []
        for d, s in plan:
            i += d
            if s < 0: full += [ZERO]*(-s)
            else: full += list(idx[i:i+s]); i += s
        return f(full)
    return mkarr(out, e, x.kind)
@model('numpy.insert')
def _insert(I, a, k):
    x = A_(I, a[0]); pos = to(scal(a[1])); v = a[2]
    if x.nd != 1 or not isinstance(v, NUM): raise Unsupported('insert')
    n = size(x.axes[0]); f = x.snap()
    c = pos.const()
    if c is not None and c < 0: pos = n + pos
    return mkarr([(n + 1,)], lambda i: ite(lt(i[0], pos), f([i[0]]) if pos != 0 else 0, ite(eq(i[0], pos), to(v), f([i[0]-1]))), kmax(x.kind))
@model('numpy.append')
def _nappend(I, a, k):
    ax = arg(a, k, 2, 'axis', None); v = [A_(I, a[0]), A_(I, a[1])]
    if ax is None: v = [A.reshape(I, x, [size(x.sizes())]) for x in v]; v = [x if x.axes[0] else mkunit(x, 0) for x in v]; ax = 0
    return concat(I, v, I.cint(ax))
@model('numpy.diff')
def _diff(I, a, k):
    only(k, 'n', 'axis')
    x = A_(I, a[0])
    if arg(a, k, 1, 'n', 1) != 1: raise Unsupported('diff')
    ax = I.cint(arg(a, k, 2, 'axis', -1)) % x.nd
    sl = lambda s: index(I, x, tuple([slice(None)]*ax + [s]))
    return I.binop(ast.Sub, sl(slice(1, None)), sl(slice(None, -1)))

# ---------------------------------------------------------------- reshaping
@model('numpy.reshape')
def _reshape(I, a, k):
    only(k, 'newshape', 'shape', 'order')
    s = k['shape'] if 'shape' in k else arg(a, k, 1, 'newshape')
    return in_order(I, A_(I, a[0]), shape_of(I, s), arg(a, k, 2, 'order', 'C'))
def in_order(I, x, shape, order):
    if order == 'F': return transpose(reshape(I, transpose(x), list(shape)[::-1]))
    if order not in ('C', None): raise Unsupported('order')
    return reshape(I, x, shape)
@model('ndarray.reshape')
def _mreshape(I, a, k):
    only(k, 'order')
    return in_order(I, a[0], shape_of(I, a[1]) if len(a) == 2 else [I.sz(v) for v in a[1:]], k.get('order', 'C'))
@model('numpy.transpose')
def _transpose(I, a, k):
    p = arg(a, k, 1, 'axes', None)
    return transpose(A_(I, a[0]), None if p is None else [I.cint(x) for x in conc(I, p)])
@model('ndarray.transpose')
def _mtranspose(I, a, k):
    if len(a) == 1: return transpose(a[0])
    p = conc(I, a[1]) if len(a) == 2 and isinstance(a[1], (tuple, ListV)) else a[1:]
    return transpose(a[0], [I.cint(x) for x in p])
M['ndarray.T@get'] = lambda I, x: transpose(x)
@model('numpy.moveaxis')
def _moveaxis(I, a, k):
    x = A_(I, a[0]); s, d = I.cint(a[1]) % x.nd, I.cint(a[2]) % x.nd
    p = [j for j in range(x.nd) if j != s]; p.insert(d, s)
    return transpose(x, p)
@model('numpy.swapaxes', 'ndarray.swapaxes')
def _swapaxes(I, a, k):
    x = a[0]; p = list(range(x.nd)); i, j = I.cint(a[1]) % x.nd, I.cint(a[2]) % x.nd
    p[i], p[j] = p[j], p[i]
    return transpose(x, p)
@model('numpy.squeeze', 'ndarray.squeeze')
def _squeeze(I, a, k):
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', None)
    if ax is not None:
        axs = intaxis(I, ax, x.nd); axs = (axs,) if isinstance(axs, int) else axs
        for j in axs:
            if size(x.axes[j]) != ONE:
                if dim_eq(I, size(x.axes[j]), ONE) is False: raise PyRaise('ValueError', 'cannot select an axis to squeeze out')
                if dim_eq(I, size(x.axes[j]), ONE) is None: raise Unsupported('squeeze of an undecided axis')
    else:
        axs = []
        for j, q in enumerate(x.axes):
            s = size(q)
            if s == ONE: axs.append(j); continue
            d = I.facts.decide(eq(s, 1))
            if d is None:
                if I.generic: raise Unsupported('squeeze of an undecided axis')
                d = I.decide(eq(s, 1))
            if d: axs.append(j)
    r = index(I, x, tuple(0 if j in axs else slice(None) for j in range(x.nd)))
    return r
@model('numpy.expand_dims')
def _expand(I, a, k):
    x = A_(I, a[0]); ax = I.cint(arg(a, k, 1, 'axis')) % (x.nd + 1)
    return index(I, x, tuple([slice(None)]*ax + [None]))
@model('numpy.ravel', 'ndarray.ravel')
def _ravel(I, a, k): return in_order(I, A_(I, a[0]), [to(-1)], arg(a, k, 1, 'order', 'C'))
@model('ndarray.flatten')
def _flatten(I, a, k): return A.copy(in_order(I, a[0], [to(-1)], arg(a, k, 1, 'order', 'C')))
@model('numpy.atleast_1d')
def _al1(I, a, k):
    x = A_(I, a[0]); return x if x.nd else mkarr([(ONE,)], lambda i: x.at([]), x.kind)
@model('numpy.flip', 'numpy.flipud', 'numpy.fliplr')
def _flip(I, a, k):
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', None)
    axs = range(x.nd) if ax is None else ([intaxis(I, ax, x.nd)] if not isinstance(ax, tuple) else intaxis(I, ax, x.nd))
    return index(I, x, tuple(slice(None, None, -1) if j in axs else slice(None) for j in range(x.nd)))
def _flipud(I, a, k): return index(I, A_(I, a[0]), (slice(None, None, -1),))
M['numpy.flipud'] = _flipud
M['numpy.fliplr'] = lambda I, a, k: index(I, A_(I, a[0]), (slice(None), slice(None, None, -1)))
@model('numpy.broadcast_to')
def _bto(I, a, k):
    x = A_(I, a[0]); shp = shape_of(I, a[1])
    axes = [(s,) for s in shp]
    for j, ax in enumerate(x.axes):
        t = len(axes) - x.nd + j
        if not is_one(ax): axes[t] = ax
    r = reader(I, x, axes)
    return mkarr(axes, r, x.kind)

# ------------------------------------------------------------- elementwise
def unary(f, kind=None):
    def g(I, a, k):
        only(k)
        v = I.arrlike(scal(a[0]))
        if isinstance(v, Arr): return elementwise(I, lambda x: f(I, x), [v], kind or kmax(v.kind, 'i'))
        return f(I, to(v))
    return g
M['numpy.sqrt'] = unary(lambda I, x: sqrt(x), 'r')
M['numpy.real'] = M['ndarray.real@'] = lambda I, a, k: (lambda v: elementwise(I, re, [v], 'r' if v.kind == 'c' else v.kind) if isinstance(v, Arr) else re(to(v)))(I.arrlike(a[0]))
M['numpy.imag'] = lambda I, a, k: (lambda v: elementwise(I, im, [v], 'r') if isinstance(v, Arr) else im(to(v)))(I.arrlike(a[0]))
M['numpy.conj'] = M['numpy.conjugate'] = M['ndarray.conj'] = M['ndarray.conjugate'] = unary(lambda I, x: conj(x))
M['ndarray.real@get'] = lambda I, x: elementwise(I, re, [x], 'r' if x.kind == 'c' else x.kind) if x.kind == 'c' else x
M['ndarray.imag@get'] = lambda I, x: elementwise(I, im, [x], 'r' if x.kind == 'c' else x.kind)
M['numpy.cos'] = unary(lambda I, x: T.fn('cos', [x]), 'r')
M['numpy.sin'] = unary(lambda I, x: T.fn('sin', [x]), 'r')
M['numpy.deg2rad'] = M['numpy.radians'] = unary(lambda I, x: x*PI*inv(to(180)), 'r')
M['numpy.floor'] = unary(lambda I, x: floor(x)); M['numpy.ceil'] = unary(lambda I, x: -floor(-x))
M['numpy.rint'] = M['numpy.round'] = M['numpy.around'] = lambda I, a, k: unary(lambda I, x: nearest(x))(I, a[:1], k) if len(a) == 1 else (_ for _ in ()).throw(Unsupported('round to decimals'))
M['numpy.trunc'] = M['numpy.fix'] = M['math.trunc'] = unary(lambda I, x: trunc(x))
M['math.floor'] = M['numpy.floor']; M['math.ceil'] = M['numpy.ceil']; M['math.sqrt'] = M['numpy.sqrt']
M['numpy.square'] = unary(lambda I, x: x*x)
PI = var('pi', 'r')
M['numpy.pi'] = PI; M['math.pi'] = PI
def _expr(I, x):
    """exp of i*(real multiple of pi) is kept as an uninterpreted unit; anything else is opaque"""
    return T.fn('exp', [re(x), im(x)], 'c' if x.sort == 'c' else 'r')
M['numpy.exp'] = unary(_expr)
M['numpy.negative'] = unary(lambda I, x: -x)
def binary(op):
    return lambda I, a, k: (only(k), I.binop(op, I.arrlike(a[0]), I.arrlike(a[1])))[1]
for nm, op in (('add', ast.Add), ('subtract', ast.Sub), ('multiply', ast.Mult), ('divide', ast.Div), ('true_divide', ast.Div), ('power', ast.Pow), ('floor_divide', ast.FloorDiv), ('mod', ast.Mod), ('remainder', ast.Mod)):
    M['numpy.' + nm] = binary(op)
def bin2(f):
    def g(I, a, k):
        only(k)
        x, y = I.arrlike(scal(a[0])), I.arrlike(scal(a[1]))
        if isinstance(x, Arr) or isinstance(y, Arr): return elementwise(I, f, [x, y], kmax(kind_of(x), kind_of(y)))
        return I.facts.simplify(f(to(x), to(y)))
    return g
M['numpy.maximum'] = bin2(max2); M['numpy.minimum'] = bin2(min2)
@model('numpy.where')
def _where(I, a, k):
    if len(a) != 3: raise Unsupported('where with one argument')
    c = a[0]
    if isinstance(c, (bool, B)): return I.vite(c if isinstance(c, B) else (TRUE if c else FALSE), a[1], a[2])
    x, y = I.arrlike(a[1]), I.arrlike(a[2])
    return elementwise(I, lambda m, p, q: ite(m, p, q), [c, x, y], kmax(kind_of(x), kind_of(y)))
@model('numpy.isreal')
def _isreal(I, a, k):
    v = I.arrlike(scal(a[0]))
    if isinstance(v, Arr): return Obj('$isreal', dict(arr=v))
    return kind_of(v) != 'c' or eq(im(to(v)), 0)
@model('$isreal.all')
def _isreal_all(I, a, k):
    return all_real(a[0].st['arr'])
def all_real(v):
    """no element has an imaginary part"""
    if v.kind != 'c': return True
    q = [var(f'$q{j}') for j in range(len(v.factors()))]          # keyed by extents and content
    return T.pred('all_real', *v.factors(), v.at(q))
@model('numpy.iscomplexobj')
def _isco(I, a, k): return kind_of(I.arrlike(a[0])) == 'c'
@model('numpy.isrealobj')
def _isro(I, a, k): return kind_of(I.arrlike(a[0])) != 'c'
@model('numpy.isclose', 'numpy.allclose', 'numpy.isfinite', 'numpy.isnan')
def _isclose(I, a, k): raise Unsupported('floating-point closeness')
@model('numpy.nan_to_num')
def _ntn(I, a, k): return A.copy(A_(I, a[0]))
@model('numpy.clip')
def _clip(I, a, k):
    x = A_(I, a[0]); lo, hi = a[1], a[2]
    f = lambda v: v
    r = x
    if lo is not None: r = elementwise(I, max2, [r, lo], x.kind)
    if hi is not None: r = elementwise(I, min2, [r, hi], x.kind)
    return r

# --------------------------------------------------------------- reductions
def cast_arr(I, x, kd):
    if kd == x.kind: return A.copy(x)
    if x.kind == 'b': return elementwise(I, lambda b: ite(b, 1, 0), [x], kd)
    if kd == 'i': return elementwise(I, lambda v: floor(v) if I.facts.entails(ge(v, 0)) else floor_trunc(v), [x], kd) if x.kind != 'i' else A.copy(x, kd)
    if kd == 'r' and x.kind == 'c': return elementwise(I, re, [x], 'r')
    return A.copy(x, kd)
@model('ndarray.astype')
def _astype(I, a, k):
    kd = I.dt(arg(a, k, 1, 'dtype'))
    if kd is None: raise Unsupported('astype')
    only(k, 'dtype', 'copy')
    d = arg(a, k, 1, 'dtype'); sw = getattr(d, 'swapped', False)
    if k.get('copy') is False and isinstance(a[0], Arr) and kd == a[0].kind and I.single(d) == a[0].buf.single and sw == a[0].buf.swapped: return a[0]
    r = cast_arr(I, a[0], kd)
    if isinstance(r, Arr) and r.buf.swapped != sw: r = A.copy(r); r.buf.swapped = sw
    return r
def red(comb, kindf=lambda k: k, prep=None, post=None):
    def g(I, a, k):
        only(k, 'axis', 'keepdims', 'dtype')
        x = A_(I, a[0]); ax = intaxis(I, arg(a, k, 1, 'axis', None), x.nd)
        if k.get('dtype') is not None: x = conv(I, x, I.dt(k['dtype']))
        if prep: x = prep(I, x)
        r = reduce(I, x, ax, lambda vs, b: comb(vs, b), kindf(x.kind))
        axs = list(range(x.nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
        if k.get('keepdims') is True:
            if not isinstance(r, Arr): r = asarr(r)
            it = []
            for j in range(x.nd): it.append(None if j in axs else slice(None))
            r = index(I, r, tuple(it))
        if post: r = post(I, r, x, axs)
        return r
    return g
tobi = lambda I, x: elementwise(I, lambda b: ite(b, 1, 0), [x], 'i') if x.kind == 'b' else x
M['numpy.sum'] = M['ndarray.sum'] = M['numpy.nansum'] = red(sum_comb, lambda k: k, tobi)
def _cnt(x, axs):
    n = ONE
    for j in axs: n = n*size(x.axes[j])
    return n
M['numpy.mean'] = M['ndarray.mean'] = M['numpy.nanmean'] = red(sum_comb, lambda k: kmax(k, 'r'), tobi, lambda I, r, x, axs: I.binop(ast.Div, r, _cnt(x, axs)))
def _var(I, a, k):
    only(k, 'axis', 'ddof')
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', None); dd = k.get('ddof', 0)
    m = M['numpy.mean'](I, [x], dict(axis=ax, keepdims=True))
    d = I.binop(ast.Sub, x, m)
    sq = elementwise(I, lambda v: re(v*conj(v)), [d], 'r')
    s = M['numpy.sum'](I, [sq], dict(axis=ax))
    axn = intaxis(I, ax, x.nd)
    axs = list(range(x.nd)) if axn is None else [axn] if isinstance(axn, int) else list(axn)
    return I.binop(ast.Div, s, _cnt(x, axs) - to(dd))
M['numpy.var'] = M['numpy.nanvar'] = M['ndarray.var'] = _var
def _std(I, a, k):
    v = _var(I, a, k); return M['numpy.sqrt'](I, [v], {})
M['numpy.std'] = M['ndarray.std'] = _std
@model('numpy.prod', 'ndarray.prod')
def _prod(I, a, k):
    v = a[0]
    if isinstance(v, (tuple, ListV)) and not (isinstance(v, ListV) and isinstance(v.st, SymSeq)):
        r = ONE; items = conc(I, v)
        for x in items: r = r*to(scal(x))
        c = r.const()
        return int(c) if c is not None and c.denominator == 1 and all(isinstance(x, int) for x in items) else r
    if isinstance(v, NUM): return v
    if isinstance(v, Arr):
        r = ONE
        for x in I.concrete_list(v): r = r*to(x)
        return r
    raise Unsupported('prod')
def extreme(kind):
    """max/min: contract with a quantified fact, instantiated on demand"""
    def g(I, a, k):
        only(k, 'axis', 'initial', 'keepdims')
        v = a[0]
        if isinstance(v, (tuple, ListV)) and not (isinstance(v, ListV) and isinstance(v.st, SymSeq)):
            items = conc(I, v)
            if all(isinstance(x, NUM) for x in items): return M['builtins.' + kind](I, [ListV(items)], {})
        x = A_(I, v); ax = intaxis(I, arg(a, k, 1, 'axis', None), x.nd)
        ax = list(range(x.nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
        f = x.snap(); keep = [j for j in range(x.nd) if j not in ax]
        off, kk = [], 0
        for q in x.axes: off.append(kk); kk += len(q)
        t = sorted_tensor(f, x.factors())
        if t is not None:
            I.ob(f'{kind} of an array that is not empty', ge(x.factors()[0], 1))
            return el(t, [ZERO if kind == 'max' else x.factors()[0] - 1])
        sk = extreme_tensor(I, x, ax, keep, kind, f, off, kk)
        axes = [x.axes[j] for j in keep]
        if not axes: return sk([])
        return mkarr(axes, sk, x.kind)
    return g
def sorted_tensor(f, dims):
    """(tensor, length) of a vector that is a spectrum in descending order"""
    if len(dims) != 1: return None
    i = fresh('x'); p = to(f([i])); a = the(p)
    if a is None or a.kind != 'el' or not a.key[2].info.get('desc') or a.key[3] != (i,): return None
    return a.key[2]
def extreme_tensor(I, x, ax, keep, kind, f, off, nf):
    """m(enclosing loop variables, keep idx) with: exists attained index; bounds every element (a lemma that contracts instantiate)"""
    dims = [d for j in ax for d in x.axes[j]]
    kd = [d for j in keep for d in x.axes[j]]
    ph = [fresh('x') for _ in kd + dims]
    def spread(ix):
        out = [None]*nf; p = 0
        for j in list(keep) + list(ax):
            for i in range(len(x.axes[j])): out[off[j]+i] = ix[p]; p += 1
        return out
    val = to(f(spread(ph)))
    deps = []
    for v in list(I.loopvars) + list(I.compvars):
        if v not in deps and (the(v) in val.fv or any(the(v) in to(d).fv for d in dims)): deps.append(v)
    nl = len(deps); nk = nl + len(kd)
    src = [the(v) for v in deps] + [the(v) for v in ph]
    def entry(kidx, ridx): return subst(val, dict(zip(src, map(to, list(kidx) + list(ridx)))))
    def at_(ds, kidx): return [subst(to(d), dict(zip(src[:nl], map(to, kidx[:nl])))) for d in ds] if nl else ds
    t, *wit = I.derive(kind, [(kind, x.kind, nk)] + [(f'arg{kind}', 'i', nk)]*len(dims), deps + ph, [val] + dims + kd)
    cmp_ = (lambda a, b: ge(a, b)) if kind == 'max' else (lambda a, b: le(a, b))
    def lemma(kidx, ridx):
        """bounds of the element (kidx, ridx)"""
        rng = And(*[And(ge(i, 0), lt(i, d)) for i, d in zip(list(kidx)[nl:] + list(ridx), at_(kd + dims, kidx))])
        return T.Implies(rng, cmp_(el(t, kidx), entry(kidx, ridx)))
    def attained(kidx):
        w = [el(q, kidx) for q in wit]
        D = at_(dims, kidx)
        ne_ = And(*[gt(d, 0) for d in D]); rng = And(*[And(ge(i, 0), lt(i, d)) for i, d in zip(w, D)])
        return T.Implies(And(ne_, *[And(ge(i, 0), lt(i, d)) for i, d in zip(list(kidx)[nl:], at_(kd, kidx))]), And(rng, eq(el(t, kidx), entry(kidx, w))))
    def rows(ev, kidx):
        import itertools
        old = dict(ev.loc)
        for v, i in zip(src[:nl], kidx): ev.loc[v] = int(i)
        try:
            ns = [ev.i(d) for d in dims]
            if any(n <= 0 for n in ns): raise ValueError('extreme of an empty array')
            kx = [to(int(q)) for q in kidx]
            best = None
            for r in itertools.product(*map(range, ns)):
                v = ev.p(entry(kx, [to(q) for q in r]))
                if isinstance(v, complex): v = v.real
                if best is None or (v > best[0] if kind == 'max' else v < best[0]): best = (v, r)
        finally: ev.loc.clear(); ev.loc.update(old)
        return best
    t.info['num'] = lambda ev, idx: rows(ev, idx)[0]
    for j, q in enumerate(wit): q.info['num'] = (lambda j: lambda ev, idx: rows(ev, idx)[1][j])(j)
    I.extremes.append(dict(tensor=t, kind=kind, lemma=lemma, attained=attained, nk=nk, nr=len(dims), wit=wit, deps=deps))
    if nk == 0: I.facts = I.facts.child(attained([]))
    return lambda idx: el(t, deps + list(idx))
for nm in ('max', 'min'):
    for q in (f'numpy.{nm}', f'numpy.a{nm}', f'numpy.nan{nm}', f'ndarray.{nm}'): M[q] = extreme(nm)
def argext(kind):
    def g(I, a, k):
        only(k, 'axis')
        v = a[0]
        if isinstance(v, (tuple, ListV)) and not (isinstance(v, ListV) and isinstance(v.st, SymSeq)):
            items = [to(scal(x)) for x in conc(I, v)]
            if not items: raise PyRaise('ValueError', 'attempt to get argmax of an empty sequence')
            best, bi = items[0], ZERO
            for j, x in enumerate(items[1:], 1):
                c = gt(x, best) if kind == 'max' else lt(x, best)
                d = I.facts.decide(c)
                if d is None and not I.generic: d = I.decide(c)
                if d is None: best, bi = ite(c, x, best), ite(c, j, bi)
                elif d: best, bi = x, to(j)
            c = bi.const()
            return int(c) if c is not None else bi
        x = A_(I, v)
        if arg(a, k, 1, 'axis', None) is not None and x.nd > 1: raise Unsupported('argmin along an axis')
        f = x.snap(); dims = x.factors(); off, kk = [], 0
        for q in x.axes: off.append(kk); kk += len(q)
        sk = extreme_tensor(I, x, list(range(x.nd)), [], kind, f, off, kk)
        w = [el(q, I.extremes[-1]['deps']) for q in I.extremes[-1]['wit']]
        I.facts = I.facts.child(*[And(ge(i, 0), lt(i, d)) for i, d in zip(w, dims)])
        r = ZERO
        for i, d in zip(w, dims): r = r*d + i
        return r
    return g
M['numpy.argmax'] = argext('max'); M['numpy.argmin'] = argext('min'); M['numpy.nanargmin'] = M['numpy.argmin']; M['ndarray.argmin'] = M['numpy.argmin']; M['ndarray.argmax'] = M['numpy.argmax']
@model('numpy.unravel_index')
def _unravel(I, a, k):
    p = to(scal(a[0])); shp = shape_of(I, a[1]); out = []
    for j in range(len(shp)):
        m = ONE
        for d in shp[j+1:]: m = m*d
        if j == len(shp)-1: out.append(p)
        else: q = I.idiv(p, m); out.append(q); p = p - q*m
    return tuple(out)
@model('numpy.linalg.norm')
def _norm(I, a, k):
    only(k, 'axis', 'ord')
    x = A_(I, a[0]); o = arg(a, k, 1, 'ord', None); ax = k.get('axis')
    if o in (None, 2) and (ax is None or x.nd == 1) and not (o == 2 and x.nd == 2):
        s = M['numpy.sum'](I, [elementwise(I, lambda v: re(v*conj(v)), [x], 'r')], {}); return sqrt(s)
    if o in (None, 2) and isinstance(ax, int):
        s = M['numpy.sum'](I, [elementwise(I, lambda v: re(v*conj(v)), [x], 'r')], dict(axis=ax)); return M['numpy.sqrt'](I, [s], {})
    if o == 1 and x.nd == 1: return M['numpy.sum'](I, [M['numpy.abs'](I, [x], {})], {})
    raise Unsupported('norm')
@model('numpy.dot', 'numpy.matmul', 'ndarray.dot')
def _dot(I, a, k):
    only(k)
    x, y = A_(I, a[0]), A_(I, a[1])
    if x.nd == 0 or y.nd == 0: return I.binop(ast.Mult, x, y)
    return I.matmul(x, y)
@model('numpy.outer')
def _outer(I, a, k):
    x, y = A_(I, a[0]), A_(I, a[1])
    return I.binop(ast.Mult, index(I, x, (slice(None), None)), index(I, y, (None, slice(None))))
@model('numpy.vdot')
def _vdot(I, a, k):
    x, y = A_(I, a[0]), A_(I, a[1])
    return M['numpy.sum'](I, [I.binop(ast.Mult, M['numpy.conj'](I, [x], {}), y)], {})
@model('numpy.inner')
def _inner(I, a, k): 
    x, y = A_(I, a[0]), A_(I, a[1])
    if x.nd == y.nd == 1: return contract(I, x, y, 0, 0)
    raise Unsupported('inner')
@model('numpy.tensordot')
def _tdot(I, a, k):
    x, y = A_(I, a[0]), A_(I, a[1]); ax = arg(a, k, 2, 'axes', 2)
    if isinstance(ax, int) and ax == 1: return contract(I, x, y, x.nd-1, 0)
    if isinstance(ax, (tuple, ListV)):
        p, q = conc(I, ax)
        p = conc(I, p) if isinstance(p, (tuple, ListV)) else [p]; q = conc(I, q) if isinstance(q, (tuple, ListV)) else [q]
        if len(p) == 1: return contract(I, x, y, I.cint(p[0]) % x.nd, I.cint(q[0]) % y.nd)
    elif isinstance(ax, int): p, q = list(range(x.nd - ax, x.nd)), list(range(ax))
    else: raise Unsupported('tensordot')
    if len(p) != len(q): raise PyRaise('ValueError', 'shape-mismatch for sum')
    L = 'abcdefghijklmnopqrstuvwxyz'; sx = list(L[:x.nd]); sy = list(L[x.nd:x.nd + y.nd]); p = [I.cint(v) % x.nd for v in p]; q = [I.cint(v) % y.nd for v in q]
    for u, v in zip(p, q): sy[v] = sx[u]
    out = [s for i, s in enumerate(sx) if i not in p] + [s for i, s in enumerate(sy) if i not in q]
    return _einsum(I, [''.join(sx) + ',' + ''.join(sy) + '->' + ''.join(out), x, y], {})
@model('numpy.einsum')
def _einsum(I, a, k):
    only(k, 'optimize')
    spec = a[0].replace(' ', ''); ops = [A_(I, x) for x in a[1:]]
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    # ellipsis
    maxel = 0
    for s, x in zip(ins, ops):
        if '...' in s: maxel = max(maxel, x.nd - len(s) + 3)
    EL = 'αβγδεζη'[:maxel]
    ins2 = []
    for s, x in zip(ins, ops):
        if '...' in s:
            n = x.nd - len(s) + 3; s = s.replace('...', EL[maxel-n:])
        ins2.append(s)
    if '->' not in spec:
        allc = ''.join(ins2); out = EL + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in EL))
    out = out.replace('...', EL)
    ax = {}
    for s, x in zip(ins2, ops):
        if len(s) != x.nd: raise PyRaise('ValueError', 'einsum operand')
        for c, q in zip(s, x.axes):
            if c not in ax or is_one(ax[c]) and not is_one(q): ax[c] = q
            elif not axis_eq(I, ax[c], q) and not is_one(q):
                d = dim_eq(I, size(ax[c]), size(q))
                if d is None: I.ob('einsum dimensions agree', eq(size(ax[c]), size(q)), I, kind='shape')
                if d is not True: raise Unsupported('einsum dimensions')
                if len(q) > len(ax[c]): ax[c] = q
    order = out + ''.join(c for c in ax if c not in out)
    rs = []
    for s, x in zip(ins2, ops):
        axes = [ax[c] for c in s]
        rs.append((s, reader(I, x, axes)))
    summed = [c for c in ax if c not in out]
    def e(idx):
        loc = {}; p = 0
        for c in out: loc[c] = list(idx[p:p+len(ax[c])]); p += len(ax[c])
        vs = []
        for c in summed:
            loc[c] = [fresh('r') for _ in ax[c]]; vs += list(zip(loc[c], ax[c]))
        r = ONE
        for s, f in rs: r = r*f([i for c in s for i in loc[c]])
        return sum_comb(vs, r)
    kd = kmax(*[x.kind for x in ops])
    if not out: return e([])
    return mkarr([ax[c] for c in out], e, kd)
@model('numpy.trace')
def _trace(I, a, k): return _einsum(I, ['ii->', a[0]], {})
@model('numpy.diag')
def _diag(I, a, k):
    x = A_(I, a[0])
    if x.nd == 1:
        if len(x.axes[0]) != 1: raise Unsupported('diag')
        f = x.snap(); return mkarr([x.axes[0], x.axes[0]], lambda i: ite(eq(i[0], i[1]), f([i[0]]), 0), x.kind)
    f = x.snap(); return mkarr([x.axes[0]], lambda i: f([i[0], i[0]]), x.kind)
@model('numpy.cumsum')
def _cumsum(I, a, k):
    v = a[0]
    if isinstance(v, (ListV, tuple)) and not (isinstance(v, ListV) and isinstance(v.st, SymSeq)):
        out, s = [], to(0)
        for x in conc(I, v): s = s + to(scal(x)); out.append(s)
        return M['numpy.array'](I, [ListV(out)], {})
    x = A_(I, v)
    if x.nd != 1 or len(x.axes[0]) != 1: raise Unsupported('cumsum')
    f = x.snap()
    def e(i):
        w = fresh('r'); return summ(w, 0, to(i[0]) + 1, f([w]))
    return mkarr(x.axes, e, x.kind)

def _constants(I, v, what):
    """the values of a 1-d array of constants"""
    x = A_(I, v); n = x.sizes()[0].const() if x.nd == 1 else None
    c = [x.at([to(i)]).const() for i in range(int(n))] if n is not None and x.kind in 'ir' else [None]
    if None in c: raise Unsupported(f'{what} of values that are not constants')
    return c
@model('numpy.unique')
def _unique(I, a, k):
    only(k)
    c = sorted(set(_constants(I, a[0], 'unique')))
    return M['numpy.array'](I, [ListV([to(x) for x in c])], {})
@model('numpy.sort')
def _sort(I, a, k):
    only(k)
    c = sorted(_constants(I, a[0], 'sort'))
    return M['numpy.array'](I, [ListV([to(x) for x in c])], {})

# --------------------------------------------------------------- attributes
def _shape(I, x):
    out = []
    for s in x.sizes():
        c = s.const(); out.append(int(c) if c is not None else s)
    return tuple(out)
M['ndarray.shape@get'] = _shape
M['numpy.shape'] = lambda I, a, k: _shape(I, A_(I, a[0]))
M['ndarray.ndim@get'] = lambda I, x: x.nd
M['numpy.ndim'] = lambda I, a, k: A_(I, a[0]).nd
M['ndarray.size@get'] = lambda I, x: size(x.sizes())
@model('numpy.size')
def _size(I, a, k):
    x = A_(I, a[0]); ax = arg(a, k, 1, 'axis', None)
    return size(x.sizes()) if ax is None else x.sizes()[I.cint(ax)]
M['ndarray.dtype@get'] = lambda I, x: DType(x.kind, isinstance(x, Arr) and x.buf.single, isinstance(x, Arr) and x.buf.swapped)
M['ndarray.nbytes@get'] = lambda I, x: size(x.sizes())*8
@model('ndarray.item')
def _item(I, a, k): return scal(a[0]) if len(a) == 1 and a[0].nd == 0 else a[0].at([ZERO]*len(a[0].factors()))
@model('ndarray.tolist')
def _tolist(I, a, k): return ListV(I.concrete_list(a[0]))
@model('ndarray.view')
def _view(I, a, k):
    d = I.dt(a[1]) if len(a) > 1 else None
    if d is not None and d != kind_of(a[0]): raise Unsupported('view with another type')
    if d is not None and isinstance(a[0], Arr) and getattr(a[1], 'swapped', False) != a[0].buf.swapped:        # the same bytes, read in the other order
        x = a[0]; f = x.snap(); k_ = x.kind if x.kind in 'rc' else 'r'
        r = mkarr(x.axes, lambda i: T.fn('bytes read in the other order', [f(i)], sort=k_), x.kind); r.raw_of = x
        return r
    return a[0]
@model('dtype.newbyteorder')
def _nbo(I, a, k):
    o = a[1] if len(a) > 1 else k.get('new_order', 'S')
    if o in ('=', 'N', '|', 'native', '<', 'L', 'little'): return DType(a[0].kind, a[0].single)            # little-endian machines
    if o in ('>', 'B', 'big'): return DType(a[0].kind, a[0].single, True)
    return DType(a[0].kind, a[0].single, not a[0].swapped)
@model('numpy.result_type', 'numpy.promote_types')
def _rt(I, a, k):
    ks = []
    for x in a:
        kd = I.dt(x)
        if kd is None: kd = kind_of(I.arrlike(x))
        ks.append(kd)
    return DType(kmax(*ks))
@model('numpy.issubdtype')
def _issub(I, a, k):
    x = I.dt(a[0]); t = a[1]
    n = t.name if hasattr(t, 'name') else str(t)
    if x is None: raise Unsupported('issubdtype')
    if n.endswith('complexfloating') or n.endswith('complex') or 'complex' in n: return x == 'c'
    if n.endswith('floating') or 'float' in n: return x == 'r'
    if n.endswith('integer') or 'int' in n: return x == 'i'
    if n.endswith('inexact'): return x in 'rc'
    raise Unsupported('issubdtype')
@model('numpy.dtype')
def _dtype(I, a, k):
    kd = I.dt(a[0])
    if kd is None: raise Unsupported('dtype')
    return DType(kd)
for nm, kd in DT.items():
    if ('numpy.' + nm) not in M: M['numpy.' + nm] = (lambda kd: lambda I, a, k: I.cast(a[0] if a else 0, kd) if not (a and isinstance(a[0], Arr) and a[0].nd) else cast_arr(I, a[0], kd))(kd)
M['numpy.newaxis'] = None
M['numpy.s_'] = Obj('np.s_')
M['numpy.inf'] = Opaque('inf')
@model('numpy.real_if_close')
def _ric(I, a, k): raise Unsupported('real_if_close')
@model('numpy.errstate')
def _errstate(I, a, k): return Opaque('errstate')
M['numpy.seterr'] = lambda I, a, k: None
M['numpy.set_printoptions'] = lambda I, a, k: None

# ------------------------------------------------------------------- fft
def dftW(n, k, t): return T.fn('W', [n, k, t], 'c')
def _fft(real):
    def g(I, a, k):
        only(k, 'axis', 'n')
        x = A_(I, a[0]); ax = I.cint(arg(a, k, 2, 'axis', -1)) % x.nd
        if arg(a, k, 1, 'n', None) is not None:
            nn = to(scal(arg(a, k, 1, 'n')))
            if dim_eq(I, nn, size(x.axes[ax])) is not True: raise Unsupported('padded fft')
        if len(x.axes[ax]) != 1: raise Unsupported('fft of a merged axis')
        n = size(x.axes[ax]); f = x.snap(); pos = sum(len(q) for q in x.axes[:ax])
        if real and x.kind == 'c': raise PyRaise('TypeError', 'rfft of complex data')
        def e(idx):
            idx = list(idx); kk = idx[pos]; t = fresh('t'); idx[pos] = t
            return summ(t, 0, n, f(idx)*dftW(n, kk, t))
        axes = list(x.axes)
        if real: axes[ax] = (idiv(n, 2) + 1,)
        return mkarr(axes, e, 'c')
    return g
M['numpy.fft.fft'] = M['scipy.fft.fft'] = M['scipy.fftpack.fft'] = _fft(False)
M['numpy.fft.rfft'] = M['scipy.fft.rfft'] = _fft(True)
# ------------------------------------------------------------------- time, os
@model('time.time', 'time.perf_counter')
def _time(I, a, k): return var('clock', 'r')
@model('os.getcwd')
def _cwd(I, a, k): return mkstr([(var('cwd', 'r'), 'cwd')])
@model('os.path.join')
def _pjoin(I, a, k):
    out = []
    for i, x in enumerate(a):
        if i: out.append('/')
        if isinstance(x, Opaque): x = mkstr([(var('path:' + x.name, 'r'), 'path')])
        out.append(x)
    return mkstr(out)
@model('os.path.dirname', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath')
def _pfun(I, a, k): return a[0]
@model('numpy.require')
def _require(I, a, k): return a[0]


@model('numpy.finfo')
def _finfo(I, a, k):
    n = getattr(a[0], 'name', None) if a else None
    if n and n.endswith(('32', 'single', 'complex64')): return Obj('$finfo', dict(eps=to(T.Fr(1, 2**23))))
    return Obj('$finfo', dict(eps=to(T.Fr(1, 2**52))))


@model('os.path.splitext')
def _splitext(I, a, k):
    p = a[0]
    if isinstance(p, str):
        import os.path
        return os.path.splitext(p)
    last = p.parts[-1]
    if not isinstance(last, str) or '.' not in last or '/' in last[last.rfind('.'):]: raise Unsupported(f'extension of {p}')
    i = last.rfind('.')
    return (mkstr(list(p.parts[:-1]) + ([last[:i]] if i else [])), last[i:])


@model('numpy.meshgrid')
def _meshgrid(I, a, k):
    only(k, 'indexing')
    xs = [A_(I, x) for x in a]
    if any(x.nd != 1 or len(x.axes[0]) != 1 for x in xs): raise Unsupported('meshgrid')
    ij = k.get('indexing', 'xy')
    if ij not in ('ij', 'xy'): raise PyRaise('ValueError', 'indexing')
    order = list(range(len(xs)))
    if ij == 'xy' and len(xs) > 1: order[0], order[1] = 1, 0
    axes = [xs[o].axes[0] for o in order]
    def one(j):
        f = xs[j].snap(); p = order.index(j)
        return mkarr(axes, lambda i: f([i[p]]), xs[j].kind)
    return ListV([one(j) for j in range(len(xs))])
