"""Runtime values of the pyvc interpreter: journaled heap objects, arrays with views."""
from .term import *
from .prover import Facts, prove_eq

class Unsupported(Exception):
    """the code leaves the subset the verifier understands (never a violation)"""
class PyRaise(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, typ, msg='', node=None):
        super().__init__(f'{typ}: {msg}'); self.typ, self.msg, self.node = typ, msg, node


class Heap:
    """journal of all mutations"""
    def __init__(self): self.log = []
    def set(self, ref, st):
        self.log.append((ref, ref.st)); ref.st = st
    def mark(self): return len(self.log)
    def undo(self, mark):
        while len(self.log) > mark:
            r, st = self.log.pop(); r.st = st
    def changed(self, mark):
        """refs changed since mark -> state at mark"""
        d = {}
        for r, st in self.log[mark:]:
            d.setdefault(id(r), (r, st))
        return [(r, st) for r, st in d.values()]


_born = [0]
class Ref:
    st = None
    det = False          # a copy of an entry of a symbolic container: writes to it would be lost
    def __new__(cls, *a, **k):
        o = object.__new__(cls); _born[0] += 1; o.born = _born[0]
        return o


class Frame(Ref):
    def __init__(self, d=None): self.st = d or {}
class Obj(Ref):
    def __init__(self, cls, attrs=None, name=None): self.cls, self.st, self.name = cls, dict(attrs or {}), name
    def __repr__(self): return f'<{self.cls}>'
class ListV(Ref):
    """st: tuple of items, or SymSeq"""
    def __init__(self, items=()): self.st = items if isinstance(items, SymSeq) else tuple(items)
    def __repr__(self): return f'ListV{self.st}'
class SymSeq:
    """a sequence of symbolic length: item(i) for 0 <= i < n"""
    def __init__(self, n, item, ops=()): self.n, self.item, self.ops = to(n), item, tuple(ops)
class DictV(Ref):
    """st: python dict; symbolic ranges of keys under SYM: list of (lo, hi, fn)"""
    def __init__(self, d=None): self.st = dict(d or {})
    def __repr__(self): return f'DictV{self.st}'
SYM = '$sym'


class SymStr:
    """string with symbolic parts"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr): ps = p.parts
            else: ps = (p,)
            for q in ps:
                if isinstance(q, tuple) and q[1] in ('', 'd') and hasattr(q[0], 'const') and q[0].sort == 'i' and q[0].const() is not None: q = str(int(q[0].const()))
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                else: out.append(q)
        self.parts = tuple(out)
    def __eq__(self, o): return isinstance(o, SymStr) and self.parts == o.parts
    def __hash__(self): return hash(self.parts)
    def __repr__(self): return 'f"' + ''.join(p if isinstance(p, str) else '{' + f'{p[0]}:{p[1]}' + '}' for p in self.parts) + '"'
def mkstr(parts):
    s = SymStr(parts)
    if not s.parts: return ''
    return s.parts[0] if len(s.parts) == 1 and isinstance(s.parts[0], str) else s


class Opaque:
    """an object without meaning for the property (logger, path, module attribute)"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f'<opaque {self.name}>'
class Poison:
    """placeholder of a loop-local value; reading it means that the variable is loop-carried"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f'<poison {self.name}>'
class PoisonRead(Exception):
    def __init__(self, name): super().__init__(name); self.name = name


class DType:
    def __init__(self, kind, single=False, swapped=False): self.kind = kind; self.single = single; self.swapped = swapped      # 'b' 'i' 'r' 'c'; single precision; not in the byte order of the machine
    def __eq__(self, o): return isinstance(o, DType) and o.kind == self.kind and o.single == self.single and o.swapped == self.swapped
    def __hash__(self): return hash(self.kind)
    def __repr__(self): return f'dtype({self.kind}{"4" if self.single else ""}{", swapped" if self.swapped else ""})'


class Buf(Ref):
    """storage: st = (primitive dims, element function, content independent of the index?)"""
    n = 0
    def __init__(self, dims, elem, kind, name=None, const=False):
        self.st = (tuple(to(d) for d in dims), elem, const); self.kind = kind
        Buf.n += 1; self.name = name or f'buf{Buf.n}'; self.users = []; self.single = False; self.swapped = False     # single: given in single precision; swapped: not in the byte order of the machine
    @property
    def dims(self): return self.st[0]
    @property
    def elem(self): return self.st[1]
    @property
    def const(self): return self.st[2]


def size(axis):
    r = ONE
    for d in axis: r = r*d
    return r


class Arr(Ref):
    """st = (buf, view, axes).  axes: tuple of axes, an axis is a tuple of factor dims.
    view: per base dimension (start, ((factor index, stride), ...))."""
    def __init__(self, buf, view, axes):
        self.st = (buf, tuple(view), tuple(tuple(a) for a in axes)); buf.users.append(self)
    @property
    def buf(self): return self.st[0]
    @property
    def view(self): return self.st[1]
    @property
    def axes(self): return self.st[2]
    @property
    def kind(self): return self.st[0].kind
    @property
    def nd(self): return len(self.st[2])
    def sizes(self): return [size(a) for a in self.axes]
    def factors(self): return [d for a in self.axes for d in a]
    def base(self, idx):
        out = []
        for start, terms in self.view:
            b = start
            for j, s in terms: b = b + idx[j]*s
            out.append(b)
        return out
    def at(self, idx):
        """element at a flat factor index list"""
        return self.buf.elem(self.base(idx))
    def snap(self):
        """element function of the present content"""
        f = self.buf.elem
        buf, view, axes = self.st
        def g(idx):
            out = []
            for start, terms in view:
                b = start
                for j, s in terms: b = b + idx[j]*s
                out.append(b)
            return f(out)
        return g
    def __repr__(self): return f'Arr{[str(size(a)) for a in self.axes]}:{self.kind}:{self.buf.name}'


def mkarr(axes, elem, kind, name=None, const=False):
    """fresh array; elem takes the flat factor index list"""
    axes = tuple(tuple(to(d) for d in (a if isinstance(a, (tuple, list)) else (a,))) for a in axes)
    fs = [d for a in axes for d in a]
    return Arr(Buf(fs, elem, kind, name, const), [(ZERO, ((j, ONE),)) for j in range(len(fs))], axes)


def tensor_arr(t, dims, kind=None):
    """array whose content is the uninterpreted tensor t"""
    return mkarr([(d,) for d in dims], lambda idx: el(t, idx), kind or {'i': 'i', 'r': 'r', 'c': 'c'}[t.sort], t.name)


def split_by_axes(axes, flat):
    out, k = [], 0
    for a in axes:
        out.append(list(flat[k:k+len(a)])); k += len(a)
    return out


def kmax(*ks):
    o = 'birc'
    return max(ks, key=o.index)


def kind_of(v):
    if isinstance(v, Arr): return v.kind
    if isinstance(v, bool) or isinstance(v, B): return 'b'
    if isinstance(v, int): return 'i'
    if isinstance(v, float): return 'r'
    if isinstance(v, complex): return 'c'
    if isinstance(v, P): return v.sort
    raise Unsupported(f'kind of {type(v).__name__}')


def vmap(v, f):
    """apply f (P -> P, B -> B) to a value; arrays/containers are rebuilt"""
    if isinstance(v, (P, B)): return f(v)
    if isinstance(v, tuple): return tuple(vmap(x, f) for x in v)
    if isinstance(v, SymStr): return mkstr([p if isinstance(p, str) else (vmap(p[0], f), p[1]) for p in v.parts])
    if isinstance(v, Arr):
        axes = tuple(tuple(f(d) for d in a) for a in v.axes)
        e = v.snap()
        n = len(v.factors())
        cache = []
        def g(idx):
            # evaluated at fresh indices and substituted afterwards, so that the indices are not captured by f
            if not cache:
                fr = [fresh('q') for _ in range(n)]
                cache.append(([the(a) for a in fr], f(e(fr))))
            fr, t = cache[0]
            return subst(t, dict(zip(fr, map(to, idx))))
        r = mkarr(axes, g, v.kind, v.buf.name); r.buf.det = True
        return r
    if isinstance(v, ListV):
        if isinstance(v.st, SymSeq):
            q = v.st
            return detached(ListV(SymSeq(f(q.n), lambda i: vmap_at(q.item, i, f))))
        return detached(ListV(tuple(vmap(x, f) for x in v.st)))
    if isinstance(v, DictV):
        d = {k: vmap(x, f) for k, x in v.st.items() if k != SYM}
        if SYM in v.st: d[SYM] = [(f(lo), f(hi), (lambda fn: lambda i: vmap_at(fn, i, f))(fn)) for lo, hi, fn in v.st[SYM]]
        return detached(DictV(d))
    return v


def detached(r): r.det = True; return r


def family(v, rng):
    """rng: [(variable atom, lo, count)].  Function of the variables' values returning the entry of a family of values;
    the arrays of all entries share one buffer, so that a write to one entry is seen by later reads of that entry"""
    vs = [a for a, _, _ in rng]
    def fn(*i): return vsubst(v, dict(zip(vs, map(to, i))))
    if isinstance(v, Arr):
        if any(a in d.fv for x in v.axes for d in x for a in vs) or any(a in to(n).fv or a in to(lo).fv for _, lo, n in rng for a in vs): return fn
        fs_ = v.factors(); k = len(rng); e = v.snap(); cache = []
        def elem(idx):
            if not cache:
                fr = [fresh('q') for _ in fs_]; cache.append(([the(x) for x in fr], e(fr)))
            fr, t = cache[0]
            s = dict(zip(fr, map(to, idx[k:]))); s.update({a: lo + to(i) for (a, lo, _), i in zip(rng, idx)})
            return subst(t, s)
        const = v.buf.const and not any(a in e([ZERO]*len(fs_)).fv for a in vs)
        buf = Buf([n for _, _, n in rng] + fs_, elem, v.kind, v.buf.name, const)
        axes = v.axes
        return lambda *i: Arr(buf, [(to(x) - lo, ()) for x, (_, lo, _) in zip(i, rng)] + [(ZERO, ((j, ONE),)) for j in range(len(fs_))], axes)
    if isinstance(v, tuple):
        q = [family(x, rng) for x in v]; return lambda *i: tuple(x(*i) for x in q)
    def inner(lo, n, item):
        w = fresh('w')
        if any(a in to(x).fv for a in vs for x in (lo, n)): return lambda *i: fn_at(item, vs, i)
        q = family(item(w), rng + [(the(w), to(lo), to(n))])
        return lambda *i: (lambda j: q(*i, j))
    def fn_at(item, vs, i):
        s = dict(zip(vs, map(to, i)))
        return lambda j: vmap_at(item, j, lambda p: subst(p, s))
    if isinstance(v, ListV):
        if isinstance(v.st, SymSeq):
            q = v.st; g = inner(ZERO, q.n, q.item)
            return lambda *i: detached(ListV(SymSeq(subst(q.n, dict(zip(vs, map(to, i)))), g(*i))))
        q = [family(x, rng) for x in v.st]; return lambda *i: detached(ListV([x(*i) for x in q]))
    if isinstance(v, DictV):
        plain = {k: family(x, rng) for k, x in v.st.items() if k not in (SYM, '$ops', '$del')}
        sym = [(lo, hi, inner(lo, hi - lo, f)) for lo, hi, f in v.st.get(SYM, [])]
        def get(*i):
            s = dict(zip(vs, map(to, i)))
            d = {k: x(*i) for k, x in plain.items()}
            if sym: d[SYM] = [(subst(lo, s), subst(hi, s), g(*i)) for lo, hi, g in sym]
            return detached(DictV(d))
        return get
    return fn


def vmap_at(item, i, f):
    w = fresh('q')
    x = vmap(item(w), f)
    return vmap(x, lambda p: subst(p, {the(w): to(i)}))


def vsubst(v, s): return vmap(v, lambda p: subst(p, s))


def mentions(v, a):
    """does the value mention variable atom a"""
    if isinstance(v, (P, B)): return a in v.fv
    if isinstance(v, tuple): return any(mentions(x, a) for x in v)
    if isinstance(v, SymStr): return any(mentions(p[0], a) for p in v.parts if not isinstance(p, str))
    if isinstance(v, Arr):
        if any(a in d.fv for x in v.axes for d in x): return True
        return a in v.at([fresh('q') for _ in v.factors()]).fv
    if isinstance(v, ListV):
        if isinstance(v.st, SymSeq): return a in v.st.n.fv or mentions(v.st.item(fresh('q')), a)
        return any(mentions(x, a) for x in v.st)
    if isinstance(v, DictV): return any(mentions(x, a) for k, x in v.st.items() if k != SYM)
    return False
