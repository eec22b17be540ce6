"""pyvc term kernel: polynomials over interned atoms, conditions, substitution.

A value is a polynomial P: {monomial: rational}; a monomial is a tuple of
(atom, exponent).  Atoms are variables, tensor elements, finite sums,
conditionals, reciprocals, square roots, ... Everything is exact real/complex
arithmetic (machine floating point is treated as mathematical, see DESIGN.md).
"""
from fractions import Fraction as Fr
import itertools

ORD = {'b': 0, 'i': 1, 'r': 2, 'c': 3}
_atoms = {}
_fresh = itertools.count(1)


class Atom:
    __slots__ = ('key', 'id', 'sort', 'kind', 'bd', 'fv')
    def __repr__(self): return show_atom(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id


def mk(kind, sort, *args):
    key = (kind, sort) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.key = key; a.id = len(_atoms); a.sort = sort; a.kind = kind
        bd = 0; fv = set()
        if kind == 'var': fv.add(a)
        for x in args:
            if isinstance(x, (P, B)): bd = max(bd, x.bd); fv |= x.fv
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (P, B)): bd = max(bd, y.bd); fv |= y.fv
        if kind == 'sum':
            bd += 1
            fv.discard(args[0])
        a.bd = bd; a.fv = frozenset(fv)
        _atoms[key] = a
    return a


class Tensor:
    """An uninterpreted array: name, sort, number of (primitive) axes."""
    def __init__(self, name, sort, nd, **info):
        self.name, self.sort, self.nd, self.info = name, sort, nd, info
    def __repr__(self): return self.name
    def __call__(self, *idx): return el(self, idx)


class P:
    __slots__ = ('m', '_h', '_bd', '_fv', '_sort')
    def __init__(self, m):
        self.m = m; self._h = None; self._bd = None; self._fv = None; self._sort = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __bool__(self):
        c = self.const()
        if c is None: raise TypeError(f'truth value of {self}')
        return c != 0
    def __eq__(self, o):
        if not isinstance(o, P): o = to(o)
        return self is o or (hash(self) == hash(o) and self.m == o.m)
    def __ne__(self, o): return not self == o
    @property
    def bd(self):
        if self._bd is None: self._bd = max((a.bd for mono in self.m for a, e in mono), default=0)
        return self._bd
    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for mono in self.m:
                for a, e in mono: s |= a.fv
            self._fv = frozenset(s)
        return self._fv
    @property
    def sort(self):
        if self._sort is None:
            o = 1
            for mono, c in self.m.items():
                if c.denominator != 1: o = max(o, 2)
                for a, e in mono:
                    o = max(o, ORD[a.sort])
                    if e < 0: o = max(o, 2)
            self._sort = {1: 'i', 2: 'r', 3: 'c'}[o]
        return self._sort
    def const(self):
        """the rational value, or None"""
        if not self.m: return Fr(0)
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def __add__(self, o):
        o = to(o)
        if not o.m: return self
        if not self.m: return o
        r = dict(self.m)
        for k, c in o.m.items():
            v = r.get(k, 0) + c
            if v: r[k] = v
            else: r.pop(k, None)
        return P(r)
    __radd__ = __add__
    def __neg__(self): return P({k: -c for k, c in self.m.items()})
    def __sub__(self, o): return self + (-to(o))
    def __rsub__(self, o): return to(o) - self
    def __mul__(self, o):
        o = to(o)
        if len(o.m) == 1 and () in o.m: return self.scale(o.m[()])
        if len(self.m) == 1 and () in self.m: return o.scale(self.m[()])
        r = {}; extra = None
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = _mulmono(k1, k2)
                if type(k) is tuple:
                    v = r.get(k, 0) + c1*c2
                    if v: r[k] = v
                    else: r.pop(k, None)
                else:
                    k = k.scale(c1*c2); extra = k if extra is None else extra + k
        r = P(r)
        return r if extra is None else r + extra
    __rmul__ = __mul__
    def scale(self, c):
        if c == 1: return self
        if c == 0: return ZERO
        return P({k: v*c for k, v in self.m.items()})
    def __truediv__(self, o): return self*inv(to(o))
    def __rtruediv__(self, o): return to(o)*inv(self)
    def __pow__(self, n):
        r = ONE
        for _ in range(abs(n)): r = r*self
        return r if n >= 0 else inv(r)
    def __repr__(self): return show(self)


def _mulmono(a, b):
    if not a: return b
    if not b: return a
    d = dict(a); special = False
    for at, e in b:
        e2 = d.get(at, 0) + e
        if e2: d[at] = e2
        else: d.pop(at)
        if at.kind in ('imag', 'sqrt', 'abs', 'ivr'): special = True
    if not special: return tuple(sorted(d.items(), key=lambda t: t[0].id))
    out = ONE
    for at, e in list(d.items()):
        if at.kind == 'imag':
            d.pop(at); e %= 4
            out = out.scale(Fr(-1 if e >= 2 else 1))
            if e % 2: d[at] = 1
        elif at.kind == 'sqrt' and abs(e) >= 2:
            q, r = divmod(e, 2); d.pop(at)
            if r: d[at] = r
            out = out*(at.key[2]**q if q > 0 else inv(at.key[2]**(-q)))
        elif at.kind == 'abs' and abs(e) >= 2:
            q, r = divmod(e, 2); d.pop(at)
            if r: d[at] = r
            x = at.key[2]*conj(at.key[2])
            out = out*(x**q if q > 0 else inv(x**(-q)))
    k = tuple(sorted(d.items(), key=lambda t: t[0].id))
    if out is ONE or out == ONE: return k
    return out*P({k: Fr(1)})


def to(x):
    if isinstance(x, P): return x
    if isinstance(x, bool): return P({(): Fr(1)}) if x else ZERO
    if isinstance(x, (int, Fr)): return P({(): Fr(x)}) if x else ZERO
    if isinstance(x, float): return P({(): Fr(repr(x))}) if x else ZERO
    if isinstance(x, complex): return to(x.real) + to(x.imag)*IMAG
    if isinstance(x, Atom): return P({((x, 1),): Fr(1)})
    raise TypeError(f'no term for {x!r}')


ZERO = P({}); ONE = P({(): Fr(1)})
def at(a): return P({((a, 1),): Fr(1)})


def var(name, sort='i'): return at(mk('var', sort, name))
def fresh(base='v', sort='i'): return var(f'{base}%{next(_fresh)}', sort)
def the(p):
    """the atom of a P that is a single atom"""
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if c == 1 and len(k) == 1 and k[0][1] == 1: return k[0][0]
    return None


def el(t, idx, cj=False):
    idx = tuple(to(i) for i in idx)
    assert len(idx) == t.nd, (t, idx)
    return at(mk('el', t.sort, t, idx, bool(cj) and t.sort == 'c'))


def fn(name, args, sort='r', cj=False): return at(mk('fn', sort, name, tuple(to(a) for a in args), bool(cj) and sort == 'c'))


def inv(p):
    p = to(p); c = p.const()
    if c is not None:
        if c == 0: return at(mk('inv', 'r', p))         # some value (a case that does not arise, or one the numeric instances see)
        return to(1/c)
    if len(p.m) == 1:
        (k, c), = p.m.items()
        out = ONE
        nk = []
        for a, e in k:
            if a.kind == 'imag': out = out*to(-1)*IMAG if e == 1 else out
            else: nk.append((a, -e))
        return P({tuple(nk): 1/c})*out
    # normalise the leading coefficient so that inv(2p) = inv(p)/2
    lead = p.m[min(p.m, key=lambda k: tuple((a.id, e) for a, e in k))]
    if lead != 1: return at(mk('inv', max_sort('r', p.sort), p.scale(1/lead))).scale(1/lead)
    return at(mk('inv', max_sort('r', p.sort), p))


def max_sort(a, b): return a if ORD[a] >= ORD[b] else b


def sqrt(p):
    p = to(p); c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n*n == c.numerator and d*d == c.denominator: return to(Fr(n, d))
    return at(mk('sqrt', 'r', p))


def absv(p):
    p = to(p); c = p.const()
    if c is not None: return to(abs(c))
    if not p.m: return ZERO
    a = the(p)
    if a is not None and a.kind in ('abs', 'sqrt'): return p
    if a is not None and a.kind == 'ite': return ite(a.key[2], absv(a.key[3]), absv(a.key[4]))
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if len(k) > 1 or abs(k[0][1]) != 1 or c != 1:
            r = to(abs(c))
            for b, e in k:
                if b.kind == 'imag': continue
                x = absv(at(b)); r = r*(x**e if e > 0 else inv(x**(-e)))
            return r
        if k[0][1] == -1: return inv(absv(at(k[0][0])))
    q = -p
    if p.sort != 'c' and min(q.m, key=_mkey) is not None and q.m[min(q.m, key=_mkey)] > 0 and p.m[min(p.m, key=_mkey)] < 0: p = q
    return at(mk('abs', 'r' if p.sort != 'i' else 'i', p))
def _mkey(k): return tuple((a.id, e) for a, e in k)


def conj(p):
    p = to(p)
    if p.sort != 'c': return p
    r = ZERO
    for k, c in p.m.items():
        t = to(c)
        for a, e in k:
            x = _conj_atom(a)
            t = t*(x**e if e > 0 else inv(x**(-e)))
        r = r + t
    return r


def _conj_atom(a):
    if a.sort != 'c': return at(a)
    k = a.kind
    if k == 'imag': return -IMAG
    if k == 'el': return at(mk('el', 'c', a.key[2], a.key[3], not a.key[4]))
    if k == 'fn': return at(mk('fn', 'c', a.key[2], a.key[3], not a.key[4]))
    if k == 'sum':
        _, _, v, lo, hi, body = a.key
        return at(mk('sum', 'c', v, lo, hi, conj(body)))
    if k == 'ite': return ite(a.key[2], conj(a.key[3]), conj(a.key[4]))
    if k == 'inv': return inv(conj(a.key[2]))
    if k == 'var': return at(mk('cvar', 'c', a))
    if k == 'cvar': return at(a.key[2])
    raise ValueError('conj of ' + k)


IMAG = at(mk('imag', 'c'))
def re(p): 
    p = to(p)
    return p if p.sort != 'c' else (p + conj(p)).scale(Fr(1, 2))
def im(p):
    p = to(p)
    return ZERO if p.sort != 'c' else (p - conj(p))*(-IMAG).scale(Fr(1, 2))


def ite(c, a, b):
    a, b = to(a), to(b)
    if c is TRUE or a == b: return a
    if c is FALSE: return b
    return at(mk('ite', max_sort(a.sort, b.sort), c, a, b))


def idiv(a, b):
    a, b = to(a), to(b); x, y = a.const(), b.const()
    if x is not None and y is not None and y: return to(x//y)
    if y == 1: return a
    # exact multiples and additive multiples of a positive constant divisor
    if y is not None and y > 0 and y.denominator == 1:
        q, r = {}, {}
        for k, c in a.m.items():
            if c.denominator == 1 and c % y == 0: q[k] = c/y
            else: r[k] = c
        if q: return P(q) + idiv(P(r), b)
    return at(mk('idiv', 'i', a, b))


def imod(a, b):
    a, b = to(a), to(b); x, y = a.const(), b.const()
    if x is not None and y is not None and y: return to(x % y)
    return a - b*idiv(a, b)


def floor(p):
    p = to(p)
    if p.sort == 'i': return p
    c = p.const()
    if c is not None: return to(c.numerator//c.denominator)
    # floor(int/int) -> integer division when the value is one fraction
    q = as_fraction(p)
    if q is not None: return idiv(*q)
    return at(mk('floor', 'i', p))
def ceil(p): return -floor(-to(p))


def as_fraction(p):
    """p = a/b with a integer polynomial and b a positive integer constant times int atoms^-1; else None"""
    den = {}; dc = 1
    for k, c in p.m.items():
        dc = dc*c.denominator//__import__('math').gcd(dc, c.denominator)
        for a, e in k:
            if ORD[a.sort] > 1: return None
            if e < 0: den[a] = max(den.get(a, 0), -e)
    d = to(dc)
    for a, e in den.items(): d = d*at(a)**e
    n = p*d
    if n.sort != 'i': return None
    return n, d


def summ(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body, v a variable (P)"""
    lo, hi, body = to(lo), to(hi), to(body)
    if body.const() == 0: return ZERO
    a = the(v)
    L, H = lo.const(), hi.const()
    if L is not None and H is not None and H-L <= 4:
        r = ZERO
        for i in range(int(L), int(H)): r = r + subst(body, {a: to(i)})
        return r
    # pull out factors that do not depend on v (only from single monomials: keeps terms flat)
    d = body.bd + 1
    bv = mk('var', 'i', f'${d}')
    return at(mk('sum', max_sort('i', body.sort), bv, lo, hi, subst(body, {a: at(bv)})))


# ---------------------------------------------------------------- conditions
_bs = {}


class B:
    __slots__ = ('key', 'id', 'bd', 'fv')
    def __repr__(self): return show_b(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self):
        # the host language must never take a symbolic truth value for True
        if self is TRUE: return True
        if self is FALSE: return False
        raise TypeError(f'truth value of {show_b(self)}')


def mkb(*key):
    b = _bs.get(key)
    if b is None:
        b = B(); b.key = key; b.id = len(_bs)
        bd = 0; fv = set()
        for x in key[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, (P, B)): bd = max(bd, y.bd); fv |= y.fv
        b.bd = bd; b.fv = frozenset(fv); _bs[key] = b
    return b


TRUE, FALSE = mkb('T'), mkb('F')


def le0(p):
    p = to(p); c = p.const()
    if c is not None: return TRUE if c <= 0 else FALSE
    return mkb('le', _posnorm(p))
def lt0(p):
    p = to(p); c = p.const()
    if c is not None: return TRUE if c < 0 else FALSE
    if p.sort == 'i': return le0(p + 1)
    return mkb('lt', _posnorm(p))
def eq0(p):
    p = to(p); c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    k = min(p.m, key=_mkey)
    return mkb('eq', p.scale(1/p.m[k]) if p.sort != 'i' else (p if p.m[k] > 0 else -p))
def _posnorm(p): return p
def le(a, b): return le0(to(a)-to(b))
def lt(a, b): return lt0(to(a)-to(b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b): return eq0(to(a)-to(b))
def ne(a, b): return Not(eq(a, b))
def pred(name, *args): return mkb('pred', name, tuple(to(a) for a in args))


def Not(b):
    k = b.key[0]
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if k == 'not': return b.key[1]
    if k == 'le': return lt0(-b.key[1])
    if k == 'lt': return le0(-b.key[1])
    if k == 'and': return Or(*[Not(x) for x in b.key[1]])
    if k == 'or': return And(*[Not(x) for x in b.key[1]])
    return mkb('not', b)


def And(*bs):
    out = []
    for b in bs:
        if b is FALSE: return FALSE
        if b is TRUE: continue
        for x in (b.key[1] if b.key[0] == 'and' else (b,)):
            if x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mkb('and', tuple(sorted(out, key=lambda x: x.id)))


def Or(*bs):
    out = []
    for b in bs:
        if b is TRUE: return TRUE
        if b is FALSE: continue
        for x in (b.key[1] if b.key[0] == 'or' else (b,)):
            if x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mkb('or', tuple(sorted(out, key=lambda x: x.id)))


def Implies(a, b): return Or(Not(a), b)


def min2(a, b): return ite(le(a, b), a, b)
def max2(a, b): return ite(ge(a, b), a, b)


# -------------------------------------------------------------- substitution
def subst(x, s):
    """s: {var atom: P}"""
    if isinstance(x, B): return _subst_b(x, s)
    if isinstance(x, P): return _subst_p(x, s, {})
    raise TypeError(x)


def _subst_p(p, s, memo):
    if p.fv.isdisjoint(s): return p
    r = ZERO
    for k, c in p.m.items():
        keep = []; t = None
        for a, e in k:
            if a.fv.isdisjoint(s): keep.append((a, e))
            else:
                x = _subst_a(a, s, memo)
                if e > 0: x = x if e == 1 else x**e
                else: x = inv(x**(-e))
                t = x if t is None else t*x
        b = P({tuple(keep): c})
        r = r + (b if t is None else b*t)
    return r


def _subst_a(a, s, memo):
    r = memo.get(a)
    if r is not None: return r
    k = a.kind; key = a.key
    if k == 'var': r = s[a]
    elif k == 'cvar': r = conj(s[key[2]])
    elif k == 'el': r = at(mk('el', a.sort, key[2], tuple(_subst_p(i, s, memo) for i in key[3]), key[4]))
    elif k == 'fn': r = at(mk('fn', a.sort, key[2], tuple(_subst_p(i, s, memo) for i in key[3]), key[4]))
    elif k == 'inv': r = inv(_subst_p(key[2], s, memo))
    elif k == 'sqrt': r = sqrt(_subst_p(key[2], s, memo))
    elif k == 'abs': r = absv(_subst_p(key[2], s, memo))
    elif k == 'idiv': r = idiv(_subst_p(key[2], s, memo), _subst_p(key[3], s, memo))
    elif k == 'floor': r = floor(_subst_p(key[2], s, memo))
    elif k == 'ite': r = ite(_subst_b(key[2], s), _subst_p(key[3], s, memo), _subst_p(key[4], s, memo))
    elif k == 'sum':
        _, _, v, lo, hi, body = key
        if v in s: s = {q: t for q, t in s.items() if q is not v}; memo = {}
        f = fresh('s')
        body = subst(body, {v: f})
        r = summ(f, _subst_p(lo, s, memo), _subst_p(hi, s, memo), subst(body, s))
    else: raise ValueError(k)
    memo[a] = r
    return r


def _subst_b(b, s):
    if b.fv.isdisjoint(s): return b
    k = b.key
    if k[0] == 'le': return le0(subst(k[1], s))
    if k[0] == 'lt': return lt0(subst(k[1], s))
    if k[0] == 'eq': return eq0(subst(k[1], s))
    if k[0] == 'not': return Not(_subst_b(k[1], s))
    if k[0] == 'and': return And(*[_subst_b(x, s) for x in k[1]])
    if k[0] == 'or': return Or(*[_subst_b(x, s) for x in k[1]])
    if k[0] == 'pred': return mkb('pred', k[1], tuple(subst(x, s) for x in k[2]))
    raise ValueError(k)


# ------------------------------------------------------------------- display
def show(p, depth=0):
    if not p.m: return '0'
    if depth > 9: return '...'
    out = []
    for k, c in list(p.m.items())[:12]:
        f = [] if (c == 1 and k) else [str(c) if c != -1 or not k else '-1']
        for a, e in k: f.append(show_atom(a, depth+1) + (f'^{e}' if e != 1 else ''))
        out.append('*'.join(f))
    if len(p.m) > 12: out.append(f'... {len(p.m)-12} more')
    return ' + '.join(out)


def show_atom(a, depth=0):
    k = a.key
    if a.kind == 'var': return str(k[2])
    if a.kind == 'cvar': return f'conj({show_atom(k[2])})'
    if a.kind in ('el', 'fn'):
        s = f'{k[2]}[' + ','.join(show(i, depth+1) for i in k[3]) + ']'
        return f'conj({s})' if k[4] else s
    if a.kind == 'sum': return f'Sum({show_atom(k[2])}={show(k[3],depth+1)}..<{show(k[4],depth+1)}: {show(k[5],depth+1)})'
    if a.kind == 'ite': return f'({show_b(k[2])} ? {show(k[3],depth+1)} : {show(k[4],depth+1)})'
    if a.kind == 'imag': return 'I'
    if a.kind == 'idiv': return f'({show(k[2],depth+1)})//({show(k[3],depth+1)})'
    return f'{a.kind}({show(k[2],depth+1)})'


def show_b(b):
    k = b.key
    if k[0] == 'T': return 'true'
    if k[0] == 'F': return 'false'
    if k[0] in ('le', 'lt', 'eq'): return f'{show(k[1])} {dict(le="<=",lt="<",eq="==")[k[0]]} 0'
    if k[0] == 'not': return f'not({show_b(k[1])})'
    if k[0] in ('and', 'or'): return '(' + f' {k[0]} '.join(show_b(x) for x in k[1]) + ')'
    return f'{k[1]}(' + ','.join(show(x) for x in k[2]) + ')'


def deps(p):
    """every variable a term depends on, also through the definitions of the tensors in it"""
    from .prover import _parts, _bparts
    out = set(); seen = set()
    def atom(a):
        if a in seen: return
        seen.add(a)
        if a.kind == 'el': out.update(a.key[2].info.get('from', ()))
        for q in _parts(a): go(q)
    def go(q):
        for k in q.m:
            for a, _ in k: atom(a)
    if isinstance(p, B):
        out.update(p.fv)
        for q in _bparts(p): go(q)
    else:
        p = to(p); out.update(p.fv); go(p)
    return out
