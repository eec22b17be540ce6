"""Equality and condition prover of pyvc (z3 for guards, normal forms for sums of products)."""
import itertools, time
from fractions import Fraction as Fr
import z3
from .term import *
from . import term as T

STATS = dict(z3_queries=0, z3_seconds=0., z3_unknown=0)
TIMEOUT = 4000
DECIDE = 1000        # for questions that may be left open


class Z:
    """Translation of conditions to z3."""
    def __init__(self):
        self.memo = {}; self.trig = {}; self.syms_ = {}; self.funs = {}; self.pend = []
    def ax(self, rs, *xs):
        """the constants rs are defined by the axioms xs"""
        for r in rs:
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED: self.trig.setdefault(r.get_id(), (r, []))[1].extend(xs)
    def syms(self, e):
        """defined constants in e"""
        k = e.get_id()
        if k in self.syms_: return self.syms_[k][1]
        out = {k} if k in self.trig else set()
        for c in e.children(): out |= self.syms(c)
        out = frozenset(out); self.syms_[k] = (e, out)
        return out
    def relevant(self, es):
        """axioms of the constants in es"""
        seen, work, out = set(), list(es), []
        while work:
            for k in self.syms(work.pop()):
                if k not in seen: seen.add(k); out += self.trig[k][1]; work += self.trig[k][1]
        return out
    def fun(self, name, n, sort):
        k = (name, n, sort)
        if k not in self.funs:
            S = z3.IntSort() if sort == 'i' else z3.RealSort()
            self.funs[k] = z3.Function(f'{name}', *([z3.IntSort() if True else None]*n), S) if n else (z3.Int(name) if sort == 'i' else z3.Real(name))
        return self.funs[k]
    def num(self, p):
        """P (int or real) -> z3 term"""
        if p in self.memo: return self.memo[p]
        if p.sort == 'c':
            self.memo[p] = self.pair(p)[0]
            return self.memo[p]
        isint = p.sort == 'i'
        tot = None
        for k, c in p.m.items():
            t = None
            negs = []
            for a, e in k:
                if e < 0:
                    x = self.atom(mk('inv', 'r', at(a)) if True else None); e = -e
                else: x = self.atom(a)
                for _ in range(e): t = x if t is None else t*x
            if isint: cc = z3.IntVal(c.numerator)
            else: cc = z3.RealVal(f'{c.numerator}/{c.denominator}')
            if t is None: t = cc
            elif c != 1: t = cc*(t if isint or t.is_real() else z3.ToReal(t)) if not isint else cc*t
            if not isint and t.is_int(): t = z3.ToReal(t)
            tot = t if tot is None else tot + t
        if tot is None: tot = z3.IntVal(0) if isint else z3.RealVal(0)
        self.memo[p] = tot
        return tot
    def real(self, p):
        x = self.num(p)
        return z3.ToReal(x) if x.is_int() else x
    def atom(self, a):
        if a in self.memo: return self.memo[a]
        k = a.kind; key = a.key; s = a.sort
        if s == 'c': raise ValueError('complex atom')
        if k == 'var': r = z3.Int(str(key[2])) if s == 'i' else z3.Real(str(key[2]))
        elif k in ('el', 'fn'):
            args = key[3]
            nm = f'{key[2]}!{k}'
            if not args: r = z3.Const(nm, z3.IntSort() if s == 'i' else z3.RealSort())
            else:
                ar = [self.num(x) if x.sort == 'i' else self.real(x) if x.sort == 'r' else None for x in args]
                if any(x is None for x in ar): r = z3.Const(f'{nm}!{a.id}', z3.IntSort() if s == 'i' else z3.RealSort())
                else:
                    sg = ''.join('i' if x.is_int() else 'r' for x in ar)
                    fk = (nm, sg, s)
                    if fk not in self.funs: self.funs[fk] = z3.Function(nm + sg, *[x.sort() for x in ar], z3.IntSort() if s == 'i' else z3.RealSort())
                    r = self.funs[fk](*ar)
            rg = getattr(key[2], 'info', {}).get('range') if k == 'el' else None
            if rg:
                self.memo[a] = r
                lo, hi = self.num(to(rg[0])), self.num(to(rg[1])); self.ax([r], z3.Implies(lo <= hi, z3.And(lo <= r, r <= hi)))
        elif k == 'ite': 
            x, y = key[3], key[4]
            r = z3.If(self.b(key[2]), self.num(x), self.num(y)) if s == 'i' else z3.If(self.b(key[2]), self.real(x), self.real(y))
        elif k == 'idiv':
            x, y = self.num(key[2]), self.num(key[3])
            c = key[3].const()
            if c is not None and c > 0: r = x/y
            else:
                r = z3.Int(f'idiv!{a.id}')
                self.ax([r], z3.Implies(y > 0, z3.And(r*y <= x, x < r*y + y)))
        elif k == 'floor':
            x = self.real(key[2]); r = z3.Int(f'floor!{a.id}')
            self.ax([r], z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
        elif k == 'inv':
            x = self.real(key[2]); r = z3.Real(f'inv!{a.id}')
            self.ax([r], z3.Implies(x != 0, r*x == 1))
            self.ax([r], z3.Implies(x > 0, r > 0))
        elif k == 'sqrt':
            x = self.real(key[2]) if key[2].sort != 'c' else z3.Real(f'csq!{a.id}'); r = z3.Real(f'sqrt!{a.id}')
            self.ax([r], z3.And(r >= 0, z3.Implies(x >= 0, r*r == x)))
        elif k == 'abs':
            if key[2].sort == 'c' and T.conj(key[2]) == key[2]: x = self.pair(key[2])[0]; r = z3.If(x >= 0, x, -x)
            elif key[2].sort == 'c':
                r = z3.Real(f'cabs!{a.id}'); x, y = self.pair(key[2])
                self.ax([r], z3.And(r >= 0, r >= x, r >= -x, r >= y, r >= -y))
            else:
                x = self.num(key[2]); r = z3.If(x >= 0, x, -x)
        elif k == 'sum':
            r = z3.Int(f'sum!{a.id}') if s == 'i' else z3.Real(f'sum!{a.id}')
        else: raise ValueError(k)
        self.memo[a] = r
        return r
    def pair(self, p):
        """P -> (real part, imaginary part)"""
        key = ('pair', p)
        if key in self.memo: return self.memo[key]
        if p.sort != 'c':
            self.memo[key] = (self.real(p), z3.RealVal(0)); return self.memo[key]
        X, Y = z3.RealVal(0), z3.RealVal(0)
        for k, c in p.m.items():
            u, v = None, None                     # the monomial so far; None: 1 and 0
            sc = z3.RealVal(f'{c.numerator}/{c.denominator}')
            for a, e in k:
                if e < 0:
                    i = the(T.inv(at(a)))
                    x, y = self.catom(mk('inv', a.sort, at(a)) if i is None else i); e = -e
                elif a.sort == 'c': x, y = self.catom(a)
                else: x, y = self.atom(a), None
                if x.is_int(): x = z3.ToReal(x)
                for _ in range(e):
                    if u is None: u, v = x, y
                    elif y is None: u, v = u*x, None if v is None else v*x
                    elif v is None: u, v = u*x, u*y
                    else: u, v = u*x - v*y, u*y + v*x
            if u is None: X = X + sc
            else:
                X = X + sc*u
                if v is not None: Y = Y + sc*v
        self.memo[key] = (X, Y)
        return X, Y
    def catom(self, a):
        """(real, imaginary) of an atom"""
        key = ('pair', a)
        if key in self.memo: return self.memo[key]
        if a.sort != 'c': r = (self.real(at(a)), z3.RealVal(0))
        elif a.kind == 'imag': r = (z3.RealVal(0), z3.RealVal(1))
        elif a.kind == 'ite':
            c = self.b(a.key[2]); x, y = self.pair(a.key[3]), self.pair(a.key[4])
            r = (z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1]))
        elif a.kind in ('el', 'fn'):
            ar = [self.num(x) if x.sort == 'i' else self.real(x) if x.sort == 'r' else None for x in a.key[3]]
            nm = f'{a.key[2]}!{a.kind}'
            if any(x is None for x in ar): nm = f'{nm}!{min(a.id, the(T._conj_atom(a)).id)}'; ar = []
            if not ar: x, y = z3.Real('re!' + nm), z3.Real('im!' + nm)
            else:
                sg = ''.join('i' if x.is_int() else 'r' for x in ar); out = []
                for part in ('re!', 'im!'):
                    fk = (part + nm, sg, 'c')
                    if fk not in self.funs: self.funs[fk] = z3.Function(part + nm + sg, *[x.sort() for x in ar], z3.RealSort())
                    out.append(self.funs[fk](*ar))
                x, y = out
            r = (x, -y if a.key[4] else y)
        else:
            q = the(T._conj_atom(a))
            if q is a: r = (z3.Real(f're!{a.id}'), z3.RealVal(0))
            elif q is not None and q.id < a.id: x, y = self.catom(q); r = (x, -y)
            else: r = (z3.Real(f're!{a.id}'), z3.Real(f'im!{a.id}'))
            if a.kind == 'inv':
                x, y = self.pair(a.key[2])
                self.ax(r, z3.Implies(z3.Or(x != 0, y != 0), z3.And(r[0]*x - r[1]*y == 1, r[0]*y + r[1]*x == 0)))
        self.memo[key] = r
        return r
    def b(self, b):
        if b in self.memo: return self.memo[b]
        k = b.key
        if k[0] == 'T': r = z3.BoolVal(True)
        elif k[0] == 'F': r = z3.BoolVal(False)
        elif k[0] in ('le', 'lt', 'eq'):
            p = k[1]
            if p.sort == 'c' and k[0] == 'eq': x, y = self.pair(p); r = z3.And(x == 0, y == 0)
            elif p.sort == 'c' and T.conj(p) != p: r = z3.Bool(f'ccond!{b.id}')      # an order of complex numbers: opaque
            else:
                x = self.num(p); zero = z3.IntVal(0) if x.is_int() else z3.RealVal(0)
                r = x <= zero if k[0] == 'le' else x < zero if k[0] == 'lt' else x == zero
        elif k[0] == 'not': r = z3.Not(self.b(k[1]))
        elif k[0] == 'and': r = z3.And(*[self.b(x) for x in k[1]])
        elif k[0] == 'or': r = z3.Or(*[self.b(x) for x in k[1]])
        elif k[0] == 'pred':
            ar = [self.num(x) if x.sort != 'c' else None for x in k[2]]
            if not ar or any(x is None for x in ar): r = z3.Bool(f'{k[1]}!{b.id}')
            else:
                fk = (k[1], tuple(str(x.sort()) for x in ar))
                if fk not in self.funs: self.funs[fk] = z3.Function(k[1], *[x.sort() for x in ar], z3.BoolSort())
                r = self.funs[fk](*ar)
        self.memo[b] = r
        return r


ZT = Z()


class Facts:
    """A set of conditions (facts), quantified facts, rewriting rules and inference lemmas."""
    def __init__(self, bs=(), parent=None):
        self.bs = list(parent.bs) if parent else []
        self.quant = list(parent.quant) if parent else []      # z3 quantified formulas
        self.rules = parent.rules if parent else []      # shared: (M, facts) -> [M] | None
        self.bset = set(self.bs)
        self.cache = {}
        self._s = None
        for b in bs: self.add(b)
    def add(self, *bs):
        for b in bs:
            for x in (b.key[1] if b.key[0] == 'and' else (b,)):
                if x not in self.bset and x is not TRUE:
                    self.bs.append(x); self.bset.add(x); self.cache = {}; self._s = None
        return self
    def addq(self, zf): self.quant.append(zf); self.cache = {}; self._s = None
    def child(self, *bs):
        f = Facts((), self)
        f.add(*bs)
        return f
    def _solver(self):
        if self._s is None:
            s = z3.Solver(); s.set('timeout', TIMEOUT)
            s.add(*[ZT.b(b) for b in self.bs]); s.add(*self.quant)
            self._s = s; self._nax = 0
        return self._s
    def check(self, *bs, model=False, ms=TIMEOUT):
        """sat/unsat/unknown of facts and bs"""
        bs = [b for b in bs if b is not TRUE]
        if any(b is FALSE for b in bs): return ('unsat', None)
        key = frozenset(bs)
        if not model and key in self.cache and (self.cache[key][0] != 'unknown' or self.cache[key][2] >= ms): return self.cache[key][:2]
        r, m = self.solve([ZT.b(b) for b in bs], ms, model)
        out = (str(r), m)
        if not model: self.cache[key] = out + (ms,)
        return out
    def solve(self, zs, ms=TIMEOUT, model=False):
        zb = [ZT.b(b) for b in self.bs]
        ax = ZT.relevant(zb + self.quant + zs)
        if ax: s = z3.Solver(); s.add(*zb, *self.quant)      # (the incremental solver is weak in nonlinear arithmetic)
        else: s = self._solver(); s.push()
        s.set('timeout', ms)
        s.add(*zs, *ax)
        t = time.time(); r = s.check(); STATS['z3_seconds'] += time.time()-t; STATS['z3_queries'] += 1
        if r == z3.unknown: STATS['z3_unknown'] += 1
        m = s.model() if model and r == z3.sat else None
        if not ax: s.pop()
        return r, m
    def consistent(self, *bs): return self.check(*bs)[0] != 'unsat'
    def entails(self, b, ms=TIMEOUT):
        if b is TRUE or b in self.bset: return True
        if b is FALSE: return not self.consistent()
        if b.key[0] == 'and': return all(self.entails(x, ms) for x in b.key[1])
        return self.check(Not(b), ms=ms)[0] == 'unsat'
    def decide(self, b):
        """True / False / None"""
        if b is TRUE: return True
        if b is FALSE: return False
        if self.entails(b, DECIDE): return True
        if self.entails(Not(b), DECIDE): return False
        return None
    def simplify(self, p):
        """resolve the conditionals of p that the facts decide"""
        p = to(p)
        if not any(_has_ite(a) for k in p.m for a, _ in k): return p
        def f(a):
            if a.kind == 'ite':
                d = self.decide(a.key[2])
                if d is True: return self.simplify(a.key[3])
                if d is False: return self.simplify(a.key[4])
            return None
        return map_atoms(p, f)


def divide_out(p, F):
    """(q*d + r) // d -> q wherever the facts give 0 <= r < d (d one monomial)"""
    def f(a):
        if a.kind != 'idiv': return None
        n, d = divide_out(a.key[2], F), divide_out(a.key[3], F)
        if len(d.m) != 1: return None
        (dk, dc), = d.m.items(); dk = dict(dk); q, r = {}, {}
        for k, c in n.m.items():
            kk = dict(k)
            if all(kk.get(x, 0) >= e for x, e in dk.items()) and (c/dc).denominator == 1: q[tuple(sorted(((x, e - dk.get(x, 0)) for x, e in k if e != dk.get(x, 0)), key=lambda z: z[0].id))] = c/dc
            else: r[k] = c
        if not q: return None
        r = P(r)
        if F.entails(And(ge(r, 0), lt(r, d))):
            out = ZERO
            for k, c in q.items():
                t = to(c)
                for x, e in k: t = t*at(x)**e if e > 0 else t*inv(at(x)**(-e))
                out = out + t
            return out
        return None
    return map_atoms(to(p), f)


_hi = {}
def _has_ite(a):
    r = _hi.get(a)
    if r is None:
        r = a.kind == 'ite' or any(_has_ite(x) for p in _parts(a) for k in p.m for x, _ in k)
        _hi[a] = r
    return r


def _parts(a):
    out = []
    for x in a.key[2:]:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, P): out.append(y)
            elif isinstance(y, B): out += _bparts(y)
    return out
def _bparts(b):
    out = []
    for x in b.key[1:]:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, P): out.append(y)
            elif isinstance(y, B): out += _bparts(y)
    return out


def map_atoms(p, f, under=True):
    """rebuild p; f(atom) -> P or None.  Does not enter sum bodies unless under is True (then atoms with bound vars are
    passed too, so f must be stable under substitution)."""
    r = ZERO
    for k, c in p.m.items():
        t = to(c)
        for a, e in k:
            x = f(a)
            if x is None: x = _rebuild(a, f, under)
            t = t*(x**e if e > 0 else inv(x**(-e)))
        r = r + t
    return r


def map_b(b, f, under=True):
    k = b.key
    if k[0] == 'le': return le0(map_atoms(k[1], f, under))
    if k[0] == 'lt': return lt0(map_atoms(k[1], f, under))
    if k[0] == 'eq': return eq0(map_atoms(k[1], f, under))
    if k[0] == 'not': return Not(map_b(k[1], f, under))
    if k[0] == 'and': return And(*[map_b(x, f, under) for x in k[1]])
    if k[0] == 'or': return Or(*[map_b(x, f, under) for x in k[1]])
    if k[0] == 'pred': return mkb('pred', k[1], tuple(map_atoms(x, f, under) for x in k[2]))
    return b


def _rebuild(a, f, under):
    k = a.kind; key = a.key
    if k in ('var', 'cvar', 'imag'): return at(a)
    if k in ('el', 'fn'): 
        n = tuple(map_atoms(i, f, under) for i in key[3])
        return at(a) if n == key[3] else at(mk(k, a.sort, key[2], n, key[4]))
    if k == 'inv': return inv(map_atoms(key[2], f, under))
    if k == 'sqrt': return sqrt(map_atoms(key[2], f, under))
    if k == 'abs': return absv(map_atoms(key[2], f, under))
    if k == 'idiv': return idiv(map_atoms(key[2], f, under), map_atoms(key[3], f, under))
    if k == 'floor': return floor(map_atoms(key[2], f, under))
    if k == 'ite': return ite(map_b(key[2], f, under), map_atoms(key[3], f, under), map_atoms(key[4], f, under))
    if k == 'sum':
        _, _, v, lo, hi, body = key
        lo2, hi2 = map_atoms(lo, f, under), map_atoms(hi, f, under)
        if not under:
            return at(a) if (lo2, hi2) == (lo, hi) else at(mk('sum', a.sort, v, lo2, hi2, body))
        w = fresh('s'); b2 = map_atoms(subst(body, {v: w}), f, under)
        return summ(w, lo2, hi2, b2)
    raise ValueError(k)


# ------------------------------------------------------------ flat monomials
class M:
    __slots__ = ('c', 'binders', 'guards', 'atoms')
    def __init__(self, c, binders=(), guards=(), atoms=()):
        self.c, self.binders, self.guards = c, tuple(binders), tuple(guards)
        self.atoms = atoms if isinstance(atoms, dict) else dict(atoms)
    def __repr__(self):
        return f'{self.c} * Sum{[str(b) for b in self.binders]} [{And(*self.guards)}] ' + '*'.join(f'{show_atom(a)}' + (f'^{e}' if e != 1 else '') for a, e in self.atoms.items())
    def p(self):
        r = to(self.c)
        for a, e in self.atoms.items(): r = r*(at(a)**e if e > 0 else inv(at(a)**(-e)))
        return r


def flat(p, facts, limit=4000):
    out = []
    for k, c in p.m.items():
        ms = [M(c)]
        for a, e in k:
            if a.kind == 'abs' and a.key[2].sort != 'c':
                x = a.key[2]; x = x if facts.entails(ge(x, 0)) else -x if facts.entails(le(x, 0)) else None
                if x is not None:
                    x = x**e if e > 0 else inv(x**(-e))
                    fa = flat(x, facts, limit)
                    ms = [mul(y, z) for y in ms for z in fa]; ms = [y for y in ms if y is not None]
                    continue
            if e > 0 and (a.kind in ('sum', 'ite') or (_has_ite(a) and a.kind != 'cvar')):
                for _ in range(e):
                    fa = flat_atom(a, facts)
                    ms = [mul(x, y) for x in ms for y in fa]
                    ms = [x for x in ms if x is not None and ok(x, facts)]
            elif e < 0 and _has_ite(a):
                fa = flat_atom(mk('inv', a.sort, at(a)) if a.kind != 'ite' else a, facts, invert=a.kind == 'ite')
                for _ in range(-e):
                    ms = [mul(x, y) for x in ms for y in fa]
            else:
                ms = [mul(x, M(Fr(1), atoms={a: e})) for x in ms]
            if len(ms) > limit: raise OverflowError('too many monomials')
        out += ms
    return out


def ok(m, facts):
    if not m.guards: return True
    g = And(*m.guards)
    if g is FALSE: return False
    return facts.consistent(g)


def flat_atom(a, facts, invert=False):
    k = a.kind; key = a.key
    if k == 'ite':
        c, x, y = key[2:]
        out = []
        for cond, v in ((c, x), (Not(c), y)):
            f2 = facts.child(cond)
            if not f2.consistent(): continue
            if invert: v = inv(v)
            for m in flat(v, f2):
                out.append(M(m.c, m.binders, (cond,) + m.guards, m.atoms))
        return out
    if k == 'sum':
        _, _, v, lo, hi, body = key
        w = fresh('t'); wa = the(w)
        g = (le(lo, w), lt(w, hi))
        f2 = facts.child(*g)
        if not f2.consistent(): return []
        # conditionals in the bounds
        out = []
        for m in flat(subst(body, {v: w}), f2):
            out.append(M(m.c, (wa,) + m.binders, g + m.guards, m.atoms))
        return out
    # a conditional inside the arguments: split
    c = _find_ite(a)
    if c is not None:
        cond, x, y = c.key[2:]
        out = []
        for cd, v in ((cond, x), (Not(cond), y)):
            f2 = facts.child(cd)
            if not f2.consistent(): continue
            q = map_atoms(at(a), lambda z: v if z is c else None, under=False)
            for m in flat(q, f2): out.append(M(m.c, m.binders, (cd,) + m.guards, m.atoms))
        return out
    return [M(Fr(1), atoms={a: 1})]


def _find_ite(a):
    """a conditional nested in the arguments of a, not below a binder"""
    for p in _parts(a) if a.kind not in ('sum',) else [a.key[3], a.key[4]]:
        for k in p.m:
            for x, _ in k:
                if x.kind == 'ite': return _find_ite(x) if False else x
                if _has_ite(x):
                    r = _find_ite(x)
                    if r is not None: return r
    return None


def mul(x, y):
    p = x.p()*y.p() if (any(a.kind in ('imag', 'sqrt', 'abs') for a in x.atoms) and any(a.kind in ('imag', 'sqrt', 'abs') for a in y.atoms)) else None
    g = list(x.guards) + [b for b in y.guards if b not in x.guards]
    if p is None:
        d = dict(x.atoms)
        for a, e in y.atoms.items():
            e2 = d.get(a, 0) + e
            if e2: d[a] = e2
            else: d.pop(a, None)
        return M(x.c*y.c, x.binders + y.binders, g, d)
    if len(p.m) == 0: return None
    if len(p.m) == 1:
        (k, c), = p.m.items()
        return M(c, x.binders + y.binders, g, dict(k))
    return MP(p, x.binders + y.binders, g)


class MP(M):
    """product whose square-root reduction produced a polynomial: re-expanded by normal()"""
    __slots__ = ('poly',)
    def __init__(self, p, b, g):
        self.poly = p; self.c = Fr(1); self.binders = tuple(b); self.guards = tuple(g); self.atoms = {}
    def p(self): return self.poly


def msubst(m, s):
    q = subst(m.p(), s)
    g = []
    for b in m.guards:
        b = subst(b, s)
        if b is TRUE: continue
        g.append(b)
    if any(b is FALSE for b in g): return []
    bs = tuple(b for b in m.binders if b not in s)
    return [M(c, bs, g, dict(k)) for k, c in q.m.items()]


def guards_flat(m):
    out = []
    for b in m.guards:
        for x in (b.key[1] if b.key[0] == 'and' else (b,)):
            if x is not TRUE and x not in out: out.append(x)
    return out


def linear_in(p, v):
    """p = c*v + rest with rest free of v -> (c, rest) else None"""
    c = Fr(0); rest = {}
    for k, q in p.m.items():
        if len(k) == 1 and k[0] == (v, 1): c = q
        elif any(v in a.fv for a, e in k): return None
        else: rest[k] = q
    if c == 0: return None
    return c, P(rest)


def reduce_m(m, facts):
    """binder elimination; returns list of M"""
    if isinstance(m, MP):
        out = []
        for x in flat(m.poly, facts):
            y = mul(M(Fr(1), m.binders, m.guards), x)
            out += reduce_m(y, facts)
        return out
    gs = guards_flat(m)
    m = M(m.c, m.binders, gs, m.atoms)
    # one-point rule
    for v in m.binders:
        for b in gs:
            if b.key[0] == 'eq' and b.key[1].sort == 'i' and v in b.fv:
                l = linear_in(b.key[1], v)
                if l and abs(l[0]) == 1:
                    rest = l[1].scale(-1/l[0])
                    m2 = M(m.c, m.binders, [g for g in gs if g is not b], m.atoms)
                    return [y for x in msubst(m2, {v: rest}) for y in reduce_m(x, facts)]
    # tight ranges: lo <= v <= lo
    for v in m.binders:
        lows = [linear_in(b.key[1], v) for b in gs if b.key[0] == 'le' and v in b.fv]
        lo = [r for r in lows if r and r[0] == -1]; hi = [r for r in lows if r and r[0] == 1]
        for a in lo:
            for b in hi:
                if a[1] == -b[1]:
                    return [y for x in msubst(m, {v: a[1]}) for y in reduce_m(x, facts)]
    # equalities among free variables: use them in the atoms
    for b in gs:
        if b.key[0] == 'eq' and b.key[1].sort == 'i':
            vs = sorted((a for k in b.key[1].m for a, e in k if a.kind == 'var' and a in b.fv), key=lambda a: -a.id)
            for v in vs:
                l = linear_in(b.key[1], v)
                if l and abs(l[0]) == 1:
                    if any(v in a.fv for a in m.atoms):
                        q = subst(M(m.c, (), (), m.atoms).p(), {v: l[1].scale(-1/l[0])})
                        return [y for k, c in q.m.items() for y in reduce_m(M(c, m.binders, gs, dict(k)), facts)]
                    break
    # binder that occurs in its range only
    for v in m.binders:
        if any(v in a.fv for a in m.atoms): continue
        bs = [b for b in gs if v in b.fv]
        los, his, bad = [], [], False
        for b in bs:
            l = linear_in(b.key[1], v) if b.key[0] == 'le' else None
            if l and l[0] == -1: los.append(l[1])
            elif l and l[0] == 1: his.append(-l[1])
            else: bad = True
        if bad or any(w in b.fv for w in m.binders if w is not v for b in bs):
            r = fuse(m, v, bs, gs, facts)
            if r is not None: return reduce_m(r, facts)
        if not bad and los and his:
            rest = [b for b in gs if v not in b.fv]
            f2 = facts.child(*rest)
            lo = _extreme(los, f2, True); hi = _extreme(his, f2, False)
            if lo is not None and hi is not None:
                cnt = hi - lo + 1
                g = le(lo, hi + 1)
                out = []
                q = M(m.c, (), (), m.atoms).p()*cnt
                for x in flat(q, f2):
                    y = M(x.c, tuple(b for b in m.binders if b is not v) + x.binders, rest + [g] + list(x.guards), x.atoms)
                    out += reduce_m(y, facts)
                return out
    return [m]


def poly_linear(p, v):
    """p = c*v + rest, c and rest free of v (c may be symbolic) -> (c, rest) or None"""
    c, rest = {}, {}
    for k, q in p.m.items():
        d = dict(k)
        if v in d:
            if d[v] != 1: return None
            d.pop(v)
            if any(v in a.fv for a in d): return None
            c[tuple(sorted(d.items(), key=lambda t: t[0].id))] = q
        elif any(v in a.fv for a, e in k): return None
        else: rest[k] = q
    return P(c), P(rest)


def fuse(m, v, bs, gs, facts):
    """consecutive ranges: sum over v in [lo,hi) of the sum over t in [a*v+b, a*(v+1)+b) = sum over t in [a*lo+b, a*hi+b)"""
    own, cross = [], []
    for b in bs:
        if b.key[0] != 'le': return None
        (cross if any(w in b.fv for w in m.binders if w is not v) else own).append(b)
    if len(cross) != 2: return None
    los = [l[1] for l in (linear_in(b.key[1], v) for b in own) if l and l[0] == -1]
    his = [-l[1] for l in (linear_in(b.key[1], v) for b in own) if l and l[0] == 1]
    if len(own) != 2 or len(los) != 1 or len(his) != 1: return None
    lo, hi = los[0], his[0] + 1
    for t in m.binders:
        if t is v or not all(t in b.fv for b in cross): continue
        low = up = None
        for b in cross:
            l = linear_in(b.key[1], t)
            if l is None: break
            if l[0] == -1: low = l[1]            # t >= low
            elif l[0] == 1: up = -l[1] + 1       # t < up
        if low is None or up is None: continue
        if any(w in low.fv for w in m.binders if w is not v): continue
        x = poly_linear(low, v)
        if x is None: continue
        a, b0 = x
        if up - low != a or v in a.fv: continue
        f2 = facts.child(*[g for g in gs if v not in g.fv])
        if not f2.entails(ge(a, 0)): continue
        rest = [g for g in gs if v not in g.fv] + [le(lo, hi), le(a*lo + b0, at(t)), lt(at(t), a*hi + b0)]
        return M(m.c, tuple(w for w in m.binders if w is not v), [g for g in rest if g is not TRUE], m.atoms)
    return None


def _extreme(ps, facts, low):
    """the tightest of the bounds if the facts decide it"""
    best = ps[0]
    for p in ps[1:]:
        c = ge(p, best) if low else le(p, best)
        d = facts.decide(c)
        if d is None:
            if facts.entails(Not(c)) or facts.entails(ge(best, p) if low else le(best, p)): continue
            return None
        if d: best = p
    return best


def anchor(m):
    """normalise shifts of binders"""
    for v in m.binders:
        best = None
        for a in m.atoms:
            if a.kind not in ('el', 'fn') or v not in a.fv: continue
            for j, i in enumerate(a.key[3]):
                l = linear_in(i, v)
                if l and abs(l[0]) == 1 and i.sort == 'i':
                    k = (str(a.key[2]), j, a.key[4], len(l[1].m))
                    if best is None or k < best[0]: best = (k, l)
        if best and (best[1][1].m or best[1][0] != 1):
            c, rest = best[1]
            r = msubst(m, {v: (at(v) - rest).scale(1/c)})
            if len(r) != 1: return m
            m = M(r[0].c, m.binders, r[0].guards, r[0].atoms)
    return m


_MARK = at(mk('var', 'i', '#'))
def skeleton(m):
    s = {v: _MARK for v in m.binders}
    out = []
    for a, e in m.atoms.items():
        x = at(a) if a.fv.isdisjoint(m.binders) else subst(at(a), s)
        out.append((hash(x), e))
    return (len(m.binders), tuple(sorted(out)))


def bindings(rep, m, strict):
    """candidate maps binders(m) -> binders(rep): all permutations when few, otherwise guided by the element atoms"""
    n = len(rep.binders)
    if n <= 3:
        for perm in itertools.permutations(rep.binders): yield {v: at(w) for v, w in zip(m.binders, perm)}
        return
    mb, rb = set(m.binders), set(rep.binders)
    heads = lambda x, bs: [(a, e) for a, e in x.atoms.items() for _ in range(1) if a.kind in ('el', 'fn') and not a.fv.isdisjoint(bs)]
    A, R = heads(m, mb), heads(rep, rb)
    count = [0]
    def one(x):
        t = the(x)
        return t if t is not None and t.kind == 'var' else None
    def go(i, used, s, inv_):
        count[0] += 1
        if count[0] > 3000: return
        if i == len(A):
            left = [v for v in m.binders if v not in s]; free = [w for w in rep.binders if w not in inv_]
            if len(left) > 4: return
            for perm in itertools.permutations(free):
                t = dict(s); t.update(zip(left, perm)); yield {v: at(w) for v, w in t.items()}
            return
        a, e = A[i]
        for j, (b, e2) in enumerate(R):
            if j in used or e2 != e or b.kind != a.kind or b.key[2] != a.key[2] or b.key[4] != a.key[4] or len(a.key[3]) != len(b.key[3]): continue
            s2, i2, okk = dict(s), set(inv_), True
            for x, y in zip(a.key[3], b.key[3]):
                v, w = one(x), one(y)
                if v in mb:
                    if w not in rb or s2.get(v, w) is not w: okk = False; break
                    if v not in s2:
                        if w in i2: okk = False; break
                        s2[v] = w; i2.add(w)
                elif w in rb: okk = False; break
                elif strict and v is not None and w is not None and v is not w: okk = False; break
            if okk: yield from go(i + 1, used | {j}, s2, i2)
    yield from go(0, frozenset(), {}, set())


def match(rep, m):
    """substitution binders(m) -> binders(rep) with equal atoms, or None"""
    if len(rep.binders) != len(m.binders): return None
    if not rep.binders: return {} if rep.atoms == m.atoms else None
    target = rep.atoms
    for s in bindings(rep, m, True):
        okk = True
        for a, e in m.atoms.items():
            x = subst(at(a), s) if not a.fv.isdisjoint(m.binders) else at(a)
            t = the(x)
            if t is None or target.get(t) != e: okk = False; break
        if okk: return s
    return None


class Result:
    def __init__(self, ok, detail='', residual=None, how=''):
        self.ok, self.detail, self.residual, self.how = ok, detail, residual, how
    def __bool__(self): return self.ok


def normal(p, facts):
    """flat, rewritten, reduced monomials"""
    work = flat(p, facts)
    out = []
    n = 0
    while work:
        n += 1
        if n > 6000: raise OverflowError('rewriting does not end')
        m = work.pop()
        rs = reduce_m(m, facts)
        if len(rs) != 1 or rs[0].binders != m.binders:
            for x in rs:
                if ok(x, facts): work.append(x)
            continue
        m = rs[0]
        for rule in facts.rules:
            r = rule(m, facts)
            if r is not None:
                for x in r:
                    if isinstance(x, P):
                        work += [y for y in (mul(M(Fr(1), m.binders, m.guards), z) for z in flat(x, facts.child(*m.guards))) if y is not None]
                    elif isinstance(x, tuple):       # (binders, guards, P)
                        b, g, q = x
                        work += [y for y in (mul(M(Fr(1), b, g), z) for z in flat(q, facts.child(*g))) if y is not None]
                    elif ok(x, facts): work.append(x)
                break
        else:
            a = anchor(m)
            if a is m: out.append(m)
            else: work.append(a)
    return out


def prove_eq(a, b, facts, clear=True, depth=0):
    d = to(a) - to(b)
    if not d.m: return Result(True, how='identity')
    try:
        ms = normal(d, facts)
        res, how = compare(ms, facts)
        if not res: return Result(True, how=how)
        if depth < 4 and clear:
            # clear one denominator and try again
            den = None
            for g in res:
                for x in g:
                    for at_, e in x.atoms.items():
                        if at_.kind == 'inv' and e > 0: den = at_.key[2]; break
                        if e < 0 and at_.kind in ('sum', 'sqrt', 'abs', 'el', 'fn', 'floor', 'idiv') and False: den = at(at_)
                    if den is not None: break
                if den is not None: break
            if den is not None:
                r = prove_eq(clear_den(d, den, facts), ZERO, facts, clear, depth+1)
                if r.ok: return Result(True, how=r.how + ' (denominators cleared)')
        return Result(False, 'unmatched: ' + ' || '.join(repr(x) for g in res[:3] for x in g[:3])[:1200], res)
    except OverflowError as e:
        return Result(False, str(e))


def clear_den(d, den, facts):
    ia = the(inv(den))
    ms = flat(d, facts)
    tot = ZERO
    # work on the polynomial level where possible
    r = ZERO
    for k, c in d.m.items():
        e = dict(k).get(ia, 0) if ia is not None else 0
        mono = P({k: c})
        if e > 0:
            kk = tuple((a, x if a is not ia else x-1) for a, x in k if not (a is ia and x == 1))
            r = r + P({kk: c})
        else: r = r + mono*den
    # inside sums and conditionals
    def f(a):
        return None
    return push_den(d, den, ia)


def push_den(p, den, ia):
    """p*den with inv(den)*den cancelled, distributing into sums and conditionals"""
    r = ZERO
    for k, c in p.m.items():
        d = dict(k)
        if d.get(ia, 0) > 0:
            d[ia] -= 1
            if not d[ia]: d.pop(ia)
            r = r + P({tuple(sorted(d.items(), key=lambda t: t[0].id)): c})
            continue
        done = False
        for a, e in k:
            if e == 1 and a.kind in ('sum', 'ite') and _contains(a, ia):
                rest = dict(k); rest.pop(a)
                restp = P({tuple(sorted(rest.items(), key=lambda t: t[0].id)): c})
                if a.kind == 'ite':
                    x = ite(a.key[2], push_den(a.key[3], den, ia), push_den(a.key[4], den, ia))
                else:
                    _, _, v, lo, hi, body = a.key
                    w = fresh('t')
                    x = summ(w, lo, hi, push_den(subst(body, {v: w}), den, ia))
                r = r + restp*x; done = True
                break
        if not done: r = r + P({k: c})*den
    return r


def _contains(a, ia):
    if a is ia: return True
    return any(_contains(x, ia) for p in _parts(a) for k in p.m for x, _ in k)


def compare(ms, facts):
    """group monomials and check that every group vanishes; returns (residual groups, how)"""
    groups = {}
    for m in ms: groups.setdefault(skeleton(m), []).append(m)
    classes = []
    for g in groups.values():
        cl = []
        for m in g:
            for c in cl:
                s = match(c[0], m)
                if s is not None:
                    c.append(M(m.c, c[0].binders, [subst(b, s) for b in m.guards], c[0].atoms)); break
            else: cl.append([m])
        classes += cl
    res = []; how = 'normal form'
    for c in classes:
        if not vanishes(c, facts): res.append(c)
        elif len({frozenset(x.guards) for x in c}) > 1: how = 'normal form + z3'
    if not res: return [], how
    # merge classes whose indices are equal under facts and guards
    res2 = merge_classes(res, facts)
    if not res2: return [], 'normal form + z3 (indices)'
    res3 = boundary(res2, facts)
    if not res3: return [], 'normal form + z3 (boundary terms)'
    if linear_zero(res2, facts): return [], 'normal form + z3 (linear arithmetic)'
    return res2, how


def linear_zero(res, facts):
    """guarded terms without sums, linear in their atoms, that add up to zero in every case"""
    ms = [m for c in res for m in c]
    if len(ms) > 16 or any(m.binders or sum(abs(e) for e in m.atoms.values()) > 3 or any(a.kind == 'imag' for a in m.atoms) for m in ms): return False
    X, Y = z3.RealVal(0), z3.RealVal(0)
    for m in ms:
        x, y = ZT.pair(m.p()); g = z3.And(*[ZT.b(b) for b in m.guards]) if m.guards else z3.BoolVal(True)
        X = X + z3.If(g, x, 0); Y = Y + z3.If(g, y, 0)
    r, _ = facts.solve([z3.Or(X != 0, Y != 0)])
    return r == z3.unsat


def boundary(res, facts):
    """a term without the summation variable v is the term of a sum at an end of its range: written as a sum over v with
    the guard v = end, it joins the class of the sum"""
    res = [list(c) for c in res]
    for _ in range(16):
        done = False
        for c in sorted(res, key=lambda c: len(c[0].binders)):
            big = [d for d in res if d is not c and len(d[0].binders) == len(c[0].binders) + 1]
            for d in big:
                found = None
                for v, p in ends_of(d):
                    q = [absorb(m, d[0], v, p, facts) for m in c]
                    if any(x is None for x in q): continue
                    if vanishes(d + q, facts) or split_vanishes(d, q, v, p, facts): found = []; break
                    if found is None and d[0].atoms: found = d + q
                if found is not None:
                    res = [x for x in res if x is not c and x is not d] + ([found] if found else [])
                    done = True; break
            if done: break
        if not done: break
    return res


def split_vanishes(d, q, v, p, facts):
    """the class d + q (q holds at v = p only): at v = p, and elsewhere"""
    at_ = [M(m.c, m.binders, [subst(g, {v: p}) for g in guards_flat(m) if g is not eq(at(v), p)], m.atoms) for m in d + q]
    off = [M(m.c, m.binders, guards_flat(m), m.atoms) for m in d]
    return vanishes(at_, facts) and vanishes(off, facts.child(Not(eq(at(v), p))))


def ends_of(d):
    out = []
    for v in d[0].binders:
        for x in d:
            for b in guards_flat(x):
                l = linear_in(b.key[1], v) if b.key[0] == 'le' and v in b.fv else None
                if l is None or abs(l[0]) != 1: continue
                e = -l[1] if l[0] == 1 else l[1]
                for p in (e, e + 1, e - 1):
                    if not any(w in p.fv for w in d[0].binders) and (v, p) not in out: out.append((v, p))
    return out


def absorb(m, rep, v, p, facts):
    q = msubst(M(Fr(1), (), (), rep.atoms), {v: p})
    if len(q) != 1 or q[0].guards: return None
    r = M(q[0].c, tuple(w for w in rep.binders if w is not v), (), q[0].atoms)
    if skeleton(r) != skeleton(m):
        if _shape(r) != _shape(m): return None
        s = unify(r, m, facts)
        return None if s is None else M(m.c/r.c, rep.binders, list(s.guards) + [eq(at(v), p)], rep.atoms)
    s = match(r, m)
    return None if s is None else M(m.c/r.c, rep.binders, [subst(b, s) for b in m.guards] + [eq(at(v), p)], rep.atoms)


def vanishes(c, facts):
    byg = {}
    for m in c: byg[frozenset(guards_flat(m))] = byg.get(frozenset(guards_flat(m)), 0) + m.c
    byg = {g: v for g, v in byg.items() if v}
    if not byg: return True
    terms = []
    gl = [(And(*g), v) for g, v in byg.items()]
    # z3: sum of coefficients over active guards == 0
    tot = z3.RealVal(0)
    for g, v in gl: tot = tot + z3.If(ZT.b(g), z3.RealVal(f'{v.numerator}/{v.denominator}'), z3.RealVal(0))
    r, _ = facts.solve([tot != 0])
    return r == z3.unsat


def _shape(m):
    """multiset of atom heads"""
    return (len(m.binders), tuple(sorted(((a.kind, str(a.key[2]) if a.kind in ('el', 'fn', 'var') else '', a.key[4] if a.kind in ('el', 'fn') else 0, e) for a, e in m.atoms.items()))))


def merge_classes(res, facts):
    by = {}
    for c in res: by.setdefault(_shape(c[0]), []).append(c)
    out = []
    for sh, cs in by.items():
        if len(cs) == 1: out += cs; continue
        reps = []
        for c in cs:
            for r in reps:
                mm = [unify(r[0], m, facts) for m in c]
                if all(x is not None for x in mm): r.extend(mm); break
            else: reps.append(list(c))
        out += [r for r in reps if not vanishes(r, facts)]
    return out


def eq_subst(gs):
    """a substitution that uses the equalities among the guards"""
    s = {}
    for b in gs:
        for b in (b.key[1] if b.key[0] == 'and' else (b,)):
            if b.key[0] != 'eq' or b.key[1].sort != 'i': continue
            p = subst(b.key[1], s) if s else b.key[1]
            for v in sorted((a for k in p.m for a, e in k if a.kind == 'var'), key=lambda a: -a.id):
                l = linear_in(p, v)
                if l and abs(l[0]) == 1:
                    r = l[1].scale(-1/l[0])
                    s = {q: subst(t, {v: r}) for q, t in s.items()}; s[v] = r
                    break
    return s


def unify(rep, m, facts):
    """m rewritten with the atoms of rep if facts and guards of m make their indices equal"""
    if len(rep.binders) != len(m.binders): return None
    ra = sorted(rep.atoms.items(), key=lambda t: (t[0].kind, str(t[0].key[2:3]), t[0].id))
    ma = list(m.atoms.items())
    for s in bindings(rep, m, False):
        gs = [subst(b, s) for b in m.guards]
        es = eq_subst(gs)
        f2 = facts.child(*gs)
        left = [(the(subst(at(a), s)), e) for a, e in ma]
        if any(a is None for a, _ in left): continue
        good = True
        for a, e in ra:
            for j, (b, e2) in enumerate(left):
                if e != e2: continue
                if a is b: left.pop(j); break
                if es and a.kind == b.kind and subst(at(a), es) == subst(at(b), es): left.pop(j); break
                if a.kind in ('el', 'fn') and b.kind == a.kind and a.key[2] == b.key[2] and a.key[4] == b.key[4] and len(a.key[3]) == len(b.key[3]) \
                        and all(x == y or (x.sort != 'c' and y.sort != 'c' and f2.entails(eq(x, y))) for x, y in zip(a.key[3], b.key[3])):
                    left.pop(j); break
                if a.kind == b.kind and a.kind in ('inv', 'sqrt', 'abs', 'sum') and prove_eq(at(a), at(b), f2, clear=False, depth=9).ok if a.kind == 'sum' else \
                        (a.kind == b.kind and a.kind in ('inv', 'sqrt', 'abs') and prove_eq(a.key[2], b.key[2], f2, depth=3).ok):
                    left.pop(j); break
            else: good = False; break
        if good: return M(m.c, rep.binders, gs, rep.atoms)
    return None
