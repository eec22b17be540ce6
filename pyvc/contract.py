"""Contracts: symbolic inputs, path exploration, obligations, numeric refutation."""
import random, time, math, cmath
import z3
from .values import *
from .arrays import *
from . import term as T
from .prover import Facts, prove_eq, ZT, STATS
from .interp import Interp, Program
from . import npmodel, linalg, npmore
from .linalg import order_lemmas
from .loops import freeze


class NoEval(Exception): pass


class Ev:
    """numeric evaluation of terms"""
    def __init__(self, env, rng): self.env, self.rng, self.tens = env, rng, {}; self.loc = {}; self.derived = set(); self.until = None
    def p(self, p):
        r = 0
        for k, c in p.m.items():
            t = c if c.denominator != 1 else int(c)
            for a, e in k:
                if t == 0: break
                v = self.a(a)
                if e < 0:
                    if v == 0: raise NoEval('division by zero')
                    t = t/(v**(-e)) if not (isinstance(v, int) and isinstance(t, (int, T.Fr))) else T.Fr(t)/v**(-e)
                else: t = t*v**e
            r = r + t
        if isinstance(r, T.Fr) and r.denominator == 1: r = int(r)
        return r
    def i(self, p):
        v = self.p(p)
        if isinstance(v, complex): raise NoEval('complex index')
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9: raise NoEval('fractional index')
            v = round(v)
        return int(v)
    def a(self, a):
        k, key = a.kind, a.key
        if k == 'var':
            if a in self.loc: return self.loc[a]
            if a in self.env: return self.env[a]
            nm = key[2]
            if nm == 'pi': return math.pi
            if a.sort == 'i': raise NoEval(f'free integer {nm}')
            v = self.rng.uniform(-2, 2) if a.sort == 'r' else complex(self.rng.gauss(0, 1), self.rng.gauss(0, 1))
            self.env[a] = v; return v
        if k == 'cvar': return complex(self.a(key[2])).conjugate()
        if k == 'imag': return 1j
        if k == 'el':
            t = key[2]; idx = tuple(self.i(x) if x.sort == 'i' else self.p(x) for x in key[3])
            v = self.tensor(t, idx)
            return v.conjugate() if key[4] else v
        if k == 'fn':
            ar = [self.p(x) for x in key[3]]; n = key[2]
            if n == 'W': v = cmath.exp(-2j*math.pi*float(ar[1])*float(ar[2])/float(ar[0]))
            elif n == 'cos': v = math.cos(ar[0])
            elif n == 'sin': v = math.sin(ar[0])
            elif n == 'exp': v = cmath.exp(complex(ar[0], ar[1])) if a.sort == 'c' else math.exp(ar[0])
            else: v = self.tensor(('fn', n, a.sort), tuple(ar), a.sort)
            return v.conjugate() if key[4] else v
        if k == 'inv':
            v = self.p(key[2])
            if v == 0: raise NoEval('division by zero')
            return 1/v if not isinstance(v, int) else T.Fr(1, v)
        if k == 'sqrt':
            v = self.p(key[2])
            if isinstance(v, complex):
                if abs(v.imag) > 1e-9*(1+abs(v)): raise NoEval('sqrt of complex')
                v = v.real
            if v < 0: raise NoEval('sqrt of negative')
            return math.sqrt(v)
        if k == 'abs': return abs(self.p(key[2]))
        if k == 'idiv':
            x, y = self.i(key[2]), self.i(key[3])
            if y == 0: raise NoEval('division by zero')
            return x//y
        if k == 'floor':
            v = self.p(key[2])
            return math.floor(v)
        if k == 'ite': return self.p(key[3]) if self.b(key[2]) else self.p(key[4])
        if k == 'sum':
            _, _, v, lo, hi, body = key
            l, h = self.i(lo), self.i(hi)
            if h - l > 200 and self.until is None: raise NoEval('long sum')
            old = self.loc.get(v); r = 0
            for j in range(l, h):
                if self.until is not None and time.time() > self.until: raise NoEval('long sum')
                self.loc[v] = j; r = r + self.p(body)
            if old is None: self.loc.pop(v, None)
            else: self.loc[v] = old
            return r
        raise NoEval(k)
    def tensor(self, t, idx, sort=None):
        d = self.tens.setdefault(t if isinstance(t, tuple) else id(t), {})
        if idx in d: return d[idx]
        info = {} if isinstance(t, tuple) else t.info
        if 'num' in info: self.derived.add(id(t)); v = info['num'](self, idx)
        elif 'gen' in info: v = info['gen'](self.rng, idx)
        else:
            s = sort or t.sort
            v = self.rng.randint(-5, 5) if s == 'i' else self.rng.gauss(0, 1) if s == 'r' else complex(self.rng.gauss(0, 1), self.rng.gauss(0, 1))
        d[idx] = v
        return v
    def fork(self, changes):
        """the same inputs under other values of some variables (everything derived is computed anew)"""
        e = Ev({**self.env, **changes}, self.rng); e.until = self.until; e.loc = dict(self.loc)
        e.tens = {k: d for k, d in self.tens.items() if k not in self.derived and not (isinstance(k, tuple) and k[0] in ('eig', 'svd'))}
        return e
    def num(self, p):
        v = self.p(p)
        return v
    def b(self, b):
        k = b.key
        if k[0] == 'T': return True
        if k[0] == 'F': return False
        if k[0] in ('le', 'lt', 'eq'):
            v = self.p(k[1])
            if k[0] == 'eq': return abs(v) <= 1e-9 if not isinstance(v, (int, T.Fr)) else v == 0
            if isinstance(v, complex):
                if abs(v.imag) > 1e-9: raise NoEval('order of complex')
                v = v.real
            if isinstance(v, float) and abs(v) < 1e-10: raise NoEval('too close to decide')
            return v <= 0 if k[0] == 'le' else v < 0
        if k[0] == 'not': return not self.b(k[1])
        if k[0] == 'and': return all(self.b(x) for x in k[1])
        if k[0] == 'or': return any(self.b(x) for x in k[1])
        if k[0] == 'pred':
            ar = tuple(self.p(x) for x in k[2])
            return self.tensor(('pred', k[1], 'b'), ar, 'i') > 0
        raise NoEval(k[0])


def free_vars(bs, ps):
    s = set()
    for x in list(bs) + list(ps): s |= x.fv
    return sorted((a for a in s if not str(a.key[2]).startswith('$')), key=lambda a: a.id)


def instances(facts, terms, rng, tries=40, top=6, hint=None):
    """random small assignments of the integer variables that satisfy the facts"""
    vs = free_vars(facts.bs, terms)
    ints = [a for a in vs if a.kind == 'var' and a.sort == 'i']
    reals = [a for a in vs if a.kind == 'var' and a.sort == 'r' and a.key[2] != 'pi']
    for t in range(tries):
        s = z3.Solver(); s.set('timeout', 1500)
        s.add(*[ZT.b(b) for b in facts.bs]); s.add(*facts.quant)
        if hint is not None and t % 2 == 0: s.add(hint)
        hi = top + t//8
        for a in ints: s.add(ZT.atom(a) <= hi*3 if t > tries//2 else ZT.atom(a) <= hi, ZT.atom(a) >= -2)
        s.add(*ZT.relevant(s.assertions()))
        order = list(ints); rng.shuffle(order); env = {}
        if s.check() != z3.sat: continue
        for a in order:
            z = ZT.atom(a)
            for _ in range(4):
                v = rng.randint(0, hi)
                s.push(); s.add(z == v)
                if s.check() == z3.sat: env[a] = v; break
                s.pop()
        if s.check() != z3.sat: continue
        for a in reals:
            z = ZT.atom(a)
            for _ in range(3):
                v = T.Fr(rng.randint(-40, 40), 16)
                s.push(); s.add(z == z3.RealVal(f'{v.numerator}/{v.denominator}'))
                if s.check() == z3.sat: env[a] = float(v); break
                s.pop()
        if s.check() != z3.sat: continue
        m = s.model()
        for a in ints:
            if a not in env:
                v = m.eval(ZT.atom(a), model_completion=True); env[a] = v.as_long()
        for a in reals:
            if a not in env:
                v = m.eval(ZT.atom(a), model_completion=True)
                if z3.is_rational_value(v): env[a] = v.numerator_as_long()/v.denominator_as_long()
        yield env


def large_instances(facts, terms, rng, extra=(), tries=3):
    """assignments for conditions that need large numbers: as few and as little large as possible"""
    vs = free_vars(facts.bs, list(terms) + list(extra))
    ints = [a for a in vs if a.kind == 'var' and a.sort == 'i']
    reals = [a for a in vs if a.kind == 'var' and a.sort == 'r' and a.key[2] != 'pi']
    for t in range(tries):
        s = z3.Solver(); s.set('timeout', 1500)
        s.add(*[ZT.b(b) for b in list(facts.bs) + list(extra)]); s.add(*facts.quant)
        s.add(*[ZT.atom(a) >= -2 for a in ints]); s.add(*ZT.relevant(s.assertions()))
        for B in (60, 300, 1500, 8000, 40000, 10**6):
            s.push(); s.add(*[ZT.atom(a) <= B for a in ints])
            if s.check() == z3.sat: break
            s.pop()
        else: return
        order = list(ints); rng.shuffle(order)
        for a in order:
            z = ZT.atom(a); lo, hi = 5, B
            s.push(); s.add(z <= lo)
            if s.check() == z3.sat: continue
            s.pop()
            while hi - lo > 1:
                mid = (lo + hi)//2
                s.push(); s.add(z <= mid); ok = s.check() == z3.sat; s.pop()
                if ok: hi = mid
                else: lo = mid
            s.push(); s.add(z <= hi + (t and rng.randint(0, 3)))
        if s.check() != z3.sat: continue
        for a in order:
            s.push(); s.add(ZT.atom(a) == rng.randint(0, 5))
            if s.check() != z3.sat: s.pop()
        if s.check() != z3.sat: continue
        m = s.model(); env = {}
        for a in ints: env[a] = m.eval(ZT.atom(a), model_completion=True).as_long()
        for a in reals:
            v = m.eval(ZT.atom(a), model_completion=True)
            if z3.is_rational_value(v): env[a] = v.numerator_as_long()/v.denominator_as_long()
        yield env


def big_hints(facts, terms):
    """conditions on free integers under which a term behaves as it only does for large numbers"""
    out, seen = [], set()
    def go(x):
        if isinstance(x, (tuple, frozenset, list)):
            for y in x: go(y)
        elif isinstance(x, P):
            if x in seen: return
            seen.add(x)
            for k, c in x.m.items():
                for a, e in k: go(a)
        elif isinstance(x, T.B):
            if ('b', x.id) in seen: return
            seen.add(('b', x.id)); go(x.key[1:])
            if x.key[0] in ('le', 'lt', 'eq') and isinstance(x.key[1], P) and free(x) and any(not k and abs(c) >= 8 for k, c in x.key[1].m.items()): out.extend([x, T.Not(x)])
        elif isinstance(x, T.Atom):
            if ('a', x.id) in seen: return
            seen.add(('a', x.id)); go(x.key[2:])
            if x.kind == 'idiv' and x.key[3].const() is not None and x.key[3].const() >= 8 and free(x.key[2]): out.append(ge(x.key[2], x.key[3]))
    def free(x): return x.fv and all(a.kind == 'var' and a.sort == 'i' for a in x.fv) and not getattr(x, 'bd', None)
    for x in list(terms): go(x)
    return out[:6]


def residual_hint(res):
    """a condition under which monomials without a partner are present"""
    if not res: return None
    out = []
    for c in res:
        tot = z3.RealVal(0)
        for m in c: tot = tot + z3.If(z3.And(*[ZT.b(g) for g in m.guards]), z3.RealVal(f'{m.c.numerator}/{m.c.denominator}'), z3.RealVal(0))
        out.append(tot != 0)
    return z3.Or(*out)


def refute(facts, terms, judge, seed=1, tries=24, budget=6., hint=None):
    """judge(ev) -> True when the instance violates the claim; returns description or None"""
    rng = random.Random(seed); t0 = time.time(); some = False
    def attempt(env, until=None):
        ev = Ev(dict(env), random.Random(rng.random())); ev.until = until
        try:
            if all(ev.b(b) for b in facts.bs) and judge(ev): return {str(a.key[2]): v for a, v in env.items()}
        except (NoEval, ValueError, OverflowError, ZeroDivisionError, TypeError): pass
    for env in instances(facts, terms, rng, tries, hint=hint):
        some = True
        if time.time() - t0 > budget: break
        for rep in range(2):
            r = attempt(env)
            if r is not None: return r
    # conditions that only large numbers satisfy
    t0 = time.time()
    for extra in [()] if not some else [(h,) for h in big_hints(facts, terms)]:
        for env in large_instances(facts, terms, rng, extra):
            for rep in range(5):
                r = attempt(env, t0 + 2*budget)
                if r is not None: return r
                if time.time() - t0 > 2*budget: return None
    return None


class Ctx:
    """results of one contract"""
    def __init__(self, prog, name, models=None, contracts=None, seed=1):
        self.prog, self.name, self.seed = prog, name, seed
        self.models = dict(npmodel.M); self.models.update(models or {})
        self.contracts = dict(contracts or {})
        self.obs = {}; self.visited = set(); self.paths = 0; self.trusted = set(); self.assumptions = []
        self.vac = {}; self.pool = {}
        self.quiet = False; self.soft = False
    def T(self, name, sort, nd):
        """the same input tensor in every run of the contract"""
        return self.pool.setdefault(('input', name, sort, nd), Tensor(name, sort, nd))
    # -- exploration
    def interp(self, choices):
        from .npmodel import M
        I = Interp(self.prog, self.models, self.contracts, Facts([gt(npmodel.PI, 3), lt(npmodel.PI, 4)]), choices)
        I.ctx = self; I.pool = self.pool
        return I
    def explore(self, run, max_paths=80):
        choices = []
        while True:
            I = self.interp(choices)
            self.cur_I = I
            try: run(I)
            except PyRaise as e:
                self.record(f'no exception', 'unexpected', I, f'{e.typ}: {e.msg} at {e.node}', facts=I.facts)
            except PathEnd: pass
            except (Unsupported, PoisonRead, RecursionError, OverflowError) as e:
                self.record('within the verified subset', 'undecided', I, f'{type(e).__name__}: {e}')
            except (KeyError, TypeError, IndexError, AttributeError, AssertionError, ValueError, ZeroDivisionError) as e:
                import os
                if os.environ.get('PYVC_DEBUG'): raise
                self.record('within the verified subset', 'undecided', I, f'{type(e).__name__}: {e}')
            self.side(I)
            self.paths += 1; self.visited |= I.visited
            del choices[I.pos:]
            while choices and not choices[-1]: choices.pop()
            if not choices: break
            choices[-1] = False
            if self.paths > max_paths:
                self.record('within the verified subset', 'undecided', None, 'too many paths'); break
    def side(self, I):
        for name, cond, facts, kind in I.obq:
            if kind == 'equality': self.eqt(name, cond[0], cond[1], facts)
            elif cond is True: self.record(name, 'discharged', I, backend='pyvc induction')
            else: self.cond_f(name, cond, facts, side=True)
        I.obq = []
    # -- obligations
    def record(self, name, status, I=None, detail='', backend='', facts=None, dt=0., instance=None):
        if status == 'unexpected':
            # an exception on a feasible path?
            r = facts.check()[0] if facts is not None else 'unknown'
            if r == 'unsat': return
            inst = refute(facts, [], lambda ev: True, self.seed) if r == 'sat' else None
            status = 'refuted' if inst is not None else 'undecided'; instance = inst
            detail = f'{detail}' + (f' for {inst}' if inst else '')
        if status == 'refuted' and getattr(self.cur_I, 'used_inv', False):
            # the state the iteration starts from is any state of the invariant, not necessarily a reachable one
            status, instance, detail = 'undecided', None, 'the loop invariant does not carry over: ' + str(detail)
        if status == 'refuted' and self.soft: status, instance, detail = 'undecided', None, 'not needed by the property itself: ' + str(detail)
        o = self.obs.get(name)
        rank = {'discharged': 0, 'known': 1, 'undecided': 2, 'refuted': 3}
        if o is None: o = self.obs[name] = dict(name=f'{self.name}: {name}', function=self.name, status=status, detail=detail, backend=set(), seconds=0., paths=0)
        elif rank[status] > rank[o['status']]: o['status'], o['detail'] = status, detail
        if instance is not None and 'instance' not in o: o['instance'] = instance
        o['seconds'] += dt; o['paths'] += 1
        if backend: o['backend'].add(backend)
    def cond(self, I, name, b): self.cond_f(name, b, I.facts)
    def cond_f(self, name, b, facts, side=False):
        t = time.time()
        if isinstance(b, bool): b = T.TRUE if b else T.FALSE
        if facts.entails(b): return self.record(name, 'discharged', backend='z3', dt=time.time()-t)
        if facts.check()[0] == 'unsat': return self.record(name, 'discharged', backend='z3', dt=time.time()-t)
        inst = refute(facts, [b] if isinstance(b, T.B) else [], lambda ev: not ev.b(b), self.seed, hint=z3.Not(ZT.b(b)))
        if inst is not None: self.record(name, 'refuted', detail=f'{T.show_b(b)[:400]} fails for {inst}', backend='z3', dt=time.time()-t, instance=inst)
        else: self.record(name, 'undecided', detail=f'not proved: {T.show_b(b)[:400]}', backend='z3', dt=time.time()-t)
    def eqt(self, name, a, b, facts):
        """terms equal"""
        t = time.time(); a, b = to(a), to(b)
        try: r = prove_eq(a, b, facts)
        except (ValueError, KeyError, RecursionError) as e: return self.record(name, 'undecided', detail=f'{type(e).__name__} {e}', dt=time.time()-t)
        if r.ok: return self.record(name, 'discharged', backend='pyvc normalizer' + (' + z3' if 'z3' in r.how or facts.bs else ''), dt=time.time()-t)
        if facts.check()[0] == 'unsat': return self.record(name, 'discharged', backend='z3', dt=time.time()-t)
        def judge(ev):
            x, y = ev.p(a), ev.p(b)
            return abs(x - y) > 1e-6*(1 + abs(x) + abs(y))
        inst = refute(facts, [a, b], judge, self.seed, hint=residual_hint(r.residual))
        if inst is not None: self.record(name, 'refuted', detail=f'for {inst} the code gives another value: {r.detail[:500]}', backend='pyvc normalizer + numeric instance', dt=time.time()-t, instance=inst)
        else: self.record(name, 'undecided', detail=r.detail[:600], backend='pyvc normalizer', dt=time.time()-t)
    def eq(self, I, name, a, b):
        """values equal: numbers, or arrays of equal shape with equal elements"""
        if isinstance(a, (P, int, float)) and isinstance(b, (P, int, float)): return self.eqt(name, a, b, I.facts)
        if isinstance(a, (bool, T.B)) and isinstance(b, (bool, T.B)):
            r = I.beq(a, b); return self.cond(I, name, r)
        if isinstance(a, Arr) and a.nd == 0 and not isinstance(b, Arr): return self.eqt(name, a.at([]), b, I.facts)
        if isinstance(a, (Arr, ListV)) and isinstance(b, Arr):
            a = asarr(I.arrlike(a))
            if a.nd != b.nd:
                return self.cond_f(f'{name} (rank)', False, I.facts)
            for j in range(a.nd): self.eqt(f'{name} (shape)', a.sizes()[j], b.sizes()[j], I.facts)
            axes = [y if len(y) >= len(x) else x for x, y in zip(a.axes, b.axes)]
            try: ra, rb = reader(I, a, axes), reader(I, b, axes)
            except Unsupported as e: return self.record(name, 'undecided', detail=str(e))
            fs = [d for x in axes for d in x]; idx = [fresh('e') for _ in fs]
            F = I.facts.child(*[c for i, d in zip(idx, fs) for c in (ge(i, 0), lt(i, d))])
            x, y = ra(idx), rb(idx)
            if isinstance(x, T.B) or isinstance(y, T.B): return self.cond_f(name, I.beq(x, y), F)
            return self.eqt(name, F.simplify(x), F.simplify(y), F)
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            x = list(a if isinstance(a, tuple) else I.concrete_list(a)); y = list(b if isinstance(b, tuple) else I.concrete_list(b))
            if len(x) != len(y): return self.cond_f(name + ' (length)', False, I.facts)
            for p, q in zip(x, y): self.eq(I, name, p, q)
            return
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return self.streq(I, name, a, b)
        if a is None or b is None: return self.record(name, 'discharged' if a is b else 'refuted', I, f'{a} vs {b}')
        self.record(name, 'undecided', I, f'comparison of {type(a).__name__} and {type(b).__name__}')
    def streq(self, I, name, a, b):
        pa = a.parts if isinstance(a, SymStr) else (a,); pb = b.parts if isinstance(b, SymStr) else (b,)
        if a == b: return self.record(name, 'discharged', I, backend='identity')
        if len(pa) == len(pb) and all((x == y) if isinstance(x, str) or isinstance(y, str) else x[1] == y[1] for x, y in zip(pa, pb)):
            for x, y in zip(pa, pb):
                if not isinstance(x, str): self.eqt(name, x[0], y[0], I.facts)
            return
        def render(ev, parts):
            out = ''
            for q in parts:
                if isinstance(q, str): out += q
                else: out += format(ev.p(to(q[0])), q[1] if isinstance(q[1], str) else '')
            return out
        t = time.time()
        try: inst = refute(I.facts, [to(q[0]) for q in pa + pb if not isinstance(q, str)], lambda ev: render(ev, pa) != render(ev, pb), self.seed) if all(isinstance(x, (str, SymStr)) for x in (a, b)) else None
        except (TypeError, ValueError): inst = None
        if inst is not None: return self.record(name, 'refuted', I, f'{a} vs {b} for {inst}', dt=time.time()-t, instance=inst)
        self.record(name, 'undecided', I, f'{a} vs {b}')
    def each(self, I, dims):
        """fresh in-range indices and the facts about them"""
        idx = [fresh('e') for _ in dims]
        return idx, I.facts.child(*[c for i, d in zip(idx, dims) for c in (ge(i, 0), lt(i, d))])
    def lemma(self, name, a, b, facts):
        """a consequence of the contract, independent of the code"""
        r = prove_eq(a, b, facts)
        self.record(name, 'discharged' if r.ok else 'undecided', detail='' if r.ok else str(r)[:500], backend='pyvc normalizer')
    def eq_known(self, I, name, a, b, facts, finding, kb):
        """a == b is required; the recorded finding is that a == kb instead"""
        if prove_eq(a, b, facts).ok: return self.record(name, 'discharged', backend='pyvc normalizer')
        if prove_eq(a, kb, facts).ok:
            self.record(name, 'known', detail=f'known finding {finding}'); self.obs[name]['finding'] = finding; return
        self.eqt(name, a, b, facts)
    def unchanged(self, I, name, arr, t):
        """content of arr is still the tensor t"""
        idx, F = self.each(I, arr.factors())
        self.eqt(name, arr.at(idx), el(t, idx), F)
    def unchanged_at(self, I, name, arr, f):
        idx, F = self.each(I, arr.factors())
        self.eqt(name, arr.at(idx), f(idx), F)
    def frame(self, I, *objs, soft=False):
        """what is handed in, remembered; the function returned states that every array, list and dictionary among it is as before.
        soft: a stricter statement than the property (the array may be a private copy): not proved is undecided, never refuted"""
        snap = []
        def go(v):
            if any(v is o for o, _ in snap): return
            if isinstance(v, Arr): snap.append((v, v.axes)); go(v.buf)
            elif isinstance(v, Buf): snap.append((v, v.st))
            elif isinstance(v, (ListV, DictV)):
                snap.append((v, dict(v.st) if isinstance(v.st, dict) else list(v.st) if isinstance(v.st, list) else v.st))
                for x in (v.st.values() if isinstance(v.st, dict) else v.st if isinstance(v.st, (list, tuple)) else ()): go(x)
            elif isinstance(v, tuple):
                for x in v: go(x)
        for o in objs: go(o)
        def check(what='arguments', values_only=False):
            self.soft = soft
            try: check_(what, values_only)
            finally: self.soft = False
        def check_(what, values_only):
            for v, st in snap:
                if isinstance(v, Arr): self.cond(I, f'{what} keep their shape', len(v.axes) == len(st) and all(tuple(a) == tuple(b) for a, b in zip(v.axes, st)))
                elif isinstance(v, Buf):
                    if v.st is st or v.st[1] is st[1]: self.cond(I, f'{what} unchanged', True)
                    else:
                        idx, F = self.each(I, st[0]); self.eqt(f'{what} unchanged', v.st[1](idx), st[1](idx), F)
                elif not values_only:
                    now = v.st; ks = lambda q: list(q.items()) if isinstance(q, dict) else list(q) if isinstance(q, (list, tuple)) else [q]
                    a, b = ks(now), ks(st)
                    flat = lambda q: [y for x in q for y in (x if isinstance(x, tuple) else (x,))]
                    a, b = flat(a), flat(b)
                    self.cond(I, f'{what} unchanged (entries)', len(a) == len(b) and all(x is y or (isinstance(x, (str, int, float)) and x == y) for x, y in zip(a, b)))
        return check
    def reachable(self, I, tag=''):
        """vacuity guard: the path is feasible"""
        r = I.facts.check()[0]
        self.vac[tag or 'path'] = self.vac.get(tag or 'path', 0) + (r == 'sat')
        return r != 'unsat'
    def attempt(self, I, f):
        """('ok', value) or ('raise', PyRaise)"""
        try: return ('ok', f())
        except PyRaise as e: return ('raise', e)


class PathEnd(Exception): pass


class Effect:
    """an externally visible action (file written); binders: the loops it sits in, outermost first"""
    def __init__(self, name, args, binders=()): self.name, self.args, self.binders = name, args, tuple(binders)
    def bind(self, k, lo, hi): return Effect(self.name, self.args, ((k, to(lo), to(hi)),) + self.binders)
    def at(self, *vals):
        """arguments in the iterations given"""
        if len(vals) != len(self.binders): raise Unsupported(f'{self.name} sits in {len(self.binders)} loops')
        s = {the(b[0]): to(v) for b, v in zip(self.binders, vals)}
        return tuple(vsubst(a, s) for a in self.args)


def effect(name):
    """model that records its arguments"""
    def f(I, a, k):
        I.effects.append(Effect(name, tuple(freeze(x) for x in a) + tuple(freeze(k[x]) for x in sorted(k))))
    return f


def find(I, qual):
    """function or method by qualified name"""
    mod, _, name = qual.rpartition('.')
    v = I.glob(mod, name) if I.prog.tree(mod) is not None else None
    if v is None:
        m2, _, cls = mod.rpartition('.')
        if I.prog.tree(m2) is None: raise Unsupported(f'{qual} not found')
        c = I.glob(m2, cls)
        v = c.find(name) if c is not None else None
    if v is None: raise Unsupported(f'{qual} not found')
    return v
