"""Symbolic interpreter of the Python subset used by PySPOD, over /repo's source as it is on disk."""
import ast, os
from .values import *
from .arrays import *
from . import arrays as A, term as T
from .prover import Facts, prove_eq, map_atoms, map_b


class Return(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass
class NeedMerge(Exception):
    def __init__(self, b): self.b = b


def no_continue(body):
    """`if c: A; continue` followed by B is `if c: A else: B`"""
    for i, s in enumerate(body):
        if isinstance(s, ast.If):
            a, b = no_continue(s.body), no_continue(s.orelse)
            ca, cb = bool(a) and isinstance(a[-1], ast.Continue), bool(b) and isinstance(b[-1], ast.Continue)
            if ca or cb:
                rest = no_continue(body[i+1:])
                n = ast.If(test=s.test, body=(a[:-1] if ca else a + rest) or [ast.Pass()], orelse=b[:-1] if cb else b + rest)
                ast.copy_location(n, s); ast.fix_missing_locations(n)
                return list(body[:i]) + [n]
    return list(body)


class Native:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f'<native {self.name}>'
MUTATE = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'fill', '__setitem__', '__delitem__', 'appendleft', 'move_to_end'}
def _base(t):
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)): t = t.value
    return t.id if isinstance(t, ast.Name) else None
def changed_names(fn):
    """names a function changes without binding them: stores into them (x[..] = , x.a = , del x[..]), calls of their mutating
    methods, rebinding under `global`"""
    own, out, glob = set(), set(), set()
    a = fn.args
    own |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for s in ast.walk(fn):
        if isinstance(s, ast.Global): glob |= set(s.names)
        elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store): own.add(s.id)
        elif isinstance(s, (ast.Subscript, ast.Attribute)) and isinstance(s.ctx, (ast.Store, ast.Del)): out.add(_base(s))
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUTATE: out.add(_base(s.func.value))
    return glob | (out - (own - glob)), out
def module_state(tree):
    """names of the module whose value calls may change: what they hold when a function runs is not what the module assigned"""
    top = {t.id for s in ast.walk(tree) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.col_offset == 0 for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
    top |= {s.name for s in tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
    out = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)): out |= changed_names(fn)[0]
    return {n for n in out if n in top}
def is_container(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in ('dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'deque', 'WeakValueDictionary', 'Counter'))

class Func:
    def __init__(self, node, module, qual, closure=None, self_=None, cls=None):
        self.node, self.module, self.qual, self.closure, self.self_, self.cls = node, module, qual, closure, self_, cls
    def bind(self, o): return Func(self.node, self.module, self.qual, self.closure, o, self.cls)
    def __repr__(self): return f'<function {self.qual}>'
class ClassV:
    def __init__(self, name, module, node, bases): self.name, self.module, self.node, self.bases = name, module, node, bases; self.ns = {}
    def find(self, attr):
        if attr in self.ns: return self.ns[attr]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.find(attr)
                if r is not None: return r
        return None
    def __repr__(self): return f'<class {self.name}>'
class ModuleV:
    def __init__(self, name): self.name = name
    def __repr__(self): return f'<module {self.name}>'
class RangeV:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = to(lo), to(hi), step
class ExcV:
    def __init__(self, name): self.name = name
class BoundM:
    def __init__(self, obj, name): self.obj, self.name = obj, name


EXC = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'RuntimeError', 'NotImplementedError', 'Exception',
       'FileNotFoundError', 'AssertionError', 'ZeroDivisionError', 'OSError', 'IOError', 'ImportError', 'NameError'}
NUM = (int, float, complex, P, bool)


class Program:
    """the parsed sources of /repo (shared between runs)"""
    def __init__(self, repo): self.repo = repo; self.trees = {}
    def tree(self, mod):
        if mod not in self.trees:
            p = os.path.join(self.repo, *mod.split('.'))
            f = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
            if not os.path.exists(f): return None
            with open(f) as fh: self.trees[mod] = (ast.parse(fh.read()), f)
        return self.trees[mod]


class Interp:
    def __init__(self, prog, models, contracts=None, facts=None, choices=None, ob=None):
        self.prog, self.models, self.contracts = prog, models, contracts or {}
        self.facts = facts or Facts()
        self.heap = Heap()
        self.mods = {}; self.state = {}
        self.choices = choices if choices is not None else []; self.pos = 0
        self.generic = 0
        self.obq = []                                  # side obligations: (name, condition, facts, kind)
        self.extremes = []
        self.rebased = []
        self.depth = 0
        self.effects = []                              # file writes etc. (name, ...)
        self.notes = []
        self.visited = set()                           # qualified names interpreted
        self.written = set()
        self.lines = []
        self.loopn = 0
        self.compvars = []
        self.loopvars = []                             # variables of the enclosing symbolic loops
        self.sites = [{}]                              # per enclosing loop: tensors introduced at a call, stable over the passes
        self.perms = []; self.eigs = []; self.svds = []; self.derivs = []; self.pool = {}
        self.fs = {}
        self.cur = []

    # ------------------------------------------------------------ utilities
    def ob(self, name, cond, I=None, kind='bounds'):
        where = self.cur[-1] if self.cur else ''
        self.obq.append((f'{where}: {name}', cond, self.facts, kind))
    def assume(self, *bs): self.facts = self.facts.child(*bs)
    def unsup(self, msg, node=None):
        where = f' at {self.cur[-1]}:{node.lineno}' if node is not None and hasattr(node, 'lineno') and self.cur else (f' in {self.cur[-1]}' if self.cur else '')
        raise Unsupported(msg + where)
    def wrote(self, buf): self.written.add(id(buf))
    def lossy(self, arr, va): self.notes.append(f'complex value stored into a real array {arr.buf.name}')
    def bounds(self, p, n):
        """index in bounds, or IndexError"""
        F = self.facts
        if F.entails(And(ge(p, 0), lt(p, n))): return
        if F.entails(Or(lt(p, 0), ge(p, n))): raise PyRaise('IndexError', f'index {p} out of range {n}')
        self.ob('index in bounds', And(ge(p, 0), lt(p, n)), self)

    def decide(self, b, node=None):
        if isinstance(b, bool): return b
        d = self.facts.decide(b)
        if d is not None: return d
        if self.generic: raise NeedMerge(b)
        if self.pos < len(self.choices): c = self.choices[self.pos]
        else:
            c = True; self.choices.append(True)
        self.pos += 1
        self.facts = self.facts.child(b if c else Not(b))
        return c

    def truthb(self, v):
        """truth value: bool or B"""
        if isinstance(v, bool): return v
        if isinstance(v, B):
            return True if v is TRUE else False if v is FALSE else v
        if v is None: return False
        if isinstance(v, (int, float, complex)): return bool(v)
        if isinstance(v, P):
            c = v.const()
            return bool(c) if c is not None else ne(v, 0)
        if isinstance(v, str): return bool(v)
        if isinstance(v, SymStr): return True
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, ListV):
            if isinstance(v.st, SymSeq): return self.truthb(gt(v.st.n, 0))
            return bool(v.st)
        if isinstance(v, DictV):
            if SYM in v.st: self.unsup('truth of a symbolic dict')
            return bool(v.st)
        if isinstance(v, Arr):
            if v.nd == 0: return self.truthb(v.at([]))
            if size(v.factors()) == 1: return self.truthb(v.at([ZERO]*len(v.factors())))
            if v.kind != 'b' or True: raise PyRaise('ValueError', 'The truth value of an array is ambiguous')
        if isinstance(v, Poison): raise PoisonRead(v.name)
        if isinstance(v, (Obj, Func, Native, ModuleV, ClassV, Opaque, ExcV, DType)): return True
        self.unsup(f'truth of {type(v).__name__}')
    def truth(self, v, node=None): 
        b = self.truthb(v)
        return b if isinstance(b, bool) else self.decide(b, node)

    # --------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        tr = self.prog.tree(name)
        if tr is None: return None
        ns = {'__name__': name, '__file__': tr[1]}
        self.state[name] = module_state(tr[0])
        self.mods[name] = ns
        self._load(tr[0].body, ns, name)
        return ns
    def _load(self, body, ns, name):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname: ns[a.asname] = ModuleV(a.name)
                    else: ns[a.name.split('.')[0]] = ModuleV(a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names: ns[a.asname or a.name] = ('import', s.module, a.name)
            elif isinstance(s, ast.FunctionDef): ns[s.name] = Func(s, name, f'{name}.{s.name}')
            elif isinstance(s, ast.ClassDef): ns[s.name] = ('class', s)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name): ns[t.id] = ('lazy', s.value)
            elif isinstance(s, ast.Try): self._load(s.body, ns, name)
            elif isinstance(s, ast.If): self._load(s.body, ns, name)
    def glob(self, modname, name):
        ns = self.module(modname)
        if name in ns:
            if name in self.state.get(modname, ()): self.unsup(f'the state {modname}.{name}, which calls change')
            v = ns[name]
            if isinstance(v, tuple) and v and v[0] == 'import':
                ns[name] = v = self.import_from(v[1], v[2])
            elif isinstance(v, tuple) and v and v[0] == 'class':
                node = v[1]; c = ClassV(f'{modname}.{node.name}', modname, node, [])
                ns[name] = c
                c.bases = [self.ev(b, Frame(), modname) for b in node.bases]
                for s in node.body:
                    if isinstance(s, ast.FunctionDef):
                        f = Func(s, modname, f'{modname}.{node.name}.{s.name}', cls=c)
                        deco = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
                        f.prop = 'property' in deco; f.static = 'staticmethod' in deco; f.classm = 'classmethod' in deco
                        if any(isinstance(d, ast.Attribute) for d in s.decorator_list): continue
                        c.ns[s.name] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name): c.ns[t.id] = ('class state', f'{modname}.{node.name}.{t.id}') if is_container(s.value) else self.ev(s.value, Frame(), modname)
                v = c
            elif isinstance(v, tuple) and v and v[0] == 'lazy':
                try: v = self.ev(v[1], Frame(), modname)
                except (Unsupported, PyRaise): v = Opaque(f'{modname}.{name}')
                ns[name] = v
            return v
        return None
    def import_from(self, mod, name):
        if mod and self.prog.tree(mod) is not None:
            v = self.glob(mod, name)
            if v is None:
                if self.prog.tree(f'{mod}.{name}') is not None: return ModuleV(f'{mod}.{name}')
                raise PyRaise('ImportError', f'{mod}.{name}')
            return v
        full = f'{mod}.{name}'
        if full in self.models: return self.model(full)
        return ModuleV(full) if not name[0].isupper() else Opaque(full)
    def model(self, full):
        m = self.models[full]
        if getattr(self, 'ctx', None) is not None: self.ctx.trusted.add(full)
        return Native(full, m) if callable(m) else m

    # ----------------------------------------------------------- expressions
    def ev(self, n, fr, mod):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None: self.unsup(f'expression {type(n).__name__}', n)
        return m(n, fr, mod)
    def ev_Constant(self, n, fr, mod):
        v = n.value
        if isinstance(v, float):
            if v != v or abs(v) == float('inf'): self.unsup('non-finite literal', n)
            return v if v == int(v) else to(v)          # 2. stays a float: arrays made of it hold floats
        if isinstance(v, complex): return to(v)
        return v
    def ev_Name(self, n, fr, mod): return self.lookup(n.id, fr, mod, n)
    def lookup(self, name, fr, mod, n=None):
        f = fr
        while f is not None:
            if name in f.st:
                v = f.st[name]
                if isinstance(v, Poison): raise PoisonRead(v.name)
                return v
            f = getattr(f, 'parent', None)
        v = self.glob(mod, name)
        if v is not None: return v
        if name in EXC: return ExcV(name)
        if ('builtins.' + name) in self.models: return self.model('builtins.' + name)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        if name in ('int', 'float', 'complex', 'str', 'list', 'tuple', 'dict', 'bool', 'object'): return Opaque('builtins.' + name)
        raise PyRaise('NameError', f"name '{name}' is not defined")
    def ev_Tuple(self, n, fr, mod): return tuple(self.seq(n.elts, fr, mod))
    def ev_List(self, n, fr, mod): return ListV(self.seq(n.elts, fr, mod))
    def seq(self, elts, fr, mod):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred): out += self.concrete_list(self.ev(e.value, fr, mod), e)
            else: out.append(self.ev(e, fr, mod))
        return out
    def concrete_list(self, v, n=None):
        it = self.iterate(v, n)
        if it[0] != 'c': self.unsup('symbolic sequence where a concrete one is needed', n)
        return it[1]
    def ev_Dict(self, n, fr, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None: d.update(self.ev(v, fr, mod).st)
            else: d[self.key(self.ev(k, fr, mod))] = self.ev(v, fr, mod)
        return DictV(d)
    def key(self, k):
        if isinstance(k, P):
            c = k.const()
            if c is not None and c.denominator == 1: return int(c)
        return k
    def ev_JoinedStr(self, n, fr, mod):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                try: x = self.ev(v.value, fr, mod)
                except (Unsupported, PyRaise) as e:
                    if isinstance(e, PyRaise): raise
                    x = Opaque('value')
                spec = ''
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, fr, mod); spec = s if isinstance(s, str) else '?'
                parts.append(self.fmt(x, spec))
        return mkstr(parts)
    def fmt(self, x, spec):
        if isinstance(x, P):
            c = x.const()
            if c is not None and c.denominator == 1: x = int(c)
        if isinstance(x, bool) or isinstance(x, (str, int)):
            try: return format(x, spec)
            except Exception: return ('?', spec)
        if isinstance(x, SymStr): return x
        if isinstance(x, P): return (x, spec)
        return (fresh('str', 'r'), 'opaque')
    def ev_FormattedValue(self, n, fr, mod): return self.fmt(self.ev(n.value, fr, mod), '')
    def ev_UnaryOp(self, n, fr, mod):
        v = self.ev(n.operand, fr, mod)
        if isinstance(n.op, ast.Not):
            b = self.truthb(v)
            return (not b) if isinstance(b, bool) else Not(b)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Arr): return elementwise(self, lambda x: -x, [v], v.kind)
            return -v
        if isinstance(n.op, ast.UAdd): return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Arr) and v.kind == 'b': return elementwise(self, Not, [v], 'b')
        self.unsup('unary operator', n)
    def ev_BoolOp(self, n, fr, mod):
        isand = isinstance(n.op, ast.And)
        acc = None
        for i, e in enumerate(n.values):
            last = i == len(n.values)-1
            v = self.ev(e, fr, mod)
            b = self.truthb(v)
            if isinstance(b, B):
                d = self.facts.decide(b)
                if d is not None: b = d
            if isinstance(b, bool):
                if last and acc is None: return v
                if b != isand: return v if acc is None else (b if isand is False else b) if acc is None else ((acc and b) if isinstance(acc, bool) else (FALSE if isand else TRUE))
                if last: return acc if acc is not None else v
                continue
            acc = b if acc is None else (And(acc, b) if isand else Or(acc, b))
            if not last:
                # later operands are evaluated under this one (short circuit); no forking on pure conditions
                saved = self.facts
                self.facts = saved.child(b if isand else Not(b))
                try:
                    rest = self.ev_BoolOp(ast.BoolOp(op=n.op, values=n.values[i+1:]), fr, mod) if i+2 < len(n.values) else self.ev(n.values[i+1], fr, mod)
                    rb = self.truthb(rest)
                    if isinstance(rb, bool): rb = TRUE if rb else FALSE
                finally: self.facts = saved
                return And(acc, rb) if isand else Or(acc, rb)
            return acc
        return acc
    def ev_IfExp(self, n, fr, mod):
        b = self.truthb(self.ev(n.test, fr, mod))
        if isinstance(b, B):
            d = self.facts.decide(b)
            if d is None:
                saved = self.facts
                try:
                    self.facts = saved.child(b); x = self.ev(n.body, fr, mod)
                    self.facts = saved.child(Not(b)); y = self.ev(n.orelse, fr, mod)
                    self.facts = saved
                    return self.vite(b, x, y)
                except (Unsupported, PyRaise):
                    self.facts = saved
                d = self.decide(b, n)
            b = d
        return self.ev(n.body if b else n.orelse, fr, mod)
    def vite(self, b, x, y):
        """if b then x else y, as a value"""
        if b is TRUE: return x
        if b is FALSE: return y
        if x is y: return x
        if isinstance(x, NUM) and isinstance(y, NUM) and not isinstance(x, bool) and not isinstance(y, bool): return ite(b, to(x), to(y))
        if isinstance(x, (bool, B)) and isinstance(y, (bool, B)):
            f = lambda z: z if isinstance(z, B) else (TRUE if z else FALSE)
            return Or(And(b, f(x)), And(Not(b), f(y)))
        if isinstance(x, Arr) and isinstance(y, Arr) and x.nd == y.nd:
            if not all(axis_eq(self, p, q) for p, q in zip(x.axes, y.axes)): raise Unsupported('conditional arrays of different shape')
            fx, fy = x.snap(), y.snap()
            if x.kind == 'b': return mkarr(x.axes, lambda i: Or(And(b, fx(i)), And(Not(b), fy(i))), 'b')
            return mkarr(x.axes, lambda i: ite(b, fx(i), fy(i)), kmax(x.kind, y.kind))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return tuple(self.vite(b, p, q) for p, q in zip(x, y))
        try:
            if x == y: return x
        except Exception: pass
        raise Unsupported(f'conditional value {type(x).__name__}/{type(y).__name__}')
    def ev_Compare(self, n, fr, mod):
        left = self.ev(n.left, fr, mod); acc = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr, mod)
            r = self.compare(op, left, right, n)
            acc = r if acc is None else self.andv(acc, r)
            left = right
        return acc
    def andv(self, a, b):
        if isinstance(a, bool): return b if a else False
        if isinstance(b, bool): return a if b else False
        if isinstance(a, B) and isinstance(b, B): return And(a, b)
        raise Unsupported('chained comparison of arrays')
    def compare(self, op, a, b, n=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) : r = self.beq(a, b)
            else: r = a is b or (isinstance(a, (DType, Opaque)) and isinstance(b, (DType, Opaque)) and repr(a) == repr(b))
            return (Not(r) if isinstance(r, B) else not r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, n)
            return (Not(r) if isinstance(r, B) else not r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Poison) or isinstance(b, Poison): raise PoisonRead((a if isinstance(a, Poison) else b).name)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str): return isinstance(op, ast.NotEq)
            f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq, ast.NotEq: ne}[type(op)]
            return elementwise(self, f, [self.arrlike(a), self.arrlike(b)], 'b')
        if isinstance(a, NUM) and isinstance(b, NUM):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
            f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq, ast.NotEq: ne}[type(op)]
            r = f(to(a), to(b))
            return True if r is TRUE else False if r is FALSE else r
        if isinstance(a, B) or isinstance(b, B):
            r = self.beq(a, b)
            return (Not(r) if isinstance(r, B) else not r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, n)
            return (Not(r) if isinstance(r, B) else not r) if isinstance(op, ast.NotEq) else r
        self.unsup(f'comparison of {type(a).__name__} and {type(b).__name__}', n)
    def beq(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if not isinstance(a, (bool, B)) or not isinstance(b, (bool, B)): return False
        if isinstance(a, bool): a, b = b, a
        if isinstance(b, bool): return a if b else Not(a)
        return Or(And(a, b), And(Not(a), Not(b)))
    def equal(self, a, b, n=None):
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            if isinstance(a, tuple) != isinstance(b, tuple): return False
            x = a if isinstance(a, tuple) else a.st; y = b if isinstance(b, tuple) else b.st
            if isinstance(x, SymSeq) or isinstance(y, SymSeq): self.unsup('comparison of symbolic lists', n)
            if len(x) != len(y): return False
            acc = True
            for p, q in zip(x, y): acc = self.andv(acc, self.compare(ast.Eq(), p, q, n))
            return acc
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a == b: return True
            if isinstance(a, SymStr) and isinstance(b, SymStr): self.unsup('comparison of symbolic strings', n)
            return False if (isinstance(a, str) or isinstance(b, str)) and False else self.unsup('comparison of symbolic strings', n)
        ka, kb = self.dt(a), self.dt(b)
        if ka is not None and kb is not None and (isinstance(a, DType) or isinstance(b, DType)): return ka == kb and self.single(a) == self.single(b) and getattr(a, 'swapped', False) == getattr(b, 'swapped', False)
        if type(a) is type(b) or isinstance(a, str) and isinstance(b, str):
            if isinstance(a, (Obj, Func)): return a is b
            if isinstance(a, Opaque): return a.name == b.name
            return a == b
        return False
    def single(self, v):
        n = getattr(v, 'name', v)
        return v.single if isinstance(v, DType) else isinstance(n, str) and n.split('.')[-1] in ('float32', 'complex64', 'single', 'csingle', 'f4', 'c8', '<f4', '<c8')
    def dt(self, v):
        if isinstance(v, DType): return v.kind
        if isinstance(v, (Opaque, Native)) and v.name in ('builtins.float', 'builtins.complex', 'builtins.int', 'builtins.bool'):
            return dict(float='r', complex='c', int='i', bool='b')[v.name.split('.')[1]]
        if isinstance(v, str) and v in DT: return DT[v]
        if isinstance(v, Native) and v.name.startswith('numpy.') and v.name[6:] in DT: return DT[v.name[6:]]
        return None
    def contains(self, c, x, n):
        if isinstance(c, DictV):
            k = self.key(x)
            if SYM in c.st: self.unsup('membership in a symbolic dict', n)
            return k in c.st
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, SymStr) or isinstance(x, SymStr): self.unsup('membership in a symbolic string', n)
        if isinstance(c, (tuple, ListV)):
            acc = False
            for y in self.concrete_list(c, n):
                r = self.compare(ast.Eq(), x, y, n)
                if r is True: return True
                if isinstance(r, B): acc = r if acc is False else Or(acc, r)
            return acc
        self.unsup('membership', n)
    def arrlike(self, v):
        """number, array or nested list -> number or array"""
        if isinstance(v, (ListV, tuple)):
            return self.call_model('numpy.array', [v])
        return v
    def call_model(self, name, args, kw=None): return self.models[name](self, args, kw or {})
    # ---- arithmetic
    def ev_BinOp(self, n, fr, mod):
        return self.binop(type(n.op), self.ev(n.left, fr, mod), self.ev(n.right, fr, mod), n)
    def binop(self, op, a, b, n=None):
        if isinstance(a, Poison) or isinstance(b, Poison): raise PoisonRead((a if isinstance(a, Poison) else b).name)
        if op in (ast.BitOr, ast.BitAnd, ast.BitXor) and type(a) is int and type(b) is int:
            return a | b if op is ast.BitOr else a & b if op is ast.BitAnd else a ^ b
        if op is ast.Add:
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)): return mkstr([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, ListV) and isinstance(b, ListV):
                if not isinstance(a.st, SymSeq) and not isinstance(b.st, SymSeq): return ListV(a.st + b.st)
                return ListV(self.seqcat(self.symseq(a), self.symseq(b)))
        if op is ast.Mult:
            if isinstance(b, (ListV, tuple)) and isinstance(a, NUM): a, b = b, a
            if isinstance(a, (ListV, tuple)) and isinstance(b, NUM):
                c = to(b).const()
                items = a.st if isinstance(a, ListV) else a
                if c is not None and not isinstance(items, SymSeq): return ListV(items*int(c)) if isinstance(a, ListV) else items*int(c)
                if len(items) == 1:
                    v = items[0]
                    return ListV(SymSeq(to(b), lambda i: v))
                self.unsup('list repetition', n)
        if op is ast.Mult and isinstance(b, (str, SymStr)): a, b = b, a
        if op is ast.Mult and isinstance(a, (str, SymStr)) and isinstance(b, NUM) and kind_of(b) in 'ib':
            c = to(b).const()
            return mkstr([a]*max(int(c), 0)) if c is not None else mkstr([(fresh('str', 'r'), 'opaque')])
        if op is ast.Mod and isinstance(a, str): return mkstr(['%', (fresh('str', 'r'), 'opaque')])
        if op is ast.Div and isinstance(a, (str, SymStr)) : return mkstr([a, '/', b])
        if isinstance(a, Obj) and a.cls == 'Path' and op is ast.Div: self.unsup('path', n)
        if isinstance(a, (Arr, ListV)) or isinstance(b, (Arr, ListV)):
            a, b = self.arrlike(a), self.arrlike(b)
            if op is ast.MatMult: return self.matmul(a, b)
            ka, kb = kind_of(a), kind_of(b)
            k = kmax(ka, kb, 'i')
            if op is ast.Div: k = kmax(k, 'r')
            if op is ast.Pow and kind_of(b) == 'r': k = kmax(k, 'r')
            if ka == 'b' and kb == 'b':
                if op is ast.BitAnd: return elementwise(self, And, [a, b], 'b')
                if op is ast.BitOr: return elementwise(self, Or, [a, b], 'b')
            return elementwise(self, lambda x, y: self.num2(op, x, y, n), [a, b], k)
        if isinstance(a, B): a = ite(a, 1, 0)
        if isinstance(b, B): b = ite(b, 1, 0)
        if isinstance(a, NUM) and isinstance(b, NUM): return self.num2(op, a, b, n)
        if op is ast.Add and isinstance(a, (Opaque,)) : self.unsup('arithmetic on opaque value', n)
        if (isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)) or a is None or b is None): raise PyRaise('TypeError', f'unsupported operand types')
        self.unsup(f'operator {op.__name__} on {type(a).__name__} and {type(b).__name__}', n)
    def num2(self, op, a, b, n=None):
        if isinstance(a, B): a = ite(a, 1, 0)
        if isinstance(b, B): b = ite(b, 1, 0)
        ci = isinstance(a, int) and isinstance(b, int)
        if op is ast.Add: return a + b
        if op is ast.Sub: return a - b
        if op is ast.Mult: return a*b
        if op is ast.Div:
            c = to(b).const()
            if c == 0: raise PyRaise('ZeroDivisionError', 'division by zero')
            return to(a)*inv(to(b))
        if op is ast.FloorDiv:
            if ci and b: return a//b
            if to(b).const() == 0: raise PyRaise('ZeroDivisionError', 'division by zero')
            if to(a).sort == 'i' and to(b).sort == 'i': return self.idiv(to(a), to(b))
            return floor(to(a)*inv(to(b)))
        if op is ast.Mod:
            if ci and b: return a % b
            if to(b).const() == 0: raise PyRaise('ZeroDivisionError', 'modulo by zero')
            return to(a) - to(b)*self.idiv(to(a), to(b))
        if op is ast.Pow:
            c = to(b).const()
            if c is None: self.unsup('symbolic exponent', n)
            if c.denominator == 1:
                if ci and c >= 0: return a**int(c)
                return to(a)**int(c)
            if c == T.Fr(1, 2): return sqrt(to(a))
            if c == -T.Fr(1, 2): return inv(sqrt(to(a)))
            self.unsup('exponent', n)
        if op is ast.BitAnd and isinstance(a, bool): return a and b
        if op is ast.BitOr and isinstance(a, bool): return a or b
        self.unsup(f'operator {op.__name__}', n)
    def idiv(self, a, b):
        # exact multiples of a symbolic divisor
        q, r = {}, {}
        if len(b.m) == 1 and b.const() is None:
            for k, c in a.m.items():
                x = pdiv(P({k: c}), b)
                if x is not None:
                    for kk, cc in x.m.items(): q[kk] = q.get(kk, 0) + cc
                else: r[k] = c
            if q: 
                rest = P(r)
                if not rest.m: return P(q)
                return P(q) + idiv(rest, b)
        return idiv(a, b)
    def matmul(self, a, b):
        if a.nd == 1 and b.nd == 1: return contract(self, a, b, 0, 0)
        if b.nd == 1: return contract(self, a, b, a.nd-1, 0)
        if a.nd == 1:
            if b.nd != 2: self.unsup('matmul of these ranks')
            return contract(self, a, b, 0, 0)
        if b.nd == 2 and a.nd == 2: return contract(self, a, b, 1, 0)
        # stacked
        ia = a.axes[:-2]; ib = b.axes[:-2]
        nd = max(len(ia), len(ib))
        lead = list(ia) if len(ia) >= len(ib) else list(ib)
        fa, fb = a.snap(), b.snap()
        if any(len(x) != 1 for x in lead): self.unsup('matmul of merged stacks')
        if ia and ib and not all(axis_eq(self, x, y) for x, y in zip(ia, ib)) and len(ia) == len(ib): self.unsup('matmul of different stacks')
        K = a.axes[-1]
        if not axis_eq(self, K, b.axes[-2]):
            d = dim_eq(self, size(K), size(b.axes[-2]))
            if d is False: raise PyRaise('ValueError', 'matmul: mismatch in its core dimension')
            if d is None: self.ob('inner dimensions of a product agree', eq(size(K), size(b.axes[-2])), self, kind='shape')
            if d is None: self.unsup('matmul mismatch')
            b = relin(b, b.nd - 2, K); fb = b.snap()
        nm, nk = len(a.axes[-2]), len(K)
        L = len(lead)
        def g(idx):
            s = list(idx[:L]); i = list(idx[L:L+nm]); j = list(idx[L+nm:]); vs = [fresh('r') for _ in K]
            return sum_comb(list(zip(vs, K)), fa(s[L-len(ia):] + i + vs)*fb(s[L-len(ib):] + vs + j))
        return mkarr(lead + [a.axes[-2], b.axes[-1]], g, kmax(a.kind, b.kind, 'i'))
    # ---- subscripts, attributes
    def ev_Slice(self, n, fr, mod):
        f = lambda x: None if x is None else self.ev(x, fr, mod)
        return slice(f(n.lower), f(n.upper), f(n.step))
    def ev_Subscript(self, n, fr, mod):
        o = self.ev(n.value, fr, mod); k = self.ev(n.slice, fr, mod)
        return self.getitem(o, k, n)
    def getitem(self, o, k, n=None):
        if isinstance(o, Poison): raise PoisonRead(o.name)
        if isinstance(o, Obj) and o.cls == 'np.s_': return k
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.kind == 'b': return Obj('masked', dict(arr=o, mask=k))
            r = index(self, o, k)
            return r.at([]) if r.nd == 0 else r
        if isinstance(o, tuple) or isinstance(o, str):
            if isinstance(k, slice): return o[self.cslice(k, len(o))]
            i = self.cint(k, n)
            if not -len(o) <= i < len(o): raise PyRaise('IndexError', 'index out of range')
            return o[i]
        if isinstance(o, ListV):
            if isinstance(o.st, SymSeq):
                if isinstance(k, slice):
                    q = o.st; s = norm_bound(self, k.start, q.n, ZERO); e = norm_bound(self, k.stop, q.n, q.n)
                    return ListV(SymSeq(self.facts.simplify(max2(e-s, 0)), lambda i: q.item(i + s)))
                p = to(k); c = p.const()
                if c is not None and c < 0: p = o.st.n + p
                self.bounds(p, o.st.n)
                r = o.st.item(p)
                if isinstance(r, Poison): raise PoisonRead(r.name)
                return r
            if isinstance(k, slice): return ListV(o.st[self.cslice(k, len(o.st))])
            p = to(k) if not isinstance(k, str) else None
            if p is None: raise PyRaise('TypeError', 'list indices must be integers')
            c = p.const()
            if c is None:
                r = None
                for j in range(len(o.st)-1, -1, -1):
                    r = o.st[j] if r is None else self.vite(eq(p, j), o.st[j], r)
                if r is None: raise PyRaise('IndexError', 'list index')
                self.bounds(p, len(o.st))
                return r
            i = int(c)
            if not -len(o.st) <= i < len(o.st): raise PyRaise('IndexError', 'list index out of range')
            v = o.st[i]
            if isinstance(v, Poison): raise PoisonRead(v.name)
            return v
        if isinstance(o, DictV): return self.dictget(o, k, n)
        if isinstance(o, Obj):
            c = o.cls
            if isinstance(c, str) and c.startswith('npz'): return o.st['items'][k]
            f = self.findattr(o, '__getitem__')
            if f is not None: return self.call(f, [k], {}, n)
            if isinstance(c, str) and f'{c}.__getitem__' in self.models: return self.models[f'{c}.__getitem__'](self, [o, k], {})
        if isinstance(o, SymStr): self.unsup('index of a symbolic string', n)
        if o is None: raise PyRaise('TypeError', "'NoneType' object is not subscriptable")
        if isinstance(o, NUM): raise PyRaise('IndexError', 'invalid index to scalar variable')
        self.unsup(f'subscript of {type(o).__name__}', n)
    def dictget(self, o, k, n=None):
        k = self.key(k)
        if not isinstance(k, P) and k in o.st:
            v = o.st[k]
            if isinstance(v, Poison): raise PoisonRead(v.name)
            return v
        if SYM in o.st and isinstance(k, (P, int)):
            p = to(k)
            for lo, hi, fn in reversed(o.st[SYM]):
                d = self.facts.decide(And(ge(p, lo), lt(p, hi)))
                if d: return fn(p)
                if d is None:
                    rest = [x for x in o.st[SYM] if x[2] is not fn]
                    if not rest and not any(isinstance(q, (int, P)) for q in o.st if q != SYM):
                        self.ob("key present", And(ge(p, lo), lt(p, hi)), self); return fn(p)
                    self.unsup('undecided dict key', n)
        if isinstance(k, P) and any(isinstance(x, int) for x in o.st):
            cand = [x for x in o.st if isinstance(x, int) and self.facts.decide(eq(k, x)) is not False]
            if len(cand) == 1 and self.facts.entails(eq(k, cand[0])): return o.st[cand[0]]
            if cand and self.facts.entails(Or(*[eq(k, x) for x in cand])):
                r = o.st[cand[-1]]
                for x in cand[-2::-1]: r = self.vite(eq(k, x), o.st[x], r)
                return r
            self.unsup('undecided dict key', n)
        raise PyRaise('KeyError', str(k))
    def cslice(self, k, n):
        f = lambda x: None if x is None else self.cint(x)
        return slice(f(k.start), f(k.stop), f(k.step))
    def cint(self, k, n=None):
        if isinstance(k, bool): return int(k)
        if isinstance(k, int): return k
        if isinstance(k, Arr) and k.nd == 0: k = k.at([])
        if isinstance(k, P):
            c = k.const()
            if c is not None and c.denominator == 1: return int(c)
            # decided by the facts?
            for v in range(0, 8):
                if self.facts.entails(eq(k, v)): return v
            if not self.generic and k.sort == 'i' and self.facts.entails(And(ge(k, 0), le(k, 4))):
                for v in range(0, 5):
                    if self.decide(eq(k, v)): return v
        if k is None or isinstance(k, (str, SymStr)): raise PyRaise('TypeError', 'not an integer')
        self.unsup(f'symbolic index {k}', n)
    def ev_Attribute(self, n, fr, mod):
        return self.getattr(self.ev(n.value, fr, mod), n.attr, n)
    def findattr(self, o, name):
        if isinstance(o.cls, ClassV):
            f = o.cls.find(name)
            if isinstance(f, Func):
                if getattr(f, 'prop', False): return ('prop', f)
                return f if getattr(f, 'static', False) else f.bind(o)
            return f
        return None
    def getattr(self, o, name, n=None, default=KeyError):
        if isinstance(o, Poison): raise PoisonRead(o.name)
        if isinstance(o, ModuleV):
            full = f'{o.name}.{name}'
            if self.prog.tree(o.name) is not None:
                v = self.glob(o.name, name)
                if v is not None: return v
                if self.prog.tree(full) is not None: return ModuleV(full)
                raise PyRaise('AttributeError', f"module '{o.name}' has no attribute '{name}'")
            if full in self.models: return self.model(full)
            return ModuleV(full)
        if isinstance(o, Obj):
            if name in o.st:
                v = o.st[name]
                if isinstance(v, Poison): raise PoisonRead(v.name)
                return v
            f = self.findattr(o, name)
            if f is not None:
                if isinstance(f, tuple) and f and f[0] == 'class state': self.unsup(f'the state {f[1]}, shared by all objects', n)
                if isinstance(f, tuple): return self.call(f[1].bind(o), [], {}, n)
                return f
            m = f'{o.cls}.{name}' if isinstance(o.cls, str) else None
            if m and m in self.models:
                fn = self.models[m]
                return Native(m, lambda I, a, k: fn(I, [o] + list(a), k))
            if m and m + '@get' in self.models: return self.models[m + '@get'](self, o)
            if isinstance(o.cls, str) and o.cls.startswith('$opaque'): return Opaque(f'{o.cls}.{name}')
            if getattr(o, 'stub', False) or isinstance(o.cls, str) and o.cls.startswith('$'): self.unsup(f'attribute {name} of an object built by the contract', n)
            raise PyRaise('AttributeError', f"'{o.cls}' object has no attribute '{name}'")
        if isinstance(o, ClassV):
            f = o.find(name)
            if isinstance(f, tuple) and f and f[0] == 'class state': self.unsup(f'the state {f[1]}, shared by all objects', n)
            if f is not None: return f
            raise PyRaise('AttributeError', name)
        if isinstance(o, Arr):
            full = f'ndarray.{name}'
            if getattr(self, 'ctx', None) is not None and (full in self.models or full + '@get' in self.models): self.ctx.trusted.add(full)
            if full + '@get' in self.models: return self.models[full + '@get'](self, o)
            if full in self.models:
                fn = self.models[full]
                return Native(full, lambda I, a, k: fn(I, [o] + list(a), k))
            if name == 'values' and o.buf.name.startswith('xr'): return o
            if name in ('values', 'coords', 'dims', 'attrs', 'isel', 'sel'): raise PyRaise('AttributeError', f"'numpy.ndarray' object has no attribute '{name}'")
            self.unsup(f'ndarray.{name}', n)
        if isinstance(o, (P, int, float, complex)) and not isinstance(o, bool):
            p = to(o)
            if name == 'real': return re(p)
            if name == 'imag': return im(p)
            if name in ('conj', 'conjugate'): return Native('conj', lambda I, a, k: conj(p))
            if name == 'shape': return ()
            if name == 'ndim': return 0
            if name == 'size': return 1
            if name == 'T': return o
            if name in ('astype', 'item', 'copy'): return Native(name, lambda I, a, k: o)
            if name == 'dtype': return DType(p.sort)
            if name in ('nbytes', 'itemsize'): return 16 if p.sort == 'c' else 8
            if name in ('sum', 'mean', 'squeeze', 'max', 'min'): return Native(name, lambda I, a, k: o)
        full = {str: 'str', SymStr: 'str', ListV: 'list', DictV: 'dict', tuple: 'tuple', SymSeq: 'list'}.get(type(o))
        if full:
            m = f'{full}.{name}'
            if m in self.models:
                fn = self.models[m]
                return Native(m, lambda I, a, k: fn(I, [o] + list(a), k))
            if full == 'list' and name in ('shape', 'dtype', 'values', 'ndim') or o is None: raise PyRaise('AttributeError', name)
        if o is None: raise PyRaise('AttributeError', f"'NoneType' object has no attribute '{name}'")
        if isinstance(o, (Opaque, DType, ExcV)):
            full = f'{o.name}.{name}' if not isinstance(o, DType) else f'dtype.{name}'
            if isinstance(o, DType) and name == 'kind': return {'b': 'b', 'i': 'i', 'r': 'f', 'c': 'c'}[o.kind]
            if isinstance(o, DType) and name == 'itemsize': return {'b': 1, 'c': 16}.get(o.kind, 8)//(2 if o.single else 1)
            if isinstance(o, DType) and full in self.models:
                fn = self.models[full]
                return Native(full, lambda I, a, k: fn(I, [o] + list(a), k))
            if full in self.models: return self.model(full)
            return Opaque(full)
        self.unsup(f'attribute {name} of {type(o).__name__}', n)
    def derive(self, kind, specs, idx, terms):
        """tensors defined by terms (an eigen-decomposition, an extreme, ...); 'from': every variable they depend on.
        The n-th definition of a run gets the same tensors in every run of the contract"""
        key = (kind, len(self.derivs), tuple(specs))
        if key not in self.pool: self.pool[key] = [T.Tensor(f'{n}%{next(T._fresh)}', s, k) for n, s, k in specs]
        ts = self.pool[key]; fv = set()
        for t in terms: fv |= T.deps(t)
        for t in ts: t.info['from'] = frozenset(fv)
        self.derivs.append((ts, tuple(idx), tuple(terms)))
        return ts
    def site(self, key, make):
        """an object introduced at this call, the same one in every pass over an enclosing loop body"""
        if not self.loopvars: return make()
        d = self.sites[-1]
        c = d.setdefault(('count', key), 0); d[('count', key)] = c + 1
        k = (key, c)
        if k not in d: d[k] = make()
        return d[k]
    # ---- calls
    def ev_Call(self, n, fr, mod):
        # super().__init__(...)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            me = self.lookup('self', fr, mod); cls = getattr(fr, 'cls', None) or me.cls
            for b in cls.bases:
                if isinstance(b, ClassV):
                    f = b.find(n.func.attr)
                    if f is not None: return self.call(f.bind(me), self.seq(n.args, fr, mod), self.kws(n, fr, mod), n)
            return None
        f = self.ev(n.func, fr, mod)
        # arguments of effect-free calls need not be understood
        if self.is_noop(f): 
            return None
        args = self.seq(n.args, fr, mod); kw = self.kws(n, fr, mod)
        return self.call(f, args, kw, n)
    def kws(self, n, fr, mod):
        d = {}
        for k in n.keywords:
            v = self.ev(k.value, fr, mod)
            if k.arg is None: d.update({a: b for a, b in v.st.items()})
            else: d[k.arg] = v
        return d
    NOOP = {'builtins.print', 'warnings.warn', 'time.sleep', 'sys.stdout.flush', 'gc.collect'}
    def is_noop(self, f):
        if isinstance(f, Native) and f.name in self.NOOP: return True
        if isinstance(f, ModuleV) and f.name in self.NOOP: return True
        if isinstance(f, Func) and f.qual.split('.')[-1] in ('_pr0', 'pr0', '_print_parameters') and (f.qual in self.models.get('$noop', ())): return True
        return False
    def call(self, f, args, kw, n=None):
        if isinstance(f, Native):
            try: return f.fn(self, list(args), dict(kw))
            except (KeyError, TypeError, IndexError, AssertionError, AttributeError) as e:
                if os.environ.get('PYVC_DEBUG'): raise
                self.unsup(f'{f.name}: {type(e).__name__} {e}', n)
        if isinstance(f, Func): return self.call_func(f, args, kw, n)
        if isinstance(f, ClassV): return self.instantiate(f, args, kw, n)
        if isinstance(f, ExcV): return Obj('exc', dict(name=f.name, args=tuple(args)))
        if isinstance(f, (ModuleV, Opaque)):
            if f.name in self.models: return self.models[f.name](self, list(args), dict(kw))
            k = self.dt(f)
            if k is not None: return self.cast(args[0] if args else 0, k)
            if ('cast.' + f.name) in self.models: return self.models['cast.' + f.name](self, list(args), dict(kw))
            self.unsup(f'call of {f.name}', n)
        if isinstance(f, DType): return self.cast(args[0], f.kind)
        if isinstance(f, Obj):
            m = self.findattr(f, '__call__')
            if m is not None: return self.call(m, args, kw, n)
        if f is None: raise PyRaise('TypeError', "'NoneType' object is not callable")
        self.unsup(f'call of {type(f).__name__} {f}', n)
    def cast(self, v, k):
        if isinstance(v, Arr):
            if v.nd == 0: return self.cast(v.at([]), k)
            self.unsup('cast of an array')
        if isinstance(v, bool): v = int(v)
        if isinstance(v, B): v = ite(v, 1, 0)
        if isinstance(v, (P, int, float, complex)):
            p = to(v)
            if k == 'i':
                if p.sort == 'i': return v
                c = p.const()
                if c is not None: return int(c)
                if self.facts.entails(ge(p, 0)): return floor(p)
                return ite(ge(p, 0), floor(p), -floor(-p))
            if k == 'r' and p.sort == 'c': raise PyRaise('TypeError', 'complex to float')
            if k == 'b': return self.truthb(v)
            return p
        if isinstance(v, str):
            try: return to({'i': int, 'r': float, 'c': complex}[k](v)) if k != 'i' else int(v)
            except ValueError: raise PyRaise('ValueError', f'cannot convert {v!r}')
        if v is None: raise PyRaise('TypeError', 'cannot convert None')
        self.unsup(f'cast of {type(v).__name__}')
    def instantiate(self, c, args, kw, n):
        if c.name in self.contracts: return self.contracts[c.name](self, args, kw)
        o = Obj(c, {})
        f = c.find('__init__')
        if f is not None: self.call_func(f.bind(o), args, kw, n)
        return o
    def call_func(self, f, args, kw, n=None):
        if f.qual in self.contracts and not getattr(f, 'raw', False):
            a = ([f.self_] if f.self_ is not None else []) + list(args)
            return self.contracts[f.qual](self, a, kw)
        for d in getattr(f.node, 'decorator_list', ()):
            if not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') or isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter', 'wraps', 'abstractmethod')): self.unsup(f'decorator of {f.qual}', n)
        if self.is_noop(f): return None
        fr = Frame(); fr.parent = f.closure; fr.cls = f.cls
        fr.st = self.bind_args(f, args, kw)
        self.visited.add(f.qual)
        self.depth += 1
        if self.depth > 40: self.unsup('recursion')
        self.cur.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr, f.module)
            self.block(f.node.body, fr, f.module)
        except Return as r: return r.v
        finally:
            self.depth -= 1; self.cur.pop()
        return None
    def bind_args(self, f, args, kw):
        """parameter -> value, defaults filled in"""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = ([f.self_] if f.self_ is not None else []) + list(args)
        if len(pos) > len(params):
            if a.vararg is None: raise PyRaise('TypeError', f'{f.qual}() takes {len(params)} positional arguments but {len(pos)} were given')
            vals[a.vararg.arg] = tuple(pos[len(params):]); pos = pos[:len(params)]
        elif a.vararg is not None: vals[a.vararg.arg] = ()
        for p, v in zip(params, pos): vals[p] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in vals: raise PyRaise('TypeError', f'multiple values for {k}')
                vals[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise PyRaise('TypeError', f'{f.qual}() got an unexpected keyword argument {k!r}')
        if a.kwarg is not None: vals[a.kwarg.arg] = DictV(extra)
        defs = dict(zip(params[len(params)-len(a.defaults):], a.defaults))
        defs.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        for p in params + kwonly:
            if p not in vals:
                if p not in defs: raise PyRaise('TypeError', f'{f.qual}() missing argument {p!r}')
                if is_container(defs[p]) and not isinstance(f.node, ast.Lambda) and p in changed_names(f.node)[1]: self.unsup(f'the default of {p} of {f.qual}, which calls change')
                vals[p] = self.ev(defs[p], Frame(), f.module)
        return vals
    def ev_Lambda(self, n, fr, mod):
        return Func(n, mod, f'{mod}.<lambda>', closure=fr)
    def ev_ListComp(self, n, fr, mod): return self.comp(n, n.elt, fr, mod)
    def ev_GeneratorExp(self, n, fr, mod): return self.comp(n, n.elt, fr, mod)
    def ev_DictComp(self, n, fr, mod):
        if len(n.generators) == 1 and not n.generators[0].ifs and self.iterate(self.ev(n.generators[0].iter, fr, mod), n)[0] == 's':
            # {k: v for t in it}  ==  d = {}; for t in it: d[k] = v      (in a frame of its own)
            g = n.generators[0]; sub = Frame({}); sub.parent = fr; sub.cls = getattr(fr, 'cls', None)
            nm = '__dc'
            put = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=nm, ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)
            loop = ast.For(target=g.target, iter=g.iter, body=[put], orelse=[])
            for x in (put, put.targets[0], put.targets[0].value, loop): ast.copy_location(x, n)
            sub.st[nm] = DictV({})
            self.block([loop], sub, mod)
            return sub.st[nm]
        r = self.comp(n, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), fr, mod)
        return DictV({self.key(k): v for k, v in r.st})
    def comp(self, n, elt, fr, mod):
        sub = Frame({}); sub.parent = fr; sub.cls = getattr(fr, 'cls', None)
        def rec(gens):
            if not gens: return [self.ev(elt, sub, mod)]
            g = gens[0]; out = []
            it = self.iterate(self.ev(g.iter, sub, mod), n)
            if it[0] == 's':
                if len(gens) > 1 or g.ifs: self.unsup('comprehension', n)
                _, lo, hi, item = it
                def at(i):
                    f2 = Frame({}); f2.parent = fr
                    sf = self.facts; self.generic += 1; nc = len(self.compvars)
                    try:
                        if the(to(i)) is not None and the(to(i)).kind == 'var': self.compvars.append(to(i))
                        self.facts = sf.child(ge(i, lo), lt(i, hi))
                        self.assign(g.target, item(i), f2, mod)
                        return self.ev(elt, f2, mod)
                    finally: self.facts = sf; self.generic -= 1; del self.compvars[nc:]
                return SymSeq(self.facts.simplify(max2(hi-lo, 0)), lambda i: at(to(i) + lo))
            for x in it[1]:
                self.assign(g.target, x, sub, mod)
                if all(self.truth(self.ev(c, sub, mod)) for c in g.ifs): out += rec(gens[1:])
            return out
        return ListV(rec(n.generators))
    def ev_Starred(self, n, fr, mod): self.unsup('starred', n)
    def ev_Set(self, n, fr, mod): return tuple(self.seq(n.elts, fr, mod))
    def ev_NamedExpr(self, n, fr, mod):
        v = self.ev(n.value, fr, mod); self.assign(n.target, v, fr, mod); return v

    # ---- sequences
    def symseq(self, v):
        if isinstance(v, ListV):
            if isinstance(v.st, SymSeq): return v.st
            items = v.st
        elif isinstance(v, SymSeq): return v
        else: items = tuple(v)
        def item(i):
            c = to(i).const()
            if c is not None: return items[int(c)]
            r = items[-1]
            for j in range(len(items)-2, -1, -1): r = self.vite(eq(i, j), items[j], r)
            return r
        return SymSeq(to(len(items)), item)
    def seqcat(self, a, b):
        def item(i):
            i = to(i)
            if a.n.const() == 0: return b.item(i)
            if b.n.const() == 0: return a.item(i)
            c = lt(i, a.n); d = self.facts.decide(c)
            if d is True: return a.item(i)
            if d is False: return b.item(i - a.n)
            return self.vite(c, a.item(i), b.item(i - a.n))
        return SymSeq(a.n + b.n, item)
    def seqset(self, s, k, v):
        def item(i):
            i = to(i); c = eq(i, k); d = self.facts.decide(c)
            if d is True: return v
            if d is False: return s.item(i)
            o = s.item(i)
            if o is None or isinstance(o, Poison): self.unsup('undecided list entry')
            return self.vite(c, v, o)
        return SymSeq(s.n, item, s.ops + (('set', to(k), v),))
    def iterate(self, v, n=None):
        """('c', python list) or ('s', lo, hi, item(k))"""
        if isinstance(v, RangeV):
            a, b = v.lo.const(), v.hi.const()
            st = to(v.step).const()
            if a is not None and b is not None and st is not None and abs(b - a) <= 64: return ('c', [i for i in range(int(a), int(b), int(st))])
            if st != 1: 
                if st is not None and st > 0:
                    cnt = idiv(v.hi - v.lo + to(int(st)) - 1, to(int(st)))
                    return ('s', ZERO, cnt, lambda k: v.lo + k*to(int(st)))
                if st is not None and st < 0:
                    cnt = idiv(v.lo - v.hi - to(int(st)) - 1, to(-int(st)))
                    return ('s', ZERO, cnt, lambda k: v.lo + k*to(int(st)))
                sp = to(v.step)
                if self.facts.entails(gt(sp, 0)):
                    d = v.hi - v.lo
                    cnt = idiv(d + sp - 1, sp)
                    if not self.facts.entails(ge(d, 0)): cnt = max2(cnt, 0)
                    # cnt is the least number of steps that reaches the end
                    self.facts = self.facts.child(T.Implies(ge(d, 0), And(ge(cnt*sp, d), lt((cnt - 1)*sp, d))), ge(cnt, 0))
                    def item(k):
                        k = to(k)
                        self.facts = self.facts.child(T.Implies(And(ge(k, 0), lt(k, cnt)), And(lt(k*sp, d), le(k, k*sp))))
                        return v.lo + k*sp
                    return ('s', ZERO, cnt, item)
                self.unsup('range step', n)
            # small symbolic range decided by the facts
            for c in range(0, 4):
                if self.facts.entails(eq(v.hi - v.lo, c)): return ('c', [v.lo + i for i in range(c)])
            return ('s', v.lo, v.hi, lambda k: k)
        if isinstance(v, tuple): return ('c', list(v))
        if isinstance(v, list): return ('c', v)
        if isinstance(v, str): return ('c', list(v))
        if isinstance(v, ListV):
            if isinstance(v.st, SymSeq):
                q = v.st
                c = q.n.const()
                if c is not None and c <= 64: return ('c', [q.item(to(i)) for i in range(int(c))])
                return ('s', ZERO, q.n, lambda k: q.item(k))
            return ('c', list(v.st))
        if isinstance(v, SymSeq): return self.iterate(ListV(v), n)
        if isinstance(v, DictV):
            if SYM in v.st:
                if len(v.st) == 1 and len(v.st[SYM]) == 1:
                    lo, hi, fn = v.st[SYM][0]
                    return ('s', lo, hi, lambda k: k)
                self.unsup('iteration over a symbolic dict', n)
            return ('c', list(v.st))
        if isinstance(v, Obj) and v.cls == 'enumerate':
            it = self.iterate(v.st['it'], n)
            st = v.st['start']
            if it[0] == 'c': return ('c', [(i + st, x) for i, x in enumerate(it[1])])
            _, lo, hi, item = it
            return ('s', ZERO, hi - lo, lambda k: (k + st, item(k + lo)))
        if isinstance(v, Obj) and v.cls == 'zip':
            its = [self.iterate(x, n) for x in v.st['its']]
            if all(i[0] == 'c' for i in its): return ('c', [t for t in zip(*[i[1] for i in its])])
            if all(i[0] == 's' for i in its) and all(dim_eq(self, i[2]-i[1], its[0][2]-its[0][1]) for i in its):
                return ('s', ZERO, its[0][2]-its[0][1], lambda k: tuple(i[3](k + i[1]) for i in its))
            self.unsup('zip', n)
        if isinstance(v, Obj) and v.cls == 'items':
            d = v.st['d']
            if SYM not in d.st: return ('c', [(k, x) for k, x in d.st.items()])
            if len(d.st) == 1 and len(d.st[SYM]) == 1:
                lo, hi, fn = d.st[SYM][0]
                return ('s', lo, hi, lambda k: (k, fn(k)))
            self.unsup('items of a symbolic dict', n)
        if isinstance(v, Arr):
            if v.nd == 0: raise PyRaise('TypeError', 'iteration over a 0-d array')
            s = v.sizes()[0]; c = s.const()
            get = lambda k: self.getitem(v, k)
            if c is not None and c <= 64: return ('c', [get(i) for i in range(int(c))])
            return ('s', ZERO, s, get)
        if isinstance(v, Poison): raise PoisonRead(v.name)
        if v is None: raise PyRaise('TypeError', "'NoneType' object is not iterable")
        self.unsup(f'iteration over {type(v).__name__}', n)

    # ------------------------------------------------------------ statements
    def block(self, body, fr, mod):
        for s in body: self.stmt(s, fr, mod)
    def stmt(self, s, fr, mod):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None: self.unsup(f'statement {type(s).__name__}', s)
        self.steps = getattr(self, 'steps', 0) + 1
        if self.steps > 20000: self.unsup('too many steps', s)
        try: m(s, fr, mod)
        except PyRaise as e:
            if e.node is None: e.node = (self.cur[-1] if self.cur else '?', s.lineno)
            raise
    def st_Expr(self, s, fr, mod):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr, mod)
    def st_Pass(self, s, fr, mod): pass
    def st_Global(self, s, fr, mod): self.unsup('global', s)
    def st_Import(self, s, fr, mod):
        for a in s.names: self.setvar(fr, a.asname or a.name.split('.')[0], ModuleV(a.name if a.asname else a.name.split('.')[0]))
    def st_ImportFrom(self, s, fr, mod):
        for a in s.names: self.setvar(fr, a.asname or a.name, self.import_from(s.module, a.name))
    def st_ClassDef(self, s, fr, mod):
        # a class defined in a function: its instances can only be handed to models
        self.setvar(fr, s.name, Native(s.name, lambda I, a, k: Obj('$local class', dict(name=s.name, args=tuple(a)))))
    def st_FunctionDef(self, s, fr, mod):
        self.setvar(fr, s.name, Func(s, mod, f'{self.cur[-1]}.{s.name}', closure=fr))
    def st_Return(self, s, fr, mod):
        if self.generic and getattr(self, 'loop_depth_frames', None) and fr in self.loop_depth_frames: self.unsup('return inside a symbolic loop', s)
        raise Return(self.ev(s.value, fr, mod) if s.value is not None else None)
    def st_Break(self, s, fr, mod): raise Break()
    def st_Continue(self, s, fr, mod): raise Continue()
    def setvar(self, fr, name, v):
        d = dict(fr.st); d[name] = v; self.heap.set(fr, d)
    def st_Assign(self, s, fr, mod):
        v = self.ev(s.value, fr, mod)
        for t in s.targets: self.assign(t, v, fr, mod)
    def st_AnnAssign(self, s, fr, mod):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr, mod), fr, mod)
    def assign(self, t, v, fr, mod):
        if isinstance(t, ast.Name): self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_list(v, t)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]; n = len(t.elts) - 1
                items = items[:k] + [ListV(items[k:len(items)-(n-k)])] + items[len(items)-(n-k):]
            if len(items) != len(t.elts): raise PyRaise('ValueError', 'unpacking')
            for e, x in zip(t.elts, items): self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr, mod)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr, mod), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Attribute) and t.value.attr in ('real', 'imag'):
                # z.real[k] = v writes into z
                o = self.ev(t.value.value, fr, mod)
                if isinstance(o, Arr) and o.kind == 'c':
                    k = self.ev(t.slice, fr, mod); v = self.arrlike(v)
                    old = self.getitem(o, k, t)
                    part = (lambda z, x: re(x) + T.IMAG*im(z)) if t.value.attr == 'real' else (lambda z, x: re(z) + T.IMAG*re(x))
                    w = A.elementwise(self, part, [old, v], 'c') if isinstance(old, Arr) or isinstance(v, Arr) else part(to(old), to(v))
                    return self.setitem(o, k, w, t)
            self.setitem(self.ev(t.value, fr, mod), self.ev(t.slice, fr, mod), v, t)
        else: self.unsup('assignment target', t)
    def setattr(self, o, name, v, n=None):
        if isinstance(o, Obj): d = dict(o.st); d[name] = v; self.heap.set(o, d)
        elif isinstance(o, Arr) and name == 'shape':
            sz = [self.sz(x) for x in self.concrete_list(v, n)] if not isinstance(v, NUM) else [to(v)]
            r = reshape(self, o, sz)
            if r.buf is not o.buf and not r.buf.det: self.unsup('in-place reshape', n)
            self.heap.set(o, r.st)
        else: self.unsup(f'attribute assignment on {type(o).__name__}', n)
    def sz(self, x):
        if isinstance(x, Arr) and x.nd == 0: x = x.at([])
        if isinstance(x, (int, P)): return to(x)
        if isinstance(x, float): return to(int(x))
        if x is None or isinstance(x, str): raise PyRaise('TypeError', 'bad shape')
        self.unsup(f'size {x}')
    def setitem(self, o, k, v, n=None):
        if isinstance(o, Poison): raise PoisonRead(o.name)
        if isinstance(o, Ref) and o.det: self.unsup('write to an entry of a symbolic container', n)
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.kind == 'b': return self.setmask(o, k, v, n)
            v = self.arrlike(v)
            if isinstance(v, Obj) and v.cls == 'masked': self.unsup('masked value', n)
            # integer list index: one assignment per entry
            items = list(k) if isinstance(k, tuple) else [k]
            lst = [i for i, x in enumerate(items) if isinstance(x, ListV) or isinstance(x, Arr) and x.nd == 1 and x.kind == 'i']
            if lst: return self.setlist(o, items, lst, v, n)
            view = index(self, o, k)
            A.assign(self, view, v)
        elif isinstance(o, ListV):
            if isinstance(o.st, SymSeq):
                p = to(k)
                c = p.const()
                if c is not None and c < 0: p = o.st.n + p
                self.bounds(p, o.st.n)
                self.heap.set(o, self.seqset(o.st, p, v)); return
            if isinstance(k, slice): self.unsup('list slice assignment', n)
            p = to(k).const()
            if p is None:
                if self.in_loop_key(k): self.heap.set(o, self.seqset(self.symseq(o), to(k), v)); return
                self.bounds(to(k), len(o.st))
                L = list(o.st)
                for j in range(len(L)): L[j] = self.vite(eq(to(k), j), v, L[j])
                self.heap.set(o, tuple(L)); return
            i = int(p)
            if not -len(o.st) <= i < len(o.st): raise PyRaise('IndexError', 'list assignment index out of range')
            L = list(o.st); L[i] = v; self.heap.set(o, tuple(L))
        elif isinstance(o, DictV):
            k = self.key(k); d = dict(o.st)
            if isinstance(k, P):
                ops = d.get('$ops', ())
                d['$ops'] = ops + ((k, v),)
                d[SYM] = list(d.get(SYM, [])) + [(k, k + 1, (lambda val: lambda i: val)(v))]
            else: d[k] = v
            self.heap.set(o, d)
        else: self.unsup(f'item assignment on {type(o).__name__}', n)
    def in_loop_key(self, k): return False
    def setmask(self, o, mask, v, n):
        """o[mask] = scalar, o[mask] op= ..."""
        if mask.nd != o.nd: self.unsup('mask of another rank', n)
        if isinstance(v, Obj) and v.cls == 'masked':
            val = v.st['arr']
        elif isinstance(v, NUM): val = v
        else: self.unsup('masked assignment', n)
        new = elementwise(self, lambda m, x, y: ite(m, to(y), x) if not isinstance(x, B) else Or(And(m, y), And(Not(m), x)), [mask, o, val], o.kind)
        A.assign(self, o, new)
    def setlist(self, o, items, lst, v, n):
        if len(lst) != 1: self.unsup('several index arrays', n)
        k = lst[0]; L = items[k]
        if isinstance(v, Arr) and v.nd > 1 and A.apart(items): self.unsup('index array apart from a number', n)
        cnt, item = int_seq(self, L)
        c = cnt.const()
        if c is None: self.unsup('assignment through a symbolic index array', n)
        pos = k
        for j in range(int(c)):
            it = list(items); it[k] = item(to(j))
            view = index(self, o, tuple(it))
            val = v
            if isinstance(v, Arr):
                # the axis of v that corresponds to the list
                before = sum(1 for x in items[:k] if isinstance(x, slice) or x is None)
                if any(x is Ellipsis for x in items[:k]): before = o.nd - 1 - sum(1 for x in items[k+1:] if not isinstance(x, (int, P)))
                ax = before - (o.nd - sum(1 for x in items if isinstance(x, (int, P))) - v.nd)
                if ax >= 0 and not is_one(v.axes[ax]): val = index(self, v, tuple([slice(None)]*ax + [j]))
                elif ax >= 0: val = index(self, v, tuple([slice(None)]*ax + [0]))
            A.assign(self, view, val)
    def st_AugAssign(self, s, fr, mod):
        t = s.target
        load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t) if isinstance(t, ast.Name) else None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr, mod, t); rhs = self.ev(s.value, fr, mod)
            if isinstance(cur, Arr) and cur.nd: self.inplace(type(s.op), cur, rhs, s); return
            if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
                for x in self.concrete_list(rhs, s): self.list_append(cur, x)
                return
            self.setvar(fr, t.id, self.binop(type(s.op), cur, rhs, s))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, mod); cur = self.getattr(o, t.attr, t); rhs = self.ev(s.value, fr, mod)
            if isinstance(cur, Arr) and cur.nd: self.inplace(type(s.op), cur, rhs, s); return
            self.setattr(o, t.attr, self.binop(type(s.op), cur, rhs, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, mod); k = self.ev(t.slice, fr, mod)
            cur = self.getitem(o, k, t); rhs = self.ev(s.value, fr, mod)
            if isinstance(cur, Obj) and cur.cls == 'masked':
                new = elementwise(self, lambda x, y: self.num2(type(s.op), x, y), [cur.st['arr'], rhs], o.kind)
                self.setmask(o, k, Obj('masked', dict(arr=new)), s); return
            if isinstance(cur, Arr) and cur.nd and not isinstance(o, Arr): self.inplace(type(s.op), cur, rhs, s); return
            self.setitem(o, k, self.binop(type(s.op), cur, rhs, s), t)
        else: self.unsup('augmented assignment', s)
    def inplace(self, op, cur, rhs, n):
        new = self.binop(op, cur, rhs, n)
        if isinstance(new, Arr) and kmax(new.kind, cur.kind) != cur.kind and cur.kind in ('i', 'r', 'b'):
            if not (cur.kind == 'r' and new.kind == 'i'): raise PyRaise('TypeError', f'cannot cast {new.kind} to {cur.kind} in place')
        if isinstance(new, Arr) and new.nd > cur.nd: raise PyRaise('ValueError', 'non-broadcastable output operand')
        A.assign(self, cur, new)
    def list_append(self, o, v):
        if o.det: self.unsup('write to an entry of a symbolic container')
        if isinstance(o.st, SymSeq):
            q = o.st
            def item(i):
                c = eq(to(i), q.n); d = self.facts.decide(c)
                if d is True: return v
                if d is False: return q.item(i)
                return self.vite(c, v, q.item(i))
            self.heap.set(o, SymSeq(q.n + 1, item, q.ops + (('append', v),)))
        else: self.heap.set(o, o.st + (v,))
    def st_Delete(self, s, fr, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(fr.st)
                if t.id not in d: raise PyRaise('NameError', f"name '{t.id}' is not defined")
                if isinstance(d[t.id], Poison): pass
                d.pop(t.id); self.heap.set(fr, d)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, mod); d = dict(o.st)
                if t.attr not in d: raise PyRaise('AttributeError', t.attr)
                d.pop(t.attr); self.heap.set(o, d)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, mod); k = self.key(self.ev(t.slice, fr, mod))
                if isinstance(o, DictV):
                    d = dict(o.st)
                    if o.det: pass           # frees memory only: entries are not read again
                    elif isinstance(k, P): d['$del'] = d.get('$del', ()) + (k,); self.heap.set(o, d)
                    elif k in d: d.pop(k); self.heap.set(o, d)
                    elif SYM in d: d['$del'] = d.get('$del', ()) + (k,); self.heap.set(o, d)
                    else: raise PyRaise('KeyError', str(k))
                else: self.unsup('del item', s)
    def st_Assert(self, s, fr, mod):
        v = self.ev(s.test, fr, mod)
        b = self.truthb(v)
        if isinstance(b, B):
            b = self.decide(b, s)
        if not b: raise PyRaise('AssertionError', 'assert')
    def st_Raise(self, s, fr, mod):
        if s.exc is None: raise PyRaise('Exception', 're-raise')
        v = self.ev(s.exc, fr, mod)
        if isinstance(v, ExcV): raise PyRaise(v.name)
        if isinstance(v, Obj) and v.cls == 'exc': raise PyRaise(v.st['name'], str(v.st['args'])[:200])
        self.unsup('raise', s)
    def st_Try(self, s, fr, mod):
        try:
            try: self.block(s.body, fr, mod)
            except PyRaise as e:
                for h in s.handlers:
                    if self.matches(h, e, fr, mod):
                        if h.name: self.setvar(fr, h.name, Obj('exc', dict(name=e.typ, args=(e.msg,))))
                        self.block(h.body, fr, mod); break
                else: raise
            else: self.block(s.orelse, fr, mod)
        finally:
            if s.finalbody: self.block(s.finalbody, fr, mod)
    def matches(self, h, e, fr, mod):
        if h.type is None: return True
        t = self.ev(h.type, fr, mod)
        names = [x.name for x in t] if isinstance(t, tuple) else [t.name]
        up = {'ValueError': ['Exception'], 'FileNotFoundError': ['OSError', 'IOError', 'Exception'], 'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception']}
        return any(x == e.typ or x in ('Exception', 'BaseException') or x in up.get(e.typ, []) for x in names)
    def st_With(self, s, fr, mod):
        for it in s.items:
            v = self.ev(it.context_expr, fr, mod)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr, mod)
        self.block(s.body, fr, mod)
    def st_If(self, s, fr, mod):
        try:
            b = self.truthb(self.ev(s.test, fr, mod))
        except NeedMerge as e: raise
        if isinstance(b, B):
            d = self.facts.decide(b)
            if d is None and self.generic: return self.if_merge(b, s, fr, mod)
            b = self.decide(b, s) if d is None else d
        self.block(s.body if b else s.orelse, fr, mod)
    def if_merge(self, b, s, fr, mod):
        saved = self.facts; mark = self.heap.mark(); outs = []
        for cond, body in ((b, s.body), (Not(b), s.orelse)):
            self.facts = saved.child(cond)
            try:
                self.block(body, fr, mod)
            except PyRaise as e: self.heap.undo(mark); self.facts = saved; self.unsup(f'conditional exception {e}', s)
            except (Break, Continue, Return): self.heap.undo(mark); self.facts = saved; self.unsup('conditional jump in a symbolic loop', s)
            finally: self.facts = saved
            outs.append({id(r): (r, r.st) for r, _ in self.heap.changed(mark)})
            self.heap.undo(mark)
        for i in set(outs[0]) | set(outs[1]):
            r = (outs[0].get(i) or outs[1].get(i))[0]
            x = outs[0][i][1] if i in outs[0] else r.st
            y = outs[1][i][1] if i in outs[1] else r.st
            self.heap.set(r, self.merge_state(r, b, x, y))
    def merge_state(self, r, b, x, y):
        if x is y: return x
        if isinstance(r, (Frame, Obj)):
            d = {}
            for k in set(x) | set(y):
                if k in x and k in y:
                    if x[k] is y[k]: d[k] = x[k]
                    else:
                        try: d[k] = self.vite(b, x[k], y[k])
                        except Unsupported: d[k] = Poison(f'{id(r)}:{k}:merged')
                else: d[k] = Poison(f'{id(r)}:{k}:merged')
            return d
        if isinstance(r, Buf):
            if x[0] != y[0]: self.unsup('conditional re-factoring')
            fx, fy = x[1], y[1]
            if r.kind == 'b': return (x[0], lambda i: Or(And(b, fx(i)), And(Not(b), fy(i))), False)
            return (x[0], lambda i: ite(b, fx(i), fy(i)), False)
        if isinstance(r, ListV) and isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.vite(b, p, q) for p, q in zip(x, y))
        self.unsup(f'conditional update of {type(r).__name__}')
    def st_While(self, s, fr, mod):
        for _ in range(200):
            b = self.truthb(self.ev(s.test, fr, mod))
            if isinstance(b, B):
                b = self.facts.decide(b)
                if b is None: self.unsup('while loop with a symbolic condition', s)
            if not b: self.block(s.orelse, fr, mod); return
            try: self.block(s.body, fr, mod)
            except Break: return
            except Continue: continue
        self.unsup('while loop does not end', s)
    def st_For(self, s, fr, mod):
        it = self.iterate(self.ev(s.iter, fr, mod), s)
        if it[0] == 'c':
            for x in it[1]:
                self.assign(s.target, x, fr, mod)
                try: self.block(s.body, fr, mod)
                except Break: return
                except Continue: continue
            self.block(s.orelse, fr, mod)
            return
        _, lo, hi, item = it
        inv = getattr(self, 'invariants', {}).get(self.cur[-1] if self.cur else None)
        if inv is not None:
            from .invariant import inv_loop, ordinal
            o = ordinal(self, mod, s)
            if o in inv: return inv_loop(self, to(lo), to(hi), item, s, fr, mod, inv[o])
        if s.orelse: self.unsup('for-else', s)
        from .loops import sym_loop
        stmts = no_continue(s.body)
        def body(k):
            self.assign(s.target, item(k), fr, mod)
            try: self.block(stmts, fr, mod)
            except Continue: self.unsup('continue in a symbolic loop', s)
            except Break: self.unsup('break in a symbolic loop', s)
            except Return: self.unsup('return in a symbolic loop', s)
        sym_loop(self, to(lo), to(hi), body, f'{self.cur[-1] if self.cur else mod}:loop@{self.loop_ordinal(s)}', s)
    def loop_ordinal(self, s): return s.lineno


DT = {'float64': 'r', 'float32': 'r', 'double': 'r', 'single': 'r', 'float': 'r', 'float_': 'r', 'complex128': 'c', 'complex64': 'c', 'complex': 'c', 'complex_': 'c',
      'int': 'i', 'int64': 'i', 'int32': 'i', 'intp': 'i', 'bool': 'b', 'bool_': 'b', 'complexfloating': 'c', 'floating': 'r', 'integer': 'i', 'longdouble': 'r'}
