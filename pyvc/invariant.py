"""Loops verified with an invariant given by the contract: holds on entry, kept by an arbitrary iteration, used afterwards."""
import ast
from .values import *
from .term import *
from . import term as T


class Inv:
    """state(I, k) -> {local: value} at the start of iteration k (it may assume facts and fork);
    check(I, fr, k): obligations that the present state is that of iteration k;
    modifies: predicate (ref, attribute) on the older objects an iteration may change"""
    def __init__(self, state, check, modifies=lambda ref, attr: False): self.state, self.check, self.modifies = state, check, modifies


def ordinal(I, mod, s):
    """which for loop of its function s is"""
    for f in ast.walk(tree(I, mod)):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loops = sorted((n for n in ast.walk(f) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))
            if any(n is s for n in loops) and not any(isinstance(g, ast.FunctionDef) and g is not f and any(n is s for n in ast.walk(g)) for g in ast.walk(f)):
                return [n is s for n in loops].index(True)
    return None


def assigned(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    return out


def inv_loop(I, lo, hi, item, s, fr, mod, inv):
    from .interp import Continue, Break, Return
    from .contract import PathEnd
    if I.generic: I.unsup('loop with an invariant inside another symbolic loop', s)
    where = f'{I.cur[-1]}:loop{ordinal(I, mod, s)}'
    if not I.facts.entails(le(lo, hi)) and not I.decide(le(lo, hi), s): return
    I.used_inv = True
    inv.check(I, fr, lo)
    def havoc(k):
        st = inv.state(I, k); d = dict(fr.st)
        for n in assigned(s):
            if n in d: d[n] = Poison(n)
        for n, v in st.items():
            if n not in fr.st and n not in assigned(s): I.unsup(f'invariant about {n}, which the loop does not have', s)
            d[n] = v
        I.heap.set(fr, d)
    if I.decide(T.pred('iteration of ' + where), s):
        k = fresh('k'); I.assume(le(lo, k), lt(k, hi))
        from .values import _born
        born = _born[0]              # what the invariant hands to the iteration is the loop's own
        havoc(k)
        mark, em = I.heap.mark(), len(I.effects)
        try:
            I.assign(s.target, item(k), fr, mod)
            I.block(s.body, fr, mod)
        except Continue: pass
        except (Break, Return): I.unsup('break or return in a loop with an invariant', s)
        for r, st in I.heap.changed(mark):
            if r is fr or r.born > born: continue
            names = [a for a in set(st) | set(r.st) if not (a in st and a in r.st and st[a] is r.st[a])] if isinstance(r, (Obj, Frame)) else [None]
            for a in names:
                if not inv.modifies(r, a): I.unsup(f'the loop changes {a or r}, outside its frame', s)
        if len(I.effects) != em: I.unsup('effects in a loop with an invariant', s)
        inv.check(I, fr, k + 1)
        raise PathEnd()
    havoc(hi)
    I.block(s.orelse, fr, mod)


def tree(I, mod):
    t = I.prog.tree(mod)
    return t[0] if isinstance(t, tuple) else t
