"""Loops with a symbolic number of iterations.

The invariant of every location the body changes is inferred from one symbolic
execution of the body (accumulation, per-iteration region, constant step, last
value) and then *proved*: it holds before the loop and is preserved by the
body, for an arbitrary iteration.  Nothing is unrolled."""
import os
from .values import *
from .arrays import *
from . import arrays as A, term as T
from .prover import prove_eq, map_atoms, linear_in


def lin_poly(p, v):
    """p = c*v + rest with c, rest free of v -> (c, rest) or None"""
    c, rest = {}, {}
    for k, q in p.m.items():
        d = dict(k)
        if v in d:
            if d[v] != 1: return None
            d.pop(v)
            if any(v in a.fv for a in d): return None
            c[tuple(sorted(d.items(), key=lambda t: t[0].id))] = q
        elif any(v in a.fv for a, e in k): return None
        else: rest[k] = q
    return P(c), P(rest)


def conj_list(b):
    return list(b.key[1]) if b.key[0] == 'and' else [b]


def solve(g, k, F):
    """the iteration j with g[k:=j], for conditions with at most one solution: P or None"""
    cs = [c for c in conj_list(g) if k in c.fv]
    for c in cs:
        if c.key[0] == 'eq' and c.key[1].sort == 'i':
            l = lin_poly(c.key[1], k)
            if l is None: continue
            s, rest = l; sc = s.const()
            if sc is not None and abs(sc) == 1: return rest.scale(-1/sc)
            if F.entails(gt(s, 0)): return idiv(-rest, s)
            if F.entails(lt(s, 0)): return idiv(rest, -s)
    for c in cs:
        if c.key[0] == 'le':
            l = lin_poly(c.key[1], k)
            if l is None: continue
            s, rest = l
            if F.entails(gt(s, 0)): return idiv(-rest, s)      # s*k <= -rest
    return None


def mentions_t(p, z):
    """does the term mention tensor z"""
    seen = {}
    def at_(a):
        r = seen.get(a)
        if r is None:
            r = a.kind == 'el' and a.key[2] is z
            if not r:
                from .prover import _parts
                r = any(at_(x) for q in _parts(a) for m in q.m for x, _ in m)
            seen[a] = r
        return r
    return any(at_(a) for m in p.m for a, _ in m)


def delta(t, z):
    """t - z with the subtraction pushed into conditionals"""
    a = the(t)
    if a is not None and a.kind == 'ite': return ite(a.key[2], delta(a.key[3], z), delta(a.key[4], z))
    if t == z: return ZERO
    return t - z


class C:
    """a location changed by the loop"""
    def __init__(self, key, kind, ref, name): self.key, self.kind, self.ref, self.name = key, kind, ref, name; self.mode = None; self.closed = None; self.sort = None


def fs(n): return [fresh('x') for _ in range(n)]


def infer_elem(t, zel, ztest, k, lo, F, init):
    """closed form of an element from its update t; returns f(K) -> P or None"""
    kv = k
    ka = the(k)
    d = delta(t, zel)
    if not ztest(d):
        def closed(K):
            j = fresh('j')
            return init + summ(j, lo, K, subst(d, {ka: j}))
        c = d.const()
        if ka not in d.fv: return lambda K: init + d*(to(K) - lo)
        return closed
    if not ztest(t):
        return lambda K: ite(gt(to(K), lo), subst(t, {ka: to(K) - 1}), init)
    def build(t):
        if t == zel: return lambda K: init
        a = the(t)
        if a is None or a.kind != 'ite': return None
        g, x, y = a.key[2:]
        # nested branches that agree: c ? (d ? v : w) : w  =  c and d ? v : w
        for gg, u, w in ((g, x, y), (Not(g), y, x)):
            b = the(u)
            if b is None or b.kind != 'ite': continue
            h, v1, v2 = b.key[2:]
            if v2 == w: return build(ite(And(gg, h), v1, w))
            if v1 == w: return build(ite(And(gg, Not(h)), v2, w))
        for gg, v, rest in ((g, x, y), (Not(g), y, x)):
            if ztest(v):
                # update in place: written in one iteration only, so the old value is the initial one
                j = solve(gg, ka, F) if ka in gg.fv else None
                if j is None or not any(c.key[0] == 'eq' and ka in c.fv for c in conj_list(gg)): continue
                za = the(zel); xs = [the(i) for i in za.key[3]]
                def old_value(a, j=j):
                    """entries written in the same iteration only still hold their initial value"""
                    if a.kind != 'el' or a.key[2] is not za.key[2]: return None
                    s = dict(zip(xs, a.key[3]))
                    if subst(j, s) != j: return None
                    r = subst(init, s)
                    return conj(r) if a.key[4] else r
                v = map_atoms(subst(v, {ka: j}), old_value)
                if ztest(v): continue
                r = build(rest)
                if r is None: continue
                return (lambda v, j, gg, r: lambda K: ite(And(ge(j, lo), lt(j, to(K)), subst(gg, {ka: j})), v, r(K)))(v, j, gg, r)
            r = build(rest)
            if r is None: continue
            if ka not in gg.fv:
                return lambda K: ite(And(gg, gt(to(K), lo)), subst(v, {ka: to(K) - 1}), r(K))
            j = solve(gg, ka, F)
            if j is None: continue
            return lambda K: ite(And(ge(j, lo), lt(j, to(K)), subst(gg, {ka: j})), subst(v, {ka: j}), r(K))
        return None
    return build(t)


def num_like(v): return isinstance(v, (int, float, complex, P)) and not isinstance(v, bool)


def sym_loop(I, lo, hi, body, name, node):
    """the loop; if its invariants are not found, once more with the first iteration executed separately"""
    mark = I.heap.mark(); em, om, rb, F, gen, nl, ns = len(I.effects), len(I.obq), len(I.rebased), I.facts, I.generic, len(I.loopvars), len(I.sites)
    try: return sym_loop0(I, lo, hi, body, name, node)
    except (Unsupported, PoisonRead) as e:
        I.facts = F
        lo2, hi2 = F.simplify(lo), F.simplify(hi)
        if isinstance(e, PoisonRead) and I.generic: raise
        if not F.entails(lt(lo2, hi2)): raise
        first = e
    I.heap.undo(mark); del I.effects[em:], I.obq[om:], I.rebased[rb:]
    try:
        body(lo2)
        return sym_loop0(I, lo2 + 1, hi2, body, name, node)
    except (Unsupported, PoisonRead) as e:
        if os.environ.get('PYVC_DEBUG'): print('peeled loop:', e)
        raise first


def sym_loop0(I, lo, hi, body, name, node):
    F0 = I.facts
    lo, hi = F0.simplify(lo), F0.simplify(hi)
    if F0.entails(le(hi, lo)): return
    if not F0.entails(le(lo, hi)):
        if I.generic: I.unsup('loop with an undecided range', node)
        if not I.decide(lt(lo, hi), node): return
        F0 = I.facts
    from .values import _born
    born0 = _born[0]
    k = fresh('k'); ka = the(k)
    carried = {}
    nonempty = F0.entails(lt(lo, hi))
    I.loopn += 1

    def old_attr(c): return c.ref.st.get(c.attr, MISSING)
    saved_facts = I.facts
    def install():
        for c in carried.values():
            if c.kind == 'attr':
                if c.mode == 'known': v = c.closed(k)
                elif c.mode == 'poison': v = Poison(c.name)
                elif c.mode == 'scalar': v = at(T.mk('el', c.sort, c.z, (k,), False))
                elif c.mode == 'array': v = c.zarr
                d = dict(c.ref.st)
                if c.mode == 'poison' and c.init is MISSING: d.pop(c.attr, None)
                else: d[c.attr] = v
                I.heap.set(c.ref, d)
            elif c.kind == 'buf':
                dims = c.ref.dims
                if c.mode == 'known': I.heap.set(c.ref, (dims, (lambda cl: lambda idx: cl(idx, k))(c.closed), False))
                else: I.heap.set(c.ref, (dims, (lambda z: lambda idx: el(z, idx))(c.z), False))
            elif c.kind == 'list':
                if c.mode == 'known': I.heap.set(c.ref, c.closed(k))
                else:
                    q = I.symseq(c.ref)
                    n = q.n if c.nadd is None else q.n + (k - lo)*c.nadd
                    I.heap.set(c.ref, SymSeq(n, (lambda nm: lambda i: Poison(nm))(c.name)))
            elif c.kind == 'dict':
                if c.mode == 'known': I.heap.set(c.ref, c.closed(k))
    def scan(mark):
        """new locations changed by the body"""
        new = False
        for r, st in I.heap.changed(mark):
            if r.born > born0: continue
            if isinstance(r, (Frame, Obj)):
                for a in set(st) | set(r.st):
                    if a in st and a in r.st and st[a] is r.st[a]: continue
                    key = (id(r), a)
                    if key in carried: continue
                    c = C(key, 'attr', r, f'{id(r)}:{a}'); c.attr = a; c.init = st.get(a, MISSING); c.mode = 'poison'
                    carried[key] = c; new = True
            elif isinstance(r, Buf):
                if id(r) in carried or r.st[1] is st[1]: continue
                c = C(id(r), 'buf', r, r.name); c.init = st[1]; c.mode = 'tensor'
                c.z = Tensor(f'{r.name}~{I.loopn}', {'b': 'i'}.get(r.kind, r.kind), len(st[0]))
                carried[id(r)] = c; new = True
                if r.kind == 'b': I.unsup('boolean array carried by a loop', node)
            elif isinstance(r, ListV):
                if id(r) in carried: continue
                c = C(id(r), 'list', r, f'list{id(r)}'); c.init = st; c.mode = 'sym'; c.nadd = None
                carried[id(r)] = c; new = True
            elif isinstance(r, DictV):
                if id(r) in carried: continue
                c = C(id(r), 'dict', r, f'dict{id(r)}'); c.init = st; c.mode = 'sym'
                carried[id(r)] = c; new = True
            elif isinstance(r, Arr): 
                if r.st[0] is not st[0] or not any(b is r.buf for b, *_ in I.rebased): I.unsup('view changed in a loop', node)
            else: I.unsup(f'loop changes {type(r).__name__}', node)
        return new

    I.generic += 1; I.loopvars.append(k)
    I.sites.append(I.site(('loop', id(node)), dict) if len(I.loopvars) > 1 else {})
    verified = False
    mark0 = I.heap.mark()
    try:
        for _pass in range(14):
            I.facts = F0.child(le(lo, k), lt(k, hi))
            for q in [q for q in I.sites[-1] if q[0] == 'count']: I.sites[-1][q] = 0
            em = len(I.effects); rb = len(I.rebased); om = len(I.obq)
            I.heap.undo(mark0)
            for c in carried.values():
                if c.kind == 'list' and not isinstance(c.ref.st, SymSeq): I.heap.set(c.ref, I.symseq(c.ref) if c.ref.st else SymSeq(0, lambda i: None))
            m1 = I.heap.mark()
            install()
            mark = I.heap.mark()
            try: body(k)
            except PoisonRead as e:
                c = next((c for c in carried.values() if c.name == e.name), None)
                if c is None and len(I.loopvars) > 1: raise            # carried by an enclosing loop
                if c is None or c.kind != 'attr' or c.mode != 'poison': I.unsup(f'loop-carried value {e.name}', node)
                if num_like(c.init):
                    c.mode = 'scalar'; c.sort = kind_of(c.init); c.z = Tensor(f'{c.attr}~{I.loopn}', c.sort, 1)
                elif isinstance(c.init, Arr):
                    c.mode = 'array'; A0 = c.init; c.z = Tensor(f'{c.attr}~{I.loopn}', A0.kind, len(A0.factors()))
                    c.zarr = mkarr(A0.axes, (lambda z: lambda idx: el(z, idx))(c.z), A0.kind)
                else: I.unsup(f'loop-carried {c.attr} of type {type(c.init).__name__}', node)
                del I.effects[em:], I.obq[om:]
                continue
            except Unsupported:
                # an uninformative placeholder: try constant steps from the first iteration
                del I.effects[em:], I.obq[om:]
                if not first_iter(I, carried, lo, mark0, body, k): raise
                continue
            if len(I.rebased) > rb:
                todo = [t for t in I.rebased[rb:] if t[0].born <= born0]
                if todo:
                    del I.rebased[rb:]; del I.effects[em:], I.obq[om:]
                    I.heap.undo(mark0)
                    g, I.generic = I.generic, 0
                    for b, dim, axis in todo: A.rebase(I, b, dim, axis)
                    I.generic = g
                    mark0 = I.heap.mark()
                    for c in list(carried.values()):
                        if c.kind == 'buf': del carried[c.key]
                    continue
            if scan(mark): del I.effects[em:], I.obq[om:]; continue
            # all carried locations known?
            again = False
            pend = [c for c in carried.values() if c.mode not in ('known',)]
            for c in pend:
                if c.kind == 'attr' and c.mode == 'poison': continue
                infer(I, c, k, lo, F0, node)
                again = True
            if again:
                del I.effects[em:], I.obq[om:]
                continue
            verified = True
            break
        if not verified: I.unsup('loop invariants not found', node)
        # ---- obligations: initiation and preservation
        Fk = I.facts
        for c in carried.values():
            if c.mode == 'known': prove_c(I, c, k, lo, F0, Fk, name, mark0)
        last = {}
        for c in carried.values():
            if c.kind == 'attr' and c.mode == 'poison': last[c.key] = c.ref.st.get(c.attr, MISSING)
        effects = I.effects[em:]; del I.effects[em:]
    finally:
        I.generic -= 1; I.loopvars.pop(); I.sites.pop()
        I.facts = saved_facts
    I.heap.undo(mark0)
    I.facts = F0 if F0 is not saved_facts else saved_facts
    for c in carried.values():
        if c.kind == 'attr':
            d = dict(c.ref.st)
            if c.mode == 'known': d[c.attr] = c.closed(hi)
            else:
                v = last[c.key]
                if v is MISSING: d.pop(c.attr, None)
                elif nonempty: d[c.attr] = last_value(v, ka, hi, c)
                else: d[c.attr] = Poison(c.name + ':after')
            I.heap.set(c.ref, d)
        elif c.kind == 'buf':
            I.heap.set(c.ref, (c.ref.dims, (lambda cl: lambda idx: cl(idx, hi))(c.closed), False)); I.wrote(c.ref)
        else: I.heap.set(c.ref, c.closed(hi, True))
    for e in effects: I.effects.append(e.bind(k, lo, hi))


MISSING = object()


def last_value(v, ka, hi, c):
    if isinstance(v, Obj): return Poison(c.name + ':after')
    if v is None or isinstance(v, (str, bool)): return v
    try: return vsubst(to(v) if isinstance(v, (int, float)) else v, {ka: hi - 1})
    except (Unsupported, PoisonRead): return Poison(c.name + ':after')


def first_iter(I, carried, lo, mark0, body, k):
    """guess constant steps of the scalar placeholders by executing the first iteration"""
    todo = [c for c in carried.values() if c.kind == 'attr' and c.mode == 'scalar']
    if not todo: return False
    I.heap.undo(mark0)
    em = len(I.effects); om = len(I.obq)
    try: body(lo)
    except (Unsupported, PyRaise, PoisonRead): I.heap.undo(mark0); return False
    finally: del I.effects[em:], I.obq[om:]
    done = False
    for c in todo:
        v = c.ref.st.get(c.attr)
        if not num_like(v): continue
        d = to(v) - to(c.init)
        x0 = to(c.init)
        c.closed = (lambda x0, d: lambda K: x0 + d*(to(K) - lo))(x0, d); c.mode = 'known'; done = True
    I.heap.undo(mark0)
    return done


def infer(I, c, k, lo, F0, node):
    ka = the(k)
    if c.kind == 'attr':
        v = c.ref.st.get(c.attr)
        if c.mode == 'scalar':
            if not num_like(v): I.unsup(f'{c.attr} changes its type in a loop', node)
            z = el(c.z, [k])
            if kind_of(v) != c.sort and T.ORD[kind_of(v)] > T.ORD[c.sort]:
                c.sort = kind_of(v); c.z = Tensor(f'{c.attr}~{I.loopn}', c.sort, 1); return
            f = infer_elem(to(v), z, lambda p: mentions_t(p, c.z), k, lo, I.facts, to(c.init))
            if f is None: I.unsup(f'recurrence of {c.attr}', node)
            c.closed = f; c.mode = 'known'
        else:
            A0 = c.init
            if not isinstance(v, Arr) or v.nd != A0.nd: I.unsup(f'{c.attr} changes its shape in a loop', node)
            idx = fs(len(A0.factors()))
            if not all(axis_eq(I, a, b) for a, b in zip(v.axes, A0.axes)): I.unsup(f'{c.attr} changes its shape in a loop', node)
            if T.ORD[v.kind] > T.ORD[A0.kind] and c.z.sort != v.kind:
                c.z = Tensor(f'{c.attr}~{I.loopn}', v.kind, len(idx)); c.zarr = mkarr(A0.axes, (lambda z: lambda i: el(z, i))(c.z), v.kind); return
            init = A0.snap()
            x0 = init(idx)
            f = infer_elem(v.at(idx), el(c.z, idx), lambda p: mentions_t(p, c.z), k, lo, I.facts, x0)
            if f is None: I.unsup(f'recurrence of {c.attr}', node)
            xs = [the(i) for i in idx]
            kind = c.z.sort
            c.closed = lambda K: mkarr(A0.axes, lambda i: subst(f(to(K)), dict(zip(xs, map(to, i)))), kind)
            c.mode = 'known'
    elif c.kind == 'buf':
        n = len(c.ref.dims); idx = fs(n); xs = [the(i) for i in idx]
        t = c.ref.elem(idx)
        F = I.facts.child(*[b for i, d in zip(idx, c.ref.dims) for b in (ge(i, 0), lt(i, d))])
        t = F.simplify(t)
        f = infer_elem(t, el(c.z, idx), lambda p: mentions_t(p, c.z), k, lo, F, c.init(idx))
        if f is None: I.unsup(f'recurrence of array {c.ref.name}: {str(t)[:300]}', node)
        def closed(i, K, f=f, xs=xs):
            return subst(f(to(K)), dict(zip(xs, map(to, i))))
        c.closed = closed; c.mode = 'known'
    elif c.kind == 'list':
        q = c.ref.st
        q0 = c.init if isinstance(c.init, SymSeq) else I.symseq(ListV(c.init)) if c.init else SymSeq(0, lambda i: None)
        apps = [v for o, *r in q.ops for v in r if o == 'append']
        sets = [(r[0], r[1]) for o, *r in q.ops if o == 'set']
        if sets and apps: I.unsup('list both extended and modified in a loop', node)
        if apps:
            if c.nadd is None or c.nadd != len(apps): c.nadd = len(apps)
            if len(apps) != 1: I.unsup('several appends in a loop', node)
            c.val = freeze(apps[0])
            def closed(K, final=False):
                K = to(K)
                ent = family(c.val, [(ka, lo, K - lo)]) if final else (lambda j: vsubst(c.val, {ka: j}))
                def item(i):
                    i = to(i)
                    new = lambda: ent(lo + i - q0.n)
                    if q0.n.const() == 0: return new()
                    d = I.facts.decide(lt(i, q0.n))
                    if d is True: return q0.item(i)
                    if d is False: return new()
                    return I.vite(lt(i, q0.n), q0.item(i), new())
                return SymSeq(q0.n + (K - lo), item)
            c.closed = closed; c.mode = 'known'
        elif sets:
            if len(sets) != 1 or sets[0][0] != k: I.unsup('list write at another position than the loop index', node)
            c.val = freeze(sets[0][1])
            def closed(K, final=False):
                K = to(K)
                ent = family(c.val, [(ka, lo, K - lo)]) if final else (lambda j: vsubst(c.val, {ka: j}))
                def item(i):
                    i = to(i)
                    g = And(ge(i, lo), lt(i, K)); d = I.facts.decide(g)
                    if d is True: return ent(i)
                    if d is False: return q0.item(i)
                    if q0.item(i) is None: I.unsup('undecided list entry', node)
                    return I.vite(g, ent(i), q0.item(i))
                return SymSeq(q0.n, item)
            c.closed = closed; c.mode = 'known'
        else: I.unsup('list changed in a loop', node)
    elif c.kind == 'dict':
        d0 = c.init; d1 = c.ref.st
        plain = {x for x in set(d0) | set(d1) if x not in (SYM, '$ops', '$del') and not (x in d0 and x in d1 and d0[x] is d1[x])}
        if plain: I.unsup(f'dict keys {plain} changed in a loop', node)
        ops = d1.get('$ops', ())[len(d0.get('$ops', ())):]
        if ops:
            if any(o[0] != k for o in ops): I.unsup('dict write at another key than the loop index', node)
            v = freeze(ops[-1][1])
            c.val = v
            def closed(K, final=False):
                d = dict(d0); d.pop('$ops', None)
                ent = family(v, [(ka, lo, to(K) - lo)]) if final else (lambda i: vsubst(v, {ka: to(i)}))
                d[SYM] = list(d0.get(SYM, [])) + [(lo, to(K), ent)]
                return d
        else:
            def closed(K, final=False): return dict(d0)         # deletions only: entries are not read again
        c.closed = closed; c.mode = 'known'


def freeze(v):
    """snapshot of a value at the end of an iteration"""
    if isinstance(v, Arr):
        e = v.snap(); return mkarr(v.axes, e, v.kind, v.buf.name)
    if isinstance(v, tuple): return tuple(freeze(x) for x in v)
    if isinstance(v, ListV):
        if isinstance(v.st, SymSeq):
            w = fresh('w'); x = freeze(v.st.item(w)); return ListV(SymSeq(v.st.n, lambda i: vsubst(x, {the(w): to(i)})))
        return ListV(tuple(freeze(x) for x in v.st))
    if isinstance(v, DictV):
        def entry(fn):
            w = fresh('w'); x = freeze(fn(w))
            return lambda i: vsubst(x, {the(w): to(i)})
        return DictV({k: ([(lo, hi, entry(fn)) for lo, hi, fn in x] if k == SYM else freeze(x)) for k, x in v.st.items() if k not in ('$ops', '$del')})
    if isinstance(v, (int, float)) and not isinstance(v, bool): return to(v)
    return v


def prove_c(I, c, k, lo, F0, Fk, name, mark0):
    """initiation and preservation of the inferred invariant of one location"""
    what = f'{name}: invariant of {getattr(c, "attr", None) or ("array" if c.kind == "buf" and c.name.startswith("buf") else c.kind if c.kind in ("list", "dict") else c.name)}'
    if c.kind == 'attr':
        v = c.ref.st.get(c.attr)
        if isinstance(c.init, Arr):
            idx = fs(len(c.init.factors()))
            rng = [b for i, d in zip(idx, c.init.factors()) for b in (ge(i, 0), lt(i, d))]
            a0, a1 = c.closed(lo), c.closed(k + 1)
            ok0 = prove_eq(a0.at(idx), c.init.at(idx), F0.child(*rng)); ok1 = prove_eq(a1.at(idx), v.at(idx), Fk.child(*rng))
        else:
            ok0 = prove_eq(c.closed(lo), to(c.init), F0); ok1 = prove_eq(c.closed(k + 1), to(v), Fk)
    elif c.kind == 'buf':
        idx = fs(len(c.ref.dims))
        rng = [b for i, d in zip(idx, c.ref.dims) for b in (ge(i, 0), lt(i, d))]
        ok0 = prove_eq(c.closed(idx, lo), c.init(idx), F0.child(*rng))
        ok1 = prove_eq(c.closed(idx, k + 1), c.ref.elem(idx), Fk.child(*rng))
    else:
        # one entry per iteration at the loop index: by construction of the closed form
        I.ob(what, True, I, kind='invariant'); return
    if not ok0.ok or not ok1.ok: raise Unsupported(f'{what} not proved: {(ok0.detail or ok1.detail)[:1500]}')
    I.ob(what, True, I, kind='invariant')
