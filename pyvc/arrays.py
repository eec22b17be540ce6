"""Array algebra of pyvc: shapes as products of primitive dimensions, views, elementwise operations, reductions."""
from .values import *
from .prover import prove_eq


def dim_eq(I, a, b):
    """True / False / None"""
    a, b = to(a), to(b)
    if a == b: return True
    d = a - b
    c = d.const()
    if c is not None: return c == 0
    if prove_eq(a, b, I.facts, clear=False).ok: return True
    r = I.facts.decide(eq(a, b))
    return r


def axis_eq(I, a, b): return len(a) == len(b) and all(dim_eq(I, x, y) is True for x, y in zip(a, b))
def is_one(a): return size(a).const() == 1


def pdiv(a, b):
    """exact quotient of polynomials a/b by a monomial or an identical factor, or None"""
    a, b = to(a), to(b)
    if a == b: return ONE
    if b == ONE: return a
    if len(b.m) == 1:
        q = a*inv(b)
        for k, c in q.m.items():
            if c.denominator != 1 or any(e < 0 for _, e in k): return None
        return q
    # polynomial long division on a common factor: try a = b*q with q a monomial
    for k, c in a.m.items():
        for k2, c2 in b.m.items():
            q = P({k: c})*inv(P({k2: c2}))
            if all(e > 0 for kk in q.m for _, e in kk) and all(x.denominator == 1 for x in q.m.values()) and b*q == a: return q
        break
    return None


def reshape(I, arr, sizes):
    """view with the new axis sizes (P list, may contain one -1); raises PyRaise ValueError on proven mismatch"""
    fs = arr.factors(); view = list(arr.view)
    total = size(fs)
    sizes = [to(s) for s in sizes]
    neg = [i for i, s in enumerate(sizes) if s == -1]
    if len(neg) > 1: raise PyRaise('ValueError', 'can only specify one unknown dimension')
    # factor list with strides: work on a mutable list of (dim)
    factors = list(fs)
    maps = [[(j, ONE)] for j in range(len(fs))]      # old factor j = sum of new factor idx * stride
    def split(pos, d):
        """split factor pos into (d, rest)"""
        q = pdiv(factors[pos], d)
        if q is None: return False
        factors[pos:pos+1] = [d, q]
        for m in maps:
            nm = []
            for j, s in m:
                if j < pos: nm.append((j, s))
                elif j == pos: nm += [(pos, s*q), (pos+1, s)]
                else: nm.append((j+1, s))
            m[:] = nm
        return True
    def take_left(i, pos):
        """consume factors from pos for axis size; returns (n factors, ok)"""
        want = sizes[i]; n = 0; acc = ONE
        if want == ONE:
            return 0
        while True:
            if acc == want or (acc != want and n and dim_eq(I, acc, want) is True):
                # swallow nothing more
                return n
            if pos+n >= len(factors): return None
            f = factors[pos+n]
            rem = pdiv(want, acc)
            if rem is None: return None
            if f == ONE: n += 1; continue
            if pdiv(rem, f) is not None: acc = acc*f; n += 1; continue
            if dim_eq(I, rem, f) is True: acc = acc*f; n += 1; return n
            if pdiv(f, rem) is not None:
                split(pos+n, rem); acc = acc*rem; n += 1; continue
            return None
    axes = []
    pos = 0
    stop = neg[0] if neg else len(sizes)
    for i in range(stop):
        n = take_left(i, pos)
        if n is None: return _reshape_fail(I, total, sizes, neg, arr)
        axes.append(tuple(factors[pos:pos+n])); pos += n
    if neg:
        # suffix axes from the right
        tail = []
        end = len(factors)
        for i in range(len(sizes)-1, stop, -1):
            want = sizes[i]; acc = ONE; n = 0
            if want == ONE: tail.append((end, 0)); continue
            while True:
                if acc == want or (n and dim_eq(I, acc, want) is True): break
                if end-n <= pos: return _reshape_fail(I, total, sizes, neg, arr)
                f = factors[end-n-1]; rem = pdiv(want, acc)
                if rem is None: return _reshape_fail(I, total, sizes, neg, arr)
                if f == ONE: n += 1; continue
                if pdiv(rem, f) is not None: acc = acc*f; n += 1; continue
                if dim_eq(I, rem, f) is True: acc = acc*f; n += 1; break
                q = pdiv(f, rem)
                if q is None: return _reshape_fail(I, total, sizes, neg, arr)
                before = len(factors)
                split(end-n-1, q); end += 1; acc = acc*rem; n += 1
            tail.append((end, n)); end -= n
        axes.append(tuple(factors[pos:end]))
        for e, n in reversed(tail): axes.append(tuple(factors[e-n:e]))
    else:
        rest = factors[pos:]
        if any(f != ONE for f in rest): return _reshape_fail(I, total, sizes, neg, arr)
        # trailing unit factors: attach to the last axis
        if rest and axes: axes[-1] = axes[-1] + tuple(rest)
        elif rest: pass
    nview = []
    for start, terms in view:
        t = []
        for j, s in terms:
            for j2, s2 in maps[j]: t.append((j2, s*s2))
        nview.append((start, tuple(t)))
    # unit factors of merged axes are always at index 0
    keep, k, out, new = {}, 0, 0, []
    for a in axes:
        b = []
        for d in a:
            if d == ONE and len(a) > 1: pass
            else: keep[k] = out; out += 1; b.append(d)
            k += 1
        new.append(tuple(b))
    if out < k:
        nview = [(s, tuple((keep[j], c) for j, c in t if j in keep)) for s, t in nview]; axes = new
    return Arr(arr.buf, nview, axes)


def _reshape_fail(I, total, sizes, neg, arr):
    if not neg:
        d = dim_eq(I, total, size(sizes))
        if d is False: raise PyRaise('ValueError', f'cannot reshape array of size {total} into shape {sizes}')
        if d is None: I.ob('reshape keeps the number of elements', eq(total, size(sizes)), I, kind='shape')
    # constant content: any factorisation will do
    if arr.buf.const and not neg:
        d = dim_eq(I, total, size(sizes))
        if d: return mkarr([(s,) for s in sizes], lambda idx, f=arr.buf.elem, n=len(arr.buf.dims): f([ZERO]*n), arr.kind, arr.buf.name, const=True)
    if not neg and arr.nd and dim_eq(I, total, size(sizes)):
        # another factorisation: the values by quotients and remainders; it is a view, so neither side may be written to any more
        r = relin(Arr(arr.buf, arr.view, [tuple(arr.factors())]), 0, tuple(sizes)); r.buf.det = True; arr.buf.det = True
        return mkview(r, [(s,) for s in sizes])
    raise Unsupported(f'reshape {[str(x) for x in arr.sizes()]} -> {[str(s) for s in sizes]}')


def transpose(arr, perm=None):
    n = arr.nd
    perm = list(range(n))[::-1] if perm is None else [p % n for p in perm]
    off, k = [], 0
    for a in arr.axes: off.append(k); k += len(a)
    newpos = {}; k = 0; axes = []
    for p in perm:
        axes.append(arr.axes[p])
        for j in range(len(arr.axes[p])): newpos[off[p]+j] = k; k += 1
    return Arr(arr.buf, [(s, tuple((newpos[j], st) for j, st in t)) for s, t in arr.view], axes)


def newview(arr, axes, sub):
    """axes: new axes; sub: list giving for every old factor (const P, [(new factor, stride)])"""
    view = []
    for start, terms in arr.view:
        s = start; t = {}
        for j, st in terms:
            c, lst = sub[j]
            s = s + c*st
            for j2, st2 in lst: t[j2] = t.get(j2, ZERO) + st*st2
        view.append((s, tuple(t.items())))
    return Arr(arr.buf, view, axes)


def index(I, arr, items):
    """basic and simple advanced indexing.  Returns Arr (view or copy)"""
    items0 = items
    items = list(items) if isinstance(items, tuple) else [items]
    n_el = sum(1 for x in items if x is Ellipsis)
    used = sum(1 for x in items if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.kind == 'b' and x.nd > 1))
    used += sum(x.nd for x in items if isinstance(x, Arr) and x.kind == 'b' and x.nd > 1)
    if used > arr.nd: raise PyRaise('IndexError', 'too many indices for array')
    fill = [slice(None)]*(arr.nd - used)
    if n_el:
        k = next(i for i, x in enumerate(items) if x is Ellipsis); items[k:k+1] = fill
    else: items = items + fill
    items = [ListV(x) if isinstance(x, list) else x for x in items]
    # advanced indices are applied after the basic ones
    adv = []
    axes = []; sub = []; ax = 0
    nf = 0
    for it in items:
        if it is None: axes.append((ONE,)); nf += 1; continue
        if isinstance(it, Arr) and it.kind == 'b' and it.nd > 1: raise Unsupported('mask of several dimensions')
        a = arr.axes[ax]; ax += 1
        if isinstance(it, slice):
            start, stop, step = it.start, it.stop, it.step
            if step is None: step = 1
            stepv = to(step).const()
            if stepv is None: raise Unsupported('symbolic slice step')
            if start is None and stop is None and stepv == 1:
                axes.append(a)
                for d in a: sub.append((ZERO, [(nf, ONE)])); nf += 1
                continue
            n = size(a)
            if stepv == -1 and start is None and stop is None:
                if len(a) != 1: raise Unsupported('reversal of a merged axis')
                axes.append(a); sub.append((n-1, [(nf, to(-1))])); nf += 1
                continue
            if stepv < 1: raise Unsupported('slice step')
            s = norm_bound(I, start, n, ZERO); e = norm_bound(I, stop, n, n)
            ln = I.facts.simplify(max2(e - s, 0)) if stepv == 1 else I.facts.simplify(max2(idiv(e - s + to(stepv) - 1, to(stepv)), 0))
            if len(a) == 1:
                axes.append((ln,)); sub.append((s, [(nf, to(stepv))])); nf += 1
            else:
                if s == 0 and dim_eq(I, ln, n) is True:
                    axes.append(a)
                    for d in a: sub.append((ZERO, [(nf, ONE)])); nf += 1
                else:
                    # slices aligned with the trailing factors
                    q = pdiv(s, size(a[1:])); q2 = pdiv(ln, size(a[1:]))
                    if q is None or q2 is None or stepv != 1:
                        # the values by quotients and remainders; neither side may be written to any more
                        r = relin(arr, ax - 1, (n,)); r.buf.det = True; arr.buf.det = True
                        return index(I, r, items0)
                    axes.append((q2,) + tuple(a[1:])); sub.append((q, [(nf, ONE)])); nf += 1
                    for d in a[1:]: sub.append((ZERO, [(nf, ONE)])); nf += 1
            continue
        if isinstance(it, (ListV, Arr)) and not (isinstance(it, Arr) and it.nd == 0):
            axes.append(a); adv.append((len(axes)-1, it))
            for d in a: sub.append((ZERO, [(nf, ONE)])); nf += 1
            continue
        if isinstance(it, Arr): it = it.at([])
        if isinstance(it, bool) or isinstance(it, B): raise Unsupported('boolean scalar index')
        p = to(it); n = size(a)
        if p.sort == 'r' and as_int(p) is None: raise PyRaise('IndexError', 'only integers are valid indices')
        c = p.const()
        if c is not None and c < 0: p = n + p
        elif c is None:
            if I.facts.entails(ge(p, 0)): pass
            elif I.facts.entails(lt(p, 0)): p = n + p
            else: raise Unsupported(f'sign of the index {p}')
        I.bounds(p, n)
        if len(a) == 1: sub.append((p, []))
        elif len(a) == 0: pass
        else:
            rest = p
            ds = list(a)
            for j, d in enumerate(ds):
                m = size(ds[j+1:])
                q = pdiv_aff(rest, m)
                if j == len(ds)-1: sub.append((rest, []))
                elif q is not None: sub.append((q[0], [])); rest = q[1]
                else: sub.append((idiv(rest, m), [])); rest = imod(rest, m)
    r = newview(arr, axes, sub)
    if not adv: return r
    q = adv_index(I, r, adv)
    if adv[0][0] and apart(items):           # NumPy puts the axis of index arrays that are not next to each other in front
        k = adv[0][0]; return transpose(q, [k] + [j for j in range(q.nd) if j != k])
    return q


def apart(items):
    """index arrays and numbers (which count as index arrays when one is there) with a slice or a new axis in between"""
    at = [i for i, x in enumerate(items) if x is not None and x is not Ellipsis and not isinstance(x, slice)]
    return bool(at) and at[-1] - at[0] + 1 != len(at)


def pdiv_aff(p, m):
    """p = q*m + r with r free of ... only for the exact case"""
    q = pdiv(p, m)
    return (q, ZERO) if q is not None else None


def as_int(p): return p if p.sort == 'i' else None


def norm_bound(I, b, n, default):
    if b is None: return default
    b = to(b)
    if b.sort != 'i': raise PyRaise('TypeError', 'slice indices must be integers')
    c = b.const()
    F = I.facts
    if c is not None and c < 0: b = n + b
    elif c is None and not F.entails(ge(b, 0)):
        if F.entails(lt(b, 0)): b = n + b
        else: b = ite(ge(b, 0), b, n + b)
    if not F.entails(ge(b, 0)): b = max2(b, 0)
    if b == n or F.entails(le(b, n)): return F.simplify(b)
    if F.entails(ge(b, n)): return n
    return F.simplify(min2(b, n))


def int_seq(I, v):
    """(length P, item(i) -> P) of an integer index sequence"""
    if isinstance(v, ListV):
        if isinstance(v.st, SymSeq): return v.st.n, lambda i: to(v.st.item(i))
        items = [to(x if not isinstance(x, Arr) else x.at([])) for x in v.st]
        def item(i):
            c = to(i).const()
            if c is not None: return items[int(c)]
            r = items[-1]
            for j in range(len(items)-2, -1, -1): r = ite(eq(i, j), items[j], r)
            return r
        return to(len(items)), item
    if isinstance(v, Arr) and v.nd == 1 and v.kind == 'i' and len(v.factors()) == 1:
        f = v.snap()
        return v.sizes()[0], lambda i: f([to(i)])
    raise Unsupported('index array')


def adv_index(I, arr, adv):
    if len(adv) == 1:
        k, it = adv[0]
        if isinstance(it, Arr) and it.kind == 'b': raise Unsupported('boolean mask read')
        if isinstance(it, Arr) and it.nd > 1: raise Unsupported('index array of several dimensions')
        n, item = int_seq(I, it)
        a = arr.axes[k]
        if len(a) != 1: raise Unsupported('index array on a merged axis')
        f = arr.snap(); pos = sum(len(x) for x in arr.axes[:k]); dim = a[0]
        q = fresh('q'); x = item(q); F = I.facts.child(ge(q, 0), lt(q, n))
        if x.sort == 'i' and not F.entails(And(ge(x, -1*dim), lt(x, dim))):
            keep, I.facts = I.facts, F
            I.ob('index array in bounds', And(ge(x, -1*dim), lt(x, dim)), I)
            I.facts = keep
        def g(idx):
            idx = list(idx); p = item(idx[pos])
            c = p.const()
            if c is not None: p = p + dim if c < 0 else p
            elif not I.facts.child(ge(idx[pos], 0), lt(idx[pos], n)).entails(ge(p, 0)) and p.sort == 'i':
                p = ite(lt(p, 0), p + dim, p)
            idx[pos] = p
            return f(idx)
        axes = list(arr.axes); axes[k] = (n,)
        return mkarr(axes, g, arr.kind)
    # several index arrays of one dimension and one length, next to each other: one axis in their place
    ks = [k for k, _ in adv]; seqs = [int_seq(I, it) for _, it in adv]
    if ks != list(range(ks[0], ks[0] + len(ks))) or any(len(arr.axes[k]) != 1 for k in ks): raise Unsupported('several index arrays')
    n = seqs[0][0]
    if any(dim_eq(I, n, m) is not True for m, _ in seqs): raise Unsupported('index arrays of several lengths')
    f = arr.snap(); pos = sum(len(x) for x in arr.axes[:ks[0]]); dims = [arr.axes[k][0] for k in ks]
    q = fresh('q'); F = I.facts.child(ge(q, 0), lt(q, n))
    for (_, item), dim in zip(seqs, dims):
        x = item(q)
        if not F.entails(And(ge(x, -1*dim), lt(x, dim))):
            keep, I.facts = I.facts, F
            I.ob('index array in bounds', And(ge(x, -1*dim), lt(x, dim)), I)
            I.facts = keep
    def g(idx):
        idx = list(idx); at = []
        for (_, item), dim in zip(seqs, dims):
            p = item(idx[pos]); c = p.const()
            if c is not None: p = p + dim if c < 0 else p
            elif not I.facts.child(ge(idx[pos], 0), lt(idx[pos], n)).entails(ge(p, 0)): p = ite(lt(p, 0), p + dim, p)
            at.append(p)
        return f(idx[:pos] + at + idx[pos+1:])
    return mkarr(list(arr.axes[:ks[0]]) + [(n,)] + list(arr.axes[ks[-1]+1:]), g, arr.kind)


# ------------------------------------------------------------ elementwise
def broadcast_axes(I, arrs):
    nd = max(a.nd for a in arrs)
    out = []
    for k in range(nd):
        cur = (ONE,)
        for a in arrs:
            j = k - (nd - a.nd)
            if j < 0: continue
            ax = a.axes[j]
            if is_one(ax): continue
            if is_one(cur): cur = ax; continue
            if axis_eq(I, cur, ax): continue
            d = dim_eq(I, size(cur), size(ax))
            if d is False: raise PyRaise('ValueError', f'operands could not be broadcast together: {size(cur)} and {size(ax)}')
            if d is None: I.ob('operands broadcast', Or(eq(size(cur), size(ax)), eq(size(cur), 1), eq(size(ax), 1)), I, kind='shape'); raise Unsupported(f'broadcast of {size(cur)} with {size(ax)}')
            # prefer the finer factorisation
            if len(ax) > len(cur): cur = ax
        out.append(cur)
    return out


def reader(I, a, axes):
    """function flat idx (of axes) -> element of a broadcast to axes"""
    f = a.snap(); nd = len(axes); off, k = [], 0
    for x in axes: off.append(k); k += len(x)
    plan = []
    for j, ax in enumerate(a.axes):
        t = j + nd - a.nd
        if is_one(ax):
            plan += [None]*len(ax)
        elif axis_eq(I, ax, axes[t]):
            plan += [[(off[t]+i, ONE)] for i in range(len(ax))]
        elif len(ax) == 1:
            # linear view of the merged axis
            terms = []; m = ONE
            for i in range(len(axes[t])-1, -1, -1):
                terms.append((off[t]+i, m)); m = m*axes[t][i]
            plan.append(terms)
        elif a.buf.const: plan += [None]*len(ax)
        else:
            sub = refactor(I, ax, axes[t], off[t])
            if sub is None: return reader(I, relin(a, j, axes[t]), axes)
            plan += sub
    def g(idx):
        return f([ZERO if p is None else sum((to(idx[j])*s for j, s in p), ZERO) for p in plan])
    return g


def refactor(I, have, want, off):
    """express the factors `have` through the finer factors `want`"""
    out = []; k = 0
    for d in have:
        acc = ONE; grp = []
        while acc != d:
            if k >= len(want): return None
            acc = acc*want[k]; grp.append(k); k += 1
            if len(grp) > 8: return None
            if pdiv(d, acc) is None: return None
        m = ONE; terms = []
        for g in reversed(grp): terms.append((off+g, m)); m = m*want[g]
        out.append(terms)
    return out if k == len(want) else None


def asarr(v):
    if isinstance(v, Arr): return v
    k = kind_of(v)
    if k == 'b': 
        b = v if isinstance(v, B) else (TRUE if v else FALSE)
        return mkarr([], lambda idx: b, 'b')
    p = to(v)
    return mkarr([], lambda idx: p, k)


def elementwise(I, f, args, kind, name=None):
    arrs = [asarr(a) for a in args]
    axes = broadcast_axes(I, arrs)
    if not axes and not any(isinstance(a, Arr) and a.nd for a in args):
        return f(*[a.at([]) for a in arrs])
    rs = [reader(I, a, axes) for a in arrs]
    cst = all(a.buf.const or a.nd == 0 for a in arrs)
    return mkarr(axes, lambda idx: f(*[r(idx) for r in rs]), kind, name, const=cst)


def copy(arr, kind=None):
    f = arr.snap()
    r = mkarr(arr.axes, f, kind or arr.kind, arr.buf.name, const=arr.buf.const)
    r.buf.swapped = arr.buf.swapped
    return r


def assign(I, arr, value, what='='):
    """arr[...] = value, elementwise through the view"""
    va = asarr(value)
    if arr.buf.det: raise Unsupported('write to an entry of a symbolic container')
    if va.nd > arr.nd:
        lead = va.axes[:va.nd-arr.nd]
        if all(is_one(a) for a in lead): va = Arr(va.buf, *_droplead(va, len(lead)))
        else: raise PyRaise('ValueError', 'could not broadcast input array')
    buf = arr.buf
    if buf.const:
        # adopt the factorisation of the value where they differ (content does not depend on the index)
        pass
    axes = arr.axes
    for j in range(va.nd):
        t = arr.nd - va.nd + j
        if is_one(va.axes[j]) or axis_eq(I, va.axes[j], axes[t]): continue
        d = dim_eq(I, size(va.axes[j]), size(axes[t]))
        if d is False: raise PyRaise('ValueError', f'could not broadcast input array: {size(va.axes[j])} into {size(axes[t])}')
        if d is None: I.ob('assigned value fits', Or(eq(size(va.axes[j]), size(axes[t])), eq(size(va.axes[j]), 1)), I, kind='shape'); raise Unsupported(f'assignment of {size(va.axes[j])} into {size(axes[t])}')
        if buf.const and len(axes[t]) == 1 and len(va.axes[j]) > 1:
            try: arr = adopt(I, arr, t, va.axes[j]); buf = arr.buf; axes = arr.axes
            except Unsupported: pass                      # a part of a buffer: the value is read by its linear index
    r = reader(I, va, axes)
    old = buf.elem; view = arr.view; bdims = buf.dims
    if buf.kind in 'ir' and va.kind == 'c': I.lossy(arr, va)
    trunc = buf.kind == 'i' and va.kind == 'r'
    dropim = buf.kind in 'ir' and va.kind == 'c'
    tobool = buf.kind == 'b'
    fs = arr.factors()
    # inverse of the view: base index -> factor index
    plan = []; guards = []
    for b, (start, terms) in enumerate(view):
        plan.append((start, terms))
    covered = set(j for _, t in view for j, _ in t)
    nests = {d_: nesting(I, terms, fs, start, bdims[d_]) for d_, (start, terms) in enumerate(view) if len(terms) > 1}
    def st(base):
        idx = [ZERO]*len(fs); g = []
        for d_, ((start, terms), b, bd) in enumerate(zip(plan, base, bdims)):
            b = to(b)
            if not terms:
                g.append(eq(b, start))
            elif len(terms) == 1:
                j, s = terms[0]; c = s.const()
                if c is None: raise Unsupported('strided write')
                q = (b - start).scale(1/c) if abs(c) == 1 else None
                if q is None:
                    g.append(eq(imod(b - start, s), 0)); q = idiv(b - start, s)
                idx[j] = q
                if not (start == 0 and c == 1 and fs[j] == bd):
                    g.append(ge(q, 0)); g.append(lt(q, fs[j]))
            else:
                # merged linear view: digits of the base index, outermost first
                order, whole = nests[d_]; rest = b - start
                for n, (j, s) in enumerate(order):
                    if n == len(order)-1:
                        if s == 1: idx[j] = rest
                        else: g.append(eq(imod(rest, s), 0)); idx[j] = idiv(rest, s)
                    else: idx[j] = idiv(rest, s); rest = imod(rest, s)
                    if not whole: g.append(ge(idx[j], 0)); g.append(lt(idx[j], fs[j]))
        v = r(idx)
        if dropim: v = re(v)
        if trunc: v = floor_trunc(v)
        gg = And(*g)
        if gg is TRUE: return v
        o = old(base)
        if tobool: return Or(And(gg, v), And(Not(gg), o))
        return ite(gg, v, o)
    full = all(start == 0 and len(t) == 1 and t[0][1] == 1 and fs[t[0][0]] == bd for (start, t), bd in zip(view, bdims))
    I.heap.set(buf, (bdims, st, full and (va.nd == 0 or va.buf.const)))
    I.wrote(buf)


def nesting(I, terms, fs, start, bd):
    """the factors of a merged axis, outermost first (every stride covers what is inside it), and whether they cover the base dimension"""
    def covers(a, b):                       # stride of a >= extent of b * its stride
        d = a[1] - to(fs[b[0]])*b[1]
        return d == 0 or I.facts.entails(ge(d, 0))
    for order in (list(terms), sorted(terms, key=lambda t: -len(t[1].m)), list(terms)[::-1]):
        if all(covers(a, b) for a, b in zip(order, order[1:])):
            exact = all(a[1] == to(fs[b[0]])*b[1] for a, b in zip(order, order[1:])) and order[-1][1] == 1
            j, s = order[0]
            return order, bool(exact and start == 0 and to(fs[j])*s == to(bd))
    raise Unsupported('a write through a view that is not a part of the rows')


def floor_trunc(v):
    return ite(ge(v, 0), floor(v), -floor(-v))


def _droplead(va, n):
    k = sum(len(a) for a in va.axes[:n])
    view = [(s, tuple((j-k, st) for j, st in t if j >= k)) for s, t in va.view]
    return view, va.axes[n:]


def adopt(I, arr, t, axis):
    """re-factor axis t of an array over a constant buffer (in place: the array object keeps its identity)"""
    pos = sum(len(a) for a in arr.axes[:t])
    # which base dim does factor pos belong to
    b = [i for i, (s, tm) in enumerate(arr.view) if any(j == pos for j, _ in tm)]
    if len(b) != 1: raise Unsupported('adopting factors')
    b = b[0]
    buf = arr.buf
    if not (arr.view[b][0] == 0 and arr.view[b][1] == ((pos, ONE),) and dim_eq(I, buf.dims[b], size(axis)) is True): raise Unsupported('adopting factors of a part')
    rebase(I, buf, b, axis)
    return arr


def rebase(I, buf, b, axis):
    """replace base dimension b of a constant buffer by the factors of axis, in all its views"""
    dims = buf.dims; f = buf.elem; n = len(axis)
    val = f([ZERO]*len(dims))
    for u in buf.users:
        if u.buf is not buf: continue
        start, tm = u.view[b]
        if not tm: raise Unsupported('re-factoring below an index')
        if start != 0 or len(tm) != 1 or tm[0][1] != 1: raise Unsupported('re-factoring below a slice')
        j0 = tm[0][0]
        t = 0; k = 0
        for t, a in enumerate(u.axes):
            if k <= j0 < k + len(a): break
            k += len(a)
        ax = u.axes[t]; pos = j0 - k
        axes = u.axes[:t] + (ax[:pos] + tuple(axis) + ax[pos+1:],) + u.axes[t+1:]
        sh = lambda j: j if j < j0 else j + n - 1
        view = []
        for i, (s, tt) in enumerate(u.view):
            if i == b: view += [(ZERO, ((j0+q, ONE),)) for q in range(n)]
            else: view.append((s, tuple((sh(j), st) for j, st in tt)))
        I.heap.set(u, (buf, tuple(view), axes))
    I.heap.set(buf, (dims[:b] + tuple(axis) + dims[b+1:], lambda idx: val, True))
    I.rebased.append((buf, b, tuple(axis)))


def reduce(I, arr, axis, comb, kind):
    """comb(list of (var, dim), body) -> P; axis None or int or tuple"""
    if axis is None: ax = list(range(arr.nd))
    else: ax = [a % arr.nd for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    f = arr.snap(); keep = [j for j in range(arr.nd) if j not in ax]
    off, k = [], 0
    for a in arr.axes: off.append(k); k += len(a)
    axes = [arr.axes[j] for j in keep]
    def g(idx):
        full = [None]*k; p = 0
        for j in keep:
            for i in range(len(arr.axes[j])): full[off[j]+i] = idx[p]; p += 1
        vs = []
        for j in ax:
            for i, d in enumerate(arr.axes[j]):
                v = fresh('r'); full[off[j]+i] = v; vs.append((v, d))
        return comb(vs, f(full))
    if not axes: return g([])
    return mkarr(axes, g, kind)


def sum_comb(vs, body):
    for v, d in reversed(vs): body = summ(v, 0, d, body)
    return body


def contract(I, a, b, ia, ib):
    """sum over axis ia of a and ib of b (same size): result axes a-rest then b-rest"""
    A, Bx = a.axes[ia], b.axes[ib]
    fa, fb = a.snap(), b.snap()
    if not axis_eq(I, A, Bx):
        d = dim_eq(I, size(A), size(Bx))
        if d is False: raise PyRaise('ValueError', f'matmul: mismatch {size(A)} and {size(Bx)}')
        if d is None: I.ob('inner dimensions of a product agree', eq(size(A), size(Bx)), I, kind='shape'); raise Unsupported(f'matmul of {size(A)} with {size(Bx)}')
        if len(A) > 1 and len(Bx) == 1: b = lin_split(b, ib, A); Bx = A; fb = b.snap()
        elif len(Bx) > 1 and len(A) == 1: a = lin_split(a, ia, Bx); A = Bx; fa = a.snap()
        else: b = relin(b, ib, A); Bx = A; fb = b.snap()
    ra = [x for j, x in enumerate(a.axes) if j != ia]; rb = [x for j, x in enumerate(b.axes) if j != ib]
    na = sum(len(x) for x in ra)
    pa = sum(len(x) for x in a.axes[:ia]); pb = sum(len(x) for x in b.axes[:ib])
    def g(idx):
        vs = [fresh('r') for _ in A]
        i1 = list(idx[:na]); i1[pa:pa] = vs
        i2 = list(idx[na:]); i2[pb:pb] = vs
        return sum_comb(list(zip(vs, A)), fa(i1)*fb(i2))
    if not ra and not rb: return g([])
    return mkarr(ra + rb, g, kmax(a.kind, b.kind, 'i'))


def mkview(arr, axes): return Arr(arr.buf, arr.view, axes)


def relin(a, k, axis):
    """the values of a with axis k factored as `axis` (same size, another factorisation): by quotients and remainders of the linear index"""
    f = a.snap(); pos = sum(len(x) for x in a.axes[:k]); old = a.axes[k]; n = len(axis)
    def g(idx):
        idx = list(idx); t, m = ZERO, ONE
        for i in range(n-1, -1, -1): t = t + to(idx[pos+i])*m; m = m*axis[i]
        out, m = [], ONE
        for i in range(len(old)-1, -1, -1):
            q = t if m == ONE else idiv(t, m)
            out.insert(0, q if i == 0 else q - old[i]*idiv(t, m*old[i])); m = m*old[i]
        idx[pos:pos+n] = out
        return f(idx)
    axes = list(a.axes); axes[k] = tuple(axis)
    return mkarr(axes, g, a.kind)


def lin_split(a, k, axis):
    pos = sum(len(x) for x in a.axes[:k]); n = len(axis)
    sub = []
    terms = []; m = ONE
    for i in range(n-1, -1, -1): terms.append((pos+i, m)); m = m*axis[i]
    j = 0
    for t, ax in enumerate(a.axes):
        for _ in ax:
            if t == k: sub.append((ZERO, terms))
            else: sub.append((ZERO, [(j if j < pos else j + n - 1, ONE)]))
            j += 1
    axes = list(a.axes); axes[k] = tuple(axis)
    return newview(a, axes, sub)
