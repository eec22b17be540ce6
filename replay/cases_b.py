"""Contract replay for C10-C19."""
import os, itertools, copy
import numpy as np
from lib import *
import lib
from cases_a import configs, setup, posweights, guarded, write_nc, nc_job, modal_checks

def cutsfor(cx, N, P, empty=True):
    if empty: return [0] + sorted(int(v) for v in cx.rng.integers(0, N+1, size=P-1)) + [N]
    return [0] + sorted(int(v) for v in cx.rng.choice(np.arange(1, N), size=P-1, replace=False)) + [N]

# --------------------------------------------------------------------- C10
def C10(cx):
    import pyspod.utils.parallel as PA
    for i in range(60 if cx.big else 20):
        nd = int(cx.rng.integers(0, 5)); shape = tuple(int(v) for v in cx.rng.integers(1, 5, size=nd))
        A = cx.rng.standard_normal(shape).astype([np.float64, np.float32, np.complex128, np.int64, '>f8', np.complex64][i % 6])
        if i % 2: A = np.asfortranarray(A)
        f = os.path.join(cx.dir(), 'a.npy'); cx.count(('serial', shape, str(A.dtype)))
        r = guarded(cx, 'serial save/load', dict(shape=shape, dtype=str(A.dtype)), lambda: (PA.npy_save(None, f, A), PA.npy_load(None, f))[1])
        if r is not None and (r.shape != A.shape or r.dtype != A.dtype or not np.array_equal(r, A)): cx.fail('serial round trip changes the array', dict(shape=shape, dtype=str(A.dtype)))
    for size in ((1, 3, 4) if not cx.big else (1, 2, 3, 4, 5)):
        jobs, refs = [], []
        for i in range(40 if cx.big else 14):
            nd = int(cx.rng.integers(1, 5)); shape = tuple(int(v) for v in cx.rng.integers(1, 7, size=nd)); ax = int(cx.rng.integers(nd))
            A = (cx.rng.standard_normal(shape)*9).astype([np.float64, np.float32, np.complex128, np.int64, np.complex64, '>f8', '>i4'][i % 7])
            cuts = cutsfor(cx, shape[ax], size)
            if i % 6 == 0: cuts = [0] + [shape[ax]]*size                  # everything on process 0
            f = os.path.join(cx.dir(), 'a.npy')
            pre = np.zeros((50, 50)) if i % 3 == 0 else None              # a longer file of that name exists
            order = 'F' if i % 2 else 'C'; axx = ax if i % 4 else ax - nd
            jobs.append(('j_npy', dict(arr=A, axis=axx, cuts=cuts, path=f, order=order, pre=pre, dtype=A.dtype.str)))
            refs.append((A, ax, cuts, dict(shape=shape, axis=axx, cuts=cuts, order=order, dtype=str(A.dtype), existing_file=pre is not None, processes=size)))
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel save/load: ' + res, [r[3] for r in refs][:4]); return
        for (A, ax, cuts, inp), r in zip(refs, res):
            cx.count((size, inp['shape'], ax, tuple(cuts), inp['order']), inp)
            g = r[0]['file']
            if not isinstance(g, np.ndarray) or g.shape != A.shape or g.dtype != A.dtype.newbyteorder('=') or not np.array_equal(g, A): cx.fail(f'saved file does not hold the global array ({g if isinstance(g, str) else g.shape})', inp); continue
            for k in ('explicit', 'default', 'foreign'):
                try: cat = np.concatenate([q[k] for q in r], axis=ax)
                except ValueError: cat = None
                if cat is None or not np.array_equal(cat, A): cx.fail(f'parts loaded with {k} counts do not give the array in rank order', inp); break
            if any(q['explicit'].shape[ax] != cuts[j+1]-cuts[j] for j, q in enumerate(r)): cx.fail('explicit counts not respected', inp)
        if cx.stop(): return

# --------------------------------------------------------------------- C11
def C11(cx):
    import pyspod.utils.weights as W
    for i in range(80 if cx.big else 30):
        nv = int(cx.rng.integers(1, 4)); xs = tuple(int(v) for v in cx.rng.integers(1, 5, size=int(cx.rng.integers(1, 4)))); nt = int(cx.rng.integers(2, 7))
        X = cx.rng.standard_normal((nt, *xs, nv))*np.array([1, 10, .1])[:nv] + np.arange(nv)*7; w = cx.rng.random((*xs, nv)) + .1
        if i % 4 == 2: w = cx.rng.integers(1, 9, size=(*xs, nv))
        keep = w.copy(); Xk = X.copy()
        inp = dict(nt=nt, xs=xs, nv=nv); cx.count(('serial', nt, xs, nv), inp)
        with quiet(): r = guarded(cx, 'normalization', inp, lambda: W.apply_normalization(data=X, weights=w, n_vars=nv))
        if r is None: continue
        v = np.array([((X[..., k]-X[..., k].mean())**2).mean() for k in range(nv)])
        cx.close(r, keep/v, 'normalized weights', dict(inp, X=X))
        if not np.array_equal(w, keep) or not np.array_equal(X, Xk): cx.fail('normalization changes its arguments', inp)
        for m in ('none', 'Variance', 'VARIANCE', ''):
            with quiet(): r = guarded(cx, 'normalization', dict(inp, method=m), lambda: W.apply_normalization(data=X, weights=w, n_vars=nv, method=m))
            if r is not None: cx.close(r, keep/v if m.lower() == 'variance' else keep, f'weights with method {m!r}', inp)
        # a point that only has missing values does not count
        if i % 5 == 0 and X[..., 0].size > 3:
            Y = X.copy(); Y[0].reshape(-1, nv)[0, 0] = np.nan
            with quiet(): r = W.apply_normalization(data=Y, weights=w, n_vars=nv)
            v0 = Y[..., 0].ravel(); v0 = v0[np.isfinite(v0)]
            cx.close(r[..., 0], keep[..., 0]/np.mean((v0-v0.mean())**2), 'normalized weights with a missing value', inp)
    for size in ((2, 3) if not cx.big else (1, 2, 3, 4, 5)):
        jobs, refs = [], []
        for i in range(30 if cx.big else 10):
            N = int(cx.rng.integers(size+1, 25)); a = cx.rng.standard_normal(N)*10**float(cx.rng.integers(-2, 3)) + float(cx.rng.integers(-50, 50)); cuts = cutsfor(cx, N, size, i % 4 == 3)
            if i % 3 == 0: a[cuts[1]:] += 100
            jobs.append(('j_pvar', dict(arr=a, cuts=cuts))); refs.append((a, cuts))
        jn, rn = [], []
        for i in range(12 if cx.big else 4):
            nv = int(cx.rng.integers(1, 4)); xs = (int(cx.rng.integers(size, 7)) if i != 2 else size-1 or 1, int(cx.rng.integers(1, 4))); nt = int(cx.rng.integers(2, 6))
            X = cx.rng.standard_normal((nt, *xs, nv)) + 5*np.arange(nv); w = cx.rng.random((*xs, nv)) + .1
            if i % 2: X[:, 0] += 30
            if i == 1: X = X + 3j*cx.rng.standard_normal(X.shape) + 2j
            m = 'variance' if i != 3 else 'none'
            jn.append(('j_norm', dict(data=X, weights=w, nv=nv, axis=0, method=m))); rn.append((X, w, nv, m))
        res = run_mpi(jobs + jn, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel statistics: ' + res, dict(processes=size)); return
        for (a, cuts), r in zip(refs, res):
            inp = dict(a=a, cuts=cuts, processes=size); cx.count(('pvar', size, len(a), tuple(cuts)))
            for q in r:
                cx.eq(q['n'], len(a), 'global count', inp); cx.close(q['m'], a.mean(), 'global mean', inp); cx.close(q['v'], ((a-a.mean())**2).mean(), 'global variance', inp, rtol=1e-9)
                if not q['kept']: cx.fail('pvar changes the data', inp)
            if cx.stop(): return
        for (X, w, nv, m), r in zip(rn, res[len(refs):]):
            v = np.array([(abs(X[..., k]-X[..., k].mean())**2).mean() for k in range(nv)]) if m == 'variance' else np.ones(nv)
            cx.count(('norm', size, X.shape)); cx.close(np.concatenate([q['w'] for q in r], axis=0), w/v, f'normalized weights ({m}) on {size} processes', dict(shape=X.shape, X=X))
            if not all(q['kept'] for q in r): cx.fail('parallel normalization changes the weights of the caller', dict(shape=X.shape))

# --------------------------------------------------------------------- C12
def C12(cx):
    import h5py
    for size in ((1, 3) if not cx.big else (1, 2, 3, 4)):
        jobs, refs = [], []
        for i in range(10 if cx.big else 5):
            xs = [(5,), (3, 2), (2, 3, 2), (7,), (4, 3)][i % 5]; nv = [1, 2, 3][i % 3]; nt = int(cx.rng.integers(10, 24)); nf = int(cx.rng.integers(1, 4))
            X = cx.rng.standard_normal((nt, *xs, nv)); names = [f'v{k}' for k in range(nv)]
            fs = write_nc(cx, X, nf, names, t0=float(cx.rng.integers(0, 50)))
            order = list(cx.rng.permutation(nv)); nr = [None, 1, size, max(1, size-1)][i % 4]; nch = int(cx.rng.integers(1, 4)); nb = [3, 1, 2, 4][i % 4]
            rg = [(0, nt), (1, nt-1), (nt-2, nt), (0, 1), (nt//2, nt//2+2)]
            jobs.append(('j_reader', dict(files=fs, xdim=len(xs), nv=nv, variables=[names[k] for k in order], nreaders=nr, nchunks=nch, nblocks=nb, ranges=rg, limit=11 if i % 2 else None)))
            refs.append((X[..., order], rg, dict(kind='nc', xs=xs, nv=nv, nt=nt, files=len(fs), order=[int(k) for k in order], readers=nr, chunks=nch, blocks=nb, processes=size, largest_count=11 if i % 2 else None)))
        for i in range(4 if cx.big else 2):
            nv = [2, 1, 3][i % 3]; nt = int(cx.rng.integers(6, 13)); xs = [(2, 3, 2), (3, 2, 2)][i % 2]; X = cx.rng.standard_normal((nt, *xs, nv)); d = cx.dir(); fs = []
            for t in range(nt):
                f = os.path.join(d, f's{t:04d}.mat')
                with h5py.File(f, 'w') as h: h['q'] = np.moveaxis(X[t], -1, 0)
                fs.append(f)
            rg = [(0, nt), (1, nt-1), (nt-1, nt), (0, 1)]; nch = int(cx.rng.integers(1, 3))
            jobs.append(('j_reader', dict(files=fs, xdim=3, nv=nv, nchunks=nch, kind='mat', ranges=rg, limit=11 if i % 2 else None))); refs.append((X, rg, dict(kind='mat', xs=xs, nv=nv, nt=nt, chunks=nch, processes=size, largest_count=11 if i % 2 else None)))
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('staged reader: ' + res, [r[2] for r in refs][:4]); return
        for (X, rg, inp), r in zip(refs, res):
            nt = X.shape[0]; nx = int(np.prod(X.shape[1:-1])); F = X.reshape(nt, nx, -1); br = blockranges(nx, size)
            cx.count(tuple(sorted((k, str(v)) for k, v in inp.items())), inp)
            for rank, q in enumerate(r):
                s, n = br[rank]; L = F[:, s:s+n]
                cx.eq((q['nt'], q['nx'], tuple(q['xshape'])), (nt, nx, tuple(X.shape[1:-1])), 'dimensions', inp)
                pos = 0
                for (a, b, v) in q['chunks']:
                    if a != pos or b < a: cx.fail(f'chunks {[c[:2] for c in q["chunks"]]} do not follow one another', inp); break
                    if v.shape != (b-a, n, X.shape[-1]) or not np.array_equal(v, L[a:b]): cx.fail(f'chunk [{a},{b}) of process {rank} does not hold its points', inp); break
                    pos = b
                else:
                    if pos != nt: cx.fail(f'chunks end at {pos} instead of {nt}', inp)
                for (a, b), v, w in zip(rg, q['ranges'], q['single']):
                    if v.shape != (b-a, n, X.shape[-1]) or not np.array_equal(v, L[a:b]): cx.fail(f'snapshots [{a},{b}) of process {rank} wrong', inp); break
                    if not np.array_equal(w, L[a:a+1]): cx.fail(f'snapshot {a} of process {rank} wrong', inp); break
            if cx.stop(): return
    # fits from files
    jobs, refs = [], []
    for i, c in enumerate(configs(cx, 4 if cx.big else 2, cplx=False, full=False)):
        c['xs'] = [(5,), (3, 2)][i % 2]; c['nt'] = max(c['nt'], 27); c['integers'] = i % 2 == 1
        j, X, p = nc_job(cx, c, 1 + i % 3); jobs.append(j); refs.append((X, p, c))
    for size in (2,) if not cx.big else (1, 3):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('fit from files: ' + res, [r[2] for r in refs]); return
        for (X, p, c), r in zip(refs, res):
            cx.count(('fit', size, c['n_dft'], c['nt'])); s = fit(X, dict(p, savedir=cx.dir(), savefreq_disk=True, savefreq_disk2=False))
            if cx.close(r[0]['eigs'], s.eigs, 'eigenvalues of a fit from files', c, rtol=1e-7, atol=1e-10): pass
            cx.close(r[0]['ltm'].ravel(), np.load(os.path.join(s.savedir_sim, 'ltm_modes.npy')).ravel(), 'long-time mean of a fit from files', c)
            e = np.real(s.eigs)
            for f in range(e.shape[0]):
                A = load_modes(s, f)
                for m in range(A.shape[-1]):
                    if e[f, m] < 1e-6*e[f, 0] or any(abs(e[f, m]-e[f, k]) < 1e-3*e[f, 0] for k in range(e.shape[1]) if k != m): continue
                    B = r[0]['modes'].get(f'freq_idx_f{f:08d}_m{m:08d}.npy')
                    if B is None or B.shape != A.shape[:-1]: cx.fail(f'mode file f{f} m{m}: {None if B is None else B.shape}', c); return
                    cx.close(np.abs(B), np.abs(A[..., m]), f'mode {m} at bin {f} of a fit from files', c, rtol=1e-5, atol=1e-6)

# --------------------------------------------------------------------- C13
def o_geo(n1, n2, R):
    lat = np.deg2rad(np.linspace(-90, 90, n1)); h = np.pi/(n1-1)
    dl = np.full(n1, h); dl[0] = dl[-1] = h/2
    dn = np.full(n2, 2*np.pi/n2)
    return R**2*np.abs(np.cos(lat))[:, None]*dl[:, None]*dn[None, :]

def C13(cx):
    import pyspod.utils.weights as W
    from pyspod.spod.standard import Standard
    sizes = [(4, 3), (5, 8), (9, 4), (37, 20), (4, 1), (6, 2)] + ([(181, 30), (73, 144)] if cx.big else [])
    for n1, n2 in sizes:
        for nv in (1, 2, 3):
            for R in (1, 2.5, 6371e3):
                inp = dict(n1=n1, n2=n2, nv=nv, R=R); cx.count(('2d', n1, n2, nv, R), inp)
                w = guarded(cx, 'geo_trapz_2D', inp, lambda: W.geo_trapz_2D(x1_dim=n1, x2_dim=n2, n_vars=nv, R=R))
                if w is None: continue
                w = np.asarray(w['weights']); E = np.repeat(o_geo(n1, n2, R)[..., None], nv, axis=-1)
                if w.shape != E.shape: cx.fail(f'2D weights of shape {w.shape} instead of {E.shape}', inp); continue
                if np.any(w < 0): cx.fail('negative weight', inp)
                cx.close(w[:, 1:], E[:, 1:], '2D weights', inp, rtol=1e-10, atol=0)
                if np.array_equal(w[:, 0], 0*E[:, 0]): cx.fail('geo_trapz_2D/3D give weight zero to the first longitude', inp, 'geo-first-longitude')
                else: cx.close(w[:, 0], E[:, 0], '2D weights at the first longitude', inp, rtol=1e-10, atol=0)
                for n3 in (1, 3):
                    inp3 = dict(inp, n3=n3); cx.count(('3d', n1, n2, n3, nv, R))
                    v = guarded(cx, 'geo_trapz_3D', inp3, lambda: W.geo_trapz_3D(x1_dim=n1, x2_dim=n2, x3_dim=n3, n_vars=nv, R=R))
                    if v is None: continue
                    v = np.asarray(v['weights']); E3 = np.repeat(E[:, :, None, :], n3, axis=2)
                    if nv == 1 and v.shape == E3.shape[:-1]: v = v[..., None]         # layout [space] of a single variable
                    if v.shape != E3.shape:
                        if v.shape != (nv*n1, n2, n3): cx.fail(f'3D weights of shape {v.shape} instead of {E3.shape}', inp3); continue
                        cx.fail('geo_trapz_3D stacks the variables along the first axis instead of adding a last axis', inp3, 'geo3d-variables-first')
                        v = np.moveaxis(v.reshape(nv, n1, n2, n3), 0, -1)
                    if np.any(v < 0): cx.fail('negative weight', inp3)
                    cx.close(v[:, 1:], E3[:, 1:], '3D weights', inp3, rtol=1e-10, atol=0)
                    if not np.array_equal(v[:, 0], 0*v[:, 0]): cx.close(v[:, 0], E3[:, 0], '3D weights at the first longitude', inp3, rtol=1e-10, atol=0)
                if cx.stop(): return
    # acceptance by a fit
    for xs, nv in (((5,), 1), ((3, 4), 2), ((2, 3, 2), 1)):
        n = int(np.prod(xs))*nv; X = cx.rng.standard_normal((20, *xs, nv))
        for shp, ok in (((*xs, nv), True), ((*xs, nv, 1), None), ((n+1,), False), ((*xs, nv+1), False), ((n-1,), False), ((2*n,), False)):
            w = dict(weights_name='w', weights=np.ones(shp)*2.); cx.count(('fitw', xs, nv, shp)); inp = dict(xs=xs, nv=nv, weights_shape=shp)
            if ok is None: continue
            p = mkparams(cx.rng, cx.dir(), n_dft=5, n_variables=nv, n_space_dims=len(xs))
            try: s = fit(X, p, weights=w); got = True
            except ValueError: got = False
            except Exception as e: cx.fail(f'weights of {int(np.prod(shp))} entries for {n} values: {type(e).__name__} {e}', inp); continue
            if got != ok: cx.fail(f'weights of {int(np.prod(shp))} entries for {n} values {"accepted" if got else "rejected"}', inp)
        p = mkparams(cx.rng, cx.dir(), n_dft=5, n_variables=nv, n_space_dims=len(xs)); s = fit(X, p)
        cx.close(np.load(os.path.join(s.savedir_sim, 'weights.npy')), np.ones((*xs, nv)), 'default weights', dict(xs=xs, nv=nv))

# --------------------------------------------------------------------- C14 / C15
def pfit(cx, xs=None, nv=1, n_dft=8, nt=44, full=False, nms=2, w=True, cplx=False, trailing=True, dt=1.):
    c = dict(n_dft=n_dft, overlap=50, nt=nt, nv=nv, xs=xs, dt=dt, mean_type='longtime', full=full, cplx=cplx, trailing=trailing, nd=False, nms=nms, kind=1)
    X, p = setup(cx, c); wt = posweights(cx, c) if w else None
    return c, X, p, wt, fit(X, p, weights=wt)

def sel_ids(freq, T_lb, T_ub, freq_idx):
    if freq_idx is not None and (T_lb is None or T_ub is None): return list(freq_idx)
    if T_lb is None or T_ub is None: return list(range(len(freq)))
    a = int(np.argmin(np.abs(freq-1/T_ub))); b = int(np.argmin(np.abs(freq-1/T_lb)))
    return list(range(a, b+1))

def C14(cx):
    import pyspod.spod.utils as U
    cases = []
    for xs, nv, n_dft, full, cplx, tr in (((6,), 1, 8, False, False, True), ((3, 4), 2, 9, False, False, True), ((5, 2, 2), 1, 8, True, False, False), ((7,), 2, 8, False, True, True)) + ((((4, 4), 3, 11, False, False, True),) if cx.big else ()):
        for kw in (dict(), dict(freq_idx=[1]), dict(freq_idx=[3, 1]), dict(freq_idx=[0, 2, 3]), dict(T_lb=2.5, T_ub=9.), dict(T_lb=4., T_ub=4.)):
            for svd in (False, True):
                cases.append((xs, nv, n_dft, full, cplx, tr, kw, svd))
    cache = {}
    for xs, nv, n_dft, full, cplx, tr, kw, svd in cases:
        if cx.stop(): return
        key = (xs, nv, n_dft, full, cplx, tr)
        if key not in cache: cache[key] = pfit(cx, xs, nv, n_dft, 10*n_dft//2+n_dft, full, 2, True, cplx, tr, dt=1.)
        c, X, p, wt, s = cache[key]
        if cplx and 'T_lb' in kw: continue
        inp = dict(xs=xs, nv=nv, n_dft=n_dft, fullspectrum=full, complex=cplx, svd=svd, **kw); cx.count((key, str(kw), svd), inp)
        Y = X[5:5+17]*2 if svd else X                                # projecting other data than the fitted
        via = svd and 'freq_idx' not in kw                           # through an object fitted to other data
        if via and 'other' not in cache: cache['other'] = pfit(cx, (3,), 1, 8, 44)[-1]
        with quiet(): r = guarded(cx, 'projection', inp, lambda: cache['other'].compute_coeffs_op(data=Y, results_dir=s.savedir_sim, svd=svd, **kw) if via else U.compute_coeffs_op(Y, s.savedir_sim, svd=svd, **kw))
        if r is None: continue
        if via: cx.eq(cache['other'].file_coeffs, r[0], 'coefficients file of the object', inp)
        A = np.load(r[0]); Phi = np.load(os.path.join(r[1], 'modes_r.npy')); ltm = np.load(os.path.join(r[1], 'ltm.npy'))
        ids = sel_ids(np.asarray(s.freq), kw.get('T_lb'), kw.get('T_ub'), kw.get('freq_idx')); nm = s.n_modes_save; nt = Y.shape[0]
        if A.shape != (len(ids)*nm, nt) or Phi.shape != (*xs, nv, len(ids)*nm): cx.fail(f'coefficients {A.shape}, modes {Phi.shape} for {len(ids)} frequencies of {nm} modes', inp); continue
        ok = True
        for k, f in enumerate(ids):
            M = np.asarray(load_modes(s, f))
            for m in range(nm):
                if ok and not cx.close(Phi[..., k*nm+m], M[..., m], f'retained mode {k*nm+m} is not mode {m} of frequency id {f}', inp, rtol=1e-10): ok = False
        if not ok: continue
        F = flat(Y, len(xs), nv)
        cx.close(ltm, F.mean(axis=0).reshape(*xs, nv), 'saved mean', inp)
        W = wt['weights'].ravel(); P = Phi.reshape(-1, Phi.shape[-1]); D = (F - F.mean(axis=0)).T
        M = P.conj().T @ (W[:, None]*P); Q = P.conj().T @ (W[:, None]*D)
        sv = np.linalg.svd(M, compute_uv=False)
        if np.any((sv > 1e-13*sv[0]) & (sv < 1e-7*sv[0])): continue     # ambiguous rank
        E = np.linalg.pinv(M, 1e-10) @ Q
        cx.close(A, E, 'coefficients', inp, rtol=1e-5, atol=1e-6*np.max(np.abs(E)))
    # the same directory, fitted to other data with other weights and another time step, between two projections
    d = cx.dir(); rec = None
    for k, (dt, nms) in enumerate(((1., 2), (2., 1), (.5, 3))):
        if cx.stop(): return
        c = configs(cx, 1, xs=(6,), nv=1, cplx=False, full=False, n_dft=8, overlap=50, nt=44, nms=nms, trailing=True, dt=dt, nd=False)[0]; c['mean_type'] = 'longtime'
        X, p = setup(cx, c, d); wt = posweights(cx, c); s = fit(X, p, weights=wt); kw = dict(T_lb=2.5*dt, T_ub=9.*dt); inp = dict(c, history=f'fit number {k} into this directory', **kw); cx.count(('again', k))
        with quiet(): r = guarded(cx, 'projection', inp, lambda: U.compute_coeffs_op(X, s.savedir_sim, **kw))
        if r is None: continue
        ids = sel_ids(np.asarray(s.freq), kw['T_lb'], kw['T_ub'], None); nm = int(s.n_modes_save); A = np.load(r[0]); Phi = np.load(os.path.join(r[1], 'modes_r.npy'))
        if A.shape != (len(ids)*nm, 44): cx.fail(f'coefficients {A.shape} for {len(ids)} frequencies of {nm} modes', inp); break
        if not cx.close(Phi, np.concatenate([np.asarray(load_modes(s, f)) for f in ids], axis=-1), 'retained modes', inp, rtol=1e-10): break
        F = flat(X, 1, 1); W = wt['weights'].ravel(); P = Phi.reshape(-1, Phi.shape[-1]); D = (F - F.mean(axis=0)).T
        M = P.conj().T @ (W[:, None]*P); sv = np.linalg.svd(M, compute_uv=False)
        if np.any((sv > 1e-13*sv[0]) & (sv < 1e-7*sv[0])): continue
        E = np.linalg.pinv(M, 1e-10) @ (P.conj().T @ (W[:, None]*D))
        if not cx.close(A, E, 'coefficients', inp, rtol=1e-5, atol=1e-6*np.max(np.abs(E))): break
        with quiet(): q = guarded(cx, 'reconstruction', inp, lambda: U.compute_reconstruction(r[1], time_idx=[4, 0]))
        if q is not None: cx.close(np.load(q[0]), np.moveaxis(F.mean(axis=0).reshape(6, 1)[..., None] + Phi @ A[:, [4, 0]], -1, 0), 'reconstruction', inp, rtol=1e-8)
    jobs, refs = [], []
    for xs, nv, kw in (((5,), 1, {}), ((2,), 4, {}), ((3, 4), 2, dict(freq_idx=[2, 1])), ((3,), 1, dict(T_lb=2.5, T_ub=8.))):
        c = configs(cx, 1, xs=xs, nv=nv, cplx=False, full=False, n_dft=8, overlap=50, nt=44, nms=2, trailing=True, dt=1.)[0]; c['mean_type'] = 'longtime'
        X, p = setup(cx, c); w = posweights(cx, c)
        s = fit(X, dict(p, savedir=cx.dir()), weights=w)
        jobs.append(('j_coeffs', dict(X=X, p=p, weights=w, **kw))); refs.append((c, X, w, kw, s))
    for size in (3,) if not cx.big else (2, 3, 4):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel projection: ' + res, {}); return
        for (c, X, w, kw, s), r in zip(refs, res):
            inp = dict(c, processes=size, **kw); cx.count(('mpi', size, c['xs'], str(kw)))
            Phi = r[0]['phi']; P = Phi.reshape(-1, Phi.shape[-1]); W = w['weights'].ravel(); F = flat(X, len(c['xs']), c['nv']); D = (F-F.mean(axis=0)).T
            M = P.conj().T @ (W[:, None]*P); Q = P.conj().T @ (W[:, None]*D); sv = np.linalg.svd(M, compute_uv=False)
            if np.any((sv > 1e-13*sv[0]) & (sv < 1e-7*sv[0])): continue
            E = np.linalg.pinv(M, 1e-10) @ Q
            cx.close(r[0]['coeffs'], E, f'coefficients on {size} processes', inp, rtol=1e-5, atol=1e-6*np.max(np.abs(E)))

def C15(cx):
    import pyspod.spod.utils as U
    for xs, nv, full, tr in (((6,), 1, False, True), ((3, 4), 2, False, True), ((2, 3, 2), 1, True, False)) + ((((5, 5), 3, False, True),) if cx.big else ()):
        c, X, p, wt, s = pfit(cx, xs, nv, 8, 44, full, 2, True, False, tr)
        for kw in (dict(), dict(freq_idx=[2, 1]), dict(T_lb=2.5, T_ub=9.)):
            with quiet(): r = guarded(cx, 'projection', dict(xs=xs, nv=nv, **kw), lambda: U.compute_coeffs_op(X, s.savedir_sim, **kw))
            if r is None: continue
            A = np.load(r[0]); Phi = np.load(os.path.join(r[1], 'modes_r.npy')); ltm = np.load(os.path.join(r[1], 'ltm.npy')); nt = A.shape[1]
            for ti, ids in (('all', range(nt)), ('Half', range(0, nt, 2)), ('quarter', range(0, nt, 4)), ('tenth', range(0, nt, 10)), ('hundredth', range(0, nt, 100)), (None, [0, nt % 2, nt-1]), ([3], [3]), ([7, 2, 2, 40], [7, 2, 2, 40]), ([-1, 0], [nt-1, 0])):
                if cx.stop(): return
                inp = dict(xs=xs, nv=nv, time_idx=ti, **kw); cx.count((xs, nv, str(ti), str(kw)), inp)
                with quiet(): q = guarded(cx, 'reconstruction', inp, lambda: U.compute_reconstruction(r[1], time_idx=ti))
                if q is None: continue
                R = np.load(q[0]); E = np.moveaxis(ltm[..., None] + Phi @ A[:, list(ids)], -1, 0)
                cx.close(R, E, 'reconstruction', inp, rtol=1e-9)
            # through the fitted object: the coefficients in the folder given, not the latest ones
            with quiet():
                def go():
                    s.compute_coeffs_op(data=X[3:20], results_dir=s.savedir_sim); return s.compute_reconstruction(coeffs_dir=r[1], time_idx=[4, 1])
                q = guarded(cx, 'reconstruction through the fitted object', dict(xs=xs, nv=nv, **kw), go)
                if 'freq_idx' not in kw: r = guarded(cx, 'projection', dict(xs=xs, nv=nv, **kw), lambda: U.compute_coeffs_op(X, s.savedir_sim, **kw)) if q is not None and not len(kw) else r
            if q is not None and len(kw): cx.count((xs, nv, 'object', str(kw))); cx.close(np.load(q[0]), np.moveaxis(ltm[..., None] + Phi @ A[:, [4, 1]], -1, 0), 'reconstruction through the fitted object', dict(xs=xs, nv=nv, **kw), rtol=1e-9)
            if q is not None: cx.eq(s.file_dynamics, q[0], 'reconstruction file of the object', dict(xs=xs, nv=nv))
            B = cx.rng.standard_normal((A.shape[0], 9)) + 1j*cx.rng.standard_normal((A.shape[0], 9)); B0 = B.copy()
            with quiet(): q = guarded(cx, 'reconstruction from given coefficients', dict(xs=xs, nv=nv), lambda: U.compute_reconstruction(r[1], time_idx=[8, 0, 4], coeffs=B, savedir='sub', filename='rec'))
            if q is not None:
                cx.count((xs, nv, 'given', str(kw))); cx.close(np.load(q[0]), np.moveaxis(ltm[..., None] + Phi @ B0[:, [8, 0, 4]], -1, 0), 'reconstruction from given coefficients', dict(xs=xs, nv=nv))
                cx.eq(os.path.basename(q[0]), 'rec.npy', 'file name', {})
            # data in the span of the modes
            P = Phi.reshape(-1, Phi.shape[-1]); a = cx.rng.standard_normal((P.shape[1], 20)); a -= a.mean(axis=1, keepdims=True)
            Y = (P @ a).T.reshape(20, *xs, nv) + 2.5
            with quiet():
                def go():
                    r2 = U.compute_coeffs_op(Y, s.savedir_sim, savedir='span', tol=1e-12, **kw); return np.load(U.compute_reconstruction(r2[1], time_idx='all')[0])
                R = guarded(cx, 'reconstruction of data in the span of the modes', dict(xs=xs, nv=nv, **kw), go)
            if R is not None: cx.count((xs, nv, 'span', str(kw))); cx.close(R, Y, 'data in the span of the modes is not reproduced', dict(xs=xs, nv=nv, **kw), rtol=1e-5, atol=1e-6)
            try:
                with quiet(): U.compute_reconstruction(r[1], time_idx=3.5)
                cx.fail('time selection of unknown type accepted', {})
            except TypeError: pass
            except Exception as e: cx.fail(f'time selection of unknown type: {type(e).__name__}', {})
    if cx.stop(): return
    for size in (3,) if not cx.big else (2, 3):
        jobs, cs = [], []
        for xs, nv in (((5, 2), 2), ((2,), 5), ((2, 3), 4), ((1, 2, 4), 1)):
            c = configs(cx, 1, xs=xs, nv=nv, cplx=False, full=False, n_dft=8, overlap=50, nt=44, nms=2, trailing=True, dt=1.)[0]; c['mean_type'] = 'longtime'
            X, p = setup(cx, c); jobs.append(('j_coeffs', dict(X=X, p=p, weights=None, time_idx=[5, 0, 3]))); cs.append(c)
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel reconstruction: ' + res, cs); return
        for r, c in zip(res, cs):
            r = r[0]; cx.count(('mpi', size, c['xs']))
            cx.close(r['recon'], np.moveaxis(r['ltm'][..., None] + r['phi'] @ r['coeffs'][:, [5, 0, 3]], -1, 0), f'reconstruction on {size} processes', c)

# --------------------------------------------------------------------- C28
def o_conv(X, xs, nv, n, Phi, W, ids, nms):
    """coefficients [frequency, time, mode] without the factor at the ends"""
    F = flat(X, len(xs), nv); nt = len(F); h = -(-n//2); D = F - F.mean(axis=0); w = .54 - .46*np.cos(2*np.pi*np.arange(n)/(n-1)); E = np.zeros((len(ids), nt, nms), complex)
    for t in range(nt):
        B = np.array([D[t-h+r] if 0 <= t-h+r < nt else 0*D[0] for r in range(n)])*w[:, None]
        for k, f in enumerate(ids):
            q = np.exp(-2j*np.pi*f*np.arange(n)/n) @ B
            E[k, t] = Phi[..., k, :].reshape(-1, nms).conj().T @ (W*q)
    return E, slice(h, nt-h)

def C28(cx):
    import pyspod.spod.utils as U
    def check(inp, X, xs, nv, n, W, ids, A, Phi, ltm, R, tids, modes=None):
        nm = A.shape[-1]
        if A.shape[:2] != (len(ids), len(X)) or Phi.shape != (*xs, nv, len(ids), nm): cx.fail(f'coefficients {A.shape}, modes {Phi.shape} for {len(ids)} frequencies', inp); return
        if modes is not None:
            for k, f in enumerate(ids):
                if not cx.close(Phi[..., k, :], modes(f), f'retained modes {k} are not those of frequency id {f}', inp, rtol=1e-10): return
        if not cx.close(ltm, X.reshape(len(X), *xs, nv).mean(axis=0), 'saved mean', inp): return
        E, mid = o_conv(X, xs, nv, n, Phi, W, ids, nm)
        if not cx.close(A[:, mid], E[:, mid], 'coefficients by convolution', inp, rtol=1e-8, atol=1e-9*np.max(np.abs(E))): return
        e, a = np.abs(E).max(axis=(0, 2)), np.abs(A).max(axis=(0, 2))
        c = np.einsum('ftm,ftm->t', E.conj(), A)/np.maximum(np.einsum('ftm,ftm->t', E.conj(), E), 1e-300)
        if not cx.close(A, E*c[:, None], 'coefficients at the ends differ by more than a factor', inp, rtol=1e-8, atol=1e-9*np.max(np.abs(E))): return
        if np.any(np.real(c)[e > 1e-9*e.max()] < 1 - 1e-8): cx.fail('factor at the ends below one', dict(inp, factor=c)); return
        cx.close(R, np.moveaxis(ltm[..., None] + np.einsum('...fm,ftm->...t', Phi, A[:, tids]), -1, 0), 'reconstruction is not mean + modes * coefficients', inp, rtol=1e-8)
    for xs, nv, n_dft, full, cplx, tr in (((6,), 1, 8, False, False, True), ((3, 4), 2, 9, False, False, True), ((5, 2, 2), 1, 8, True, False, False), ((7,), 2, 8, False, True, True), ((4, 2), 1, 10, False, False, False)):
        c, X, p, wt, s = pfit(cx, xs, nv, n_dft, 44, full, [2, 1][n_dft == 10], True, cplx, tr)
        W = wt['weights'].ravel(); fr = np.asarray(s.freq)
        for kw in (dict(), dict(freq_idx=[1]), dict(freq_idx=[3, 1]), dict(T_lb=2.5, T_ub=9.), dict(T_lb=4., T_ub=4.)):
            if cx.stop(): return
            if cplx and 'T_lb' in kw: continue
            inp = dict(xs=xs, nv=nv, n_dft=n_dft, fullspectrum=full, complex=cplx, **kw); cx.count((xs, nv, str(kw)), inp)
            Y = X[3:3+29] if len(kw) == 1 else X; ids = sel_ids(fr, kw.get('T_lb'), kw.get('T_ub'), kw.get('freq_idx')); tids = [4, 20, 4, 0]
            def go():
                with quiet():
                    r = U.compute_coeffs_conv(Y, s.savedir_sim, savedir='conv', **kw); q = U.compute_reconstruction(r[1], time_idx=tids)
                    return [np.load(f) for f in (r[0], os.path.join(r[1], 'modes_r.npy'), os.path.join(r[1], 'ltm.npy'), q[0])]
            r = guarded(cx, 'coefficients by convolution', inp, go)
            if r is not None: check(inp, Y, xs, nv, n_dft, W, ids, *r, tids, lambda f: np.asarray(load_modes(s, f)))
    jobs, refs = [], []
    for xs, nv, kw in (((5,), 1, {}), ((3,), 5, {}), ((3, 4), 2, dict(freq_idx=[2, 1])), ((2, 5), 1, dict(T_lb=2.5, T_ub=8.))):
        c = configs(cx, 1, xs=xs, nv=nv, cplx=False, full=False, n_dft=8, overlap=50, nt=44, nms=2, trailing=True, dt=1.)[0]; c['mean_type'] = 'longtime'
        X, p = setup(cx, c); w = posweights(cx, c); s = fit(X, dict(p, savedir=cx.dir()), weights=w)
        jobs.append(('j_coeffs', dict(X=X, p=p, weights=w, conv=True, time_idx=[5, 0, 30], **kw))); refs.append((c, X, w, kw, s))
    for size in (3,) if not cx.big else (2, 3, 4):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel coefficients by convolution: ' + res, {}); return
        for (c, X, w, kw, s), r in zip(refs, res):
            r = r[0]; cx.count(('mpi', size, c['xs'], str(kw)))
            check(dict(c, processes=size, **kw), X, c['xs'], c['nv'], 8, w['weights'].ravel(), sel_ids(np.asarray(s.freq), kw.get('T_lb'), kw.get('T_ub'), kw.get('freq_idx')), r['coeffs'], r['phi'], r['ltm'], r['recon'], [5, 0, 30])

# --------------------------------------------------------------------- C16
def C16(cx):
    import pyspod.utils.postproc as PP
    import pyspod.spod.utils as U
    for i in range(20 if cx.big else 8):
        d = cx.dir(); os.makedirs(os.path.join(d, 'modes')); xs = [(3,), (2, 3), (2, 1, 2), (1,)][i % 4]; nv = 1 + i % 3; nm = [1, 2, 3, 11][i % 4]; nf = [1, 3, 12, 2][(i//2) % 4]
        M = cx.rng.standard_normal((nf, *xs, nv, nm)) + 1j*cx.rng.standard_normal((nf, *xs, nv, nm)); split = i % 2 == 1
        for f in range(nf):
            if split:
                for m in range(nm): np.save(os.path.join(d, 'modes', f'freq_idx_f{f:08d}_m{m:08d}.npy'), M[f, ..., m])
            else: np.save(os.path.join(d, 'modes', f'freq_idx_{f:08d}.npy'), M[f])
        if i % 4 > 1:                        # files that were copied: their times are in no particular order
            for t, f in enumerate(sorted(os.listdir(os.path.join(d, 'modes')), reverse=True)): os.utime(os.path.join(d, 'modes', f), (1e9 + 10*(t ^ 1), 1e9 + 10*(t ^ 1)))
        inp = dict(xs=xs, nv=nv, modes=nm, freqs=nf, one_file_per_mode=split); cwd = os.getcwd(); cx.count((xs, nv, nm, nf, split), inp)
        for f in range(nf):
            m = guarded(cx, f'modes of frequency id {f}', inp, lambda: PP.get_modes_at_freq(d, f))
            if m is None or not cx.close(m, M[f], f'modes of frequency id {f}', inp, rtol=0, atol=0): break
        if not split:
            m = guarded(cx, 'all modes', inp, lambda: PP.get_all_modes(d))
            if m is not None: cx.close(m, M, 'all modes in frequency order', inp, rtol=0, atol=0)
            cx.eq(os.getcwd(), cwd, 'working directory', inp); os.chdir(cwd)
        # other modes are written to the same place
        M = M[::-1]*2; shutil.rmtree(os.path.join(d, 'modes')); os.makedirs(os.path.join(d, 'modes'))
        for f in range(nf):
            if split:
                for m in range(nm): np.save(os.path.join(d, 'modes', f'freq_idx_f{f:08d}_m{m:08d}.npy'), M[f, ..., m])
            else: np.save(os.path.join(d, 'modes', f'freq_idx_{f:08d}.npy'), M[f])
        for f in range(nf):
            m = guarded(cx, f'modes of frequency id {f}', inp, lambda: PP.get_modes_at_freq(d, f))
            if m is None or not cx.close(m, M[f], f'modes of frequency id {f} after the files were written again', inp, rtol=0, atol=0): break
        if cx.stop(): return
    for bad in (None, 3):
        for f in (lambda: PP.get_modes_at_freq(bad, 0), lambda: PP.get_all_modes(bad)):
            try: f(); cx.fail('a path that is no string is accepted', {})
            except TypeError: cx.count(('bad', bad))
            except Exception as e: cx.fail(f'a path that is no string: {type(e).__name__}', {})
    # orthogonality check, through a fit and through arbitrary modes
    from pyspod.spod.standard import Standard
    for xs, nv in (((6,), 1), ((3, 4), 2), ((2, 2, 5), 1)):
        c = configs(cx, 1, xs=xs, nv=nv, n_dft=8, overlap=50, nt=44, nms=3, cplx=False, full=False, trailing=True)[0]; c['mean_type'] = 'blockwise'
        X, p = setup(cx, c); w = posweights(cx, c); s = fit(X, p, weights=w); W = w['weights'].ravel()
        for f in (0, 2, 4):
            P = np.array(load_modes(s, f))
            alter = f in (2, 4)
            if alter:
                P = cx.rng.standard_normal(P.shape) + 0j; P[..., 2] = 1j*P[..., 0]*0.5
                if f == 4:                        # nearly orthonormal: off by four times the tolerance of the check, and by a fraction of it
                    q = np.linalg.qr(np.sqrt(W)[:, None]*P.reshape(W.size, -1))[0]; q[:, 2] *= 1 + 4e-6; q[:, 1] += 8e-6*q[:, 0]; q[:, 0] *= 1 + 2.5e-8
                    P = (q/np.sqrt(W)[:, None]).reshape(P.shape)
                np.save(os.path.join(s.savedir_sim, 'modes', f'freq_idx_{f:08d}.npy'), P)
            G = P.reshape(-1, P.shape[-1]); G = G.conj().T @ (W[:, None]*G)
            for a in range(3):
                for b in range(3):
                    inp = dict(xs=xs, nv=nv, freq=f, i=a, j=b, arbitrary_modes=alter); cx.count((xs, nv, f, a, b), inp)
                    with quiet(): r = guarded(cx, 'orthogonality check', inp, lambda: U.check_orthogonality(s.savedir_sim, [a], [b], [f]))
                    if r is None: continue
                    v = complex(np.ravel(r[1])[0])
                    if abs(v - G[a, b]) > 1e-8*(1+abs(G[a, b])): cx.fail(f'inner product {v} instead of {G[a, b]}', inp)
                    want = abs(G[a, b] - (1 if a == b else 0)) < 1e-6; sure = not 1e-6 < abs(G[a, b] - (1 if a == b else 0)) < 4e-6
                    if sure and bool(np.all(r[0])) != want: cx.fail(f'check says {r[0]} for an inner product of {G[a, b]}', inp)
                    if cx.stop(): return
        nf = len(s.freq); s.fit(X) if False else None
        with quiet(): ms = s.get_modes_at_freq(1)
        cx.close(ms, load_modes(s, 1), 'modes through the fitted object', {}, rtol=0, atol=0)
        for a, b in ((None, None), (2, 9), (0, 1)):
            for D in (X, X[..., 0]) if nv == 1 else (X,):
                d = guarded(cx, 'get_data', {}, lambda: s.get_data(D) if a is None else s.get_data(D, t_0=a, t_end=b))
                if d is not None: cx.count((xs, nv, 'data', a, b)); cx.close(d, X[a or 0:b], 'data through the fitted object', dict(t_0=a, t_end=b), rtol=0, atol=0)

# --------------------------------------------------------------------- C17
def C17(cx):
    import pyspod.utils.postproc as PP
    for i in range(300 if cx.big else 100):
        n = int(cx.rng.integers(1, 9)); fr = cx.rng.standard_normal(n)
        if i % 3 == 0: fr = np.sort(np.abs(fr))
        if i % 3 == 1: fr = np.round(fr)
        q = float(cx.rng.standard_normal()*2) if i % 4 else float(fr[int(cx.rng.integers(n))])
        for cast in (np.asarray, list, tuple):
            r = guarded(cx, 'nearest frequency', dict(freq=fr, request=q), lambda: PP.find_nearest_freq(q, cast(fr)))
            if r is None: continue
            cx.count(('f', i)); v, k = r
            if not (0 <= int(k) < n) or fr[int(k)] != v or abs(v-q) != np.min(np.abs(fr-q)): cx.fail(f'nearest frequency {v} at {k}', dict(freq=fr, request=q))
    for i in range(200 if cx.big else 80):
        nd = int(cx.rng.integers(1, 4)); x = []
        for d in range(nd):
            a = cx.rng.standard_normal(int(cx.rng.integers(1, 6)))
            if i % 2: a = np.sort(a)
            if i % 5 == 0: a = np.round(a*2)
            if (i + d) % 7 == 0: a = np.round(a*5).astype(int)
            x.append(a)
        co = [float(cx.rng.standard_normal()*2) if cx.rng.random() < .7 else float(a[int(cx.rng.integers(len(a)))]) for a in x]; inp = dict(x=x, coords=co)
        shp = tuple(len(a) for a in x); cx.count(('c', shp, i), inp)
        xk = [a.copy() for a in x]
        r = guarded(cx, 'nearest coordinates', inp, lambda: PP.find_nearest_coords([co, tuple(co), np.array(co)][i % 3], x, shp))
        if r is None: continue
        xi, idx = r
        if len(xi) != nd or len(idx) != nd: cx.fail(f'{len(xi)} coordinates and {len(idx)} indices for {nd} dimensions', inp); continue
        for d in range(nd):
            k = int(idx[d])
            if not 0 <= k < len(x[d]) or x[d][k] != xi[d] or abs(xi[d]-co[d]) != np.min(np.abs(x[d]-co[d])): cx.fail(f'dimension {d}: coordinate {xi[d]} with index {k} for request {co[d]} on axis {x[d].tolist()}', inp); break
        if any(not np.array_equal(a, b) for a, b in zip(x, xk)): cx.fail('axes changed', inp)
        if cx.stop(): return
        bad = list(shp); bad[int(cx.rng.integers(nd))] += 1
        try: PP.find_nearest_coords(co, x, tuple(bad)); cx.fail('coordinates that do not match the data are accepted', inp)
        except ValueError: pass
        except Exception as e: cx.fail(f'coordinates that do not match the data: {type(e).__name__}', inp)
    try: PP.find_nearest_coords([0.], np.zeros(3), (3,)); cx.fail('coordinates that are no list are accepted', {})
    except TypeError: pass
    # through the fitted object
    c, X, p, wt, s = pfit(cx, (4, 3), 1, 8, 44)
    for q in (0, .1, .26, .5, 3, -1):
        v, k = s.find_nearest_freq(q); cx.count(('obj', q))
        if abs(v-q) != np.min(np.abs(s.freq-q)) or s.freq[k] != v: cx.fail(f'nearest frequency of the fit: {v} at {k}', dict(request=q))
        for other in ([0.2, q, 7.], np.array([q + .5, -2.]), (1., 2.)):
            v, k = s.find_nearest_freq(freq_req=q, freq=other)
            if abs(v-q) != np.min(np.abs(np.asarray(other)-q)) or other[int(k)] != v: cx.fail(f'nearest frequency of an axis given: {v} at {k}', dict(request=q, freq=other))
    xi, idx = s.find_nearest_coords((2.2, 5.1), [np.arange(4.), np.array([5., 7., 4.])])
    cx.eq((tuple(float(v) for v in xi), tuple(int(v) for v in idx)), ((2., 5.), (2, 0)), 'nearest coordinates through the fit', {})

# --------------------------------------------------------------------- C18
def C18(cx):
    for i, c in enumerate(configs(cx, 24 if cx.big else 10)):
        if cx.stop(): return
        if i == 0: c.update(nv=2, trailing=True, xs=(3, 2))
        X, p = setup(cx, c); d = p['savedir']; w = posweights(cx, c)
        a = guarded(cx, 'fit', c, lambda: fit(X, dict(p, savefft=True), weights=w))
        if a is None: continue
        ea = np.array(a.eigs); ma = [np.array(load_modes(a, f)) for f in range(len(a.freq))]; bd = os.path.join(a.savedir_sim, 'blocks'); fs = sorted(os.listdir(bd))
        cx.count((c['xs'], c['nv'], c['n_dft'], c['nt']), c)
        for sf in (False, True):
            b = guarded(cx, 'fit reusing blocks', dict(c, savefft=sf), lambda: fit(X, dict(p, reuse_blocks=True, savefft=sf), weights=w))
            if b is None: continue
            cx.close(b.eigs, ea, 'eigenvalues with reused blocks', dict(c, savefft=sf), rtol=1e-8)
            for f in range(len(ma)):
                if not cx.close(np.nan_to_num(np.abs(load_modes(b, f)), posinf=0), np.nan_to_num(np.abs(ma[f]), posinf=0), 'modes with reused blocks', c, rtol=1e-5, atol=1e-5): break
        # the stored blocks are really used / really ignored
        for drop in ([], [fs[0]], [fs[-1]], [fs[len(fs)//2]], fs):
            inp = dict(c, missing=[str(v) for v in drop[:3]], n_missing=len(drop))
            for fn in fs: np.save(os.path.join(bd, fn), np.zeros((*c['xs'], c['nv']), complex) + 1 + int(cx.rng.integers(3)) + (sum(map(ord, fn)) % 7))
            Z = {fn: np.load(os.path.join(bd, fn)) for fn in fs}
            for fn in drop: os.remove(os.path.join(bd, fn))
            b = guarded(cx, 'fit reusing blocks', inp, lambda: fit(X, dict(p, reuse_blocks=True), weights=w)); cx.count((i, len(drop), str(drop[:1])))
            if b is None: continue
            if drop: cx.close(b.eigs, ea, f'{len(drop)} of {len(fs)} block files missing: eigenvalues are not those of the data', inp, rtol=1e-8)
            else:
                nb, nf = int(a.n_blocks), len(a.freq)
                Q = np.stack([np.stack([Z[f'fft_block{q:08d}_freq{f:08d}.npy'].ravel() for f in range(nf)]) for q in range(nb)])
                L = o_double(o_spod(Q, w['weights'].ravel()), c['n_dft'], not c['cplx'], c['full'])
                cx.close(b.eigs, L, 'stored blocks are complete but not used as stored', inp, rtol=1e-7)
            for fn in fs:
                if not os.path.exists(os.path.join(bd, fn)): np.save(os.path.join(bd, fn), np.zeros(1))
    jobs, refs = [], []
    for xs, nv in (((5, 2), 2), ((3,), 1), ((2, 4, 2), 1)):
        c = configs(cx, 1, xs=xs, nv=nv, trailing=True)[0]; X, p = setup(cx, c); w = posweights(cx, c)
        jobs += [('j_fit', dict(X=X, p=dict(p, savefft=True), weights=w)), ('j_fit', dict(X=X, p=dict(p, reuse_blocks=True), weights=w))]; refs.append((c, X, p, w))
    for size in (3,) if not cx.big else (2, 3, 4):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel fit with blocks: ' + res, [r[0] for r in refs]); return
        for k, (c, X, p, w) in enumerate(refs):
            a, b = res[2*k][0], res[2*k+1][0]; inp = dict(c, processes=size); cx.count(('mpi', size, c['xs']))
            Q, _, nblk, real = o_blocks(X, p)
            try: R = np.stack([np.stack([a['blocks'][f'fft_block{q:08d}_freq{f:08d}.npy'].ravel() for f in range(Q.shape[1])]) for q in range(nblk)])
            except KeyError as e: cx.fail(f'block file {e} missing', inp); continue
            cx.close(R, Q, 'blocks saved in parallel', inp, rtol=1e-8)
            cx.close(b['eigs'], a['eigs'], 'eigenvalues with reused blocks', inp, rtol=1e-8)
            for fn in a['modes']:
                if not cx.close(np.nan_to_num(np.abs(b['modes'][fn]), posinf=0), np.nan_to_num(np.abs(a['modes'][fn]), posinf=0), 'modes with reused blocks', inp, rtol=1e-5, atol=1e-5): break

# --------------------------------------------------------------------- C19
def snap(o):
    return copy.deepcopy(o)
def same(a, b):
    if isinstance(a, np.ndarray): return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b
def unchanged(cx, what, inp, objs, f):
    k = snap(objs); r = guarded(cx, what, inp, f); cx.count((what, str(sorted(inp.items())[:6])))
    for n in objs:
        if not same(k[n], objs[n]): cx.fail(f'{what} changes {n} of the caller', inp)
    return r

def C19(cx):
    import pyspod.spod.utils as U, pyspod.utils.weights as W, pyspod.utils.postproc as PP, pyspod.utils.errors as ER, pyspod.pod.utils as PU, hashlib
    from pyspod.spod.standard import Standard
    from pyspod.spod.streaming import Streaming
    from pyspod.pod.standard import Standard as POD
    def tree(d): return {os.path.join(r, f): hashlib.sha1(open(os.path.join(r, f), 'rb').read()).hexdigest() for r, _, fs in os.walk(d) for f in fs}
    for i, c in enumerate(configs(cx, 60 if cx.big else 24)):
        if cx.stop(): return
        c['nd'] = i % 3 == 0; c['mean_type'] = ['longtime', 'blockwise', 'zero'][i % 3 if i % 2 else (i//3) % 3]
        if i % 7 == 0: c['overlap'] = 0; c['nt'] = 2*c['n_dft']
        X, p = setup(cx, c, normalize_weights=i % 2 == 0 and not c['cplx']); w = posweights(cx, c)
        data = X if i % 4 else [X[:3], X[3:]]
        objs = dict(data=data, weights=w)
        s = unchanged(cx, 'fit', c, objs, lambda: fit(data, p, weights=w))
        if s is None: continue
        e1 = np.array(s.eigs)
        s2 = unchanged(cx, 'second fit', c, objs, lambda: fit(data, dict(p, savedir=cx.dir()), weights=w))
        if s2 is not None: cx.close(s2.eigs, e1, 'eigenvalues of the second of two identical fits', c)
        if not c['cplx'] and not isinstance(data, list) and int(np.prod(c['xs']))*c['nv'] >= 4:
            unchanged(cx, 'streaming fit', c, objs, lambda: fit(data, dict(p, savedir=cx.dir(), n_modes_save=2), weights=w, cls=Streaming))
    for i, (xs, nv) in enumerate((((6,), 1), ((3, 4), 2), ((2, 3, 2), 1))):
        c, X, p, wt, s = pfit(cx, xs, nv); t0 = tree(s.savedir_sim); objs = dict(X=X)
        with quiet():
            r = unchanged(cx, 'projection', dict(xs=xs, nv=nv), objs, lambda: U.compute_coeffs_op(X, s.savedir_sim))
            if r is None: continue
            X4 = X.astype(np.float32); w4 = dict(weights_name='w', weights=(cx.rng.random((*xs, nv))+.2).astype(np.float32)); s4 = dict(xs=xs, nv=nv, precision='single')
            unchanged(cx, 'projection', s4, dict(X=X4), lambda: U.compute_coeffs_op(X4, s.savedir_sim, savedir='s4'))
            unchanged(cx, 'projection by convolution', s4, dict(X=X4), lambda: U.compute_coeffs_conv(X4, s.savedir_sim, freq_idx=[1], savedir='s5'))
            unchanged(cx, 'fit', s4, dict(X=X4, w=w4), lambda: fit(X4, dict(p, savedir=cx.dir(), normalize_weights=True), weights=w4))
            A4 = np.load(r[0]).astype(np.complex64)
            unchanged(cx, 'reconstruction from given coefficients', s4, dict(A=A4), lambda: U.compute_reconstruction(r[1], 'all', coeffs=A4, savedir='s6'))
            unchanged(cx, 'POD fit', s4, dict(X=X4, w=w4), lambda: POD(params=dict(time_step=1, n_space_dims=len(xs), n_variables=nv, savedir=cx.dir(), n_modes_save=3), weights=w4).fit([X4]))
            A = np.load(r[0]); t1 = tree(r[1])
            unchanged(cx, 'reconstruction from given coefficients', dict(xs=xs), dict(A=A, ids=[3, 1]), lambda: U.compute_reconstruction(r[1], [3, 1], coeffs=A))
            B = np.load(r[0]); ids = [0, 2]
            unchanged(cx, 'reconstruction', dict(xs=xs), dict(ids=ids), lambda: U.compute_reconstruction(r[1], ids))
            unchanged(cx, 'orthogonality check', dict(xs=xs), {}, lambda: U.check_orthogonality(s.savedir_sim, [0], [1], [1]))
            PP.get_modes_at_freq(s.savedir_sim, 1); PP.get_all_modes(s.savedir_sim)
        t2 = tree(s.savedir_sim)
        for f in t0:
            if t2.get(f) != t0[f]: cx.fail(f'stored result {os.path.basename(f)} changed by post-processing', dict(xs=xs))
        for f in t1:
            if t2.get(f) != t1[f] and not f.endswith('reconstructed.npy'): cx.fail(f'stored result {os.path.basename(f)} changed by the reconstruction', dict(xs=xs))
        # POD
        w = dict(weights_name='w', weights=cx.rng.random((*xs, nv))+.2); pp = dict(time_step=1, n_space_dims=len(xs), n_variables=nv, savedir=cx.dir(), n_modes_save=3, normalize_weights=i == 1)
        def pod(data):
            with quiet():
                q = POD(params=dict(pp), weights=w); q.fit(data); return q
        for mt in ('longtime', 'zero'):
            pp['mean_type'] = mt
            q = unchanged(cx, 'POD fit', dict(xs=xs, nv=nv, mean=mt), dict(X=X, w=w), lambda: pod(X))
            unchanged(cx, 'POD fit of a list', dict(xs=xs, nv=nv, mean=mt), dict(X=X, w=w), lambda: pod([X]))
            if q is None: continue
            with quiet():
                r = unchanged(cx, 'POD projection', dict(xs=xs, nv=nv), dict(X=X), lambda: PU.compute_coeffs_op(X, q._savedir_sim))
                if r is None: continue
                A = np.load(r[0]); unchanged(cx, 'POD reconstruction', dict(xs=xs), dict(A=A), lambda: PU.compute_reconstruction(r[1], 'all', coeffs=A))
        # weights, lookups, errors
        with quiet():
            for m in ('variance', 'none'): unchanged(cx, 'normalization', dict(xs=xs, nv=nv, method=m), dict(X=X, w=w), lambda: W.apply_normalization(data=X, weights=w['weights'], n_vars=nv, method=m))
        Y = X + 1.; x = [np.arange(float(n)) for n in xs]; co = [0.3]*len(xs)
        unchanged(cx, 'coordinate lookup', dict(xs=xs), dict(x=x, co=co), lambda: PP.find_nearest_coords(co, x, tuple(xs)))
        fr = np.array(s.freq); unchanged(cx, 'frequency lookup', dict(xs=xs), dict(fr=fr), lambda: PP.find_nearest_freq(.2, fr))
        for nt_ in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel'): unchanged(cx, f'{nt_} error', dict(xs=xs), dict(X=X, Y=Y), lambda: ER.compute_l_errors(X, Y, nt_))
        unchanged(cx, 'h1 error', dict(xs=xs), dict(X=X, Y=Y), lambda: ER.compute_h_errors(X, Y, .5))
    from pyspod.emulation.base import Base as EB
    for ty in ('real', 'complex'):
        for nm in ('localmax', 'globalmax', 'none'):
            b = EB(dict(data_type=ty, normalization=nm)); D = cx.rng.standard_normal((3, 7)) + (1j*cx.rng.standard_normal((3, 7)) if ty == 'complex' else 0)
            v = unchanged(cx, 'scaler', dict(type=ty, norm=nm), dict(D=D), lambda: b.scaler(D))
            if v is None: continue
            S = unchanged(cx, 'scaling', dict(type=ty, norm=nm), dict(D=D, v=v), lambda: b.scale_data(D, v)); unchanged(cx, 'de-scaling', dict(type=ty, norm=nm), dict(S=S, v=v), lambda: b.descale_data(S, v))
    from types import SimpleNamespace
    try:
        from cases_c import NN
        for (ni, no) in ((1, 1), (3, 2)):
            n = NN(cx, ni, no, 2, 'complex'); D = cx.rng.standard_normal((2, 14)) + 1j*cx.rng.standard_normal((2, 14))
            with quiet():
                unchanged(cx, 'sequence extraction', dict(n=ni), dict(D=D), lambda: n.extract_sequences(D.real)); unchanged(cx, 'inference', dict(n=ni), dict(D=D), lambda: n.model_inference(D))
    except ImportError: pass
    # parallel
    jobs = []
