"""Contract replay for C20-C25."""
import os, itertools
import numpy as np
from lib import *
import lib
from cases_a import configs, setup, posweights, guarded, modal_checks

# --------------------------------------------------------------------- C20
def C20(cx):
    from pyspod.pod.standard import Standard as POD
    import pyspod.pod.utils as PU
    def check(inp, X, w, xs, nv, modes, eigs, A, R, nms, mean):
        F = X.reshape(X.shape[0], -1); m = F.mean(axis=0); D = (F - (m if mean == 'longtime' else 0)).T; W = w.ravel(); nt = X.shape[0]
        L = np.linalg.eigvalsh((D.T*W) @ D)[::-1]; e = np.real(np.ravel(eigs))
        if len(e) < min(nms, nt): cx.fail(f'{len(e)} eigenvalues', inp); return
        if np.any(np.diff(e) > 1e-9*L[0]): cx.fail('eigenvalues not in descending order', dict(inp, eigs=e)); return
        if not cx.close(e, L[:len(e)], 'eigenvalues of the snapshot correlation matrix', inp, rtol=1e-8, atol=1e-9*L[0]): return
        if modes.shape != (*xs, nv, nms): cx.fail(f'modes of shape {modes.shape} instead of {(*xs, nv, nms)}', inp); return
        P = np.real(modes.reshape(-1, nms)); keep = [j for j in range(nms) if L[j] > 1e-9*L[0]]
        if np.any(np.abs(np.imag(modes[..., keep])) > 1e-9): cx.fail('complex modes', inp); return
        if not cx.close((P[:, keep].T*W) @ P[:, keep], np.eye(len(keep)), 'weighted Gram matrix of the modes', inp, rtol=1e-6, atol=1e-6): return
        if not cx.close(D @ (D.T @ (W[:, None]*P[:, keep])), P[:, keep]*L[keep], 'eigen-equation of the modes', inp, rtol=1e-6, atol=1e-6*L[0]*np.max(np.abs(P[:, keep]))): return
        Dm = (F - m).T
        if A is not None:
            if not cx.close(np.real(A)[keep], (P[:, keep].T*W) @ Dm, 'coefficients', inp, rtol=1e-7, atol=1e-8*np.max(np.abs(Dm))*np.sum(W)): return
            if len(keep) == nms and not cx.close(np.real(R).reshape(nt, -1).T, m[:, None] + P @ np.real(A), 'reconstruction is not mean + modes * coefficients', inp, rtol=1e-8): return
            if len(keep) == nms and mean == 'longtime' and (L > 1e-9*L[0]).sum() <= nms: cx.close(R, X.reshape(R.shape), 'the record is not reproduced by all non-null modes', inp, rtol=1e-6, atol=1e-6)
    jobs, refs = [], []; prev = None
    for i in range(60 if cx.big else 24):
        if cx.stop(): return
        xs = [(6,), (3, 4), (2, 3, 2), (2,)][i % 4]; nv = [1, 2, 1, 3][i//2 % 4]; nt = int(cx.rng.integers(4, 12)); npts = int(np.prod(xs))*nv
        X = cx.rng.standard_normal((nt, *xs, nv)) + 3 + np.arange(nt).reshape((-1,)+(1,)*(len(xs)+1))*.2; w = cx.rng.random((*xs, nv)) + .2
        X = X*[1, 1, 1e-10, 1, 1, 1e8, 1][i % 7]
        nms = int([1, 2, 3, min(nt-1, npts)][i % 4]); nms = min(nms, nt-1, npts); mean = 'zero' if i % 5 == 4 else 'longtime'
        if i % 6 == 5: nms = None
        if i % 3 == 0: w = w*0 + 1
        p = dict(time_step=1, n_space_dims=len(xs), n_variables=nv, savedir=cx.dir(), mean_type=mean)
        if nms: p['n_modes_save'] = nms
        data = X if nv > 1 or i % 2 else X[..., 0]; parts = np.split(data, sorted(set(int(v) for v in cx.rng.integers(1, nt, size=2)))) if i % 3 == 1 else data
        inp = dict(xs=xs, nv=nv, nt=nt, n_modes_save=nms, mean=mean, split=isinstance(parts, list)); cx.count(str(inp), inp)
        wt = None if i % 3 == 0 and i % 2 else dict(weights_name='w', weights=w)
        def go():
            with quiet():
                s = POD(params=dict(p), weights=wt)
                if i % 4 == 2: s.fit(np.concatenate([2*data[::-1] + 1, data]))       # fitted to another record before
                s.fit(parts)
                if i % 2 == 0: fc, cd = PU.compute_coeffs_op(data, s._savedir_sim); fr, _ = PU.compute_reconstruction(cd, time_idx='all')
                else: fc, cd = s.compute_coeffs_op(data=data, results_dir=s._savedir_sim); fr, _ = s.compute_reconstruction(coeffs_dir=cd, time_idx='all')
                d = s.get_data(data, t_0=1, t_end=3) if i % 3 else s.get_data(data)
                if not np.array_equal(d, X[1:3] if i % 3 else X): cx.fail('data through the fitted object', inp)
                return s, np.load(os.path.join(s._savedir_sim, 'modes.npy')), np.load(fc), np.load(fr), cd
        r = guarded(cx, 'POD', inp, go)
        if r is None: continue
        s, M, A, R, cd = r
        check(inp, X, w, xs, nv, M, s._eigs, A, R, nms or min(nt, M.shape[-1]), mean)
        with np.load(os.path.join(s._savedir_sim, 'eigs.npz')) as z: cx.close(z['eigs'], s._eigs, 'saved eigenvalues', inp)
        if np.all(np.isfinite(M)):
            for ti, ids in (([2, 0], [2, 0]), ('half', range(0, nt, 2)), (None, [0, nt % 2, nt-1])):
                with quiet(): q = guarded(cx, 'POD reconstruction', dict(inp, time_idx=ti), lambda: PU.compute_reconstruction(cd, time_idx=ti))
                if q is not None: cx.close(np.load(q[0]), R[list(ids)], f'reconstruction at {ti}', inp, rtol=1e-9)
            if prev is not None:                                  # through an object fitted to other data: the folder given counts
                def obj():
                    with quiet(): return np.load(prev.compute_reconstruction(coeffs_dir=cd, coeffs=2*A, time_idx=[1])[0])
                q = guarded(cx, 'POD reconstruction through a fitted object', inp, obj)
                if q is not None: cx.close(q[0], 2*R[1] - np.load(os.path.join(cd, 'ltm.npy')), 'reconstruction from given coefficients through a fitted object', inp, rtol=1e-9)
            if i % 2: prev = s
        if mean == 'longtime' and nms and nv*int(np.prod(xs)) and xs[int(np.argmax(xs))] >= 3 and len(jobs) < 4 and not isinstance(parts, list):
            jobs.append(('j_pod', dict(X=X, p=dict(p, savedir=cx.dir()), weights=dict(weights_name='w', weights=w)))); refs.append((inp, X, w, xs, nv, nms, mean))
    for size in (3,) if not cx.big else (2, 3):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel POD: ' + res, [r[0] for r in refs]); return
        for (inp, X, w, xs, nv, nms, mean), r in zip(refs, res):
            r = r[0]; cx.count(('mpi', size, xs, nv)); check(dict(inp, processes=size), X, w, xs, nv, r['modes'], r['eigs'], r['coeffs'], r['recon'], nms, mean)

# --------------------------------------------------------------------- C21
def C21(cx):
    from pyspod.emulation.base import Base as EB
    for i in range(200 if cx.big else 80):
        if cx.stop(): return
        nf, nt = int(cx.rng.integers(1, 5)), int(cx.rng.integers(1, 8)); cplx = i % 2 == 1
        D = cx.rng.standard_normal((nf, nt))*10.**cx.rng.integers(-3, 4, size=(nf, 1)) + cx.rng.standard_normal((nf, 1))*(i % 3)
        if cplx: D = D + 1j*cx.rng.standard_normal((nf, nt))*10.**cx.rng.integers(-2, 3, size=(nf, 1))
        if i % 5 == 0: D = -np.abs(D) if not cplx else -np.abs(D.real) - 1j*np.abs(D.imag)
        if i % 11 == 0: D[0] = 0
        if i % 8 == 6 and not cplx: D = cx.rng.integers(-9, 10, size=(nf, nt))
        for nm in ('localmax', 'globalmax', 'none', 'LocalMax'):
            b = EB(dict(data_type='complex' if cplx else ('real' if i % 4 else 'Real'), normalization=nm)); inp = dict(data=D, norm=nm); cx.count((nf, nt, cplx, nm, i % 5 == 0), inp); K = D.copy()
            v = guarded(cx, 'scaler', inp, lambda: b.scaler(D))
            if v is None: continue
            if v.shape != (nf,): cx.fail(f'scaling vector of shape {v.shape}', inp); continue
            S = guarded(cx, 'scaling', inp, lambda: b.scale_data(D, v))
            if S is None: continue
            B = guarded(cx, 'de-scaling', inp, lambda: b.descale_data(S, v))
            if B is None: continue
            for part in (np.real, np.imag) if cplx else (np.real,):
                ok = part(v) != 0
                if not cx.close(part(B)[ok], part(D)[ok], 'scaling then de-scaling', inp, rtol=1e-10, atol=0): break
                s = part(S)[ok]
                if not cx.close(s, part(D)[ok]/part(v)[ok][:, None], 'row i is not scaled by component i', inp, rtol=1e-12): break
                if nm.lower() == 'localmax' and s.size:
                    if np.max(np.abs(s)) > .1*(1+1e-12): cx.fail(f'local normalization reaches {np.max(np.abs(s))}', inp); break
                    cx.close(np.max(np.abs(s), axis=1), np.full(s.shape[0], .1), 'local maximum after normalization', inp)
                if nm == 'globalmax' and s.size and np.any(part(D) != 0): cx.close(np.max(np.abs(s)), 1., 'global maximum after normalization', inp)
                if nm == 'none': cx.close(s, part(D)[ok], 'no normalization', inp, rtol=1e-12)
            if not np.array_equal(K, D): cx.fail('data changed', inp)
    for bad in ('integer', ''):
        b = EB(dict(data_type=bad))
        for f in (lambda: b.scaler(np.ones((2, 3))), lambda: b.scale_data(np.ones((2, 3)), np.ones(2)), lambda: b.descale_data(np.ones((2, 3)), np.ones(2))):
            try: f(); cx.fail(f'data type {bad!r} accepted', {})
            except TypeError: cx.count(('bad', bad))
            except Exception as e: cx.fail(f'data type {bad!r}: {type(e).__name__}', {})

# --------------------------------------------------------------------- C22
class Model:
    """Stand-in network: a known function of its whole input, different for the real and imaginary weights."""
    def __init__(self, no, nf): self.no, self.nf, self.name, self.calls = no, nf, None, []
    def load_weights(self, n): self.name = os.path.basename(n)
    def f(self, name, x):
        k = 1. if name.startswith('real') else -2.
        return np.stack([[k*(x[-1, j] + 10*x[0, j] + .25*x.sum()) + q + .1*j for j in range(self.nf)] for q in range(self.no)])
    def predict(self, x, verbose=0, **kw):
        assert x.shape[0] == 1
        self.calls.append((self.name, np.array(x[0]))); return self.f(self.name, np.array(x[0])).reshape(1, -1)

def NN(cx, ni, no, nf, ty):
    import tqdm as _t
    from pyspod.emulation.neural_nets import Neural_Nets
    n = Neural_Nets(dict(data_type=ty, n_seq_in=ni, n_seq_out=no, savedir=cx.tmp)); n._n_features = nf; n.model = Model(no, nf); return n

def C22(cx):
    for i in range(120 if cx.big else 50):
        if cx.stop(): return
        ni, no, nf, fh = (int(cx.rng.integers(1, k)) for k in (5, 4, 4, 4)); nt = ni + no + fh + int(cx.rng.integers(0, 8)); n = NN(cx, ni, no, nf, 'real')
        D = cx.rng.standard_normal((nf, nt)); inp = dict(n_seq_in=ni, n_seq_out=no, features=nf, fh=fh, nt=nt); cx.count(('ex', ni, no, nf, fh, nt), inp)
        with quiet(): r = guarded(cx, 'sequence extraction', inp, lambda: n.extract_sequences(D, fh=fh))
        if r is None: continue
        x, y = r; nw = nt - ni - no - fh + 2
        if x.shape[1:] != (ni, nf) or y.shape[1:] != (no*nf,) or x.shape[0] != y.shape[0] or not nw-1 <= x.shape[0] <= nw: cx.fail(f'windows of shape {x.shape}, {y.shape}', inp); continue
        for j in range(x.shape[0]):
            if not np.array_equal(x[j], D[:, j:j+ni].T): cx.fail(f'input window {j}', inp); break
            if not np.array_equal(y[j], D[:, j+ni-1+fh:j+ni-1+fh+no].T.ravel()): cx.fail(f'target window {j}', inp); break
    try:
        with quiet(): NN(cx, 1, 1, 1, 'real').extract_sequences(np.zeros((1, 9)), fh=0)
        cx.fail('fh = 0 accepted', {})
    except ValueError: pass
    except Exception as e: cx.fail(f'fh = 0: {type(e).__name__}', {})
    for i in range(120 if cx.big else 50):
        if cx.stop(): return
        ni, no, nf = (int(cx.rng.integers(1, k)) for k in (5, 5, 4)); nt = ni + int(cx.rng.integers(0, 11)); cplx = i % 2 == 1; n = NN(cx, ni, no, nf, 'complex' if cplx else 'real')
        D = cx.rng.standard_normal((nf, nt)) + (1j*cx.rng.standard_normal((nf, nt)) if cplx else 0); inp = dict(n_seq_in=ni, n_seq_out=no, features=nf, nt=nt, complex=cplx)
        if i % 8 == 7: D[:, :-1] = D[:, :-1].real                       # windows without imaginary part in a complex series
        if i % 8 == 4: D = D*0
        K = D.copy(); cx.count(('inf', ni, no, nf, nt, cplx), inp)
        with quiet(): C = guarded(cx, 'inference', inp, lambda: n.model_inference(D, idx=3))
        if C is None: continue
        E = np.zeros((nf, nt), complex); E[:, :ni] = D[:, :ni]
        for t in range(ni, nt, no):
            pr = n.model.f('real', D.real[:, t-ni:t].T)
            if cplx: pr = pr + 1j*n.model.f('imag', D.imag[:, t-ni:t].T)
            m = min(no, nt-t); E[:, t:t+m] = pr[:m].T
        if not cx.close(C, E, 'predicted series', dict(inp, data=D), rtol=1e-12): continue
        if not np.array_equal(K, D): cx.fail('data changed', inp)
        want = {'real3.weights.h5'} | ({'imag3.weights.h5'} if cplx else set())
        if nt > ni and {q for q, _ in n.model.calls} != want: cx.fail(f'networks used: {sorted({q for q, _ in n.model.calls})}', inp)
        if ni > 1:
            try:
                with quiet(): n.model_inference(D[:, :ni-1]); 
                cx.fail('a series shorter than n_seq_in is accepted', inp)
            except ValueError: pass
            except Exception as e: cx.fail(f'a series shorter than n_seq_in: {type(e).__name__}', inp)
    # training uses the windows of the right part
    n = NN(cx, 2, 1, 2, 'complex'); seen = []
    n._train = lambda a, b, name: seen.append((np.array(a), np.array(b), name))
    A, B = (cx.rng.standard_normal((2, 9)) + 1j*cx.rng.standard_normal((2, 9)) for _ in 'ab'); n.model_train(A, B, idx=2)
    if [s[2] for s in seen] != ['real2', 'imag2'] or not np.array_equal(seen[0][0].real, A.real) or not np.array_equal(seen[1][0], A.imag) or not np.array_equal(seen[1][1], B.imag): cx.fail('training data of the networks', {})
    seen.clear(); n.model_train(A.real, B.real)
    if [s[2] for s in seen] != ['real0']: cx.fail('real data trains more than the real network', {})

# --------------------------------------------------------------------- C23
def C23(cx):
    import pyspod.utils.io as IO, yaml, h5py, xarray as xr
    vals = [1, 2.5, 'text', True, False, None, [1, 2], 1e10, '', 0, -3, dict(a=1)]
    for i in range(120 if cx.big else 40):
        if cx.stop(): return
        req = [dict([(k, vals[int(cx.rng.integers(len(vals)))])]) for k in ['time_step', 'n_space_dims', 'n_variables', 'n_dft']] + [{f'extra{k}': vals[int(cx.rng.integers(len(vals)))]} for k in range(int(cx.rng.integers(0, 4)))]
        opt = [{k: vals[int(cx.rng.integers(len(vals)))]} for k in cx.rng.choice(['overlap', 'mean_type', 'n_modes_save', 'time_step', 'savedir', 'extra0', 'n_dft'], size=int(cx.rng.integers(0, 6)), replace=False)]
        cx.rng.shuffle(req); doc = dict(required=req)
        if i % 3: doc['optional'] = [dict((str(k), v) for k, v in d.items()) for d in opt]
        if i % 4 == 3 and len(set(req[0]) | set(req[1])) == 2: req[:2] = [{**req[0], **req[1]}]           # one entry, two keys
        exp = {}
        for d in req: exp.update(d)
        for d in (doc.get('optional') or []): exp.update(d)
        f = os.path.join(cx.dir(), 'c.yaml')
        with open(f, 'w') as h: yaml.safe_dump(doc, h)
        r = guarded(cx, 'read_config', doc, lambda: IO.read_config(f)); cx.count((i, len(exp)), doc)
        if r is not None: cx.eq(r, exp, 'parameters', doc)
        import sys
        if i % 10 == 0:
            old = sys.argv; sys.argv = ['x', '--config_file', f]
            try: r = guarded(cx, 'read_config from the command line', doc, lambda: IO.read_config()); cx.eq(r, exp, 'parameters from the command line', doc)
            finally: sys.argv = old
    for i in range(10):
        A = cx.rng.standard_normal((3, 1 + i % 4)); B = cx.rng.standard_normal((2, 2, 2)); d = cx.dir(); comm = [None, FakeComm(0, 2), FakeComm(1, 2)][i % 3]
        np.save(os.path.join(d, 'a.npy'), A); os.replace(os.path.join(d, 'a.npy'), os.path.join(d, ['a.npy', 'a.NPY', 'a.Npy'][i % 3]))
        fn = os.path.join(d, ['a.npy', 'a.NPY', 'a.Npy'][i % 3])
        for fm in (None, 'npy', '.npy', 'NPY', '.Npy'):
            with quiet(): r = guarded(cx, 'read_data npy', dict(format=fm, file=os.path.basename(fn)), lambda: IO.read_data(fn, format=fm, comm=comm))
            cx.count(('npy', fm, i % 3))
            if r is not None and not (isinstance(r, np.ndarray) and np.array_equal(r, A)): cx.fail('npy data changed', dict(format=fm))
        fx = os.path.join(d, 'other.dat'); os.replace(fn, fx)
        with quiet(): r = guarded(cx, 'read_data with a format', {}, lambda: IO.read_data(fx, format='npy'))
        if r is not None and not np.array_equal(r, A): cx.fail('npy data changed', dict(format='npy', file='other.dat'))
        fm_ = os.path.join(d, ['m.mat', 'm.MAT'][i % 2])
        with h5py.File(fm_, 'w') as h: h['A'] = A; h['B'] = B
        for fm in (None, 'mat', '.MAT'):
            with quiet(): r = guarded(cx, 'read_data mat', dict(format=fm), lambda: IO.read_data(fm_, format=fm, comm=comm))
            cx.count(('mat', fm, i % 2))
            if r is not None and not (set(r) == {'A', 'B'} and np.array_equal(r['A'], A) and np.array_equal(r['B'], B)): cx.fail('mat data changed', dict(format=fm))
        fn_ = os.path.join(d, 'n.nc'); xr.Dataset(dict(p=(('time', 'x'), A), q=(('a', 'b', 'c'), B))).to_netcdf(fn_)
        for fm in (None, 'nc', 'NC'):
            with quiet(): r = guarded(cx, 'read_data nc', dict(format=fm), lambda: IO.read_data(fn_, format=fm, comm=comm))
            cx.count(('nc', fm))
            if r is not None:
                if not (np.array_equal(r['p'].values, A) and np.array_equal(r['q'].values, B)): cx.fail('nc data changed', dict(format=fm))
                r.close()
        for fm, f_ in (('txt', fx), (None, fx), ('', fx), ('csv', fn_)):
            try:
                with quiet(): IO.read_data(f_, format=fm)
                cx.fail(f'format {fm!r} accepted', dict(file=os.path.basename(f_)))
            except ValueError: cx.count(('badfmt', fm))
            except Exception as e: cx.fail(f'format {fm!r}: {type(e).__name__} {e}', dict(file=os.path.basename(f_)))

# --------------------------------------------------------------------- C24
def C24(cx):
    import pyspod.utils.errors as ER
    for i in range(200 if cx.big else 80):
        if cx.stop(): return
        shp = tuple(int(v) for v in cx.rng.integers(1, 6, size=int(cx.rng.integers(1, 5)))); A = cx.rng.standard_normal(shp); B = cx.rng.random(shp) + .3; d = A - B; n = d.size; dt = float(cx.rng.choice([1., .1, 3.]))
        if i % 5 == 0: A = B.copy(); d = A - B
        if i % 7 == 1: A = B.copy(); A.flat[int(cx.rng.integers(n))] -= 2.; d = A - B
        inp = dict(data=A, ref=B, dt=dt); e = np.abs(d).ravel(); er = e/B.ravel(); cx.count((shp, i), dict(shape=shp))
        for nm, v in dict(l1=e.sum()/n, l2=np.sqrt((e**2).sum())/n, linf=e.max(), l1_rel=er.sum()/n, l2_rel=np.sqrt((er**2).sum())/n, linf_rel=er.max()).items():
            g = guarded(cx, nm, inp, lambda: ER.compute_l_errors(A, B, nm))
            if g is not None: cx.close(g, v, f'{nm} error', inp, rtol=1e-12, atol=0)
        g = guarded(cx, 'default', inp, lambda: ER.compute_l_errors(data=A, data_ref=B))
        if g is not None: cx.close(g, np.sqrt((e**2).sum())/n, 'default error', inp, rtol=1e-12, atol=0)
        g = guarded(cx, 'h1', inp, lambda: ER.compute_h_errors(A, B, dt))
        if g is not None: cx.close(g, np.sqrt(sum(dt*(((d[t]-d[t-1])/dt)**2).sum() for t in range(1, shp[0]))), 'h1 error', inp, rtol=1e-10, atol=1e-13)
        if i % 4 == 1:
            U, V = cx.rng.integers(0, 99, size=shp).astype(['u1', 'i1', 'u8', '?'][i//4 % 4]), cx.rng.integers(1, 120, size=shp).astype(['u1', 'i1', 'u8', '?'][i//4 % 4]); du = U*1. - V*1.
            inpu = dict(data=U, ref=V, dtype=U.dtype.str, dt=dt)
            g = guarded(cx, 'l1', inpu, lambda: ER.compute_l_errors(U, V, 'l1'))
            if g is not None: cx.close(g, np.abs(du).sum()/n, 'l1 error of integers', inpu, rtol=1e-10, atol=0)
            g = guarded(cx, 'h1', inpu, lambda: ER.compute_h_errors(U, V, dt))
            if g is not None: cx.close(g, np.sqrt(sum(dt*(((du[t]-du[t-1])/dt)**2).sum() for t in range(1, shp[0]))), 'h1 error of integers', inpu, rtol=1e-10, atol=1e-13)
        if i % 3 == 0:
            C = A + 1j*cx.rng.standard_normal(shp); dc = C - B
            g = guarded(cx, 'h1', inp, lambda: ER.compute_h_errors(C, B, dt))
            if g is not None: cx.close(g, np.sqrt(sum(dt*(np.abs((dc[t]-dc[t-1])/dt)**2).sum() for t in range(1, shp[0]))), 'h1 error of complex data', dict(inp, data=C), rtol=1e-10, atol=1e-13)
        F, G = np.asfortranarray(A), np.ascontiguousarray(B)
        if A.ndim > 1: cx.close(ER.compute_l_errors(F, G, 'l2_rel'), np.sqrt((er**2).sum())/n, 'l2_rel error of a Fortran-ordered array', inp, rtol=1e-12, atol=0)
    for f in (lambda: ER.compute_l_errors(np.ones(3), np.ones(3), 'l3'), lambda: ER.compute_h_errors(np.ones(3), np.ones(3), 1., 'h2'), lambda: ER.compute_l_errors(np.ones(3), np.ones(3), 'h1')):
        try: f(); cx.fail('unknown norm accepted', {})
        except ValueError: cx.count('bad')
        except Exception as e: cx.fail(f'unknown norm: {type(e).__name__}', {})

# --------------------------------------------------------------------- C25
def C25(cx):
    from pyspod.spod.streaming import Streaming
    def gram(what, inp, get, eigs, w, nms):
        for f in range(eigs.shape[0]):
            P = np.asarray(get(f)).reshape(-1, nms)
            e = eigs[f]
            if np.any(~np.isfinite(e)) or np.max(np.abs(np.imag(e))) > 1e-12*max(1e-300, np.max(np.abs(e))) or np.any(np.real(e) < 0) or np.any(np.diff(np.real(e)) > 1e-10*np.max(np.abs(e))): cx.fail(f'{what}: singular values {e[:4]} at bin {f}', inp); return
            if not cx.close(P.conj().T @ (w[:, None]*P), np.eye(nms), f'{what}: weighted Gram matrix of the streaming modes at bin {f}', dict(inp, bin=f), rtol=1e-6, atol=1e-6): return
    for i, c in enumerate(configs(cx, 60 if cx.big else 20, cplx=False)):
        if cx.stop(): return
        c['xs'] = [(7,), (3, 4), (2, 3, 2)][i % 3]; c['nms'] = int(cx.rng.integers(1, 4)); c['full'] = False
        if c['overlap'] and 100*(c['n_dft']-1)/c['n_dft'] - c['overlap'] < 1e-9: c['overlap'] = 50
        nov = o_overlap(c['n_dft'], c['overlap']); c['nt'] = nov + (c['nms']+2)*(c['n_dft']-nov) + int(cx.rng.integers(0, 3)); c['nt'] = max(c['nt'], 3*c['n_dft'])
        c['scale'] = [1, 1, 1e-11, 1, 1e9][i % 5]
        X, p = setup(cx, c); w = posweights(cx, c)
        s = guarded(cx, 'streaming fit', c, lambda: fit(X, p, weights=w, cls=Streaming)); cx.count((c['n_dft'], c['nt'], c['nms'], c['xs']), c)
        if s is None: continue
        nms = int(s.n_modes_save); cx.eq(nms, min(c['nms'], int(s.n_blocks)), 'number of modes', c)
        # blocks really processed by the streaming schedule must be at least nms
        gram('streaming fit', c, lambda f: load_modes(s, f), np.asarray(s.eigs), w['weights'].ravel(), nms)
        for k in range(2):
            cut = sorted(set(int(v) for v in cx.rng.integers(1, c['nt'], size=3)))
            b = guarded(cx, 'streaming fit of a split record', dict(c, cuts=cut), lambda: fit(np.split(X, cut), dict(p, savedir=cx.dir()), weights=w, cls=Streaming))
            if b is None: continue
            cx.close(b.eigs, s.eigs, 'singular values of a split record', dict(c, cuts=cut), rtol=1e-9, atol=1e-9*np.max(np.real(s.eigs)))
            for f in range(len(s.freq)):
                if not cx.close(np.abs(load_modes(b, f)), np.abs(load_modes(s, f)), 'modes of a split record', dict(c, cuts=cut), rtol=1e-6, atol=1e-7): break
    jobs, refs = [], []
    for xs, nv in (((5,), 1), ((4, 3), 2)):
        c = configs(cx, 1, xs=xs, nv=nv, cplx=False, full=False, n_dft=8, overlap=50, nt=44, nms=2, trailing=True)[0]; X, p = setup(cx, c); w = posweights(cx, c)
        s = guarded(cx, 'streaming fit', c, lambda: fit(X, dict(p, savedir=cx.dir()), weights=w, cls=Streaming))
        jobs.append(('j_fit', dict(X=X, p=p, weights=w, cls='streaming'))); refs.append((c, w, s))
    res = run_mpi(jobs, 3, cx.tmp)
    if isinstance(res, str): cx.fail('parallel streaming fit: ' + res, [r[0] for r in refs]); return
    for (c, w, s), r in zip(refs, res):
        cx.count(('mpi', c['xs'])); gram('streaming fit on 3 processes', c, lambda f: r[0]['modes'][f'freq_idx_{f:08d}.npy'], r[0]['eigs'], w['weights'].ravel(), 2)
        if s is not None: cx.close(r[0]['eigs'], s.eigs, 'singular values on 3 processes', c, rtol=1e-7, atol=1e-9)

# --------------------------------------------------------------------- C27
def o_stream(X, p, w, nms, drift):
    """singular values [freq, nms] and modes of the stream by the text of C27; drift: recorded block starts"""
    n = int(p['n_dft']); nov = o_overlap(n, p.get('overlap', 0)); dn = n - nov; npar = -(-n//dn)
    F = flat(X, p['n_space_dims'], p['n_variables']); nt = F.shape[0]
    real = bool(np.isreal(F).all()); full = p.get('fullspectrum', False)
    h = hamming(n); nf = n//2+1 if real and not full else n
    E = np.exp(-2j*np.pi*np.outer(np.arange(nf), np.arange(n))/n)
    if real and not full:
        for k in range(nf):
            if k != 0 and 2*k != n: E[k] *= 2
    S = np.zeros((nf, nms)); U = np.zeros((nf, F.shape[1], nms), complex); b = 0
    while True:
        s = b*dn + (b//npar if drift else 0)
        if s + n > nt: break
        x = (E @ ((F[s:s+n] - F[:s+n].sum(axis=0)/(s+n))*h[:, None]))/(n*h.mean())*np.sqrt(w)
        b += 1
        for f in range(nf):
            A = np.concatenate([np.sqrt((b+1)/(b+2))*U[f]*S[f], (np.sqrt(b+1)/(b+2)*x[f])[:, None]], axis=1)
            u, sv, _ = np.linalg.svd(A, full_matrices=False)
            u, sv = u[:, :nms], sv[:nms]
            S[f], U[f] = 0, 0
            S[f, :len(sv)] = sv; U[f, :, :len(sv)] = u
    return S, U, b

def C27(cx):
    from pyspod.spod.streaming import Streaming
    for i, c in enumerate(configs(cx, 120 if cx.big else 36)):
        if cx.stop(): return
        c['xs'] = [(13,), (3, 5), (2, 3, 3), (12,)][i % 4]; c['mean_type'] = 'longtime'
        c['overlap'] = [50, 0, 25, 33.3, 10, 60][int(cx.rng.integers(6))] if i % 3 else [50, 75, 0][i//3 % 3]
        if c['overlap'] == 75: c['n_dft'] = [8, 11, 12, 16][int(cx.rng.integers(4))]
        nov = o_overlap(c['n_dft'], c['overlap']); dn = c['n_dft'] - nov; npar = -(-c['n_dft']//dn)
        c['nt'] = max(nov + max(2, [npar, npar + 2, 2*npar + 2][i % 3])*dn, c['n_dft'] + 2) + int(cx.rng.integers(0, 3))
        c['nms'] = int(cx.rng.integers(1, 4)) if i % 2 else 12; c['scale'] = [1, 1, 1e-11, 1, 1, 1e9, 1][i % 7]
        X, p = setup(cx, c); w = posweights(cx, c)
        s = guarded(cx, 'streaming fit', c, lambda: fit(X, p, weights=w, cls=Streaming)); cx.count((c['n_dft'], c['overlap'], c['nt'], c['nms'], c['xs'], c['cplx'], c['full']), c)
        if s is None: continue
        nms = int(s.n_modes_save); e = np.real(np.asarray(s.eigs)); wf = w['weights'].ravel()
        S, U, nb = o_stream(X, p, wf, nms, False)
        if e.shape != S.shape: cx.fail(f'streaming singular values have shape {e.shape} instead of {S.shape}', c); continue
        if not np.allclose(e, S, rtol=1e-5, atol=1e-6*np.max(S)):
            Sd, Ud, nd = o_stream(X, p, wf, nms, True)
            if nd >= npar and np.allclose(e, Sd, rtol=1e-5, atol=1e-6*np.max(Sd)):
                cx.fail('the blocks after the first ones start late', c, 'stream-block-starts'); U, S = Ud, Sd
            else: cx.close(e, S, 'streaming singular values', c, rtol=1e-6); continue
        for f in range(S.shape[0]):
            P = np.asarray(load_modes(s, f)).reshape(-1, nms)*np.sqrt(wf)[:, None]
            for m in range(nms):
                gap = min([abs(S[f, m] - S[f, k]) for k in range(nms) if k != m] + [S[f, m]])
                if gap < 1e-3*S[f, 0] or (m == nms - 1 and nb > nms): continue
                if abs(abs(np.vdot(U[f, :, m], P[:, m])) - 1) > 1e-4: cx.fail(f'streaming mode {m} at bin {f} is not the singular vector of the recursion', dict(c, bin=f, mode=m)); break
