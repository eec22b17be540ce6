"""Contract replay for C01-C09 (SPOD core)."""
import os, itertools
import numpy as np
from lib import *
import lib

def _blockfiles(s, nf):
    d = os.path.join(s.savedir_sim, 'blocks')
    fs = sorted(os.listdir(d))
    return d, fs

def read_blocks(s, nblk, nf):
    d, fs = _blockfiles(s, nf)
    want = sorted(f'fft_block{b:08d}_freq{f:08d}.npy' for b in range(nblk) for f in range(nf))
    if fs != want: return None, fs
    return np.stack([np.stack([np.load(os.path.join(d, f'fft_block{b:08d}_freq{f:08d}.npy')).ravel() for f in range(nf)]) for b in range(nblk)]), fs

def configs(cx, n, **fixed):
    """Boundary-biased SPOD configurations."""
    r = cx.rng
    out = []
    for i in range(n):
        n_dft = int(r.choice([4, 5, 6, 7, 8, 9, 11, 12, 16]))
        ov = [0, 50, 25, 75, 33.3, 10, 66, 100*(n_dft-1)/n_dft, 1, 90][int(r.integers(10))]
        nov = o_overlap(n_dft, ov)
        if nov > n_dft-1: ov, nov = 0, 0
        nblk = int(r.integers(2, 6)); rem = int(r.integers(0, n_dft-nov))
        nt = nov + nblk*(n_dft-nov) + rem
        nv = int(r.choice([1, 1, 2, 3]))
        xs = [(5,), (1,), (2, 3), (3, 2, 2), (4, 1)][int(r.integers(5))]
        c = dict(n_dft=n_dft, overlap=ov, nt=nt, nv=nv, xs=xs, dt=float(r.choice([1., 0.1, 12., 0.37])),
                 mean_type=str(r.choice(['longtime', 'blockwise', 'zero', 'Longtime'])), full=bool(r.random() < .3),
                 cplx=bool(r.random() < .3), trailing=bool(nv > 1 or r.random() < .5), nd=False, nms=int(r.integers(1, 7)), kind=int(r.integers(2)))
        c.update(fixed)
        if c['nv'] > 1: c['trailing'] = True
        out.append(c)
    return out

def setup(cx, c, d=None, **kw):
    X = randdata(cx.rng, c['nt'], c['xs'], c['nv'], c['cplx'], c['trailing'], c['kind'])
    if c.get('scale'): X = X*c['scale']                      # other units
    if c.get('integers'): X = np.round(20*X).astype(np.int16)
    p = mkparams(cx.rng, d or cx.dir(), n_dft=c['n_dft'], overlap=c['overlap'], time_step=c['dt'], n_variables=c['nv'],
                 n_space_dims=len(c['xs']), mean_type=c['mean_type'], fullspectrum=c['full'], n_modes_save=c['nms'], normalize_data=c['nd'], **kw)
    return X, p

def posweights(cx, c):
    return dict(weights_name='w', weights=cx.rng.random((*c['xs'], c['nv'])) + 0.2)

def guarded(cx, what, inp, f):
    try:
        return f()
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join(f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb[-3:])
        cx.fail(f'{what}: {type(e).__name__}: {str(e)[:200]} ({where})', inp)
        return None

# --------------------------------------------------------------------- C01
def C01(cx):
    from pyspod.spod.standard import Standard
    for c in configs(cx, 150 if cx.big else 45, mean_type='zero', kind=0):
        if cx.stop(): return
        X, p = setup(cx, c, savefft=True)
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, X, p))
        if s is None: continue
        Q, mean, nblk, real = o_blocks(X, p)
        cx.count((c['n_dft'], c['overlap'], c['nt']), c)
        if not cx.eq(int(s.n_blocks), nblk, 'number of blocks', c): continue
        if not cx.eq(int(s.n_modes_save), min(c['nms'], nblk), 'number of saved modes', c): continue
        R, fs = read_blocks(s, nblk, Q.shape[1])
        if R is None: cx.fail(f'saved FFT blocks {fs[:4]}.. ({len(fs)}) instead of {nblk}x{Q.shape[1]}', c); continue
        for b in range(nblk):
            if not cx.close(R[b], Q[b], f'block {b} does not consist of snapshots {b*(c["n_dft"]-o_overlap(c["n_dft"], c["overlap"]))}..+n_dft', dict(c, X=X)): break
    # rejection of impossible set-ups, at the boundary on both sides
    for n_dft in ([4, 5, 8, 10, 32, 101] if not cx.big else range(1, 120)):
        for ov in [0, 50, 99, 100, 101, 150, 100*(n_dft-1)/n_dft, 100*(n_dft-1)/n_dft + .001, 97.5]:
            bad = o_overlap(n_dft, ov) > n_dft-1
            cx.count(('ov', n_dft, ov))
            try:
                with quiet(): Standard(params=mkparams(cx.rng, cx.tmp, n_dft=n_dft, overlap=ov)); got = False
            except ValueError: got = True
            except Exception as e: cx.fail(f'{type(e).__name__} instead of {"ValueError" if bad else "acceptance"}: {e}', dict(n_dft=n_dft, overlap=ov)); continue
            if got != bad: cx.fail(f'overlap {ov}% of {n_dft} snapshots {"accepted" if bad else "rejected"}', dict(n_dft=n_dft, overlap=ov))
    for n_dft in (2, 3, 4, 5, 8):
        for ov in (0, 50):
            nov = o_overlap(n_dft, ov)
            if nov > n_dft-1: continue
            for nt in sorted({nov + 2*(n_dft-nov) - 1, nov + 2*(n_dft-nov), n_dft, n_dft+1, nov + 3*(n_dft-nov)}):
                nb = (nt-nov)//(n_dft-nov)
                bad = n_dft < 4 or nb < 2
                inp = dict(n_dft=n_dft, overlap=ov, nt=nt)
                cx.count(('rej', n_dft, ov, nt))
                try:
                    fit(cx.rng.standard_normal((nt, 3)), mkparams(cx.rng, cx.dir(), n_dft=n_dft, overlap=ov)); got = False
                except ValueError: got = True
                except Exception as e: cx.fail(f'{type(e).__name__} instead of {"ValueError" if bad else "a result"}: {e}', inp); continue
                if got != bad: cx.fail(f'{nt} snapshots, n_dft {n_dft}, overlap {ov}% ({nb} blocks): {"accepted" if bad else "rejected"}', inp)
    # chunked records: same blocks (two-stage reader, several chunkings)
    jobs, refs = [], []
    for nch, c in zip((1, 2, 3) if not cx.big else (1, 2, 3, 4, 5), configs(cx, 5, mean_type='zero', cplx=False, full=False, nv=1, xs=(3, 2), trailing=False)):
        c['nt'] = max(c['nt'], 9*nch)
        j, X, p = nc_job(cx, c, nch, savefft=True); jobs.append(j); refs.append((X, p, c, nch))
    res = run_mpi(jobs, 1, cx.tmp)
    if isinstance(res, str): cx.fail('chunked record: ' + res, [r[2] for r in refs]); return
    for (X, p, c, nch), r in zip(refs, res):
        Q, mean, nblk, real = o_blocks(X, p)
        r = r[0]; cx.count(('chunk', nch, c['n_dft'], c['nt']))
        if not cx.eq(r['n_blocks'], nblk, 'number of blocks of a chunked record', c): continue
        try: R = np.stack([np.stack([r['blocks'][f'fft_block{b:08d}_freq{f:08d}.npy'].ravel() for f in range(Q.shape[1])]) for b in range(nblk)])
        except KeyError as e: cx.fail(f'missing block file {e}', c); continue
        cx.close(R, Q, f'blocks of a record read in {nch} chunks', dict(c, chunks=nch))

def write_nc(cx, X, nfiles, names, cuts=None, t0=0.):
    """X [nt, *xs, nv] -> nfiles NetCDF files; returns the list of files."""
    import xarray as xr
    d = cx.dir()
    nt = X.shape[0]
    if cuts is None: cuts = sorted(set([0, nt] + list(cx.rng.choice(np.arange(1, nt), size=nfiles-1, replace=False)) if nfiles > 1 else [0, nt]))
    fs = []; labels = int(cx.rng.choice([0, 1, 1, 1, 2, 3]))
    dims = ('time',) + tuple(f'x{i}' for i in range(X.ndim-2))
    for i, (a, b) in enumerate(zip(cuts[:-1], cuts[1:])):
        lab = (None, t0 + np.arange(a, b).astype(float), t0 - np.arange(a, b).astype(float), np.repeat(t0, b - a))[labels]
        ds = xr.Dataset({nm: (dims, X[a:b, ..., k]) for k, nm in enumerate(names)}, coords={} if lab is None else dict(time=('time', lab)))
        f = os.path.join(d, f'f{i:03d}.nc'); ds.to_netcdf(f); ds.close(); fs.append(f)
    return fs

def nc_job(cx, c, nch, **kw):
    X, p = setup(cx, dict(c, trailing=True), savefreq_disk=False, savefreq_disk2=True, **kw)
    names = [f'v{k}' for k in range(c['nv'])]
    fs = write_nc(cx, X, 1 + int(cx.rng.integers(3)), names)
    return ('j_fit', dict(X=fs, p=p, variables=names, patch_chunks=nch)), X, p

# --------------------------------------------------------------------- C02
def C02(cx):
    for i, c in enumerate(configs(cx, 160 if cx.big else 60)):
        if cx.stop(): return
        if i % 3 == 0: c['nd'] = True
        X, p = setup(cx, c, savefft=True)
        if c['nd'] and i % 2 == 0: X = np.array(X); X[:, 0] = 2.5       # a point with zero variance
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, X, p))
        if s is None: continue
        Q, mean, nblk, real = o_blocks(X, p)
        cx.count((c['n_dft'], c['overlap'], c['nt'], c['mean_type'], c['full'], c['cplx'], c['nd'], c['nv']), c)
        R, fs = read_blocks(s, nblk, Q.shape[1])
        if R is None: cx.fail(f'{len(fs)} saved realizations instead of {nblk} blocks x {Q.shape[1]} bins', c); continue
        cx.close(R, Q, 'Fourier realization', dict(c, X=X), rtol=1e-8)
    # single precision: same definition up to rounding
    for c in configs(cx, 6, cplx=False):
        X, p = setup(cx, c, savefft=True, dtype='single')
        s = guarded(cx, 'single precision fit failed', dict(c), lambda: fit(X, p))
        if s is None: continue
        Q, mean, nblk, real = o_blocks(X, p); cx.count(('single', c['n_dft'], c['nt']))
        R, fs = read_blocks(s, nblk, Q.shape[1])
        if R is None: cx.fail('number of saved realizations (single)', c); continue
        cx.close(R, Q, 'Fourier realization (single precision)', dict(c, X=X), rtol=2e-4, atol=1e-4)
    # unknown mean types are rejected
    try:
        c = configs(cx, 1, mean_type='median')[0]; X, p = setup(cx, c); fit(X, p); cx.fail('unknown mean type accepted', c)
    except ValueError: cx.count('mean-type')
    except Exception as e: cx.fail(f'unknown mean type: {type(e).__name__} {e}', {})

# --------------------------------------------------------------------- C03
def C03(cx):
    from pyspod.spod.standard import Standard
    for c in configs(cx, 120 if cx.big else 45, kind=1):
        if cx.stop(): return
        X, p = setup(cx, c)
        if cx.rng.random() < .3: X = X * np.exp(np.linspace(0, 3, c['nt'])).reshape((-1,)+(1,)*(X.ndim-1))
        parts = X
        if cx.rng.random() < .5:
            k = sorted(set(int(v) for v in cx.rng.integers(1, c['nt'], size=2))); parts = np.split(X, k)
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, parts, p))
        if s is None: continue
        m = np.load(os.path.join(s.savedir_sim, 'ltm_modes.npy'))
        F = flat(X, len(c['xs']), c['nv'])
        cx.count((c['n_dft'], c['overlap'], c['nt'], c['cplx']), c)
        cx.close(m, (F.sum(axis=0)/c['nt']).reshape(*c['xs'], c['nv']), 'long-time mean', dict(c, X=X))
    # POD mean
    from pyspod.pod.standard import Standard as POD
    for nt in (2, 3, 5, 8, 9):
        X = cx.rng.standard_normal((nt, 3, 2)) + 2 + np.arange(nt)[:, None, None]
        p = dict(time_step=1, n_space_dims=2, n_variables=1, savedir=cx.dir(), n_modes_save=2)
        with quiet():
            s = POD(params=p)
            r = guarded(cx, 'POD fit failed', dict(nt=nt), lambda: s.fit(X))
        if r is None: continue
        cx.count(('pod', nt))
        if hasattr(s, '_t_mean'): cx.close(np.ravel(s._t_mean), X.mean(axis=0).ravel(), 'POD long-time mean', dict(nt=nt, X=X))
    # chunked and parallel
    jobs, refs = [], []
    for nch in (1, 2, 3):
        for c in configs(cx, 2 if not cx.big else 5, mean_type='longtime', cplx=False, full=False, kind=1, xs=[(3, 2), (5,)][nch % 2]):
            c['nt'] = max(c['nt'], 9*nch) + nch
            j, X, p = nc_job(cx, c, nch); jobs.append(j); refs.append((X, p, c, nch))
    for size in (1, 3) if not cx.big else (1, 2, 3, 4):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('chunked record: ' + res, [r[2] for r in refs]); return
        for (X, p, c, nch), r in zip(refs, res):
            F = flat(X, len(c['xs']), c['nv']); cx.count(('chunk', size, nch, c['nt']))
            cx.close(r[0]['ltm'].ravel(), F.sum(axis=0)/c['nt'], f'long-time mean of a record read in {nch} chunks on {size} processes', dict(c, chunks=nch))

# --------------------------------------------------------------------- C04
def C04(cx):
    for i, c in enumerate(configs(cx, 120 if cx.big else 50, xs=(2,))):
        if cx.stop(): return
        c['cplx'] = i % 2 == 0; c['full'] = i % 4 == 1 or i % 8 == 2
        c['n_dft'] = int(cx.rng.integers(4, 24 if not cx.big else 64)); c['overlap'] = 0; c['nt'] = 2*c['n_dft'] + int(cx.rng.integers(3))
        c['dt'] = float(cx.rng.choice([1, .5, .1, 3, 86400., 1e-4]))
        X, p = setup(cx, c)
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, X, p))
        if s is None: continue
        exp = o_freq(c['n_dft'], c['dt'], not c['cplx'], c['full'])
        got = np.asarray(s.freq); cx.count((c['n_dft'], c['dt'], c['cplx'], c['full']), c)
        if c['cplx'] and not c['full'] and c['n_dft'] % 2 == 0 and got.shape == exp.shape:
            k = c['n_dft']//2
            if abs(got[k] + exp[k]) < 1e-12*abs(exp[k]): exp[k] = -exp[k]       # Nyquist: either sign
        if not cx.close(got, exp, 'frequency axis', c, rtol=1e-12, atol=0): continue
        cx.eq(int(s.n_freq), len(exp), 'number of frequencies', c)
        cx.eq(np.asarray(s.eigs).shape[0], len(exp), 'rows of the eigenvalue array', c)
        fs = sorted(os.listdir(os.path.join(s.savedir_sim, 'modes')))
        cx.eq(fs, [f'freq_idx_{f:08d}.npy' for f in range(len(exp))], 'mode files', c)
        with np.load(os.path.join(s.savedir_sim, 'eigs_freq.npz')) as z: cx.eq(z['freq'], got, 'saved frequency axis', c)
        # physical check: a pure tone at bin k peaks at the bin labelled with its frequency
        # (real tones: away from the mean and Nyquist bins, where the window mixes a tone with its own image)
        n = c['n_dft']; t = np.arange(c['nt'])
        if not c['cplx'] and n < 10: continue
        k = int(cx.rng.integers(1, n)) if c['cplx'] else int(cx.rng.integers(3, n//2-1))
        if not c['cplx'] and c['full'] and cx.rng.random() < .5: k = n-k
        f0 = o_freq(c['n_dft'], c['dt'], False, False)[k]
        tone = np.exp(2j*np.pi*f0*c['dt']*t) if c['cplx'] else np.cos(2*np.pi*f0*c['dt']*t + .3)
        Y = tone[:, None]*np.ones(2); p2 = dict(p, savedir=cx.dir(), n_variables=1, n_space_dims=1, mean_type='zero')
        s2 = guarded(cx, 'fit of a tone failed', dict(c, bin=k), lambda: fit(Y, p2))
        if s2 is None: continue
        j = int(np.argmax(np.abs(s2.eigs[:, 0]))); lab = float(np.asarray(s2.freq)[j]); fs_ = 1/c['dt']
        dist = min(abs(abs(lab) - f) for f in (abs(f0), fs_-abs(f0))) if not c['cplx'] else abs((lab - f0 + fs_/2) % fs_ - fs_/2)
        if dist > 1e-9*fs_: cx.fail(f'a tone at frequency {f0} peaks at the bin labelled {lab}', dict(c, bin=k))

# --------------------------------------------------------------------- C05/C06
def modal_checks(cx, c, s, X, p, w, what, modes=None, eigs=None):
    Q, mean, nblk, real = o_blocks(X, p)
    L = o_spod(Q, w)
    full = p.get('fullspectrum', False)
    D = o_double(L, c['n_dft'], real, full)
    e = np.asarray(s.eigs if eigs is None else eigs)
    if e.shape != D.shape: cx.fail(f'{what}: eigenvalues of shape {e.shape} instead of {D.shape}', c); return
    if np.max(np.abs(np.imag(e))) > 0 or np.min(np.real(e)) < 0: cx.fail(f'{what}: eigenvalues not real and non-negative', c); return
    e = np.real(e); tol = 1e-9*np.max(D) + 1e-13
    if np.any(np.diff(e, axis=1) > tol): cx.fail(f'{what}: eigenvalues not in descending order', dict(c, eigs=e)); return
    nms = min(c['nms'], nblk)
    for f in range(D.shape[0]):
        P = load_modes(s, f) if modes is None else modes(f)
        if P.shape != (*c['xs'], c['nv'], nms): cx.fail(f'{what}: modes of shape {P.shape} instead of {(*c["xs"], c["nv"], nms)}', c); return
        P = P.reshape(-1, nms)
        keep = [j for j in range(nms) if L[f, j] > 1e-7*max(L[f, 0], 1e-300) and L[f, j] > 1e-12]
        if not keep: continue
        G = P[:, keep].conj().T @ (w[:, None]*P[:, keep])
        if not cx.close(G, np.eye(len(keep)), f'{what}: weighted Gram matrix of the modes at bin {f}', dict(c, bin=f), rtol=1e-6, atol=1e-6): return
        A = Q[:, f, :].T
        S = A @ (A.conj().T @ (w[:, None]*P[:, keep]))/nblk
        scale = np.max(np.abs(P[:, keep]))*L[f, 0]
        if not cx.close(S, P[:, keep]*L[f, keep], f'{what}: eigen-equation of the cross-spectral matrix at bin {f} (mode j with j-th eigenvalue)', dict(c, bin=f), rtol=1e-6, atol=1e-7*scale): return
    return D

def C05(cx):
    for i, c in enumerate(configs(cx, 120 if cx.big else 40)):
        if cx.stop(): return
        X, p = setup(cx, c)
        if i % 4 == 0: w = None
        else: w = posweights(cx, c)
        if i % 7 == 3: X = X - 0; X[..., -1] = X[..., 0]                    # rank-deficient
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, X, p, weights=w))
        if s is None: continue
        wf = np.ones(int(np.prod(c['xs']))*c['nv']) if w is None else w['weights'].ravel()
        cx.count((c['n_dft'], c['nt'], c['nv'], c['xs'], c['cplx'], c['full'], w is None), c)
        D = modal_checks(cx, c, s, X, p, wf, 'fit')
        if D is not None:
            e = np.real(s.eigs); f = slice(None)
            # un-doubled eigenvalues: compare ratios within each bin, absolute scaling is C06
            for k in range(D.shape[0]):
                if D[k, 0] > 1e-12:
                    r = e[k]/e[k, 0] if e[k, 0] > 0 else e[k]
                    if not cx.close(r, D[k]/D[k, 0], f'relative eigenvalues at bin {k}', c, rtol=1e-6, atol=1e-7): break
    # one point per process and uneven partitions
    jobs, refs = [], []
    for xs, nv in (((3,), 1), ((2, 2), 2), ((4,), 1)):
        for c in configs(cx, 1, xs=xs, nv=nv, trailing=True):
            X, p = setup(cx, c); w = posweights(cx, c); jobs.append(('j_fit', dict(X=X, p=p, weights=w))); refs.append((X, p, c, w))
    for size in (3,) if not cx.big else (2, 3, 4):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel fit: ' + res, [r[2] for r in refs]); return
        for (X, p, c, w), r in zip(refs, res):
            cx.count(('mpi', size, c['xs'], c['n_dft']))
            modal_checks(cx, c, None, X, p, w['weights'].ravel(), f'fit on {size} processes',
                         modes=lambda f, r=r: r[0]['modes'][f'freq_idx_{f:08d}.npy'], eigs=r[0]['eigs'])

def C06(cx):
    from scipy.stats import chi2
    for i, c in enumerate(configs(cx, 120 if cx.big else 45)):
        if cx.stop(): return
        conf = float(cx.rng.choice([.5, .6, .8, .9, .95, .99, .999]))
        X, p = setup(cx, c, conf_level=conf)
        w = posweights(cx, c)
        s = guarded(cx, 'fit of a valid set-up failed', dict(c), lambda: refit(cx, X, p, weights=w))
        if s is None: continue
        Q, mean, nblk, real = o_blocks(X, p)
        L = o_spod(Q, w['weights'].ravel()); D = o_double(L, c['n_dft'], real, c['full'])
        cx.count((c['n_dft'], c['nt'], c['cplx'], c['full'], conf), c)
        e = np.asarray(s.eigs)
        if not cx.close(e, D, 'eigenvalues', dict(c, X=X), rtol=1e-8, atol=1e-9*np.max(D)): continue
        # total energy over both sides
        pc = dict(p, fullspectrum=True)
        Qf = o_blocks(X, pc)[0]
        tot = np.sum(np.abs(Qf)**2*w['weights'].ravel())/nblk
        cx.close(np.sum(np.real(e)), tot, 'sum of the eigenvalues against the mean energy of the realizations', c, rtol=1e-8)
        with np.load(os.path.join(s.savedir_sim, 'eigs_freq.npz')) as z:
            if not {'eigs', 'eigs_c_l', 'eigs_c_u', 'freq'} <= set(z.files): cx.fail(f'saved arrays {z.files}', c); continue
            cx.close(z['eigs'], e, 'saved eigenvalues', c)
            lo, up = np.real(z['eigs_c_l']), np.real(z['eigs_c_u'])
        ql, qu = chi2.ppf(conf, 2*nblk), chi2.ppf(1-conf, 2*nblk)
        cx.close(lo, np.real(e)*2*nblk/ql, 'lower confidence bound', dict(c, conf=conf), rtol=1e-7)
        cx.close(up, np.real(e)*2*nblk/qu, 'upper confidence bound', dict(c, conf=conf), rtol=1e-7)
        er = np.real(e)
        if conf >= .6 and (np.any(lo > er + 1e-12) or np.any(up < er - 1e-12)): cx.fail('confidence bounds do not bracket the eigenvalue', dict(c, conf=conf))

# --------------------------------------------------------------------- C07
def C07(cx):
    from pyspod.utils.reader import reader_1stage
    from pyspod.spod.streaming import Streaming
    for i in range(150 if cx.big else 60):
        if cx.stop(): return
        nd = int(cx.rng.integers(1, 5)); lens = [int(cx.rng.choice([1, 1, 2, 3, 5])) for _ in range(nd)]
        xs = [(3,), (2, 3), (1,), (2, 2, 2)][i % 4]; nv = [1, 1, 2][i % 3]; tr = nv > 1 or i % 2 == 0
        cplx = i % 5 == 0; nt = sum(lens)
        X = randdata(cx.rng, nt, xs, nv, cplx, tr)
        if cplx and i % 10 == 0: X[0] = X[0].real                # the first snapshot happens to be real
        parts = np.split(X, np.cumsum(lens)[:-1])
        inp = dict(lengths=lens, xs=xs, nv=nv, complex=cplx, trailing=tr)
        r = guarded(cx, 'reader', inp, lambda: reader_1stage(parts, len(xs), np.float64, None, nv))
        if r is None: continue
        Z = X if tr else X[..., None]
        cx.eq(int(r.nt), nt, 'record length', inp); cx.eq(bool(r.is_real), bool(np.isreal(X).all()), 'real/complex detection', inp)
        cx.eq(tuple(r.xshape), tuple(xs), 'grid shape', inp)
        with quiet(): d = guarded(cx, 'whole record', inp, lambda: r.get_data())
        if d is not None: cx.close(d, Z, 'whole record', inp, rtol=0, atol=0)
        rg = [(a, a+1) for a in range(nt)] + [tuple(sorted(cx.rng.choice(nt+1, 2, replace=False))) for _ in range(4)]
        for a, b in rg:
            a, b = int(a), int(b); cx.count((tuple(lens), a, b, nv, len(xs)), dict(inp, ts=a, te=b))
            with quiet(): d = guarded(cx, f'snapshots [{a},{b})', inp, lambda: r.get_data_for_time(a, b))
            if d is None or not cx.close(d, Z[a:b], f'snapshots [{a},{b})', dict(inp, ts=a, te=b), rtol=0, atol=0): break
        with quiet(): d = guarded(cx, 'single snapshot', inp, lambda: r.get_data(nt-1))
        if d is not None: cx.close(d, Z[nt-1:nt], 'last snapshot', inp, rtol=0, atol=0)
    # mismatched datasets are rejected
    try:
        with quiet(): reader_1stage([np.zeros((3, 4)), np.zeros((3, 5))], 1, np.float64, None, 1)
        cx.fail('datasets of different spatial shape accepted', {})
    except Exception: cx.count('shape-mismatch')
    # fits
    for c in configs(cx, 20 if cx.big else 8):
        X, p = setup(cx, c)
        k = sorted(set(int(v) for v in cx.rng.integers(1, c['nt'], size=int(cx.rng.integers(1, 4)))))
        parts = np.split(X, k)
        for cls, nm in ((None, 'batch'), (Streaming, 'streaming')):
            if cls is not None and c['cplx']: continue
            pp = dict(p, n_modes_save=2)
            a = guarded(cx, f'{nm} fit', c, lambda: fit([X], dict(pp, savedir=cx.dir()), cls=cls))
            b = guarded(cx, f'{nm} fit of a split record', dict(c, cuts=k), lambda: fit(parts, dict(pp, savedir=cx.dir()), cls=cls))
            if a is None or b is None: continue
            cx.count((nm, c['n_dft'], c['nt'], tuple(k)))
            cx.close(b.eigs, a.eigs, f'eigenvalues of a {nm} fit of a split record', dict(c, cuts=k), rtol=1e-8)
            for f in range(len(a.freq)):
                if not cx.close(np.nan_to_num(np.abs(load_modes(b, f))), np.nan_to_num(np.abs(load_modes(a, f))), f'modes of a {nm} fit of a split record', dict(c, cuts=k), rtol=1e-5, atol=1e-5): break
    # parallel ranges
    jobs, refs = [], []
    for xs, nv in (((5,), 1), ((2, 7), 2), ((4, 3, 5), 1)):
        X = randdata(cx.rng, 9, xs, nv, False, True); parts = np.split(X, [2, 3, 7]); rg = [(0, 9), (2, 3), (3, 4), (6, 9), (8, 9), (1, 8)]
        jobs.append(('j_reader1', dict(parts=parts, xdim=len(xs), nv=nv, ranges=rg))); refs.append((X, rg, xs, nv))
    for size in (3,) if not cx.big else (2, 3, 5):
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel reader: ' + res, {}); return
        for (X, rg, xs, nv), r in zip(refs, res):
            ax = int(np.argmax(X.shape[1:]))
            for k, (a, b) in enumerate(rg):
                cx.count(('mpi', size, xs, a, b)); inp = dict(xs=xs, nv=nv, ts=a, te=b, size=size)
                cat = guarded(cx, 'local parts do not fit together', inp, lambda: np.concatenate([q['data'][k] for q in r], axis=ax+1))
                if cat is not None: cx.close(cat, X[a:b], 'local parts in rank order', inp, rtol=0, atol=0)

# --------------------------------------------------------------------- C08
def C08(cx):
    import pyspod.utils.parallel as PA
    bd = getattr(PA, '_blockdist', None)
    hi = 60 if not cx.big else 200
    for P in range(1, 14 if not cx.big else 40):
        for N in list(range(0, hi)) + [int(v) for v in cx.rng.integers(1, 10**9, size=5)]:
            exp = blockranges(N, P)
            cx.count((N, P), None)
            if N <= 40:
                data = np.arange(N)
                parts = [PA.distribute_dimension(data, 0, FakeComm(r, P)) for r in range(P)]
                got = [(int(q[0]) if len(q) else s, len(q)) for q, (s, _) in zip(parts, exp)]
                if not np.array_equal(np.concatenate(parts), data) or any(abs(len(a)-len(b)) > 1 for a in parts for b in parts):
                    cx.fail(f'axis of length {N} over {P} processes cut as {[q.tolist() for q in parts]}', dict(N=N, P=P))
            elif bd is not None:
                got = [tuple(int(v) for v in bd(N, P, r)) for r in range(P)]
                s = 0
                for n, st in got:
                    if st != s or n < 0: cx.fail(f'ranges {got} of an axis of length {N} are not contiguous', dict(N=N, P=P)); break
                    s += n
                else:
                    if s != N or max(g[0] for g in got) - min(g[0] for g in got) > 1: cx.fail(f'ranges {got} do not balance/cover {N}', dict(N=N, P=P))
            if cx.stop(): return
    for i in range(300 if cx.big else 100):
        nd = int(cx.rng.integers(1, 5)); shape = tuple(int(v) for v in cx.rng.integers(1, 7, size=nd)); P = int(cx.rng.integers(1, 6))
        X = np.arange(int(np.prod(shape))).reshape(shape) + 1
        for ax in range(nd):
            parts = guarded(cx, 'distribute_dimension', dict(shape=shape, axis=ax, P=P), lambda: [PA.distribute_dimension(X, ax, FakeComm(r, P)) for r in range(P)])
            if parts is None: continue
            cx.count(('dim', shape, ax, P), dict(shape=shape, axis=ax, P=P))
            if not np.array_equal(np.concatenate(parts, axis=ax), X): cx.fail('distribute_dimension: parts in rank order do not give the array', dict(shape=shape, axis=ax, P=P))
        am = int(np.argmax(shape))
        parts = [PA.distribute(X, FakeComm(r, P)) for r in range(P)]
        if any(int(q[1]) != am or tuple(q[2]) != shape for q in parts) or not np.array_equal(np.concatenate([q[0] for q in parts], axis=am), X):
            cx.fail('distribute: not a partition along the longest axis', dict(shape=shape, P=P))
        if nd > 1:
            am = int(np.argmax(shape[1:]))
            parts = [PA.distribute_data(X, FakeComm(r, P)) for r in range(P)]
            if any(int(q[1]) != am or tuple(q[2]) != shape[1:] for q in parts) or not np.array_equal(np.concatenate([q[0] for q in parts], axis=am+1), X):
                cx.fail('distribute_data: not a partition along the longest spatial axis', dict(shape=shape, P=P))
        for f in (PA.distribute, PA.distribute_data) if nd > 1 else (PA.distribute,):
            q = f(X, None)
            if not np.array_equal(q[0], X): cx.fail(f'{f.__name__} without a communicator changes the data', dict(shape=shape))
        if not np.array_equal(PA.distribute_dimension(X, 0, None), X): cx.fail('distribute_dimension without a communicator changes the data', dict(shape=shape))

# --------------------------------------------------------------------- C09
def same_modes(cx, a, b, w, what, inp, keep):
    """a, b [points, modes], equal up to a phase per (non-degenerate) mode."""
    for j in keep:
        ph = np.vdot(a[:, j], w*b[:, j])
        if abs(ph) < 1e-12: cx.fail(f'{what}: mode {j} orthogonal to the serial one', inp); return
        if not cx.close(b[:, j]*np.conj(ph/abs(ph)), a[:, j], f'{what}: mode {j}', inp, rtol=1e-5, atol=1e-6): return

def C09(cx):
    import pyspod.spod.utils as U
    cs, jobs, jobs2 = [], [], []
    shapes = [((5,), 1), ((3,), 1), ((2, 7), 2), ((4, 3), 1), ((3, 2, 4), 2), ((2,), 3), ((1, 5), 1)]
    for (xs, nv) in shapes:
        c = configs(cx, 1, xs=xs, nv=nv)[0]; c['mean_type'] = ['longtime', 'blockwise', 'zero'][len(cs) % 3]; c['nd'] = len(cs) % 3 == 1
        X, p = setup(cx, c, normalize_weights=(len(cs) % 2 == 0 and not c['cplx'])); w = posweights(cx, c) if len(cs) % 3 else None
        cs.append((c, X, p, w))
    serial = []
    for c, X, p, w in cs:
        s = guarded(cx, 'serial fit', c, lambda: fit(X, dict(p, savedir=cx.dir()), weights=w))
        serial.append(s)
        if s is not None:
            with np.load(os.path.join(s.savedir_sim, 'eigs_freq.npz')) as z: s.z = {k: z[k] for k in z.files}
    rc = []
    for xs, nv, kw in (((5,), 1, {}), ((2, 4), 2, dict(T_lb=2.5, T_ub=20.)), ((3, 3), 1, dict(freq_idx=[1, 2]))):
        c = configs(cx, 1, xs=xs, nv=nv, cplx=False, full=False, n_dft=8, overlap=50, nt=34, nms=2, trailing=True, dt=1.)[0]; c['mean_type'] = 'longtime'
        X, p = setup(cx, c); w = posweights(cx, c)
        s = guarded(cx, 'serial fit', c, lambda: fit(X, dict(p, savedir=cx.dir()), weights=w))
        if s is None: continue
        with quiet():
            q = guarded(cx, 'serial projection', dict(c, **kw), lambda: U.compute_coeffs_op(X, s.savedir_sim, **kw))
            if q is None: continue
            fr, _ = U.compute_reconstruction(q[1], time_idx='all')
        rc.append((c, X, p, w, kw, np.load(q[0]), np.load(fr)))
    for size in ((2, 3) if not cx.big else (2, 3, 4, 5)):
        jobs = [('j_fit', dict(X=X, p=dict(p, savedir=cx.dir()), weights=w)) for c, X, p, w in cs]
        jobs += [('j_coeffs', dict(X=X, p=dict(p, savedir=cx.dir()), weights=w, **kw)) for c, X, p, w, kw, a, b in rc]
        res = run_mpi(jobs, size, cx.tmp)
        if isinstance(res, str): cx.fail('parallel: ' + res, [c for c, *_ in cs]); return
        for (c, X, p, w), s, r in zip(cs, serial, res):
            if s is None: continue
            inp = dict(c, processes=size); cx.count((size, c['xs'], c['nv'], c['n_dft']), inp)
            for rr in r:
                cx.close(rr['eigs'], s.eigs, f'eigenvalues on {size} processes', inp, rtol=1e-7, atol=1e-10)
                cx.close(rr['freq'], s.freq, f'frequencies on {size} processes', inp)
            r = r[0]
            for k in s.z: cx.close(r['npz'][k], s.z[k], f'saved {k} on {size} processes', inp, rtol=1e-7, atol=1e-10) if k in r['npz'] else cx.fail(f'{k} not saved on {size} processes', inp)
            cx.close(r['ltm'], np.load(os.path.join(s.savedir_sim, 'ltm_modes.npy')), f'long-time mean on {size} processes', inp)
            W = np.load(os.path.join(s.savedir_sim, 'weights.npy'))
            cx.close(r['weights'], W, f'weights on {size} processes', inp)
            e = np.real(s.eigs)
            for f in range(e.shape[0]):
                A = load_modes(s, f); B = r['modes'].get(f'freq_idx_{f:08d}.npy')
                if B is None or B.shape != A.shape: cx.fail(f'modes file {f} on {size} processes: {None if B is None else B.shape} instead of {A.shape}', inp); break
                nm = A.shape[-1]
                keep = [j for j in range(nm) if e[f, j] > 1e-6*e[f, 0] and all(abs(e[f, j]-e[f, k]) > 1e-3*e[f, 0] for k in range(e.shape[1]) if k != j)]
                n0 = len(cx.viol)
                same_modes(cx, A.reshape(-1, nm), B.reshape(-1, nm), W.ravel(), f'modes at bin {f} on {size} processes', inp, keep)
                if len(cx.viol) > n0: break
        for (c, X, p, w, kw, a, b), r in zip(rc, res[len(cs):]):
            inp = dict(c, processes=size, **kw); cx.count(('coef', size, c['xs'], str(kw)))
            cx.close(r[0]['recon'], b, f'reconstruction on {size} processes', inp, rtol=1e-6, atol=1e-7)
            cx.close(np.abs(r[0]['coeffs']), np.abs(a), f'coefficients on {size} processes', inp, rtol=1e-5, atol=1e-6)
            for q in r:
                if not q['ortho'][0][0] or abs(q['ortho'][0][1]-1) > 1e-6 or not q['ortho'][1][0]: cx.fail(f'orthogonality check on {size} processes: {q["ortho"]}', inp)
        if cx.stop(): return
