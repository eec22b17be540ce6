"""Support code for the contract replay: runs the real pyspod of /repo on
concrete inputs and compares with independent oracles written from the text of
the properties.  Runs under /opt/venv/bin/python."""
import contextlib, io, json, os, pickle, shutil, subprocess, sys, tempfile, warnings
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPI4PY_MPIABI', 'openmpi')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
os.environ.setdefault('OMP_NUM_THREADS', '2')
for k, v in dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
                 OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
                 OMPI_MCA_plm_rsh_agent='/bin/false', OMPI_MCA_rmaps_base_oversubscribe='1',
                 OMPI_MCA_hwloc_base_binding_policy='none').items():
    os.environ.setdefault(k, v)
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
MPIEXEC = '/usr/bin/mpiexec.openmpi'


class Violation(Exception):
    """The property fails on a concrete input of the real code."""
    def __init__(self, what, inp):
        super().__init__(what)
        self.what, self.inp = what, inp


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size <= 64:
            return dict(shape=list(x.shape), dtype=str(x.dtype), values=[jsonable(v) for v in x.ravel().tolist()])
        return dict(shape=list(x.shape), dtype=str(x.dtype), first=[jsonable(v) for v in x.ravel()[:16].tolist()])
    if isinstance(x, complex): return dict(re=x.real, im=x.imag)
    if isinstance(x, (np.integer, np.floating, np.complexfloating, np.bool_)): return jsonable(x.item())
    if isinstance(x, dict): return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v, depth+1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)[:200]


class Ctx:
    """One run of the replay of one property."""
    def __init__(self, pid, seed, tier, tmp, known=()):
        self.pid, self.seed, self.tier, self.tmp = pid, seed, tier, tmp
        self.rng = np.random.default_rng([seed, sum(map(ord, pid))])
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.viol = []
        self.known = set(known)
        self.known_hit = {}
        self.n = 0
        self.big = tier == 'thorough'

    def dir(self):
        self.n += 1
        d = os.path.join(self.tmp, f'd{self.n}')
        os.makedirs(d)
        return d

    def count(self, key, sample=None):
        self.evals += 1
        self.nontrivial.add(str(key))
        if sample is not None and len(self.samples) < 4: self.samples.append(jsonable(sample))

    def fail(self, what, inp, finding=None):
        """Report a violation; `finding` identifies it in known-findings."""
        if finding is not None and finding in self.known:
            self.known_hit[finding] = what
            return
        self.viol.append(dict(what=what, input=jsonable(inp), finding=finding))

    def close(self, a, b, what, inp, rtol=1e-9, atol=1e-11, finding=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fail(f'{what}: shape {a.shape} instead of {b.shape}', inp, finding); return False
        if a.size == 0: return True
        scale = np.max(np.abs(b)) if np.all(np.isfinite(b)) else 1.
        ok = np.all(np.isfinite(a) == np.isfinite(b)) and np.allclose(a, b, rtol=rtol, atol=atol + rtol*scale, equal_nan=True)
        if not ok:
            with np.errstate(all='ignore'):
                i = np.unravel_index(np.nanargmax(np.where(np.isfinite(a) & np.isfinite(b), np.abs(a-b), np.inf)), a.shape)
            self.fail(f'{what}: at index {tuple(int(k) for k in i)} got {a[i]} expected {b[i]}', inp, finding)
        return ok

    def eq(self, a, b, what, inp, finding=None):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.array_equal(np.asarray(a), np.asarray(b))
        else:
            ok = a == b
        if not ok: self.fail(f'{what}: got {str(a)[:300]} expected {str(b)[:300]}', inp, finding)
        return ok

    def stop(self):
        return len(self.viol) >= 5


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


# --------------------------------------------------------------------------
# oracles
# --------------------------------------------------------------------------
def hamming(n):
    return np.array([0.54 - 0.46*np.cos(2*np.pi*t/(n-1)) for t in range(n)])

def o_overlap(n_dft, overlap): return int(np.ceil(n_dft*overlap/100))

def o_freq(n_dft, dt, real, full):
    if full: return np.array([k/(n_dft*dt) for k in range(n_dft)])
    if real: return np.array([k/(n_dft*dt) for k in range(n_dft//2+1)])
    return np.array([(k if 2*k < n_dft else k-n_dft)/(n_dft*dt) for k in range(n_dft)])

def flat(X, xdim, nv):
    X = np.asarray(X)
    if nv == 1 and X.ndim == xdim+1: X = X[..., None]
    return X.reshape(X.shape[0], -1)

def o_blocks(X, p):
    """Fourier realizations Q[blk, freq, point] by the text of C01/C02, and the mean."""
    n, dt = int(p['n_dft']), p['time_step']
    nov = o_overlap(n, p.get('overlap', 0))
    F = flat(X, p['n_space_dims'], p['n_variables'])
    nt = F.shape[0]
    nblk = (nt-nov)//(n-nov)
    real = bool(np.isreal(F).all())
    if real: F = F.real
    w = hamming(n)
    nf = n//2+1 if real and not p.get('fullspectrum', False) else n
    E = np.exp(-2j*np.pi*np.outer(np.arange(nf), np.arange(n))/n)
    mean = F.sum(axis=0)/nt
    Q = np.zeros((nblk, nf, F.shape[1]), complex)
    for b in range(nblk):
        y = np.array(F[b*(n-nov):b*(n-nov)+n], dtype=F.dtype if not real else float)
        assert y.shape[0] == n
        mt = p.get('mean_type', 'longtime').lower()
        if mt == 'longtime': y = y - mean
        elif mt == 'blockwise': y = y - y.sum(axis=0)/n
        if p.get('normalize_data', False):
            v = (np.abs(y - y.sum(axis=0)/n)**2).sum(axis=0)/(n-1)
            v = np.where(v < 4*np.finfo(float).eps, 1., v)
            y = y/v
        Q[b] = (E @ (y*w[:, None]))/(n*w.mean())
    return Q, mean, nblk, real

def o_spod(Q, w):
    """eigenvalues (descending, un-doubled) of Q Q^H W / nblk per frequency, through the small matrix."""
    nblk, nf, _ = Q.shape
    L = np.zeros((nf, nblk))
    for f in range(nf):
        A = Q[:, f, :]
        M = (A.conj()*w) @ A.T/nblk          # M[i,j] = sum_s conj(A_i) w A_j
        M = (M + M.conj().T)/2
        L[f] = np.linalg.eigvalsh(M)[::-1]
    return L

def o_double(L, n_dft, real, full):
    L = L.copy()
    if real and not full:
        for k in range(L.shape[0]):
            if k != 0 and 2*k != n_dft: L[k] *= 2
    return L

def blockranges(N, P):
    out, s = [], 0
    for r in range(P):
        n = N//P + (1 if r < N % P else 0)
        out.append((s, n)); s += n
    return out

# --------------------------------------------------------------------------
# running the code under test
# --------------------------------------------------------------------------
def mkparams(rng, d, **kw):
    p = dict(time_step=1.0, n_space_dims=1, n_variables=1, n_dft=8, overlap=0, mean_type='longtime',
             savedir=d, n_modes_save=3, savefft=False)
    p.update(kw)
    return p

def fit(X, p, weights=None, comm=None, cls=None, **kw):
    if cls is None:
        from pyspod.spod.standard import Standard as cls
    with quiet():
        s = cls(params=dict(p), weights=weights, comm=comm)
        s.fit(X, **kw)
    return s

REFITS = [0]
def refit(cx, X, p, weights=None):
    """fit; every third time with an object that has been fitted to another record before (more blocks, other values, possibly of the other kind)"""
    from pyspod.spod.standard import Standard
    REFITS[0] += 1
    if REFITS[0] % 3 or not isinstance(X, np.ndarray): return fit(X, p, weights)
    Y = 2*X[::-1] + 1 + (1j*X if REFITS[0] % 2 and not np.iscomplexobj(X) else 0)
    if np.iscomplexobj(X) and REFITS[0] % 2: Y = Y.real
    Y = np.concatenate([Y, Y[:p['n_dft']]] if REFITS[0] % 4 else [Y, Y, Y])
    with quiet():
        s = Standard(params=dict(p), weights=weights)
        s.fit(Y); s.fit(X)
    return s

def load_modes(s_or_dir, f):
    d = s_or_dir if isinstance(s_or_dir, str) else s_or_dir.savedir_sim
    return np.load(os.path.join(d, 'modes', f'freq_idx_{f:08d}.npy'))

def randdata(rng, nt, xs, nv, cplx=False, trailing=True, kind=0):
    shape = (nt, *xs, nv) if trailing else (nt, *xs)
    X = rng.standard_normal(shape)
    if kind == 1: X = X + 3 + 0.1*np.arange(nt).reshape((-1,) + (1,)*(len(shape)-1))
    if cplx: X = X + 1j*rng.standard_normal(shape)
    return X

def run_mpi(jobs, size, tmp, timeout=240):
    """Run a list of (function, kwargs) of replay/mpi_jobs.py on `size` processes.
    Returns a list of per-rank result lists, or a string describing a crash/hang."""
    d = tempfile.mkdtemp(dir=tmp)
    jf, rf = os.path.join(d, 'jobs.pkl'), os.path.join(d, 'res.pkl')
    with open(jf, 'wb') as f: pickle.dump(jobs, f)
    env = dict(os.environ, TMPDIR=d)
    try:
        r = subprocess.run([MPIEXEC, '-n', str(size), sys.executable, '-W', 'ignore',
                            os.path.join(HERE, 'mpi_jobs.py'), jf, rf],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env, cwd=d, start_new_session=True)
    except subprocess.TimeoutExpired:
        return f'no result after {timeout} s on {size} processes'
    if not os.path.exists(rf):
        import glob
        msgs = [open(g).read() for g in sorted(glob.glob(rf + '.err*'))]
        if msgs: return f'on {size} processes {msgs[0]}'
        err = [l for l in r.stderr.decode(errors='replace').splitlines() if 'Error' in l or 'error' in l][-3:]
        return f'{size} processes exited with {r.returncode}: ' + ' | '.join(err)[:600]
    with open(rf, 'rb') as f: return pickle.load(f)


class FakeComm:
    """Stand-in communicator for functions that only look at rank and size."""
    def __init__(self, rank, size): self.rank, self.size = rank, size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def Barrier(self): pass
    barrier = Barrier
