"""Executed under mpiexec: runs jobs collectively on the real code, rank 0 writes the results."""
import os, pickle, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import numpy as np
from mpi4py import MPI

def j_fit(comm, X, p, weights=None, cls='standard', load=True, freq_modes=True, variables=None, patch_chunks=None, repeat=1):
    from pyspod.spod.standard import Standard
    from pyspod.spod.streaming import Streaming
    if patch_chunks:
        import pyspod.spod.base as b
        for nm in ('utils_reader_2stage', 'utils_reader_mat'):
            orig = getattr(b, nm, None)
            if orig is None: continue
            orig = getattr(orig, '_orig', orig)
            def mk(*a, _o=orig, **k):
                r = _o(*a, **k)
                if hasattr(r, '_nchunks'): r._nchunks = patch_chunks
                return r
            mk._orig = orig
            setattr(b, nm, mk)
    C = Standard if cls == 'standard' else Streaming
    kw = dict(variables=variables) if variables else {}
    for _ in range(repeat):
        s = lib.fit(X, p, weights=weights, comm=comm, cls=C, **kw)
    comm.Barrier()
    out = dict(eigs=np.asarray(s.eigs), freq=np.asarray(s.freq), n_blocks=int(s.n_blocks), n_modes_save=int(s.n_modes_save),
               dir=s.savedir_sim)
    if comm.rank == 0:
        d = s.savedir_sim
        out['files'] = sorted(os.listdir(os.path.join(d, 'modes')))
        out['modes'] = {}
        for fn in out['files']: out['modes'][fn] = np.load(os.path.join(d, 'modes', fn))
        out['ltm'] = np.load(os.path.join(d, 'ltm_modes.npy'))
        out['weights'] = np.load(os.path.join(d, 'weights.npy'))
        bd = os.path.join(d, 'blocks')
        if os.path.isdir(bd): out['blocks'] = {fn: np.load(os.path.join(bd, fn)) for fn in sorted(os.listdir(bd))}
        with np.load(os.path.join(d, 'eigs_freq.npz')) as z: out['npz'] = {k: z[k] for k in z.files}
    return out

def j_coeffs(comm, X, p, weights=None, time_idx='all', T_lb=None, T_ub=None, freq_idx=None, svd=False, conv=False):
    import pyspod.spod.utils as U
    s = lib.fit(X, p, weights=weights, comm=comm)
    with lib.quiet():
        fc, cd = (U.compute_coeffs_conv if conv else U.compute_coeffs_op)(X, s.savedir_sim, T_lb=T_lb, T_ub=T_ub, freq_idx=freq_idx, svd=svd, comm=comm)
        comm.Barrier()
        fr, _ = U.compute_reconstruction(cd, time_idx=time_idx, comm=comm)
    comm.Barrier()
    out = {}
    if comm.rank == 0:
        out = dict(coeffs=np.load(fc), recon=np.load(fr), phi=np.load(os.path.join(cd, 'modes_r.npy')),
                   ltm=np.load(os.path.join(cd, 'ltm.npy')))
    with lib.quiet():
        o = [U.check_orthogonality(s.savedir_sim, [0], [j], [1], comm=comm) for j in (0, 1)]
    out['ortho'] = [(bool(np.all(a)), complex(np.ravel(b)[0])) for a, b in o]
    return out

def j_pod(comm, X, p, weights=None):
    from pyspod.pod.standard import Standard
    import pyspod.pod.utils as PU
    with lib.quiet():
        s = Standard(params=dict(p), weights=weights, comm=comm); s.fit(X)
        Xc = np.concatenate(X, axis=0) if isinstance(X, list) else X
        fc, cd = PU.compute_coeffs_op(Xc, s._savedir_sim, comm=comm)
        comm.Barrier()
        fr, _ = PU.compute_reconstruction(cd, time_idx='all', comm=comm)
    comm.Barrier()
    if comm.rank: return {}
    return dict(coeffs=np.load(fc), recon=np.load(fr), modes=np.load(os.path.join(s._savedir_sim, 'modes.npy')), eigs=np.asarray(s._eigs))

def j_reader(comm, files, xdim, nv, variables=None, nreaders=None, nchunks=None, nblocks=None, kind='nc', ranges=(), single='double', limit=None):
    import pyspod.utils.reader as module
    from pyspod.utils.reader import reader_2stage, reader_mat
    if limit:
        # message counts with a small largest integer: the path a real read takes from 2^31 elements on
        class Numpy:
            def __getattr__(self, k): return getattr(np, k)
            def iinfo(self, t): return type('iinfo', (), dict(max=limit, min=-limit-1))() if np.dtype(t) == np.int32 else np.iinfo(t)
        module.np = Numpy()
        try: return j_reader(comm, files, xdim, nv, variables, nreaders, nchunks, nblocks, kind, ranges, single)
        finally: module.np = np
    dt = np.float64 if single == 'double' else np.float32
    with lib.quiet():
        if kind == 'nc': r = reader_2stage(files, xdim, dt, comm, nv, variables, nreaders=nreaders)
        else: r = reader_mat(files, xdim, dt, comm, nv)
        if nchunks and hasattr(r, '_nchunks'): r._nchunks = nchunks
        if nblocks and hasattr(r, '_nblocks'): r._nblocks = nblocks
        d = r.get_data()
        out = dict(chunks=[(int(v['s']), int(v['e']), np.asarray(v['v'])) for k, v in d.items()] if isinstance(d, dict) else np.asarray(d),
                   nt=int(r.nt), xshape=tuple(int(v) for v in r.xshape), nx=int(r.nx))
        out['ranges'] = [np.asarray(r.get_data_for_time(a, b)) for a, b in ranges]
        out['single'] = [np.asarray(r.get_data(a)) for a, b in ranges]
    return out

def j_reader1(comm, parts, xdim, nv, ranges):
    from pyspod.utils.reader import reader_1stage
    with lib.quiet():
        r = reader_1stage(parts, xdim, np.float64, comm, nv)
        return dict(max_axis=int(r.max_axis), nt=int(r.nt), data=[np.asarray(r.get_data_for_time(a, b)) for a, b in ranges])

def j_pvar(comm, arr, cuts):
    from pyspod.utils.parallel import pvar
    loc = np.array(arr[cuts[comm.rank]:cuts[comm.rank+1]])
    keep = loc.copy()
    v, m, n = pvar(loc, comm)
    return dict(v=float(v), m=float(m), n=int(n), kept=bool(np.array_equal(keep, loc)))

def j_norm(comm, data, weights, nv, axis, method='variance'):
    import pyspod.utils.weights as W
    import pyspod.utils.parallel as PA
    d = PA.distribute_dimension(data, axis+1, comm)
    w = PA.distribute_dimension(weights, axis, comm).copy()
    keep = w.copy()
    with lib.quiet(): r = W.apply_normalization(data=d, weights=w, n_vars=nv, comm=comm, method=method)
    return dict(w=np.asarray(r), kept=bool(np.array_equal(keep, w)))

def j_npy(comm, arr, axis, cuts, path, order='C', pre=None, dtype=None):
    import pyspod.utils.parallel as PA
    if dtype is not None: arr = arr.astype(dtype)         # pickling does not keep the byte order
    if comm.rank == 0 and pre is not None: np.save(path, pre)
    comm.Barrier()
    sl = [slice(None)]*arr.ndim; sl[axis] = slice(cuts[comm.rank], cuts[comm.rank+1])
    loc = np.array(arr[tuple(sl)], order=order)
    PA.npy_save(comm, path, loc, axis=axis)
    comm.Barrier()
    out = dict()
    if comm.rank == 0:
        try: out['file'] = np.load(path)
        except Exception as e: out['file'] = repr(e)
    a = PA.npy_load(comm, path, axis=axis, count=cuts[comm.rank+1]-cuts[comm.rank])
    out['explicit'] = np.array(a)
    out['default'] = np.array(PA.npy_load(comm, path, axis=axis))
    comm.Barrier()
    if comm.rank == 0: np.save(path, np.array(arr, order=order))       # a file another program wrote, in the byte order of arr
    comm.Barrier()
    out['foreign'] = np.array(PA.npy_load(comm, path, axis=axis))
    return out

def j_allreduce(comm, parts):
    import pyspod.utils.parallel as PA
    return np.asarray(PA.allreduce(parts[comm.rank], comm))

def j_dist(comm, data):
    import pyspod.utils.parallel as PA
    a, ax, gs = PA.distribute(data, comm)
    b, bx, gs2 = PA.distribute_data(data, comm)
    return dict(a=np.array(a), ax=int(ax), b=np.array(b), bx=int(bx))

if __name__ == '__main__':
    comm = MPI.COMM_WORLD
    with open(sys.argv[1], 'rb') as f: jobs = pickle.load(f)
    results = []
    for name, kw in jobs:
        try:
            res = globals()[name](comm, **kw)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join(f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb[-3:])
            sys.stderr.write(f'Error in {name}: {type(e).__name__}: {e} ({where})\n'); sys.stderr.flush()
            results.append([f'{type(e).__name__}: {e} ({where})'])
            with open(sys.argv[2] + f'.err{comm.rank}', 'w') as f: f.write(f'{name}: {type(e).__name__}: {e} ({where})')
            comm.Abort(3)
        results.append(comm.gather(res, root=0))
    if comm.rank == 0:
        with open(sys.argv[2]+'.tmp', 'wb') as f: pickle.dump(results, f)
        os.replace(sys.argv[2]+'.tmp', sys.argv[2])
