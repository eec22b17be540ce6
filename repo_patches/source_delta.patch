From 544f47d34eb079bb0254401e06570df028aeb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 01/42] fix: two-sided frequency axis for odd n_dft

For complex data and an odd number of DFT points the first negative-frequency
bin was labelled above Nyquist.
---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..7def859 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -627,7 +627,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From 6712db141bef4c4ab470df6930d738a7cb566323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/42] fix: index of snapshots read from second and later
 datasets

reader_1stage used the number of snapshots read so far as the start of the
dataset, so any read that did not start at time 0 returned wrong snapshots.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..8ceb1f8 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -97,7 +97,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 9dbfb69f57aa5b230b13e657cef6a31a457b6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 03/42] fix: keep the imaginary part of complex data

reader_1stage copied complex datasets into a real array and the long-time
mean was accumulated in a real array, so the imaginary part was dropped.
---
 pyspod/spod/base.py    |  6 ++++--
 pyspod/utils/reader.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 7def859..6e2bf71 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -593,7 +593,8 @@ class Base():
             last_val = data[last_key]["v"]
 
             shape_sxv = last_val[0,...].size
-            t_sum = np.zeros(last_val[0,...].shape)
+            t_sum = np.zeros(last_val[0,...].shape,
+                dtype=np.result_type(last_val.dtype, float))
 
             for k,v in data.items():
                 val = v["v"]
@@ -602,7 +603,8 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape,
+                dtype=np.result_type(data.dtype, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8ceb1f8..abc474b 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,13 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        # the data is real only if all datasets are, not just the first snapshot
+        self._is_real = all(
+            not np.issubdtype(d.dtype, np.complexfloating) or \
+            bool(np.isreal(np.asarray(d)).all()) for d in data_list)
+        # keep the imaginary part of complex data
+        if not self._is_real:
+            self._dtype = np.result_type(self._dtype, np.complex64)
         self._max_axis = np.argmax(self._shape[1:])
         del x_tmp
         del data
@@ -98,7 +104,8 @@ class reader_1stage():
 
                 d_idx = [np.s_[:]]*len(d.shape)
                 d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
-                data[tuple(data_idx)] = d[tuple(d_idx)]
+                vals = d[tuple(d_idx)]
+                data[tuple(data_idx)] = vals.real if self._is_real else vals
 
                 cum_read += read_je-read_js
             tmp_nt += d.shape[0]
-- 
2.43.0


From 356617c4533171a645cd73ac85246e9e37b281c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 04/42] fix: save and load FFT blocks of multi-variable and
 flattened data

The shape used for the FFT blocks did not include the variables, so
savefft and reuse_blocks failed for n_variables > 1.
---
 pyspod/spod/standard.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..b5f5ec6 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,10 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            if self._reader._flattened:
+                size_qhat = [self._nx, self._nv, self._n_blocks]
+            else:
+                size_qhat = [*self._xshape, self._nv, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +75,7 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = np.load(path).reshape(size_qhat[:-1])
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,8 +110,11 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
-                        if self._comm: shape[self._max_axis] = -1
+                        if self._reader._flattened:
+                            shape = [self._reader._local_shape, self._nv]
+                        else:
+                            shape = [*self._xshape, self._nv]
+                            if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
                             self._comm, path, Q_blk_hat_fr,
-- 
2.43.0


From 8ba966c656dac7bebde85dbd8a54a392a9e460f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 05/42] fix: reuse_blocks without savefft

The blocks folder was only defined when savefft was also set, and
reuse_blocks alone raised AttributeError.
---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6e2bf71..cb538c4 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
-- 
2.43.0


From 2b298caad81a731af6981db6e444a8a83efbd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 06/42] fix: standard SPOD when a process owns a single point

np.squeeze dropped the spatial axis of the Fourier realizations when the
(local) number of points is one.
---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index b5f5ec6..441bf75 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -201,7 +201,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
-- 
2.43.0


From 45819c59f5ccb89593c37acb0b73dac992f8954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 07/42] fix: do not normalize the weights of the caller in
 place

A second fit with the same weights dictionary normalized them twice.
---
 pyspod/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..444f8ef 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,9 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    ## do not modify the weights of the caller
+    weights = np.array(weights)
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From 8796dad4e505d7b5a102027a09e37b2ce57cc27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 08/42] fix: indices returned by find_nearest_coords

The index of each coordinate was read along the wrong axis.
---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..5e9d5e4 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 82a15783c10a69f7a33ca4acef4909bd04101caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 09/42] fix: local size in npy_load when count is not given

Operator precedence turned the local count into a boolean.
---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..825c151 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -285,7 +285,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (1 if count % size > rank else 0)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From 2841a928bb2cbc829680874f25979ed9bda38e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 10/42] fix: read_data for npy files

npy_load is not defined in the module.
---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From 8706638a32e1bb32d9bace23a3b548ba9c1d02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 11/42] fix: names of the saved confidence bounds

The lower bound was saved as eigs_c_u and the upper bound as eigs_c_l.
---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index cb538c4..eb180c2 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -692,8 +692,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
+                self._eigs_c_u = self._eigs_c[:,:,1]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From b9ec1c5a5366848a580672df62b11f4e629874af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 12/42] fix: one-sided correction of the eigenvalues

Eigenvalues of a full spectrum already include both sides and must not be
doubled; for odd n_dft the last frequency is not Nyquist and must be.
---
 pyspod/spod/standard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 441bf75..1fcc843 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -359,8 +359,10 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        if self._isrealx and not self._fullspectrum:
+            ## the last frequency is Nyquist only if n_dft is even
+            f_end = -1 if self._n_dft % 2 == 0 else None
+            L[1:f_end,:] = 2 * L[1:f_end,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
-- 
2.43.0


From 27172f6cde736f726e4e31ec23e909ca113671b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 13/42] fix: h1 error

Differences were summed over space before being squared, so opposite errors
cancelled out.
---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..6907750 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * (np.sum((uprime - utrueprime)**2)))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 9c386cb86a1404fdd82d091d5ad465b781fc2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 14/42] fix: get_all_modes must not change the working
 directory

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 5e9d5e4..46dbfd4 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -132,9 +132,8 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
         flist = []
-        for filename in glob.glob("*.npy"):
+        for filename in glob.glob(os.path.join(glob.escape(modes_path), "*.npy")):
             flist.append(filename)
         flist.sort()
         m = [None] * len(flist)
-- 
2.43.0


From c96e30caa6a7e343899bd5670f8cad3f79a90253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 15/42] fix: np.product no longer exists

reader_mat failed with numpy 2.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index abc474b..09d7bcd 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -529,7 +529,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From 6b42ad3cc4442f94c1b139981e7cad9ec7ebab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 16/42] fix: t_waitall used before assignment in the padded
 gather

---
 pyspod/utils/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 09d7bcd..0326784 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -356,6 +356,7 @@ class reader_2stage():
             del input_data
             utils_par.pr0(f'\t\t Copying data {time.time()-ztime} seconds', comm)
 
+            t_waitall = 0
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
 
@@ -649,6 +650,7 @@ class reader_mat():
             del input_data
             utils_par.pr0(f'\t\t Copying data {time.time()-ztime} seconds', comm)
 
+            t_waitall = 0
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
 
-- 
2.43.0


From 9ef3fbd284c2630b7f65c947e039b331e5127b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 17/42] fix: coefficients for given frequency ids

compute_coeffs_op failed if freq_idx was given without T_lb and T_ub, and
mis-sized the coefficients if it was given with them.
---
 pyspod/spod/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..e8ec393 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -123,12 +123,19 @@ def compute_coeffs_op(
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
         f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
     n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    else:
+        n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From 052bfdd088ec10c235846bc7ed67bc887d819a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 18/42] fix: POD of multi-variable data

The shape check compared the spatial shape with and without variables.
---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..51391d8 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From 2096f94db873ed2f64c6e5f2588164052a1c75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 19/42] fix: POD with the default number of modes

The default n_modes_save (1e10) is a float and cannot be used in a slice.
---
 pyspod/pod/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 51391d8..a8aacd0 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -235,6 +235,10 @@ class Base():
             assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
 
+        # there are at most as many modes as snapshots
+        if self._n_modes_save > self._nt:
+            self._n_modes_save = self._nt
+
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
         self._isrealx = np.isreal(data[0]).all()
-- 
2.43.0


From 483c7e7fd94b22fb6202c911ea13b9dca968087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 20/42] fix: order of POD modes

scipy.linalg.eig does not sort the eigenvalues, hence the truncation to
n_modes_save modes did not keep the most energetic ones.
---
 pyspod/pod/standard.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..d5c7f4c 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -51,6 +51,11 @@ class Standard(Base):
         Q = utils_par.allreduce(Q, comm=self._comm)
         w, v = scipy.linalg.eig(Q)
 
+        ## sort by energy, so that truncation keeps the leading modes
+        idx = np.argsort(w.real)[::-1]
+        w = w[idx]
+        v = v[:,idx]
+
         # bases
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
-- 
2.43.0


From b222f927de04c376e80e51597778754a6e8d60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 21/42] fix: POD coefficients with non-uniform weights

POD modes are orthonormal in the weighted inner product, the projection
must use it too.
---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..f2ec74f 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From 9af12913a94031a989663666c0e1af08400ede52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 22/42] fix: inference when the horizon is not a multiple of
 n_seq_out

The last predicted sequence may extend past the last snapshot; also fixes a
NameError in the check of the input size.
---
 pyspod/emulation/neural_nets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..b87c169 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -155,7 +155,7 @@ class Neural_Nets(Base):
         nt = data_in.shape[1]
         # check the size of the input array
         if nt < n_seq_in:
-            raise ValueError(network.lower(), 'data input error.')
+            raise ValueError(self._network.lower(), 'data input error.')
 
         # initialization of variables and vectors
         input_batch = np.zeros([1, n_seq_in, n_features])
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From 77922a44a7abf8501f1eb54b5759964f3a98f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 23/42] fix: streaming SPOD with a single point or a single
 mode

np.squeeze dropped the axis of length one, and the matrix products of the
basis update failed.
---
 pyspod/spod/streaming.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..b83acb1 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -98,12 +98,11 @@ class Streaming(Base):
 
             ## get new snapshot and abort if data stream runs dry
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
+                if ti >= self._nt:
                     self._pr0(f'--> Data stream ended.')
                     break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
@@ -160,10 +159,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 65381d6b25ef6ca5b5e3a98523645824aa2a0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 24/42] fix: streaming SPOD when new data lies in the span of
 the basis

---
 pyspod/spod/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index b83acb1..da53523 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -176,8 +176,9 @@ class Streaming(Base):
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
 
-                        ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        ## normalized orthogonal complement (zero if the
+                        ## new data lies in the span of the old basis)
+                        u_new = u_p / abs_up if abs_up > 0 else u_p
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From 7cb86e92c663e7b1ae86aa6c996d140e2e158dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 25/42] fix: parallel variance when a process owns no data

---
 pyspod/utils/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 825c151..484f288 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,15 +29,17 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
+    ## a process may own no data
+    m = np.mean(data) if n > 0 else 0.
     d = data - m
     d *= d
-    v = np.sum(d)/n
+    v = np.sum(d)/n if n > 0 else 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0: return a
         m = (na*ma + nb*mb)/n
         v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
         return ((n, m, v))
-- 
2.43.0


From d86e522988edcc354f51fac9ae9cea0ccf74db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 26/42] fix: check_orthogonality compares complex inner
 products by magnitude

phi and i*phi have the inner product i, which the lexicographic comparison
of complex numbers accepted as orthogonal.
---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index e8ec393..7b20daa 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -69,9 +69,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From e9052f0c3a84c8b5fb1c3412c20564cc2f961e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 27/42] fix: read_config keeps every key of a section entry,
 not only its first

---
 pyspod/utils/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 3b4eeb9..a6a12ab 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -78,10 +78,9 @@ def read_config(parsed_file=None):
 
 def _parse_yaml(l):
     params = dict()
-    for i,d in enumerate(l):
-        k = list(d.keys())[0]
-        v = d[k]
-        params[k] = v
+    for d in l:
+        # an entry of a section may hold several keys
+        params.update(d)
     return params
 
 
-- 
2.43.0


From a1cd08700bacb22e7f3d5b1fa867062c3d2aa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 28/42] fix: weights given flattened are reshaped like the
 data, so that they are distributed along the right axis

---
 pyspod/pod/base.py  | 4 ++++
 pyspod/spod/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index a8aacd0..74d7097 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -330,6 +330,10 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## flattened weights: same axes as the data
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, [*self._xshape, self._nv])
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index eb180c2..1080034 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,6 +562,10 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## flattened weights: same axes as the data
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, [*self._xshape, self._nv])
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From 59dfcb180b6bb6ee22585fb2313ee5346bbca71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 29/42] fix: streaming SPOD doubles only one-sided non-Nyquist
 frequencies

---
 pyspod/spod/streaming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index da53523..5fcaab1 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -77,7 +77,10 @@ class Streaming(Base):
 
         ## check if real for frequency axis
         if self._isrealx:
-            dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]
+            ## double one-sided non-zero and non-Nyquist frequencies
+            if not self._fullspectrum:
+                f_end = n_freq - 1 if self._n_dft % 2 == 0 else n_freq
+                dft[:,1:f_end] = 2 * dft[:,1:f_end]
             if self._fullspectrum:
                 freq_idx = np.arange(0, int(self._n_dft), 1)
             else:
-- 
2.43.0


From 6b9aee32b82a1fd8a2dc2f4f10800b09dcd65b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 30/42] fix: methods of the fitted object use the folders given
 by the caller

---
 pyspod/pod/base.py  | 4 ++--
 pyspod/spod/base.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 74d7097..c579622 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -384,7 +384,7 @@ class Base():
         See method implementation in the pod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -400,7 +400,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,
+                coeffs_dir=coeffs_dir, coeffs=coeffs, time_idx=time_idx,
                 comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1080034..2344400 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -164,7 +164,7 @@ class Base():
         :return: path to file where reconstruction is saved.
         :rtype: str
         '''
-        return self._file_dynamics
+        return self._file_recons
 
     @property
     def dim(self):
@@ -643,7 +643,7 @@ class Base():
         See method implementation in the spod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -659,7 +659,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)
+                coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
-- 
2.43.0


From 7e91e2e0123858fda10b2a92b425761eaa78a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 31/42] fix: coefficients by convolution use the selected
 frequencies and match the saved modes

---
 pyspod/spod/utils.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 7b20daa..c8b7cf4 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -289,12 +289,19 @@ def compute_coeffs_conv(
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
         f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
     n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    else:
+        n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -318,7 +325,7 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(data, axis=0)
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
@@ -326,12 +333,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for i, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[i,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -385,8 +392,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = (Q_blk * weights[:,0])
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
@@ -395,6 +402,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
@@ -411,7 +419,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.reshape(np.moveaxis(phir, 0, 1), shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 3e187747147fc2f4bd2f74da065c3ff5789cd02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 32/42] fix: two-stage reader selects snapshots by position,
 not by time label

---
 pyspod/utils/reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0326784..3a6e063 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -277,10 +277,7 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
-
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 394f220a5c78a6ed37ec9dea2734df2008fadad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 33/42] fix: variance of complex data is the mean squared
 modulus of the deviations

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 484f288..979727f 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -31,7 +31,7 @@ def pvar(data, comm):
     n = np.size(data)
     ## a process may own no data
     m = np.mean(data) if n > 0 else 0.
-    d = data - m
+    d = np.abs(data - m)
     d *= d
     v = np.sum(d)/n if n > 0 else 0.
 
@@ -41,7 +41,7 @@ def pvar(data, comm):
         n = na + nb
         if n == 0: return a
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
-- 
2.43.0


From 8b57940dbc4a5be655643b5f7a9eb419d54101f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 34/42] fix: files of integers hold real data

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 3a6e063..39f6cdb 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -211,7 +211,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if np.issubdtype(d.dtype, np.complexfloating):
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -506,7 +506,7 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if np.issubdtype(data.dtype, np.complexfloating):
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From 0ff2fc8e02b588bb9b1a1619c4144326e65684dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 35/42] fix: parallel reduction, save and load of data in
 foreign byte order

---
 pyspod/utils/parallel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 979727f..887371e 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -163,7 +163,7 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        data = data.astype(data.dtype.newbyteorder('='), copy=False)
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -189,7 +189,7 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         array = np.asarray(array)
         dtype = array.dtype
         shape = array.shape
@@ -301,7 +301,7 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_C
         else:
             mpi_order = MPI.ORDER_FORTRAN
-        datatype = dtlib.from_numpy_dtype(dtype)
+        datatype = dtlib.from_numpy_dtype(dtype.newbyteorder('='))
 
         if shape[axis] > 0:
             subarray = datatype.Create_subarray(
@@ -319,7 +319,7 @@ def npy_load(comm, filename, axis=0, count=None):
         datatype.Free()
         subarray.Free()
         array = np.empty(shape, dtype, npy_order)
-        file.Read_all(array)
+        file.Read_all(array.view(dtype.newbyteorder('=')))
         file.Close()
     else:
         array = np.load(filename)
-- 
2.43.0


From 23caa2a4b26eef662221a89292da459408fc6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 36/42] fix: normalize_data of complex data divides by the
 variance

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 1fcc843..6617ac8 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -179,7 +179,7 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
-- 
2.43.0


From fe5b3d9f0b55fd3c0e9f14aa5d48fb5d3cf7c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 37/42] fix: h1 norm of complex data

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 6907750..1514f89 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum((uprime - utrueprime)**2)))
+            err_h1 = err_h1 + (dt * (np.sum(np.abs(uprime - utrueprime)**2)))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 11e6dfa39a154312d100806f2367f8a55247657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 38/42] fix: message counts of the padded gather are integers

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 39f6cdb..1f3a430 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -300,7 +300,7 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
@@ -594,7 +594,7 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
-- 
2.43.0


From 504fafc25c42c7c336519775fdc121f18070bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 39/42] fix: scaling of integer data is not truncated

---
 pyspod/emulation/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 2ee8c22..777a307 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -82,7 +82,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No normalization performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros_like(data, dtype=np.result_type(data, np.float32))
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
                 data_out[:,j]= data[:,j] / vec.real
@@ -99,7 +99,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No denormalization is performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros_like(data, dtype=np.result_type(data, np.float32))
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
                 data_out[:,j]= data[:,j].real * vec.real
-- 
2.43.0


From 0f10f328b16b2b55438ff4488130cad546a9c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 40/42] fix: normalization of integer weights is not truncated

---
 pyspod/utils/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 444f8ef..e25522c 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -113,7 +113,7 @@ def apply_normalization(
     '''
 
     ## do not modify the weights of the caller
-    weights = np.array(weights)
+    weights = np.array(weights, dtype=np.result_type(weights, np.float32))
 
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
-- 
2.43.0


From 4e72e129b23e1eb59b34f07040f14350a0a03a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 41/42] fix: errors of unsigned and short integer data do not
 wrap around

---
 pyspod/utils/errors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 1514f89..466c76f 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -15,6 +15,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     :rtype: numpy.ndarray
     '''
     n = data.size
+    data, data_ref = _to_float(data), _to_float(data_ref)
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
     e_rel = ef / data_ref.flatten('C')
@@ -42,6 +43,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     :rtype: numpy.ndarray
     '''
     # warnings.warn("warning: for h1 calculation, dim0 must be time.")
+    data, data_ref = _to_float(data), _to_float(data_ref)
     if norm_type == 'h1':
         err_h1 = 0
         for i in range(data.shape[0]):
@@ -57,3 +59,8 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     else:
         raise ValueError(norm_type, ' not implemented.')
     return error_norm
+
+
+def _to_float(d):
+    '''differences of integers wrap around in their own type'''
+    return d.astype(float) if d.dtype.kind in 'biu' else d
-- 
2.43.0


From 6bc26688ac1233121c386e86b3cd7e570905f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 42/42] fix: a second fit saves the number of modes asked for,
 not that of the fit before

---
 pyspod/pod/base.py  | 2 ++
 pyspod/spod/base.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index c579622..83795ee 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -40,6 +40,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
@@ -236,6 +237,7 @@ class Base():
             self._nt += d.shape[0]
 
         # there are at most as many modes as snapshots
+        self._n_modes_save = self._n_modes_requested
         if self._n_modes_save > self._nt:
             self._n_modes_save = self._nt
 
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2344400..27411f8 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -75,6 +75,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -497,6 +498,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
+        self._n_modes_save = self._n_modes_requested
         if self._n_modes_save > self._n_blocks:
             self._n_modes_save = self._n_blocks
 
-- 
2.43.0

