From bd88300d95fbad055915d349ca9bc8fbae22e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/62] fix: SPOD fails on processes that hold a single point

np.squeeze dropped the space axis of the block coefficients when a process
holds exactly one point, and the cross-spectral product then failed.
---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..856af5e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -195,7 +195,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
-- 
2.43.0


From b4d26a95287be8ae7ce62624dedb72d88f1922b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 02/62] fix: parallel variance is NaN when a process holds no
 data

---
 pyspod/utils/parallel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..4ba0997 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,15 +29,18 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
+    # a process may hold no data
+    m = np.mean(data) if n > 0 else 0.
     d = data - m
     d *= d
-    v = np.sum(d)/n
+    v = np.sum(d)/n if n > 0 else 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0:
+            return a
         m = (na*ma + nb*mb)/n
         v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
         return ((n, m, v))
-- 
2.43.0


From de106b42950d2d7fc75022f616336472afe92f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 03/62] fix: complex data lose their imaginary part

The reader stored complex data in real arrays and looked for complex values
in the first snapshot of the first dataset only; the long-time mean and the
variances assumed real data.
---
 pyspod/spod/base.py      | 4 ++--
 pyspod/spod/standard.py  | 2 +-
 pyspod/utils/parallel.py | 4 ++--
 pyspod/utils/reader.py   | 7 ++++++-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..127f5ca 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -593,7 +593,7 @@ class Base():
             last_val = data[last_key]["v"]
 
             shape_sxv = last_val[0,...].size
-            t_sum = np.zeros(last_val[0,...].shape)
+            t_sum = np.zeros(last_val[0,...].shape, np.result_type(last_val, float))
 
             for k,v in data.items():
                 val = v["v"]
@@ -602,7 +602,7 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape, np.result_type(data, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 856af5e..08411c3 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -173,7 +173,7 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 4ba0997..195f331 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -31,7 +31,7 @@ def pvar(data, comm):
     n = np.size(data)
     # a process may hold no data
     m = np.mean(data) if n > 0 else 0.
-    d = data - m
+    d = np.abs(data - m)
     d *= d
     v = np.sum(d)/n if n > 0 else 0.
 
@@ -42,7 +42,7 @@ def pvar(data, comm):
         if n == 0:
             return a
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..e583305 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,12 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        ## complex if any sample of any dataset is
+        self._is_real = all(
+            not np.issubdtype(d.dtype, np.complexfloating)
+            or bool(np.isreal(np.asarray(d)).all()) for d in data_list)
+        if not self._is_real:
+            self._dtype = np.result_type(dtype, np.complex64)
         self._max_axis = np.argmax(self._shape[1:])
         del x_tmp
         del data
-- 
2.43.0


From db54e767c08b4f4740c56edf2f6ad4a848d185bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 04/62] fix: two-sided frequency axis off by one for odd block
 lengths

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 127f5ca..ebf42c1 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -627,7 +627,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From cea05c36e191e35c60070dc22d227144ca06ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 05/62] fix: default split of npy_load gives every process one
 item

Operator precedence turned the local count into a boolean.
---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 195f331..377558d 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -288,7 +288,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From a55dd99fe173ae92b6961301965c996ddcbec11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 06/62] fix: collective save, load and sum garble non-native
 byte order

The arrays were reinterpreted instead of converted, loading failed, and the
sum of arrays that are not C-contiguous mixed up elements or failed.
---
 pyspod/utils/parallel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 377558d..4d2b887 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -164,7 +164,9 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        # convert to native byte order and one layout on all processes
+        data = np.asarray(data)
+        data = np.asarray(data, dtype=data.dtype.newbyteorder('='), order='C')
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -190,8 +192,8 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
         array = np.asarray(array)
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         dtype = array.dtype
         shape = array.shape
         lcount = np.array(shape[axis], dtype=np.int64)
@@ -302,7 +304,9 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_C
         else:
             mpi_order = MPI.ORDER_FORTRAN
-        datatype = dtlib.from_numpy_dtype(dtype)
+        # the bytes are read as stored, the array keeps the byte order of the file
+        native = dtype.newbyteorder('=')
+        datatype = dtlib.from_numpy_dtype(native)
 
         if shape[axis] > 0:
             subarray = datatype.Create_subarray(
@@ -319,9 +323,10 @@ def npy_load(comm, filename, axis=0, count=None):
         file.Set_view(disp=offset, etype=datatype, filetype=subarray)
         datatype.Free()
         subarray.Free()
-        array = np.empty(shape, dtype, npy_order)
+        array = np.empty(shape, native, npy_order)
         file.Read_all(array)
         file.Close()
+        array = array.view(dtype)
     else:
         array = np.load(filename)
     return array
-- 
2.43.0


From e40be1fd18e82659689619e8d4fe7d338c6f52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 07/62] fix: normalisation of weights overwrites the caller's
 weights

The second fit with the same weights was normalised twice; integer weights
were truncated.
---
 pyspod/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..bdb2e24 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,9 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    ## leave the weights of the caller unchanged
+    weights = np.array(weights, dtype=np.result_type(weights, float))
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From 720375955a323bc7ac4c6dbde67c6eba271fcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 08/62] fix: weights cannot be normalised for data read from
 files

---
 pyspod/utils/weights.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index bdb2e24..4e91999 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -122,9 +122,8 @@ def apply_normalization(
                 print('')
                 print('Normalization by variance - parallel')
                 print('------------------------------------')
-            axis = tuple(np.arange(0, data[...,0].ndim))
             for i in range(0, n_vars):
-                var, _, _ = utils_par.pvar(data[...,i], comm=comm)
+                var, _, _ = utils_par.pvar(_variable(data, i), comm=comm)
                 weights[...,i] = weights[...,i] / var
         else:
             if comm.rank:
@@ -136,12 +135,18 @@ def apply_normalization(
             print('')
             print('Normalization by variance - serial')
             print('----------------------------------')
-            axis = tuple(np.arange(0, data[...,0].ndim))
             for i in range(0, n_vars):
-                var = np.nanvar(data[...,i], axis=axis)
+                var = np.nanvar(_variable(data, i))
                 weights[...,i] = weights[...,i] / var
         else:
             print('')
             print('No normalization performed')
             print('--------------------------')
     return weights
+
+
+def _variable(data, i):
+    '''All values of one variable; file readers hold a dict of time blocks.'''
+    if isinstance(data, dict):
+        return np.concatenate([v['v'][...,i] for v in data.values()])
+    return data[...,i]
-- 
2.43.0


From 15a436abd1945cd51733e879c2d4f4d5df332eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 09/62] fix: reading a time range from a list of arrays takes
 wrong snapshots

The index into an array was counted from the number of snapshots read so far
instead of from the first snapshot of that array.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index e583305..dbc08b1 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -102,7 +102,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 35a7854ac2316b8e1ff4b58afbba31c31816aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 10/62] fix: NetCDF reader fails or loses snapshots for unusual
 time coordinates

Times that are missing, repeated or not increasing selected other snapshots
than the requested ones.
---
 pyspod/utils/reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index dbc08b1..a51aba4 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -275,10 +275,8 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
-
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    # select by position: time values may be missing, repeated or not increasing
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 9be73c2a237610b51cf2e07af281910261ef10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 11/62] fix: MATLAB reader uses np.product, which was removed
 from numpy

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index a51aba4..2d413b4 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -525,7 +525,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From d99216cffced311f3aa36967b39e01394fe3057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 12/62] fix: padded data exchange of the file readers fails

The receive counts were floating-point numbers and t_waitall was never set.
---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 2d413b4..7373b4a 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -299,7 +299,7 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
@@ -354,6 +354,7 @@ class reader_2stage():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
@@ -592,7 +593,7 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
@@ -647,6 +648,7 @@ class reader_mat():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
-- 
2.43.0


From 780187342e90b5c7af40fb58cc0f664c84c684be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 13/62] fix: file readers divide by zero when the clock does
 not advance

---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 7373b4a..94a734f 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -412,7 +412,8 @@ class reader_2stage():
             total_size = self._comm.reduce(total_size, op=MPI.SUM, root=0)
             if self._comm.rank == 0:
                 t = time.time()-st
-                utils_par.pr0(f'I/O time of reading in {nchunks} chunks: {t} seconds, files size {self._files_size:.2f} GB unpacked size {total_size:.2f} GB ({self._files_size/t:.2f} - {total_size/t:.2f} GB/s)', self._comm)
+                rates = f'({self._files_size/t:.2f} - {total_size/t:.2f} GB/s)' if t > 0 else ''
+                utils_par.pr0(f'I/O time of reading in {nchunks} chunks: {t} seconds, files size {self._files_size:.2f} GB unpacked size {total_size:.2f} GB {rates}', self._comm)
             return data_dict
         else:
             return self.get_data_for_time(ts, ts+1)
@@ -706,7 +707,8 @@ class reader_mat():
             total_size = self._comm.reduce(total_size, op=MPI.SUM, root=0)
             if self._comm.rank == 0:
                 t = time.time()-st
-                utils_par.pr0(f'I/O time of reading in {nchunks} chunks: {t} seconds, files size {self._files_size:.2f} GB unpacked size {total_size:.2f} GB ({self._files_size/t:.2f} - {total_size/t:.2f} GB/s)', self._comm)
+                rates = f'({self._files_size/t:.2f} - {total_size/t:.2f} GB/s)' if t > 0 else ''
+                utils_par.pr0(f'I/O time of reading in {nchunks} chunks: {t} seconds, files size {self._files_size:.2f} GB unpacked size {total_size:.2f} GB {rates}', self._comm)
             return data_dict
         else:
             return self.get_data_for_time(ts, ts+1)
-- 
2.43.0


From 785dfc6b91057c553999c2040a0627bdb582f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 14/62] fix: file readers take integer data for complex data

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 94a734f..4820d27 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -209,7 +209,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if d.dtype.kind not in 'fiub':
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -506,7 +506,7 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if data.dtype.kind not in 'fiub':
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From 34d18a30d95af083c922c3a43c1210c979022231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 15/62] fix: SPOD of files fails when a chunk has fewer time
 steps than blocks

The last block could be empty, which the mean and the block size rely on.
---
 pyspod/utils/reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 4820d27..c44be00 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -398,6 +398,9 @@ class reader_2stage():
                     blk_t_n, blk_t_s = utils_par._blockdist(t_e-t_s, nblks, blk)
                     blk_t_e = blk_t_s + blk_t_n
 
+                    # a chunk may have fewer time steps than blocks
+                    if blk_t_n == 0: continue
+
                     data_dict[blk_idx] = {}
                     data_dict[blk_idx]['s'] = t_s+blk_t_s
                     data_dict[blk_idx]['e'] = t_s+blk_t_e
@@ -693,6 +696,9 @@ class reader_mat():
                     blk_t_n, blk_t_s = utils_par._blockdist(t_e-t_s, nblks, blk)
                     blk_t_e = blk_t_s + blk_t_n
 
+                    # a chunk may have fewer time steps than blocks
+                    if blk_t_n == 0: continue
+
                     data_dict[blk_idx] = {}
                     data_dict[blk_idx]['s'] = t_s+blk_t_s
                     data_dict[blk_idx]['e'] = t_s+blk_t_e
-- 
2.43.0


From dea4c81c6a891a745fad1b5ac7ca7c2d1c6b6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 16/62] fix: streaming SPOD takes a failed read for the end of
 the data

The results of the snapshots read so far were stored without any error.
---
 pyspod/spod/streaming.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..573a359 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -96,14 +96,13 @@ class Streaming(Base):
         while True:
             ti = ti + 1
 
-            ## get new snapshot and abort if data stream runs dry
+            ## get new snapshot and stop if data stream runs dry
+            if ti >= self._nt:
+                self._pr0(f'--> Data stream ended.')
+                break
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
-                    self._pr0(f'--> Data stream ended.')
-                    break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From 31f5dcd23e9db781414666f362e8ec0174f98220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 17/62] fix: streaming SPOD stores a wrong long-time mean

It was computed from the first snapshot alone.
---
 pyspod/spod/streaming.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 573a359..218ab34 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -220,6 +220,10 @@ class Streaming(Base):
                 # mse_prev[block_i,:,:] = (np.abs(S_hat_prev**2 - \
                 #     self._eigs**2)**2) / (S_hat_prev**2)
 
+        ## the longtime mean is known only now
+        self._lt_mean = mu[:,0] if np.iscomplexobj(self.data) else mu[:,0].real
+        self._lt_mean = self._set_dtype(self._lt_mean)
+
         ## rescale such that <U_i,U_j>_E = U_i^H * W * U_j = delta_ij
         phi = u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])
 
-- 
2.43.0


From af3c078d6c6fb812592cb0d4fe5f312dfc1fff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 18/62] fix: streaming SPOD fails for one mode or for processes
 with one point

---
 pyspod/spod/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 218ab34..1b6cc28 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -159,10 +159,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From b6e59c6fa4f371d34d97ad816ef56c0005d84352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 19/62] fix: streaming SPOD adds round-off to the basis once it
 spans the data

---
 pyspod/spod/streaming.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 1b6cc28..9894b69 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -176,8 +176,15 @@ class Streaming(Base):
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
 
-                        ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        ## normalized orthogonal complement; if the new data
+                        ## lie in the span of the basis, what remains is
+                        ## round-off that must not enter the basis
+                        eps = 100 * np.finfo(self._float).eps
+                        if abs_up[0,0] > eps * la.norm(Ux):
+                            u_new = u_p / abs_up
+                        else:
+                            u_new = np.zeros_like(u_p)
+                            abs_up = np.zeros_like(abs_up)
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From 95391fabfac54edd258d9a314a80c27578588914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 20/62] fix: FFT blocks of several variables or of file data
 cannot be saved and reused

---
 pyspod/spod/standard.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 08411c3..dcff427 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,8 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            shape_blk = self._get_shape_blocks()
+            size_qhat = [*shape_blk, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +73,7 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = np.load(path).reshape(shape_blk)
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,7 +108,7 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
+                        shape = self._get_shape_blocks()
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
@@ -406,6 +407,12 @@ class Standard(Base):
             Q_blk = Q_blk.reshape(self._n_dft, self.data[0,...].size)
             return Q_blk
 
+    def _get_shape_blocks(self):
+        '''Shape of one FFT block at one frequency, as stored.'''
+        if self._reader._flattened:
+            return [self._nx, self._nv]
+        return [*self._xshape, self._nv]
+
     def _flip_qhat(self, Q_hats):
         last_blk = list(Q_hats)[-1]
         last_frq = Q_hats[last_blk]
-- 
2.43.0


From 80e54e2b242046ed3340a7afc50e41d6806d8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 21/62] fix: reuse_blocks without savefft fails with
 AttributeError

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index ebf42c1..3032a05 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
-- 
2.43.0


From d5b090939e0549ff7d51684c7d2c7e605f8ef476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 22/62] fix: FFT blocks that a killed run left torn or mixed
 with older ones are reused

---
 pyspod/spod/base.py     |  8 ++++++++
 pyspod/spod/standard.py | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 3032a05..1c63b06 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -833,6 +833,14 @@ class Base():
     # static methods
     # --------------------------------------------------------------------------
 
+    @staticmethod
+    def _remove_blocks(savedir, comm):
+        if comm is None or comm.rank == 0:
+            for name in sorted(os.listdir(savedir)):
+                if name.startswith('fft_block') and name.endswith('.npy'):
+                    os.remove(os.path.join(savedir, name))
+        utils_par.barrier(comm)
+
     @staticmethod
     def _are_blocks_present(n_blocks, n_freq, savedir, comm):
         utils_par.pr0(f'Checking if blocks are already present ...', comm)
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index dcff427..e559f1f 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -90,6 +90,10 @@ class Standard(Base):
             else:
                 xvsize = self.data[0,...].size
 
+            # blocks of an earlier run must not mix with the new ones
+            if self._savefft == True:
+                self._remove_blocks(self._blocks_folder, self._comm)
+
             Q_hats = {}
             for i_blk in range(0,self._n_blocks):
                 st = time.time()
@@ -111,9 +115,13 @@ class Standard(Base):
                         shape = self._get_shape_blocks()
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
+                        # a block file appears only once it is complete
+                        tmp = path[:-len('.npy')] + '_tmp.npy'
                         utils_par.npy_save(
-                            self._comm, path, Q_blk_hat_fr,
+                            self._comm, tmp, Q_blk_hat_fr,
                             axis=self._max_axis)
+                        utils_par.barrier(self._comm)
+                        if self._rank == 0: os.replace(tmp, path)
 
                 # print info file
                 self._pr0(f'block {(i_blk+1)}/{(self._n_blocks)}'
-- 
2.43.0


From 172b9b3eaeab589f7bbafd18e6d3eed3f9abb086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 23/62] fix: coefficients cannot be computed for a list of
 frequency indices

---
 pyspod/spod/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..0dcb2cf 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,12 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = np.min(freq_idx)
+        f_idx_ub = np.max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +131,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +282,12 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = np.min(freq_idx)
+        f_idx_ub = np.max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +295,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From f204ff81af3fc9ac0e716c97de5789b181a998fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 24/62] fix: check_orthogonality fails for integer mode and
 frequency ids

---
 pyspod/spod/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 0dcb2cf..1af4c77 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -56,10 +56,10 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     weights = np.reshape(weights, [xsize, 1])
 
     ## get modes
-    phir = _get_modes(results_dir, n_freq,
-        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir1 = phir[:,mode_idx1]
-    phir2 = phir[:,mode_idx2]
+    phir = _get_modes(results_dir, n_freq, np.atleast_1d(freq_idx),
+        max_axis, xsize, n_modes_save, dt_complex, comm)
+    phir1 = phir[:,np.atleast_1d(mode_idx1)]
+    phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 62dcfbd37e361da547a1070c7684e2ef9191106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 25/62] fix: stored results of SPOD of files cannot be analysed

---
 pyspod/spod/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 1af4c77..4ba4ff2 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -707,6 +707,9 @@ def _get_required_data(results_dir):
     weights = np.lib.format.open_memmap(file_weights)
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
+    ## weights of data read from files are stored flattened in space
+    phi = post.get_modes_at_freq(results_dir, freq_idx=0)
+    weights = np.reshape(weights, phi.shape[:-1])
     return params, eigs_freq, weights
 
 
-- 
2.43.0


From ebbcb877966ceaa8f445e64db15313606d7b17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 26/62] fix: convolution coefficients mix up modes of frequency
 subsets and single modes

---
 pyspod/spod/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 4ba4ff2..c7b3c27 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -329,12 +329,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -388,8 +388,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = (Q_blk * weights[:,0])
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
@@ -414,7 +414,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.moveaxis(phir, 0, 1).reshape(shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 56c4e3944a3846b745617b944a730733340682a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 27/62] fix: convolution coefficients lose the imaginary part
 of the mean

---
 pyspod/spod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index c7b3c27..f0a7a45 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -321,7 +321,7 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(data, axis=0, dtype=np.result_type(data, np.float64))
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 014b934938e4ae069f8db9f7f50c0d3bf6feb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 28/62] fix: convolution coefficients hold the share of one
 process only

---
 pyspod/spod/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index f0a7a45..135262d 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -398,6 +398,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From ccef9693633bb72ee0e7872e8137e844b7b9eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 29/62] fix: SPOD modes without energy are stored as NaN and
 break the projection

---
 pyspod/spod/standard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index e559f1f..5a44e72 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -231,7 +231,9 @@ class Standard(Base):
 
         # compute spatial modes for given frequency
         L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
-        L_diag_inv = 1. / L_diag
+        ## a mode without energy is zero, not NaN
+        L_diag_inv = np.zeros_like(L_diag)
+        np.divide(1., L_diag, out=L_diag_inv, where=L.real > 0)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From a623e726824f6f37bbb7a3bcc9634fdf9745d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 30/62] fix: POD refuses data with several variables

---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..1c59218 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d[0,...].shape in (self._xshape, self._xshape+(self._nv,))
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From 7c7f2c6025050d04fdd8fe739989c7b9d168b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 31/62] fix: POD fails unless the number of modes is given

---
 pyspod/pod/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 1c59218..d34c43f 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -235,6 +235,10 @@ class Base():
             assert d[0,...].shape in (self._xshape, self._xshape+(self._nv,))
             self._nt += d.shape[0]
 
+        # set number of modes to save
+        self._n_modes_save = int(min(
+            self._params.get('n_modes_save', 1e10), self._nt))
+
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
         self._isrealx = np.isreal(data[0]).all()
-- 
2.43.0


From c18964f44b1b332213a783b4c4298c3590ef9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 32/62] fix: POD modes and eigenvalues are not sorted by energy

---
 pyspod/pod/standard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..c4f727f 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -50,6 +50,8 @@ class Standard(Base):
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
         w, v = scipy.linalg.eig(Q)
+        idx = np.argsort(w.real)[::-1]
+        w, v = w[idx], v[:,idx]
 
         # bases
         self._pr0(f' ')
-- 
2.43.0


From 29346cdfc9ab902e535dcff4974b4c7de21a2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 33/62] fix: POD coefficients ignore the weights

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..f2ec74f 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From fec43571b334a39c89ec42a6774179ff741f3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 34/62] fix: stored results are opened for reading only

---
 pyspod/pod/utils.py      | 10 +++++-----
 pyspod/spod/utils.py     |  8 ++++----
 pyspod/utils/postproc.py |  3 ++-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index f2ec74f..46e4353 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -37,8 +37,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     file_modes   = os.path.join(results_dir, 'modes.npy')
     file_eigs    = os.path.join(results_dir, 'eigs.npz')
     file_params  = os.path.join(results_dir, 'params_modes.yaml')
-    weights      = np.lib.format.open_memmap(file_weights)
-    phir         = np.lib.format.open_memmap(file_modes)
+    weights      = np.lib.format.open_memmap(file_weights, mode='r')
+    phir         = np.lib.format.open_memmap(file_modes, mode='r')
     eigs         = np.load(file_eigs)
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
@@ -152,8 +152,8 @@ def compute_reconstruction(
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    lt_mean      = np.lib.format.open_memmap(file_lt_mean)
-    phir         = np.lib.format.open_memmap(file_phir)
+    lt_mean      = np.lib.format.open_memmap(file_lt_mean, mode='r')
+    phir         = np.lib.format.open_memmap(file_phir, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     xshape_nv = lt_mean.shape
@@ -161,7 +161,7 @@ def compute_reconstruction(
     if coeffs is None:
         try:
             file_coeffs = os.path.join(coeffs_dir, 'coeffs.npy')
-            coeffs      = np.lib.format.open_memmap(file_coeffs)
+            coeffs      = np.lib.format.open_memmap(file_coeffs, mode='r')
         except:
             raise Exception('`coeffs` file not found.')
 
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 135262d..929fae1 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -482,8 +482,8 @@ def compute_reconstruction(
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    lt_mean      = np.lib.format.open_memmap(file_lt_mean)
-    phir         = np.lib.format.open_memmap(file_phir)
+    lt_mean      = np.lib.format.open_memmap(file_lt_mean, mode='r')
+    phir         = np.lib.format.open_memmap(file_phir, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     xshape_nv = lt_mean.shape
@@ -491,7 +491,7 @@ def compute_reconstruction(
     if coeffs is None:
         try:
             file_coeffs = os.path.join(coeffs_dir, 'coeffs.npy')
-            coeffs      = np.lib.format.open_memmap(file_coeffs)
+            coeffs      = np.lib.format.open_memmap(file_coeffs, mode='r')
         except:
             raise Exception('`coeffs` file not found.')
 
@@ -705,7 +705,7 @@ def _get_required_data(results_dir):
             'eigs_freq.npz not found. Consider running fit to '
             'compute SPOD modes before computing coefficients.')
     ## load rest of files if found
-    weights = np.lib.format.open_memmap(file_weights)
+    weights = np.lib.format.open_memmap(file_weights, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     ## weights of data read from files are stored flattened in space
diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..8618ef5 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -160,7 +160,8 @@ def get_data_from_file(filename):
 
     if ext.lower() == '.npy':
         # m = np.load(filename)
-        m = np.lib.format.open_memmap(filename)
+        # copy-on-write: changes made by the caller never reach the file
+        m = np.lib.format.open_memmap(filename, mode='c')
         # mode='r+', dtype=None, shape=None, fortran_order=False, version=None)
     # elif ext.lower() == '.mat':
     #     pass
-- 
2.43.0


From 7d8f4b3c8ba2b11e7f649a8f0c5214927b51b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 35/62] fix: get_all_modes reads both layouts and keeps the
 working directory

---
 pyspod/utils/postproc.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 8618ef5..92e2265 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -5,6 +5,7 @@
 
 # import standard python packages
 import os
+import re
 import shutil
 import glob
 import numpy as np
@@ -131,17 +132,13 @@ def get_all_modes(results_path):
     :rtype: numpy.ndarray
     '''
     if isinstance(results_path, str):
-        import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
-        flist = []
-        for filename in glob.glob("*.npy"):
-            flist.append(filename)
-        flist.sort()
-        m = [None] * len(flist)
-        for f_idx, f in enumerate(flist):
-            m[f_idx] = get_data_from_file(f)
-        m = np.stack(m)
+        # one file per frequency, or one file per frequency and mode
+        f_idx = set()
+        for filename in os.listdir(modes_path):
+            match = re.match(r'freq_idx_f?(\d+)(_m\d+)?\.npy$', filename)
+            if match: f_idx.add(int(match.group(1)))
+        m = np.stack([get_modes_at_freq(results_path, f) for f in sorted(f_idx)])
     else:
         raise TypeError('Modes must be a string to modes.npy')
     return m
-- 
2.43.0


From 564e1b6df69a309071a2ed6bb12777492233f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 36/62] fix: fits do not change the parameters of later fits

---
 pyspod/pod/base.py  | 2 +-
 pyspod/spod/base.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index d34c43f..91548f6 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -46,7 +46,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1c63b06..40e5051 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -74,7 +74,8 @@ class Base():
         # normalize data by variance if required
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
-        self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_req = params.get('n_modes_save', 1e10)
+        self._n_modes_save = self._n_modes_req
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -83,7 +84,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
@@ -497,8 +498,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
-        if self._n_modes_save > self._n_blocks:
-            self._n_modes_save = self._n_blocks
+        self._n_modes_save = min(self._n_modes_req, self._n_blocks)
 
         # determine correction for FFT window gain
         self._win_weight = 1 / np.mean(self._window)
-- 
2.43.0


From e5c3c3d620a6b32a73c430e23a78ca3a66d8383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 37/62] fix: modes of an earlier fit in the same folder are not
 mixed with new ones

---
 pyspod/spod/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 40e5051..bb7202f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -527,6 +527,10 @@ class Base():
         if self._rank == 0:
             if not os.path.exists(self._modes_dir):
                 os.makedirs(self._modes_dir)
+            ## modes of an earlier fit must not mix with the new ones
+            for f in os.listdir(self._modes_dir):
+                if f.startswith('freq_idx_') and f.endswith('.npy'):
+                    os.remove(os.path.join(self._modes_dir, f))
 
         ## create folder to save fft blocks
         self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
-- 
2.43.0


From 6e78000a841275e78bd3a98ff2828c038285d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 38/62] fix: read_data reads npy files

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From 5f4642f8181cbe1ec2d32fbe37a78a233ce30c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 39/62] fix: one process writes the parameters of the
 coefficients

---
 pyspod/pod/utils.py  | 3 ++-
 pyspod/spod/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 46e4353..15ef510 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -120,7 +120,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     params['modes_idx'  ] = modes_idx
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.', comm)
     utils_par.pr0(f'---------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in: {file_coeffs}'     , comm)
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 929fae1..8cc8f72 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -216,7 +216,8 @@ def compute_coeffs_op(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
@@ -440,7 +441,8 @@ def compute_coeffs_conv(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
-- 
2.43.0


From 9f6808bf190d79ddc69dd131bdfaf157fc3871c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 40/62] fix: predictions whose last window is cut short by the
 end of the series

---
 pyspod/emulation/neural_nets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..bc6e7ba 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From 99376f13f3f5bf168ccdac058c417eaf183677b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 41/62] fix: the streaming basis stays orthogonal when little
 is left of new data

---
 pyspod/spod/streaming.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9894b69..059d0cd 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -171,6 +171,13 @@ class Streaming(Base):
                         ## orthogonal complement to U, eqn. (27)
                         u_p = x - np.matmul(U, Ux)
 
+                        ## once more: if little is left of the new data, this
+                        ## little is not orthogonal to U because of round-off
+                        Uu = np.matmul(U.conj().T, u_p)
+                        Uu = utils_par.allreduce(Uu, comm=self._comm)
+                        u_p = u_p - np.matmul(U, Uu)
+                        del Uu
+
                         ## norm of orthogonal complement
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
-- 
2.43.0


From a3a5caaa27bd76f59fe4985eb1d919405a16cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 42/62] fix: weights cannot be normalised when the variables
 are what is distributed

---
 pyspod/utils/weights.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 4e91999..a5f7fa4 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -122,8 +122,14 @@ def apply_normalization(
                 print('')
                 print('Normalization by variance - parallel')
                 print('------------------------------------')
-            for i in range(0, n_vars):
-                var, _, _ = utils_par.pvar(_variable(data, i), comm=comm)
+            # the variables themselves are distributed when there are more
+            # of them than points along any dimension
+            split = comm.allreduce(weights.shape[-1]) == n_vars
+            for i in range(0, weights.shape[-1]):
+                if split:
+                    var = np.nanvar(_variable(data, i))
+                else:
+                    var, _, _ = utils_par.pvar(_variable(data, i), comm=comm)
                 weights[...,i] = weights[...,i] / var
         else:
             if comm.rank:
-- 
2.43.0


From 601868e9759ef3b3f55bd3f76ae3e66d2a48762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 43/62] fix: flattened weights cannot be distributed

---
 pyspod/pod/base.py  | 4 ++++
 pyspod/spod/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 91548f6..9bd796d 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -330,6 +330,10 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            # flattened weights: split and normalise as the data
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, tuple(self._xshape)+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index bb7202f..d3520ee 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -566,6 +566,10 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            # flattened weights: split and normalise as the data
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, tuple(self._xshape)+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From 5684cd4cbaae894dd466ce3ed5ee609f1938ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 44/62] fix: 3D quadrature weights of several variables are out
 of order

---
 pyspod/utils/weights.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index a5f7fa4..012ff8a 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -80,7 +80,9 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
     dA = np.abs(R**2 * np.cos(lat_rad) * d_lon.T * d_lat).T
     dA = np.tile(dA, [x3_dim, 1, 1])
     dA = np.einsum('ijk->jki', dA)
-    dA = np.tile(dA, [n_vars, 1, 1])
+    # the variables are the last dimension, as in the data
+    if n_vars > 1:
+        dA = np.stack([dA] * n_vars, axis=-1)
     w = { 'weights_name': 'geo_trapz_3D', 'weights': dA }
     return w
 
-- 
2.43.0


From 148dc10c79847c942be5167d875b953dc5a290b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 45/62] fix: only weights with a variable axis can have it
 distributed

---
 pyspod/utils/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 012ff8a..ce1e069 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -127,12 +127,12 @@ def apply_normalization(
             # the variables themselves are distributed when there are more
             # of them than points along any dimension
             split = comm.allreduce(weights.shape[-1]) == n_vars
-            for i in range(0, weights.shape[-1]):
+            for i in range(0, weights.shape[-1] if split else n_vars):
                 if split:
                     var = np.nanvar(_variable(data, i))
                 else:
                     var, _, _ = utils_par.pvar(_variable(data, i), comm=comm)
-                weights[...,i] = weights[...,i] / var
+                weights[...,i:i+1] = weights[...,i:i+1] / var
         else:
             if comm.rank:
                 print('')
-- 
2.43.0


From 83c726cb22f179952bfbe974e4c7e5de0dd7c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 46/62] Revert "fix: one process writes the parameters of the
 coefficients"

No run shows a failure without it: all processes write the same text and a barrier follows.
---
 pyspod/pod/utils.py  | 3 +--
 pyspod/spod/utils.py | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 15ef510..46e4353 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -120,8 +120,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     params['modes_idx'  ] = modes_idx
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    if rank == 0:
-        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.', comm)
     utils_par.pr0(f'---------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in: {file_coeffs}'     , comm)
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 8cc8f72..929fae1 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -216,8 +216,7 @@ def compute_coeffs_op(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    if rank == 0:
-        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
@@ -441,8 +440,7 @@ def compute_coeffs_conv(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    if rank == 0:
-        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
-- 
2.43.0


From 7df8b6443455d90dfe48b58a2e0d141986d24be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 47/62] fix: the name of the results folder is no pattern

---
 pyspod/utils/postproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 92e2265..62e6fc5 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -108,7 +108,8 @@ def get_modes_at_freq(results_path, freq_idx):
         m = get_data_from_file(filename)
     else:
         tmp_str = f'freq_idx_f{freq_idx:08d}_m*.npy'
-        filename = os.path.join(results_path, 'modes', tmp_str)
+        ## the name of the folder is no pattern
+        filename = os.path.join(glob.escape(results_path), 'modes', tmp_str)
         modes = sorted(glob.glob(os.path.join(filename)))
         nmodes = len(modes)
 
-- 
2.43.0


From 098eebe94c1ebe76c682da92f297a68c52f0654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 48/62] fix: npy_load reads .npy files of header version 2 and
 3 too

---
 pyspod/utils/parallel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 4d2b887..80c124c 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -274,8 +274,11 @@ def npy_load(comm, filename, axis=0, count=None):
                 return np.lib.format._read_array_header(fp, version)
         except AttributeError:
             def read_array_header(fp, version):
-                assert version == (1, 0)
-                return np.lib.format.read_array_header_1_0(fp)
+                if version == (1, 0):
+                    return np.lib.format.read_array_header_1_0(fp)
+                ## (3, 0) is laid out as (2, 0), only its text is utf-8
+                assert version in ((2, 0), (3, 0))
+                return np.lib.format.read_array_header_2_0(fp)
         file = MPI.File.Open(comm, filename, MPI.MODE_RDONLY)
         data = None
         if comm.Get_rank() == 0:
-- 
2.43.0


From 33ea2b1c5a9530729e4d4dd4ab4fa36ff1558623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 49/62] fix: POD modes of equal energy are orthogonal

---
 pyspod/pod/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index c4f727f..9ca6877 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -49,7 +49,10 @@ class Standard(Base):
         ## eigendecomposition
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
-        w, v = scipy.linalg.eig(Q)
+        ## Q is symmetric, so that its Schur form is diagonal; the eigenvectors
+        ## are orthogonal also for equal eigenvalues (as in a travelling wave)
+        w, v = scipy.linalg.schur(Q)
+        w = np.diag(w).astype(self._complex)
         idx = np.argsort(w.real)[::-1]
         w, v = w[idx], v[:,idx]
 
-- 
2.43.0


From f83d9d968298f15ea4358c60ad9c65ec138bc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 50/62] fix: POD modes without energy are not amplified
 round-off

---
 pyspod/pod/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index 9ca6877..fd902fc 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -60,7 +60,11 @@ class Standard(Base):
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
         st = time.time()
-        phi = np.real(d @ v) / np.sqrt(w[:])
+        ## a mode without energy is zero, not amplified round-off
+        w_inv = np.zeros_like(w)
+        tol = np.finfo(w.dtype).eps * self._nt * w[0].real
+        np.divide(1., np.sqrt(w), out=w_inv, where=w.real > tol)
+        phi = np.real(d @ v) * w_inv
 
         # truncation and save
         phi_r = phi[:,0:self._n_modes_save]
-- 
2.43.0


From d4f7316960178b47b7b53fc453cee8714f27b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 51/62] fix: SPOD modes of equal energy are orthogonal

---
 pyspod/spod/standard.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 5a44e72..e470c43 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -212,9 +212,9 @@ class Standard(Base):
         self._pr0(f'- M computation: {time.time() - st} s.')
         st = time.time()
 
-        ## compute eigenvalues and eigenvectors
-        L, V = la.eig(M)
-        L = np.real_if_close(L, tol=1000000)
+        ## compute eigenvalues and eigenvectors; M is Hermitian:
+        ## modes of equal energy must be orthogonal as well
+        L, V = la.eigh(M)
         del M
 
 
@@ -230,10 +230,10 @@ class Standard(Base):
         st = time.time()
 
         # compute spatial modes for given frequency
-        L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
+        L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.maximum(L, 0))
         ## a mode without energy is zero, not NaN
         L_diag_inv = np.zeros_like(L_diag)
-        np.divide(1., L_diag, out=L_diag_inv, where=L.real > 0)
+        np.divide(1., L_diag, out=L_diag_inv, where=L > 0)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From e8ed87b800c0fad69388ce12af48b18500555800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 52/62] fix: SPOD modes without energy are not amplified
 round-off

---
 pyspod/spod/standard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index e470c43..ba4971e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -231,9 +231,10 @@ class Standard(Base):
 
         # compute spatial modes for given frequency
         L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.maximum(L, 0))
-        ## a mode without energy is zero, not NaN
+        ## a mode without energy is zero, not NaN or amplified round-off
         L_diag_inv = np.zeros_like(L_diag)
-        np.divide(1., L_diag, out=L_diag_inv, where=L > 0)
+        tol = np.finfo(L.dtype).eps * self._n_blocks * L[:,:1]
+        np.divide(1., L_diag, out=L_diag_inv, where=L > tol)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From c8c2f0644078d49102b8685ef97a2a0c429d1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 53/62] fix: upper and lower confidence bounds are saved under
 their names

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index d3520ee..c0db126 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -698,8 +698,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
+                self._eigs_c_u = self._eigs_c[:,:,1]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From 1f83ff5fe0c859fb900010652a48bcc718b71345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 54/62] fix: only frequencies with a mirror image are doubled

---
 pyspod/spod/standard.py  | 8 +++++---
 pyspod/spod/streaming.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index ba4971e..6df34dd 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -364,9 +364,11 @@ class Standard(Base):
             cum_sstime += time.time() - sstime
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
-        ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        ## correct Fourier for one-sided spectrum: all frequencies but
+        ## zero and Nyquist, which only an even n_dft has
+        if self._isrealx and not self._fullspectrum:
+            n_double = (self._n_dft - 1) // 2
+            L[1:n_double+1,:] = 2 * L[1:n_double+1,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 059d0cd..091da24 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -77,10 +77,13 @@ class Streaming(Base):
 
         ## check if real for frequency axis
         if self._isrealx:
-            dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]
             if self._fullspectrum:
                 freq_idx = np.arange(0, int(self._n_dft), 1)
             else:
+                ## all frequencies but zero and Nyquist, which only an
+                ## even n_dft has
+                n_double = (self._n_dft - 1) // 2
+                dft[:,1:n_double+1] = 2 * dft[:,1:n_double+1]
                 freq_idx = np.arange(0, int(self._n_dft/2+1))
             dft = dft[:,freq_idx]
 
-- 
2.43.0


From b0513d904f8a3297e571bf8fb005f9ce891c723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 55/62] fix: modes with an imaginary inner product are not
 orthogonal

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 929fae1..44e08cc 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -69,9 +69,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From 0079d7a809008165d510d7d834c0207478d0df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 56/62] fix: the nearest point has the index of its own axis

find_nearest_coords took the index of the mirrored axis, so that tracers
were drawn at another point than the one reported, or failed.
---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 62e6fc5..e41359c 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -77,12 +77,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From c75e03e6f6097fca3c8fb5cd3a40a78b298fff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 57/62] fix: plots of a window of the data cut it once

The methods cut the data to time_limits and handed limits of the whole
series on (or began the video at 0).
---
 pyspod/spod/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index c0db126..1835928 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -995,8 +995,7 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_0=0, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
@@ -1105,10 +1104,9 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_0=0, t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=time_limits, vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From bcfc59dc815e8b90fe6606d7747ed23288c5bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 58/62] fix: shift180 does not change the caller's coordinates

---
 pyspod/utils/postproc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index e41359c..cab9c96 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -405,7 +405,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -529,8 +529,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From ca901f3c263de1766a554b6b908dea502a46ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 59/62] fix: mode tracers of several variables have a figure
 each

The rows of a single figure ran out with the second variable; axes of one
point were squeezed away before the point was looked up.
---
 pyspod/utils/postproc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index cab9c96..9c389a1 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1003,14 +1003,15 @@ def plot_mode_tracers(
         if not isinstance(coords, tuple):
             raise TypeError('each element of `coords` must be a tuple.')
         coords, idx_coords = find_nearest_coords(coords, x, xdim)
-        fig, spec = plt.subplots(
-            ncols=1, nrows=len(modes_idx),
-            figsize=(wsize,1.5*len(modes_idx)),
-            squeeze=False, sharex=True)
-        cnt = 0
         for var_id in vars_idx:
+            ## each variable has a figure, saved (and closed) below
+            fig, spec = plt.subplots(
+                ncols=1, nrows=len(modes_idx),
+                figsize=(wsize,1.5*len(modes_idx)),
+                squeeze=False, sharex=True)
+            cnt = 0
             for mode_id in modes_idx:
-                mode = np.squeeze(modes[...,var_id,mode_id])
+                mode = modes[...,var_id,mode_id]
                 if fftshift:
                     mode = np.fft.fftshift(mode, axes=1)
                 mode_point_phase = mode[idx_coords] * phase.conj()
-- 
2.43.0


From 2076359d657bed7c8bfe65014a31ce41f89205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 60/62] fix: slices of 3D modes have the axes that are left

Axes were chosen by their length, which failed or mislabelled them where
two have the same; without slice_id the slice is at the maximum, as
documented; the lines at the maximum used the axes of the volume.
---
 pyspod/utils/postproc.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 9c389a1..053140c 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -811,23 +811,20 @@ def plot_3d_modes_slice_at_frequency(
             if mode_3d.ndim != 3:
                 raise ValueError('Dimension of the modes is not 3D.')
 
-            if slice_id is None: slice_id = 0
-            if slice_dim == 0: mode = mode_3d[slice_id,:,:]
-            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]
-            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]
-            # coord 1
-            if mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
-            elif mode.shape[0] == x2.shape[0]: xx = x2; flag1 = 'x2'
-            elif mode.shape[0] == x3.shape[0]: xx = x3; flag1 = 'x3'
-            # coord 2
-            if (mode.shape[1] == x1.shape[0]) and (flag1 != 'x1'):
-                yy = x1; flag2 = 'x1'
-            elif (mode.shape[1] == x2.shape[0]) and (flag1 != 'x2'):
-                yy = x2; flag2 = 'x2'
-            elif (mode.shape[1] == x3.shape[0]) and (flag1 != 'x3'):
-                yy = x3; flag2 = 'x3'
-
-            # perform fft shift if required
+            ## slice at the maximum of the mode, if not specified
+            s_id = slice_id
+            if s_id is None:
+                s_id = np.unravel_index(
+                    np.argmax(np.abs(mode_3d)), mode_3d.shape)[slice_dim]
+            if   slice_dim == 0: mode = mode_3d[s_id,:,:]
+            elif slice_dim == 1: mode = mode_3d[:,s_id,:]
+            elif slice_dim == 2: mode = mode_3d[:,:,s_id]
+
+            ## the axes that are left, whatever their length
+            axes = [('x1', x1), ('x2', x2), ('x3', x3)]
+            del axes[slice_dim]
+            (flag1, xx), (flag2, yy) = axes
+
             if fftshift:
                 mode = np.fft.fftshift(mode, axes=1)
 
@@ -853,9 +850,9 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                     imag_ax = _apply_2d_vertical_lines(
-                        imag_ax, x1, x2, idx_x1, idx_x2)
+                        imag_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 imag_divider = make_axes_locatable(imag_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
@@ -898,7 +895,7 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
                 plt.colorbar(real, cax=real_cax)
-- 
2.43.0


From aa1821121fbba4cd789c35993e23cc71a70b8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 61/62] fix: lines at the maximum are at its coordinates

x1 is the abscissa and x2 the ordinate; several equal maxima failed.
---
 pyspod/utils/postproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 053140c..a0a9fdb 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1508,8 +1508,9 @@ def _apply_2d_coastlines(coastlines, ax):
     return ax
 
 def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
-    ax.axhline(x1[idx1], xmin=0, xmax=1,color='k',linestyle='--')
-    ax.axvline(x2[idx2], ymin=0, ymax=1,color='k',linestyle='--')
+    ## the first, if several points have the maximum
+    ax.axvline(x1[idx1[0]], ymin=0, ymax=1,color='k',linestyle='--')
+    ax.axhline(x2[idx2[0]], xmin=0, xmax=1,color='k',linestyle='--')
     return ax
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 064da43068de83f1b2ffe64abe8f541032e33503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 62/62] fix: coordinates of 3D slices may come in another order

Coordinates of a meshgrid with 'xy' indexing fit the axes of the mode in
the order of their lengths.
---
 pyspod/utils/postproc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a0a9fdb..0da96dc 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -5,6 +5,7 @@
 
 # import standard python packages
 import os
+import itertools
 import re
 import shutil
 import glob
@@ -820,8 +821,15 @@ def plot_3d_modes_slice_at_frequency(
             elif slice_dim == 1: mode = mode_3d[:,s_id,:]
             elif slice_dim == 2: mode = mode_3d[:,:,s_id]
 
-            ## the axes that are left, whatever their length
+            ## coordinates of each axis: in the order given, if that fits the
+            ## mode, and in the first order that does otherwise; then the two
+            ## axes that are left
             axes = [('x1', x1), ('x2', x2), ('x3', x3)]
+            axes = [list(p) for p in itertools.permutations(axes) if
+                tuple(x.shape[0] for _, x in p) == mode_3d.shape]
+            if not axes:
+                raise ValueError('Coordinates do not fit the modes.')
+            axes = axes[0]
             del axes[slice_dim]
             (flag1, xx), (flag2, yy) = axes
 
-- 
2.43.0

