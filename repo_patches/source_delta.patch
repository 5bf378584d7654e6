From 321ae11484b89cfb788e38b469053d58367704bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:04 +0000
Subject: [PATCH 01/70] fix: data race in the 3D gridder between its worker
 threads

The loop that clears the per-thread grids used a counter shared by all of
them, so cells could stay uninitialised or be written past the end of the
buffer. num_threads and the error flag were written by all threads, too.
---
 src/ctrans.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..510927e 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -439,6 +439,8 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
 #pragma omp parallel shared(data, num_threads, threadData, grid_start, grid_len)
   {
     int thread_num = omp_get_thread_num();
+
+#pragma omp single nowait
     num_threads = omp_get_num_threads();
 
     double *_d2out;
@@ -452,10 +454,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      // (private counter: j is shared between the threads here)
+      for(unsigned long k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
@@ -500,6 +503,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
       threadData[thread_num].d2out = _d2out;
       threadData[thread_num].nout = _nout;
     } else {
+#pragma omp atomic write
       retval = 1;
     }
 
-- 
2.43.0


From d72bc7d4afe571a31c383d61afdd8a215a31b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 02/70] fix: memory leak and skipped work-sharing barrier when
 the gridder runs out of memory

A thread whose buffers could not be allocated left the ones it did get
unowned and did not take part in the omp for the other threads wait in.
---
 src/ctrans.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 510927e..adacf3e 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -451,8 +451,14 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     _dout = (double *)malloc(sizeof(double) * grid_size);
     _nout = (unsigned long *)malloc(sizeof(unsigned long) * grid_size);
 
-    if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
+    // The shared table owns the buffers, whichever could be allocated
+    threadData[thread_num].dout = _dout;
+    threadData[thread_num].d2out = _d2out;
+    threadData[thread_num].nout = _nout;
 
+    int allocated = (_d2out != NULL) && (_dout != NULL) && (_nout != NULL);
+
+    if(allocated){
       // Clear the arrays ....
       // (private counter: j is shared between the threads here)
       for(unsigned long k=0;k<grid_size;k++){
@@ -460,7 +466,12 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
         _d2out[k] = 0.0;
         _nout[k] = 0;
       }
+    } else {
+#pragma omp atomic write
+      retval = 1;
+    }
 
+    // Every thread has to reach the loop, also one which got no memory
 #pragma omp for
       for(i=0;i<max_data;i++){
 
@@ -470,7 +481,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
 
         // Check if we have a NaN
 
-        if((ignore_nan == 1) || !isnan(data_ptr[3])){
+        if(allocated && ((ignore_nan == 1) || !isnan(data_ptr[3]))){
 
           // Calculate the relative position in the grid.
 
@@ -499,14 +510,6 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
         }
       }
 
-      threadData[thread_num].dout = _dout;
-      threadData[thread_num].d2out = _d2out;
-      threadData[thread_num].nout = _nout;
-    } else {
-#pragma omp atomic write
-      retval = 1;
-    }
-
   } // pragma parallel
 
   if(retval){
-- 
2.43.0


From 9d8d0add71f25d2ba36340033f1d440ba3d9f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 03/70] fix: heap overflow in the gridder when built without
 OpenMP

The thread table was allocated with zero entries and entry 0 was used.
---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index adacf3e..e4032fc 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
-- 
2.43.0


From 50dff22b5d26247a4364610a9db1c6e15e5b1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 04/70] fix: stack overflow when ignore_nan is passed to the
 gridder

The argument was parsed as a double into an int.
---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index e4032fc..10f7d3c 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -319,7 +319,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From 117d12b383613e81adc0d153b3b58df2d50b00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 05/70] fix: standard error of gridded data is NaN when the
 values in a voxel are equal

Round off makes the variance slightly negative. The error of a voxel that
only has data from earlier calls (accumulation) was reported as zero.
---
 src/ctrans.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 10f7d3c..a3c2d38 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -537,10 +537,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
   // Calculate the stderror
 
   for(j=0;j<grid_size;j++){
-    if(threadData[0].nout[j] == 0){
+    if(nout[j] == 0){
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
+      if(var < 0.0) var = 0.0; // round off, when all values are (nearly) equal
       stderror[j] = pow(var, 0.5) / pow(nout[j], 0.5);
     }
   }
-- 
2.43.0


From 096e001259d1cc5c1920042b05228bbbeec7beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 06/70] fix: out of bounds access in the compiled q conversion
 and gridder for arrays of the wrong shape

Validate the shapes of the angles, the UB matrix, the data and the
accumulation grids, and do not write through read-only arrays.
---
 src/ctrans.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index a3c2d38..5354a9f 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -100,17 +100,30 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
     return NULL;
   }
 
-  ccd.size = ccd.xSize * ccd.ySize;
+  if((ccd.xSize < 0) || (ccd.ySize < 0)){
+    PyErr_SetString(PyExc_ValueError, "The size of the CCD can not be negative");
+    return NULL;
+  }
+
+  ccd.size = (long int)ccd.xSize * ccd.ySize;
 
   angles = (PyArrayObject*)PyArray_FROMANY(_angles, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
   if(!angles){
     goto cleanup;
   }
+  if(PyArray_DIM(angles, 1) != 6){
+    PyErr_SetString(PyExc_ValueError, "Dimension 1 of angles must be 6");
+    goto cleanup;
+  }
 
   ubinv = (PyArrayObject*)PyArray_FROMANY(_ubinv, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
   if(!ubinv){
     goto cleanup;
   }
+  if((PyArray_DIM(ubinv, 0) != 3) || (PyArray_DIM(ubinv, 1) != 3)){
+    PyErr_SetString(PyExc_ValueError, "UBinv must be a 3 x 3 matrix");
+    goto cleanup;
+  }
 
   ubinvp = (double *)PyArray_DATA(ubinv);
 
@@ -130,6 +143,7 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
   // Now create the arrays for delta-gamma pairs
   delgam = (double*)malloc(nimages * ccd.size * sizeof(double) * 2);
   if(!delgam){
+    PyErr_NoMemory();
     goto cleanup;
   }
 
@@ -328,7 +342,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     return NULL;
   }
 
-  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
   if(!gridI){
     goto error;
   }
@@ -342,11 +356,15 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   dims[0] = grid_nsteps[0];
   dims[1] = grid_nsteps[1];
   dims[2] = grid_nsteps[2];
+  if((dims[0] < 1) || (dims[1] < 1) || (dims[2] < 1)){
+    PyErr_SetString(PyExc_ValueError, "The grid needs at least one step along each axis");
+    goto error;
+  }
 
   if(_dout == NULL){
     gridout = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_DOUBLE, 0);
   } else {
-    gridout = (PyArrayObject*)PyArray_FROMANY(_dout, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+    gridout = (PyArrayObject*)PyArray_FROMANY(_dout, NPY_DOUBLE, 3, 3, NPY_ARRAY_CARRAY);
   }
   if(!gridout){
     goto error;
@@ -355,7 +373,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   if(_d2out == NULL){
     grid2out = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_DOUBLE, 0);
   } else {
-    grid2out = (PyArrayObject*)PyArray_FROMANY(_d2out, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+    grid2out = (PyArrayObject*)PyArray_FROMANY(_d2out, NPY_DOUBLE, 3, 3, NPY_ARRAY_CARRAY);
   }
   if(!grid2out){
     goto error;
@@ -364,12 +382,19 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   if(_nout == NULL){
     Nout = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_ULONG, 0);
   } else {
-    Nout = (PyArrayObject*)PyArray_FROMANY(_nout, NPY_ULONG, 0, 0, NPY_ARRAY_IN_ARRAY);
+    Nout = (PyArrayObject*)PyArray_FROMANY(_nout, NPY_ULONG, 3, 3, NPY_ARRAY_CARRAY);
   }
   if(!Nout){
     goto error;
   }
 
+  if(!PyArray_CompareLists(PyArray_DIMS(gridout), dims, 3) ||
+     !PyArray_CompareLists(PyArray_DIMS(grid2out), dims, 3) ||
+     !PyArray_CompareLists(PyArray_DIMS(Nout), dims, 3)){
+    PyErr_SetString(PyExc_ValueError, "The output arrays must have the shape of the grid");
+    goto error;
+  }
+
   stderror = (PyArrayObject*)PyArray_SimpleNew(3, dims, NPY_DOUBLE);
   if(!stderror){
     goto error;
-- 
2.43.0


From 226bfd0b24d17da8786971660febfaed3109b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:25 +0000
Subject: [PATCH 07/70] fix: grid3d loses the points at the upper bound when
 the bounds are taken from the data

np.spacing of a negative maximum is negative and moved the bound down, and
next to a small positive maximum the pad vanished in hi - lo.
---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..8a40351 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -912,7 +912,9 @@ def grid3d(
 
     # pad the upper edge by just enough to ensure that all of the
     # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
+    # (the C code tests (val - lo) / (hi - lo) < 1, so the pad has to be visible
+    # next to both hi and hi - lo)
+    qmax += 2 * np.spacing(np.maximum(np.abs(qmax), qmax - qmin))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From 4864dce026360dc36bc9e95833df425a3b938b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:25 +0000
Subject: [PATCH 08/70] fix: grid3d fails for integer q and rounds the
 intensities to the precision of q

---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 8a40351..93ab678 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -893,7 +893,9 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    # in double precision, whatever the input: the bounds and the intensities
+    # (which are put next to q, below) take the type of this array
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
-- 
2.43.0


From 98cbf108889402753736722385ab496555297f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:25 +0000
Subject: [PATCH 09/70] fix: grid3d takes a binary mask of zeros and ones as a
 list of indices

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 93ab678..cbb35a8 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -931,7 +931,7 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From 39398ae7aee8fd0ee4e9f2a57775045faefdcc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:29 +0000
Subject: [PATCH 10/70] fix: histogram fill goes past the last bin for values
 just below the upper edge

(pos - low) / binsize can round up to the number of bins, which raised an
IndexError for 1D and 2D histograms and wrote outside of the array for others.
---
 skbeam/core/accumulators/histogram.pyx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..0be5dd2 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -168,11 +168,12 @@ class Histogram:
         cdef cnp.float_t low = self._lows[0]
         cdef cnp.float_t high = self._highs[0]
         cdef cnp.float_t binsize = self._binsizes[0]
+        cdef long nbins = self._nbins[0]
         cdef int i
         cdef int wstride = 0 if weight.size == 1 else 1
         cdef int xlen = len(xval)
         for i in range(xlen):
-            xidx = find_indices(xval[i], low, high, binsize)
+            xidx = find_indices(xval[i], low, high, binsize, nbins)
             if xidx == -1:
                 continue
             data[xidx] += weight[wstride * i]
@@ -186,15 +187,16 @@ class Histogram:
         cdef cnp.float_t [:] low = self._lows
         cdef cnp.float_t [:] high = self._highs
         cdef cnp.float_t [:] binsize = self._binsizes
+        cdef int [:] nbins = self._nbins
         cdef int i
         cdef int xlen = len(xval)
         cdef int ylen = len(yval)
         cdef int wstride = 0 if weight.size == 1 else 1
         for i in range(xlen):
-            xidx = find_indices(xval[i], low[0], high[0], binsize[0])
+            xidx = find_indices(xval[i], low[0], high[0], binsize[0], nbins[0])
             if xidx == -1:
                 continue
-            yidx = find_indices(yval[i], low[1], high[1], binsize[1])
+            yidx = find_indices(yval[i], low[1], high[1], binsize[1], nbins[1])
             if yidx == -1:
                 continue
             data[xidx][yidx] += weight[wstride * i]
@@ -222,9 +224,11 @@ class Histogram:
         mylows = self._lows[coordsorder]
         myhighs = self._highs[coordsorder]
         mybinsizes = self._binsizes[coordsorder]
+        mynbins = self._nbins[coordsorder]
         cdef cnp.float_t [:] low = mylows
         cdef cnp.float_t [:] high = myhighs
         cdef cnp.float_t [:] binsize = mybinsizes
+        cdef int [:] nbins = mynbins
         cdef cnp.float_t* data = <cnp.float_t*> _getarrayptr(self._values)
         # distribute coordinates in each dimension according to their
         # numerical type.  follow the same order as in numtypes.
@@ -247,7 +251,7 @@ class Histogram:
             for k in range(aint_count):
                 j = k
                 xidx = find_indices(aint_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbins[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -257,7 +261,7 @@ class Histogram:
             for k in range(afloat_count):
                 j = k + aint_count
                 xidx = find_indices(afloat_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbins[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -283,16 +287,18 @@ class Histogram:
         return [bin_edges_to_centers(edge) for edge in self.edges]
 
 
-cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
+cdef long find_indices(coordnumtype pos, double low, double high, double binsize,
+                       long nbins):
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    # the division can round up to nbins for values just below high
+    return min(<long> ((pos - low) / binsize), nbins - 1)
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
                     cnp.float_t* pdata,
-                    double low, double high, double binsize):
-    iidx = find_indices(xval, low, high, binsize)
+                    double low, double high, double binsize, long nbins):
+    iidx = find_indices(xval, low, high, binsize, nbins)
     if iidx == -1:
         return
     pdata[iidx] += weight
-- 
2.43.0


From a2420778d241e6c9c508c14fd4874b1d894fb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 11/70] fix: histograms of three and more dimensions ignore the
 strides of the coordinate arrays

---
 skbeam/core/accumulators/histogram.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index 0be5dd2..1801b04 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -204,6 +204,8 @@ class Histogram:
 
 
     def _fillnd(self, coords, cnp.ndarray[wnumtype, ndim=1] weight):
+        # the pointers used below do not know about strides
+        coords = [np.require(x, requirements=['C', 'A']) for x in coords]
         # allocate pointer arrays per each supported numerical types
         cdef cnp.int64_t* aint_ptr[MAX_DIMENSIONS]
         cdef int aint_count = 0
-- 
2.43.0


From 48da1648c39d85905fc4721f441360a1900d91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 12/70] fix: the mask of the binned statistics overwrites the
 sample of the caller

It was applied by setting the sample out of range, in place when the sample
is an (N, D) array, had no effect on integer samples when the new value was
rounded back into the range, and was ignored when given as a list.
---
 skbeam/core/accumulators/binned_statistic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..23fcf18 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -153,12 +153,7 @@ class BinnedStatisticDD(object):
         # Compute the bin number each sample falls into.
         Ncount = {}
         for i in np.arange(self.D):
-            # Apply mask in a non-ideal way by setting value outside range.
-            # Would be better to do this using bincount "weights", perhaps.
-            thissample = sample[:, i]
-            if mask is not None:
-                thissample[mask == 0] = self.edges[i][0] - 0.01 * (1 + np.fabs(self.edges[i][0]))
-            Ncount[i] = np.digitize(thissample, self.edges[i])
+            Ncount[i] = np.digitize(sample[:, i], self.edges[i])
 
         # Using digitize, values that fall on an edge are put in the
         # right bin.  For the rightmost bin, we want values equal to
@@ -173,6 +168,12 @@ class BinnedStatisticDD(object):
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
+        # Apply mask by moving the points to the outlier bins.
+        if mask is not None:
+            masked = np.asarray(mask).reshape(-1) == 0
+            for i in np.arange(self.D):
+                Ncount[i][masked] = 0
+
         # Compute the sample indices in the flattened statistic matrix.
         self.ni = self.nbin.argsort()
         self.xy = np.zeros(N, int)
-- 
2.43.0


From c1d358b2fddf00cb09c97f7b47fd0dbdce57a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 13/70] fix: binned statistics move points just below the upper
 edge out of the last bin

They are in the last bin already, and must not be shifted like the points on
the edge are.
---
 skbeam/core/accumulators/binned_statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 23fcf18..27b2013 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -164,7 +164,10 @@ class BinnedStatisticDD(object):
             # Rounding precision
             decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(
+                (sample[:, i] >= self.edges[i][-1])
+                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+            )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
-- 
2.43.0


From 97351b8e0fe76450154cbc3d1c2edb668df30a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 14/70] fix: binmap of the binned statistics is wrong when the
 number of bins differs between the dimensions

---
 skbeam/core/accumulators/binned_statistic.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 27b2013..8581e1f 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -202,15 +202,8 @@ class BinnedStatisticDD(object):
         """
         (N,) = self.xy.shape
         binmap = np.zeros((self.D, N), dtype=int)
-        denominator = 1
-
-        for i in range(self.D):
-            ind = self.D - i - 1
-            subbinmap = self.xy // denominator
-            if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
-            denominator *= self.nbin[self.ni[ind]]
+        # the flattened bins are ordered by the number of bins per dimension
+        binmap[self.ni] = np.unravel_index(self.xy, tuple(self.nbin[self.ni]))
 
         return binmap
 
-- 
2.43.0


From 87af4d7aba83a7f38d72745853c94c5587b9817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 15/70] fix: binned std is NaN for nearly equal values and
 overflows for small integer types

---
 skbeam/core/accumulators/binned_statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 8581e1f..62e5500 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -292,10 +292,11 @@ class BinnedStatisticDD(object):
             self.result[a] = flatsum[a] / self.flatcount[a]
         elif statistic == "std":
             self.result.fill(0)
-            flatsum = np.bincount(self.xy, values)
-            flatsum2 = np.bincount(self.xy, values**2)
+            values = np.asarray(values, dtype=float)
+            flatmean = np.bincount(self.xy, values) / np.maximum(self.flatcount, 1)
+            flatsum2 = np.bincount(self.xy, (values - flatmean[self.xy]) ** 2)
             a = self.flatcount.nonzero()
-            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a])
         elif statistic == "count":
             self.result.fill(0)
             a = np.arange(len(self.flatcount))
-- 
2.43.0


From 86cf7fb6e8544786399c6d0f348caba2548c8077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 16/70] fix: binned median and user-defined statistics do not
 accept lists of values

---
 skbeam/core/accumulators/binned_statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 62e5500..0d01cf9 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -322,7 +322,7 @@ class BinnedStatisticDD(object):
                 np.seterr(**old)
             self.result.fill(null)
 
-            vfs = values[self.argsort_index]
+            vfs = np.asarray(values)[self.argsort_index]
             i = 0
             for j, k in enumerate(self.flatcount):
                 if k > 0:
-- 
2.43.0


From b08f7d7f2051699e92522eb835aa5459736e7b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 17/70] fix: refine_center applies the row correction to the
 column and vice versa

phi is the angle from the column axis: a shifted column shows as cos(phi),
a shifted row as sin(phi).
---
 skbeam/core/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/calibration.py b/skbeam/core/calibration.py
index 6b1b4a8..f5bbc56 100644
--- a/skbeam/core/calibration.py
+++ b/skbeam/core/calibration.py
@@ -227,7 +227,7 @@ def refine_center(
     # this is doing just one term of a Fourier series
     # note that we have to convert _back_ to pixels from real units
     # TODO do this with better integration/handle repeat better
-    col_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
-    row_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
+    col_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
+    row_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
 
     return tuple(np.array(calibrated_center) + np.array([row_shift, col_shift]))
-- 
2.43.0


From e807dfbfa6a0502020bbdb96b55ca8caf52e61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 18/70] fix: MD_dict drops a value when one of its sub-keys is
 read or written

A leaf on the path of a key was replaced by an empty branch, also by reads,
instead of raising the KeyError meant for this. Values with less than two
items could not be stored.
---
 skbeam/core/utils.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index cbb35a8..2edb5a4 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -106,14 +106,12 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
+            if k not in tmp:
                 tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-            if isinstance(tmp, md_value):
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -128,29 +126,26 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
         # catch any type errors from trying to index into non-indexable things
-        # or from trying to use iterables longer than 2
-        except TypeError:
+        # or from trying to use iterables longer than 2 (and key or index errors
+        # from mappings or iterables shorter than that)
+        except (TypeError, LookupError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
-            if isinstance(tmp, md_value):
+            if k not in tmp:
+                return None
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         return tmp.get(key_split[-1], None)
 
-- 
2.43.0


From fe779305b44856778b98041b6ebe12a043f43944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 19/70] fix: RCParamDict never calls its validators

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 2edb5a4..0473b6a 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -248,7 +248,7 @@ class RCParamDict(MutableMapping):
 
             tmp[splt_key[1]] = val
         else:
-            if not self._validators[key]:
+            if not self._validators[key](val):
                 # TODO improve the validation error
                 raise ValueError("fails to validate, improve this")
             self._dict[key] = val
-- 
2.43.0


From a23851fb84f51575072cdd04551f90ca8c6c98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 20/70] fix: RCParamDict fails with a TypeError, or looks into
 the value, for keys below a value

---
 skbeam/core/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 0473b6a..e336f26 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -257,14 +257,20 @@ class RCParamDict(MutableMapping):
         # try to split the key
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            return self._dict[splt_key[0]][splt_key[1]]
+            tmp = self._dict[splt_key[0]]
+            if not isinstance(tmp, RCParamDict):
+                raise KeyError(key)
+            return tmp[splt_key[1]]
         else:
             return self._dict[key]
 
     def __delitem__(self, key):
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            self._dict[splt_key[0]].__delitem__(splt_key[1])
+            tmp = self._dict[splt_key[0]]
+            if not isinstance(tmp, RCParamDict):
+                raise KeyError(key)
+            del tmp[splt_key[1]]
         else:
             del self._dict[key]
 
-- 
2.43.0


From bcca5a3c615b9ef7f2f24e2bbac36e622c5492d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:18 +0000
Subject: [PATCH 21/70] fix: rectangles labels pixels for rectangles which are
 outside of the image

The end of a slice became negative, which counts from the other side.
---
 skbeam/core/roi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..44b515a 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -81,8 +81,8 @@ def rectangles(coords, shape):
     labels_grid = np.zeros(shape, dtype=np.int64)
 
     for i, (col_coor, row_coor, col_val, row_val) in enumerate(coords):
-        left, right = np.max([col_coor, 0]), np.min([col_coor + col_val, shape[0]])
-        top, bottom = np.max([row_coor, 0]), np.min([row_coor + row_val, shape[1]])
+        left, right = np.max([col_coor, 0]), np.clip(col_coor + col_val, 0, shape[0])
+        top, bottom = np.max([row_coor, 0]), np.clip(row_coor + row_val, 0, shape[1])
 
         slc1 = slice(left, right)
         slc2 = slice(top, bottom)
-- 
2.43.0


From 973e2e6fe63b8c9506b5edf8551c67e214b3994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:18 +0000
Subject: [PATCH 22/70] fix: ring_edges rejects lists of widths and spacings of
 the documented lengths

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 44b515a..419cbc3 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -185,7 +185,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From 6682369d5455120ae34eceee9f6430ce28a2c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 23/70] fix: segmented_rings gives pixels outside of the
 segments the label of another ring

This happened to angles below the offset angle and to angles which are not
covered by the list of segments. Angles are now counted from the first one.
---
 skbeam/core/roi.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 419cbc3..1fd4ee2 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -268,17 +268,18 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
             "r=0 outward"
         )
 
-    agrid = utils.angle_grid(center, shape)
-
-    agrid[agrid < 0] = 2 * np.pi + agrid[agrid < 0]
-
     segments_is_list = isinstance(segments, collections.abc.Iterable)
     if segments_is_list:
-        segments = np.asarray(segments) + offset_angle
+        start_angle = segments[0] + offset_angle
+        segments = np.asarray(segments) - segments[0]
     else:
         # N equal segments requires N+1 bin edges spanning 0 to 2pi.
+        start_angle = offset_angle
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
-        segments += offset_angle
+
+    # angles from the start of the first segment, from 0 to 2pi (exclusive)
+    agrid = np.mod(utils.angle_grid(center, shape) - start_angle, 2 * np.pi)
+    agrid[agrid >= 2 * np.pi] = 0
 
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
@@ -292,6 +293,8 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
     len_segments = len(segments)
     for i in range(len(edges) // 2):
         indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        # Not all angles have a segment, when they are given as a list.
+        indices &= ind_grid < len_segments
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From 59e71152026b4731ce2a6d4f4f694c2a9e94700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 24/70] fix: mean_intensity fails for a list of images and for
 labels without background

---
 skbeam/core/roi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 1fd4ee2..5eeb6a5 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -398,15 +398,14 @@ def mean_intensity(images, labeled_array, index=None):
         )
     # handle various input for `index`
     if index is None:
-        index = list(np.unique(labeled_array))
-        index.remove(0)
+        index = [label for label in np.unique(labeled_array) if label != 0]
     try:
         len(index)
     except TypeError:
         index = [index]
     # pre-allocate an array for performance
     # might be able to use list comprehension to make this faster
-    mean_intensity = np.zeros((images.shape[0], len(index)))
+    mean_intensity = np.zeros((len(images), len(index)))
     for n, img in enumerate(images):
         # use a mean that is mask-aware
         mean_intensity[n] = ndimage.mean(img, labeled_array, index=index)
-- 
2.43.0


From ebf183e1a9082f0ff5b49b1e83e46cd29e7d7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 25/70] fix: bar ignores the given pixel coordinates for
 vertical bars

---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 5eeb6a5..93a8abe 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -609,9 +609,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From 9fccad8c129c8a8a53ee957474c0d9d7ab7317be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 26/70] fix: lines wraps around or fails for end points before,
 or starting points past the image

---
 skbeam/core/roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 93a8abe..cc71ebd 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -703,10 +703,10 @@ def lines(end_points, shape):
                 " ending co-ordinates for each line"
             )
         rr, cc = line(
-            np.max([points[0], 0]),
-            np.max([points[1], 0]),
-            np.min([points[2], shape[0] - 1]),
-            np.min([points[3], shape[1] - 1]),
+            np.clip(points[0], 0, shape[0] - 1),
+            np.clip(points[1], 0, shape[1] - 1),
+            np.clip(points[2], 0, shape[0] - 1),
+            np.clip(points[3], 0, shape[1] - 1),
         )
         label += 1
         label_array[rr, cc] = label
-- 
2.43.0


From 066517355cc70fb75da22c120e13bffb73c21f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:48 +0000
Subject: [PATCH 27/70] fix: margin masks the whole image when the edge is zero
 pixels wide

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..ac98ad3 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[tuple(slice(edge_size, max(n - edge_size, 0)) for n in img_shape)] = 0.0
     return ~mask
 
 
-- 
2.43.0


From e234c6aa47e16a4914763b50b5dfe8088bacaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:48 +0000
Subject: [PATCH 28/70] fix: threshold overwrites the mask it was given and the
 masks it returned before

---
 skbeam/core/mask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index ac98ad3..6b71655 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -106,11 +106,13 @@ def threshold(images, threshold, mask=None):
     """
     if mask is None:
         mask = np.ones_like(images[0])
+    else:
+        mask = np.array(mask)
     for im in images:
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-        yield mask
+        yield mask.copy()
 
 
 def margin(img_shape, edge_size):
-- 
2.43.0


From ab88d5386c64a7fd8c99def937a896f52840af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 29/70] fix: binned_outlier compares pixels on a bin edge to
 the statistics of the wrong bin

The pixels at the first edge were compared to the last bin.
---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 6b71655..791ac6f 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -172,7 +172,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     msk_img = img[working_mask]
     msk_r = r[working_mask]
 
-    int_r = np.digitize(r, bins[:-1], True) - 1
+    int_r = np.digitize(r, bins[:-1]) - 1
     # integration
     mean = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic="mean")[0]
     std = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic=np.std)[0]
-- 
2.43.0


From db646f2fd74f4fa72f7107ff03d6bc45287511a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 30/70] fix: binned_outlier masks all pixels of a bin when they
 are equal

---
 skbeam/core/mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 791ac6f..163b614 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -183,7 +183,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     upper = mean + threshold
 
     # single out the too low and too high pixels
-    working_mask *= img > lower[int_r]
-    working_mask *= img < upper[int_r]
+    working_mask *= img >= lower[int_r]
+    working_mask *= img <= upper[int_r]
 
     return working_mask.astype(bool)
-- 
2.43.0


From fef4ef9e3abc5e641452b7258aed841150fd2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 31/70] fix: xsvs mixes integration times

Every level was processed for every frame: the longer integration times
also counted single frames, and sums of frames that overlap.
---
 skbeam/core/speckle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..9748dbf 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -196,7 +196,9 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
 
             while level < num_times:
                 if not track_level[level]:
+                    # half of the data for this level; the levels above wait, too
                     track_level[level] = 1
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
-- 
2.43.0


From df79bbdbdde1a582233bb697224d54704d3686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 32/70] fix: xsvs weights the image sets wrongly

The average over the sets was updated for every image of a set, which left
next to nothing of the earlier sets in the result.
---
 skbeam/core/speckle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 9748dbf..c8c7415 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -221,8 +221,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From 6a9b2845ee58e67bfd3cae2a3194e66ebd96eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 33/70] fix: the standard deviation of xsvs is NaN when all
 frames have the same distribution

---
 skbeam/core/speckle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index c8c7415..cadf0ef 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -224,7 +224,9 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
         prob_k_all += (prob_k - prob_k_all) / (i + 1)
         prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
-    prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
+    for ind in np.ndindex(*prob_k_all.shape):
+        # round off can make the variance of equal values negative
+        prob_k_std_dev[ind] = np.sqrt(np.maximum(prob_k_pow_all[ind] - prob_k_all[ind] ** 2, 0))
 
     logger.info("Processing time for XSVS took %s seconds." "", (time.time() - start_time))
     return prob_k_all, prob_k_std_dev
-- 
2.43.0


From 45ba9de15e7d4a96ef20220901d20801d622e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:45 +0000
Subject: [PATCH 34/70] fix: image_reduction does not accept the roi as an
 array

---
 skbeam/core/dpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..ff136d6 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -76,12 +76,12 @@ def image_reduction(im, roi=None, bad_pixels=None):
 
     """
 
-    if bad_pixels:
+    if bad_pixels is not None:
         im = im.copy()
         for row, column in bad_pixels:
             im[row, column] = 0
 
-    if roi:
+    if roi is not None:
         r, c, row, col = roi
         im = im[r : (r + row), c : (c + col)]
 
-- 
2.43.0


From bb069d90cf3686553b38f24db5282f9a1246a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:45 +0000
Subject: [PATCH 35/70] fix: dpc ignores scale=False, and fails without scaling
 when the gradient is not negated

---
 skbeam/core/dpc.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index ff136d6..bd761d0 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,20 +519,17 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
-        scale = pixel_size / (lambda_ * focus_to_det)
-        gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
-        gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
+        factor = pixel_size / (lambda_ * focus_to_det)
+        gx = dpc_state.gx * len(dpc_state.ref_fx) * factor
+        gy = dpc_state.gy * len(dpc_state.ref_fy) * factor
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = gx * -1
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From 97413a35b7e42d2094e19108e47a39d7c993b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 36/70] fix: construct_circ_avg_image ignores left and right

The default of left becomes what was done for any value of it.
---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..8c5c870 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -130,7 +130,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         default is ``(1, 1)``
     left: float, optional
         pixels smaller than the minimum radius are set to this value
-        (set to None for the value at the minimum radius)
+        (set to None, the default, for the value at the minimum radius)
     right: float, optional
         pixels larger than the maximum radius are set to this value
         (set to None for the value at the maximum radius)
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From a107f7bdbcaa2351045a86a779d6c25f29c9965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 37/70] fix: construct_rphi_avg_image overwrites the angles and
 the image of the caller

A second call with the same arrays gave a different image. The error for a
mask of the wrong shape failed itself when no shape was given.
---
 skbeam/core/image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 8c5c870..2def7c9 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -229,10 +229,12 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 raise ValueError(
                     "Mask shape ({}, {}) ".format(*mask.shape)
                     + "does not match expected"
-                    + " shape of ({},{})".format(*shape)
+                    + " shape of ({},{})".format(*image.shape)
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
+        # a copy, also to have a type that can hold nan
+        image = np.array(image, dtype=float)
         image[np.where(mask == 0)] = np.nan
     if shape is None:
         if center is not None:
@@ -254,7 +256,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From dffdecb38d7c74d515c2710472e861e8d6110280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 38/70] fix: cdi_recon overwrites the initial sample of the
 caller

---
 skbeam/core/cdi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..4dea5fd 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -331,6 +331,9 @@ def cdi_recon(
     gamma_1 = -1 / beta
     gamma_2 = 1 / beta
 
+    # do not change the array of the caller
+    sample_obj = np.array(sample_obj)
+
     # get support index
     outside_sup_index = sup != 1
 
-- 
2.43.0


From 17798f6a79b567ff06d8b68263d4873647250062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:32 +0000
Subject: [PATCH 39/70] fix: the callback of cdi_recon is called at every
 iteration or at none, not after every cb_step iterations

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 4dea5fd..6034ac4 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -382,7 +382,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From a781b17fcc79fc6035b28ee6cfa62a3a42858e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:32 +0000
Subject: [PATCH 40/70] fix: cdi_recon returns NaN for a few iterations

---
 skbeam/core/cdi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 6034ac4..b5f9674 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -391,6 +391,9 @@ def cdi_recon(
 
         logger.info("%d object_chi= %f, diff_chi=%f" % (n, obj_error[n], diff_error[n]))
 
+    if avg_i == 0:
+        # too few iterations to have any to average
+        obj_avg, avg_i = sample_obj, 1
     obj_avg = obj_avg / avg_i
     time_end = time.time()
 
-- 
2.43.0


From 3015659a759578a296ff26ab93c9926a432e29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:55 +0000
Subject: [PATCH 41/70] fix: find_largest_peak fails when the window reaches
 over the start of the data

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..99c7bc8 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,7 +131,7 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
         roi = slice(0, -1)
 
-- 
2.43.0


From 5df6f57bbf54cb6b71f438d0bba591a226d3e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:55 +0000
Subject: [PATCH 42/70] fix: integrate_ROI_spectrum uses the right edges of the
 bins instead of their centers

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 99c7bc8..1103d8c 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -178,7 +178,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
 
     """
     bin_edges = np.asarray(bin_edges)
-    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges), counts, x_min, x_max)
+    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
 def _formatter_array_regions(x, centers, window=1, tab_count=0):
-- 
2.43.0


From 6d4ef872b24906c1b2c80d90382218fd93ea6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:55 +0000
Subject: [PATCH 43/70] fix: logical_sub is wrong when its output overwrites
 its first input

---
 skbeam/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/arithmetic.py b/skbeam/core/arithmetic.py
index f9144a8..ff5ff99 100644
--- a/skbeam/core/arithmetic.py
+++ b/skbeam/core/arithmetic.py
@@ -164,4 +164,4 @@ def logical_sub(x1, x2, out=None):
            [False, False, False, False, False],
            [ True, False,  True, False,  True]], dtype=bool)
     """
-    return logical_and(x1, logical_not(logical_and(x1, x2, out), out), out)
+    return logical_and(x1, logical_not(logical_and(x1, x2)), out)
-- 
2.43.0


From c2019ede443aebb7fb79645b0c94d3c153ce3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 44/70] fix: the pixel fit fails with a NameError when the
 background is not removed

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..2b7564a 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1519,7 +1519,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From c2a5d8628f1ca13f365c4ae6a6a743696adeee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 45/70] fix: r_squared of the pixel fit is computed from the
 norm of the residual instead of its square

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2b7564a..fa3ac0e 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1522,7 +1522,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
-        r2 = 1 - res / sst
+        r2 = 1 - res**2 / sst
         result = list(result) + [bg_sum, r2]
         out.append(result)
     return np.array(out)
-- 
2.43.0


From ce93d0399e0142689d58f4508c73c7711b5863aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 46/70] fix: position, width and ratio of pileup peaks are
 ignored because of misspelled parameter names

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index fa3ac0e..5794dd6 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From 3467a60c4ee8616bf9d57d4956ab96979022430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 47/70] fix: assemble_models fails for lines which are not
 activated at the incident energy

---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 5794dd6..409d307 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_mod = self.setup_element_model(element)
+            if element_mod is not None:  # None if the line is not activated
+                self.mod += element_mod
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From 3aee930411b85b93a8dc5581b3ccd956b9561ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 48/70] fix: K-beta lines are left out of the activated K lines
 and listed as L lines

---
 skbeam/core/fitting/xrf_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 409d307..017a8f0 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1455,7 +1455,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
+        for num, item in enumerate([v for v in e.emission_line.all if v[0] in K_TRANSITIONS]):
             line_name = item[0]
             if e.cs(incident_energy)[line_name] == 0:
                 continue
@@ -1467,7 +1467,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
+        for num, item in enumerate([v for v in e.emission_line.all if v[0] in L_TRANSITIONS]):
             line_name = item[0]
             if e.cs(incident_energy)[line_name] == 0:
                 continue
@@ -1479,7 +1479,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
+        for num, item in enumerate([v for v in e.emission_line.all if v[0] in M_TRANSITIONS]):
             line_name = item[0]
             if e.cs(incident_energy)[line_name] == 0:
                 continue
-- 
2.43.0


From b8f08a2ca1b67fd22024b373ff21678009d647b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 49/70] fix: photon count distributions overflow for large
 counts

---
 skbeam/core/fitting/lineshapes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index cf1c418..6e2f4ad 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -49,7 +49,7 @@ import logging
 import numpy as np
 import scipy.special
 from scipy import stats
-from scipy.special import gamma, gammaln
+from scipy.special import gammaln, xlogy
 
 logger = logging.getLogger(__name__)
 
@@ -464,9 +464,10 @@ def nbinom_dist(bin_values, K, M):
         vol 21, p 1288-1295, 2014.
 
     """
-    co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M))
+    bin_values = np.asarray(bin_values)
+    log_co_eff = gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M)
 
-    nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
+    nbinom = np.exp(log_co_eff + M * np.log(M / (K + M)) + xlogy(bin_values, K / (M + K)))
     return nbinom
 
 
@@ -497,5 +498,6 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
-    poisson_dist = np.exp(-K) * np.power(K, bin_values) / gamma(bin_values + 1)
+    bin_values = np.asarray(bin_values)
+    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(bin_values + 1))
     return poisson_dist
-- 
2.43.0


From 50b48e7f7ab5073ce2cefb0155fa0b09163a3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 50/70] fix: set_default uses inspect.getargspec, which was
 removed in Python 3.11

---
 skbeam/core/fitting/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/models.py b/skbeam/core/fitting/models.py
index 330ad4f..1687524 100644
--- a/skbeam/core/fitting/models.py
+++ b/skbeam/core/fitting/models.py
@@ -65,7 +65,7 @@ def set_default(model_name, func_name):
     func_name : function
         function name of physics peak
     """
-    paras = inspect.getargspec(func_name)
+    paras = inspect.getfullargspec(func_name)
 
     # the first argument is independent variable, also ignored
     # default values are not considered for fitting in this function
-- 
2.43.0


From 505953af557256357c6e816964b8a0a585efba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 51/70] fix: gsas_writer scales the errors but not the
 intensities in ESD mode

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..da0c035 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
-- 
2.43.0


From b06ba1f6f1cb293b87d2058f570cef4e18731bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 52/70] fix: gsas_writer scales the two theta values in FXYE
 mode

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index da0c035..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 88ae644c865e53d11b1e747d30bfa18bbc3803d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 53/70] fix: gsas_reader appends zeros to ESD data with an
 incomplete last record

---
 skbeam/io/gsas_file_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..12ef7f9 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -163,9 +163,14 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values(two theta or intensity)
+        nch = float(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
-- 
2.43.0


From becdd2b0f5da5aa7d9a730247eb6083201ac8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 54/70] fix: load_netCDF fails to scale the volume

---
 skbeam/io/net_cdf_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/io/net_cdf_io.py b/skbeam/io/net_cdf_io.py
index 6cd0671..cb4ec9a 100644
--- a/skbeam/io/net_cdf_io.py
+++ b/skbeam/io/net_cdf_io.py
@@ -69,7 +69,8 @@ def load_netCDF(file_name):
         data = src_file.variables["VOLUME"]
         md_dict = src_file.__dict__
         # Check for voxel intensity scale factor and apply if value is present
-        data /= data.scale_factor if data.scale_factor != 1.0 else 1.0
+        data.set_auto_maskandscale(False)
+        data = data[:] / getattr(data, "scale_factor", 1.0)
 
     # Accounts for specific case where z_pixel_size doesn't get assigned
     # even though dimensions are actuall isotropic. This occurs when
-- 
2.43.0


From 081cd938b02517ae3d6ba3f988392dc418a86e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 55/70] fix: load_amiramesh fails on Python 3

---
 skbeam/io/avizo_io.py | 46 ++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 698ff0c..41d6232 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -21,15 +21,15 @@ def _read_amira(src_file):
     am_header : list of strings
         This list contains all of the raw information contained in the
         AmiraMesh file header. Contains all of the raw header information
-    am_data : str
-        A compiled string containing all of the image array data, that was
+    am_data : bytes
+        A byte string containing all of the image array data, that was
         stored in the source AmiraMesh data file. Contains the raw image data
     """
     am_header = []
     am_data = []
-    with open(os.path.normpath(src_file), "r") as input_file:
+    with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
-            line = input_file.readline()
+            line = input_file.readline().decode("latin-1")
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
@@ -48,8 +48,8 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
 
     Parameters
     ----------
-    am_data : str
-        String object containing all of the image array data, formatted as IEEE
+    am_data : bytes
+        Byte string containing all of the image array data, formatted as IEEE
         binary. Current dType options include:
             float
             short
@@ -85,27 +85,22 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
     # Dictionary of the encoding types for AmiraMesh files
     am_format_dict = {"BINARY-LITTLE-ENDIAN": "<", "BINARY": ">", "ASCII": "unknown"}
     # Dictionary of the data types encountered so far in AmiraMesh files
-    am_dtype_dict = {"float": "f4", "short": "h4", "ushort": "H4", "byte": "b"}
-    # Had to split out the stripping of new line characters and conversion
-    # of the original string data based on whether source data is BINARY
-    # format or ASCII format. These format types require different stripping
-    # tools and different string conversion tools.
-    if header_dict["data_format"] == "BINARY-LITTLE-ENDIAN":
-        data_strip = am_data.strip("\n")
-        flt_values = np.fromstring(
-            data_strip, (am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]])
-        )
+    am_dtype_dict = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "b"}
+    n_values = Zdim * Ydim * Xdim
+    # BINARY and ASCII source data require different conversion tools. The
+    # data may be followed by new line characters.
     if header_dict["data_format"] == "ASCII":
-        data_strip = am_data.translate(None, "\n")
-        string_list = data_strip.split(" ")
-        string_list = string_list[0 : (len(string_list) - 2)]
+        string_list = am_data.decode("ascii").split()[:n_values]
         flt_values = np.array(string_list).astype(am_dtype_dict[header_dict["data_type"]])
-    # Resize the 1D array to the correct ndarray dimensions
-    # Note that resize is in-place whereas reshape is not
-    flt_values.resize(Zdim, Ydim, Xdim)
-    output = flt_values
+    else:
+        flt_values = np.frombuffer(
+            am_data,
+            am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]],
+            count=n_values,
+        ).copy()
+    output = flt_values.reshape(Zdim, Ydim, Xdim)
     if flip_z:
-        output = flt_values[::-1, ..., ...]
+        output = output[::-1]
     return output
 
 
@@ -131,7 +126,8 @@ def _clean_amira_header(header_list):
     """
     clean_header = []
     for row in header_list:
-        split_header = filter(None, [word.translate(None, ',"') for word in row.strip("\n").split()])
+        split_header = [word.replace(",", "").replace('"', "") for word in row.strip("\n").split()]
+        split_header = [word for word in split_header if word]
         clean_header.append(split_header)
     return clean_header
 
-- 
2.43.0


From eda34998a0cc61e3a32ebb5bbb5b488673c0b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:16 +0000
Subject: [PATCH 56/70] fix: sgolay2d pads images of unsigned integers with
 overflown values

---
 skbeam/core/smoothing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/smoothing.py b/skbeam/core/smoothing.py
index 8cfc6d0..34af518 100644
--- a/skbeam/core/smoothing.py
+++ b/skbeam/core/smoothing.py
@@ -58,6 +58,9 @@ def sgolay2d(image, window_size, order, derivative=None):
     smooth_image : ndarray, shape (N,M)
         the smoothed image .
     """
+    # the padding below would overflow for unsigned integers
+    image = np.asarray(image, dtype=np.float64)
+
     # number of terms in the polynomial expression
     n_terms = (order + 1) * (order + 2) / 2.0
 
-- 
2.43.0


From 3ebdbbd2cb03865c3a41d3d38c72f810e70f9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 57/70] fix: get_line_energy fails for the lines Ll, Ln, Mb and
 Mg

---
 skbeam/core/fitting/xrf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 017a8f0..f847db4 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1127,14 +1127,14 @@ def get_line_energy(elemental_line):
     """
     name, line = elemental_line.split("_")
     line = line.lower()
+    e = Element(name)
 
     # Complete the emission line name
     if len(line) == 1:  # elemental line format 'Ca_K'
         line += "a1"
-    elif len(line) == 2:  # elemental line format 'Ca_Ka'
+    elif len(line) == 2 and line not in list(e.emission_line):  # elemental line format 'Ca_Ka'
         line += "1"
 
-    e = Element(name)
     e_cen = e.emission_line[line]
     return e_cen
 
-- 
2.43.0


From 2dce8fc66c603035c952ac39d76e59c64ba18344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:01 +0000
Subject: [PATCH 58/70] fix: gsas_writer deletes an existing file when it
 rejects the mode

---
 skbeam/io/save_powder_output.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 171dc58..c4e33e0 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -160,6 +160,11 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
 
     _validate_input(tth, intensity, err, ext)
 
+    if err is None:
+        mode = "STD"
+    if mode not in ("STD", "ESD", "FXYE"):
+        raise ValueError("  Define the GSAS file type   ")
+
     file_path = _create_file_path(dir_path, output_name, ext)
 
     max_intensity = 999999
@@ -181,9 +186,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     tth0_cdg = tth[0] * 100
     dtth_cdg = (tth[-1] - tth[0]) / (len(tth) - 1) * 100
 
-    if err is None:
-        mode = "STD"
-
     if mode == "STD":
         n_rec = int(np.ceil(n_chan / 10.0))
         l_bank = "BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f STD" % (
@@ -214,7 +216,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
-    elif mode == "FXYE":
+    else:
         n_rec = n_chan
         l_bank = "BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f FXYE" % (
             i_bank,
@@ -232,8 +234,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         ]
         for i in range(len(l_recs)):
             lines.append("%-80s" % l_recs[i])
-    else:
-        raise ValueError("  Define the GSAS file type   ")
 
     lines[-1] = "%-80s" % lines[-1]
     rv = "\r\n".join(lines) + "\r\n"
-- 
2.43.0


From 80dc32a62cb866918480115a7d2471b963edf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:01 +0000
Subject: [PATCH 59/70] fix: load_amiramesh never returns for a file without a
 data section

---
 skbeam/io/avizo_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 41d6232..03e3003 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -30,6 +30,8 @@ def _read_amira(src_file):
     with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
             line = input_file.readline().decode("latin-1")
+            if not line:
+                raise ValueError("The file {} ends before its data section".format(src_file))
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
-- 
2.43.0


From cd4228fc6612bd359d2cc60a4899f5716f3c5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:35 +0000
Subject: [PATCH 60/70] fix: read AmiraMesh files whose x dimension is 1

---
 skbeam/io/avizo_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 03e3003..7d93ec6 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -203,7 +203,8 @@ def _create_md_dict(clean_header):
                     resolution_list.append(0)
             # isotropy determination (isotropic res, or anisotropic res)
             if (
-                resolution_list[1] / resolution_list[0] > 0.99
+                resolution_list[0] != 0
+                and resolution_list[1] / resolution_list[0] > 0.99
                 and resolution_list[2] / resolution_list[0] > 0.99
                 and resolution_list[1] / resolution_list[0] < 1.01
                 and resolution_list[2] / resolution_list[0] < 1.01
-- 
2.43.0


From 287844d99ef8a24b44d4978ee65b84deb52f8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:37 +0000
Subject: [PATCH 61/70] fix: binned statistics reject an unknown statistic
 instead of returning uninitialised memory

---
 skbeam/core/accumulators/binned_statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 0d01cf9..61e7e6d 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -328,6 +328,8 @@ class BinnedStatisticDD(object):
                 if k > 0:
                     self.result[j] = internal_statistic(vfs[i : i + k])
                 i += k
+        else:
+            raise ValueError("invalid statistic %r" % (statistic,))
 
         # Shape into a proper matrix
         self.result = self.result.reshape(np.sort(self.nbin))
-- 
2.43.0


From f9c16d8e4553cf97d8ebe1c54e8dc5c3dc47f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:25 +0000
Subject: [PATCH 62/70] fix: ring_edges keeps the fraction of the inner radius
 when the spacings are integers

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index cc71ebd..d5472b5 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -214,7 +214,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
         spacing = np.ones(num_rings - 1) * spacing
 
     # The inner radius is the first "spacing."
-    all_spacings = np.insert(spacing, 0, inner_radius)
+    all_spacings = np.append(inner_radius, spacing)
     steps = np.array([all_spacings, width]).T.ravel()
     edges = np.cumsum(steps).reshape(-1, 2)
 
-- 
2.43.0


From 4ca3a4637f13d1b1c098302f3ebb8a85b96f68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 63/70] fix: bin_1D sums in double precision, so narrow integer
 and single precision images do not overflow or round

---
 skbeam/core/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index e336f26..63312e3 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -555,6 +555,10 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
     if nx is None:
         nx = int(max_x - min_x)
 
+    # the sums take the type of the weights, which has to be able to hold them
+    y = np.asarray(y)
+    y = y.astype(np.result_type(y, float))
+
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
     val, _ = np.histogram(a=x, bins=bins, weights=y)
-- 
2.43.0


From ed563b37b5d6d7824da841afdcc1879c7d6d801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 64/70] fix: subtract_reference_images does not wrap around for
 unsigned images

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 63312e3..76b8bbe 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -451,7 +451,8 @@ def subtract_reference_images(imgs, is_reference):
             ref_imge = imgs
             continue
         # else, do the subtraction
-        corrected_image.append(imgs - ref_imge)
+        # (in a signed type, as an image can be darker than the reference)
+        corrected_image.append(np.subtract(imgs, ref_imge, dtype=np.result_type(imgs, ref_imge, np.int8)))
 
     # return the output as a list
     return list(corrected_image)
-- 
2.43.0


From 5e4170bc8f481e78fbd2c9e91ba6cbac33f0c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:43 +0000
Subject: [PATCH 65/70] fix: xsvs does not wrap around for images of narrow
 integer types

---
 skbeam/core/roi.py     | 3 ++-
 skbeam/core/speckle.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index d5472b5..8ce6c41 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -323,7 +323,8 @@ def roi_max_counts(images_sets, label_array):
     max_cts = 0
     for img_set in images_sets:
         for img in img_set:
-            max_cts = max(max_cts, ndimage.maximum(img, label_array))
+            # a plain number: multiples of it do not have to fit into the type of the image
+            max_cts = max(max_cts, ndimage.maximum(img, label_array).item())
     return max_cts
 
 
diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index cadf0ef..27cbd9b 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -174,7 +174,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             cur[0] = (1 + cur[0]) % timebin_num
             # read each frame
             # Put the image into the ring buffer.
-            buf[0, cur[0] - 1] = (np.ravel(img))[indices]
+            # (as floats, the sums of images can exceed the range of their type)
+            buf[0, cur[0] - 1] = (np.ravel(img))[indices].astype(float)
 
             _process(
                 num_roi,
-- 
2.43.0


From 4df099a878bde47b9deab654fd238982665f21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:16 +0000
Subject: [PATCH 66/70] fix: find_ring_center_acorr_1D does not overflow for
 images of narrow integer types

---
 skbeam/core/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 2def7c9..003ebfb 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -93,6 +93,8 @@ def _corr_ax1(input_image):
     bins : ndarray
         Bin edges for the vals histogram
     """
+    # the products of the intensities do not fit into the type of a detector image
+    input_image = np.asarray(input_image, dtype=float)
     dim = input_image.shape[1]
     m_ones = np.ones(dim)
     norm_mask = np.correlate(m_ones, m_ones, mode="full")
-- 
2.43.0


From dfcc11ef6a793cd6b78dde487471d38de8d14dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:29 +0000
Subject: [PATCH 67/70] fix: generate_box_support covers the image when the box
 is larger

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index b5f9674..667e2b2 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -201,7 +201,7 @@ def generate_box_support(sup_radius, shape_v):
     sup : array
         support with a box area
     """
-    slc_list = [slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v]
+    slc_list = [slice(max(s // 2 - sup_radius, 0), s // 2 + sup_radius) for s in shape_v]
     sup = np.zeros(shape_v)
     sup[tuple(slc_list)] = 1
     return sup
-- 
2.43.0


From 31e4ddab724b25fbd6a73c0f27a18564ca599a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:21 +0000
Subject: [PATCH 68/70] fix: give each bad image its own array of NaN in
 bad_to_nan_gen

---
 skbeam/core/mask.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 163b614..ca04200 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -70,13 +70,9 @@ def bad_to_nan_gen(images, bad):
         if image is bad it will convert to np.nan array otherwise no
         change to the array
     """
-    ret_val = None
     for n, im in enumerate(images):
         if n in bad:
-            if ret_val is None:
-                ret_val = np.empty(im.shape)
-                ret_val[:] = np.nan
-            yield ret_val
+            yield np.full(im.shape, np.nan)
         else:
             yield im
 
-- 
2.43.0


From 8b1fdc4b423c6164011a5dac0eb9a8870f014aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:30 +0000
Subject: [PATCH 69/70] fix: keep the existing file when gsas_writer rejects
 the data

---
 skbeam/io/save_powder_output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index c4e33e0..f95ff71 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -165,8 +165,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     if mode not in ("STD", "ESD", "FXYE"):
         raise ValueError("  Define the GSAS file type   ")
 
-    file_path = _create_file_path(dir_path, output_name, ext)
-
     max_intensity = 999999
     log_scale = np.floor(np.log10(max_intensity / np.max(intensity)))
     log_scale = min(log_scale, 0)
@@ -238,6 +236,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     lines[-1] = "%-80s" % lines[-1]
     rv = "\r\n".join(lines) + "\r\n"
 
+    file_path = _create_file_path(dir_path, output_name, ext)
     with open(file_path, "wt") as f:
         f.write(rv)
 
-- 
2.43.0


From acdcb4fe6e4ea9d2ef402955438575772fcafc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:27 +0000
Subject: [PATCH 70/70] fix: read_binary reports a file which is shorter than
 its volume

---
 skbeam/io/binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/io/binary.py b/skbeam/io/binary.py
index 6788769..b950d0d 100644
--- a/skbeam/io/binary.py
+++ b/skbeam/io/binary.py
@@ -79,6 +79,9 @@ def read_binary(filename, nx, ny, nz, dtype_str, headersize):
         # read the entire file in as 1D list
         data = np.fromfile(file=opened_file, dtype=np.dtype(dtype_str), count=-1)
 
+    if data.size < nx * ny * nz:
+        raise ValueError("The file {} ends before the end of its data".format(filename))
+
     # reshape the array to 3D
     if nz != 1:
         data.resize(nx, ny, nz)
-- 
2.43.0

