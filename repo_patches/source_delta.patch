From 0eb31a11c1b23b24c225b5428f3f5228d68ac81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 01/27] fix: simulateDSM supports multiple inputs and
 quantizers and state storage

The documented array-valued nlev was forced to a single entry in all the
simulator backends; the pure Python backend could neither store the state
evolution of modulators with order > 1 nor take more than one input.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      |  4 ++--
 src/pydsm/delsig/_simulateDSM_scipy.py       | 12 ++++++------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..335e5ab 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,10 +48,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..fd55455 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
@@ -148,14 +148,14 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i:i+1]))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i] = y0[:, 0]
+        v[:, i] = ds_quantize(y0, nlev)[:, 0]
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i:i+1], v[:, i:i+1])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i] = x0[:, 0]
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..10aa37d 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,10 +55,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
-- 
2.43.0


From a7d3271bddce1e062a74075938b50c87a3ffde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 02/27] fix: ds_quantize accepts the documented scalar and 1D
 arguments

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index fd55455..9352cea 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -193,12 +193,15 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
-    v = np.empty_like(y)
+    y = np.asarray(y, dtype=float)
+    n = np.asarray(n).reshape(-1)
+    v = np.empty(y.size)
+    yq = y.reshape(-1)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
-            v[qi] = 2*np.floor(0.5*y[qi])+1
+            v[qi] = 2*np.floor(0.5*yq[qi])+1
         else:
-            v[qi] = 2*np.floor(0.5*(y[qi]+1))
+            v[qi] = 2*np.floor(0.5*(yq[qi]+1))
         L = n[qi]-1
-        v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+        v[qi] = np.max((np.min((v[qi], L)), -L))
+    return v.reshape(y.shape)
-- 
2.43.0


From 71b5057024e62007f2b9ea96491c904b56f243a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 03/27] fix: compiled simulateDSM validates u and the NTF form
 before using raw pointers

A 0-d u, an NTF together with more than one input or quantizer, or an NTF
with a different number of zeros and poles made the compiled backends read
past the end of their arrays. Also accept the documented array_like u.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 8 ++++++--
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 335e5ab..e361f71 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -60,7 +60,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
@@ -81,6 +81,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            # The realization of the NTF has a single input and quantizer
+            # and needs as many zeros as poles
+            if nu != 1 or nq != 1 or ntf_p.shape[0] != ntf_z.shape[0]:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 10aa37d..24a3338 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -67,7 +67,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
@@ -88,6 +88,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            # The realization of the NTF has a single input and quantizer
+            # and needs as many zeros as poles
+            if nu != 1 or nq != 1 or ntf_p.shape[0] != ntf_z.shape[0]:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
-- 
2.43.0


From 86755e27e5e1ac9dbef564b08aa2b85c391e9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 04/27] fix: pure Python simulateDSM rejects the specifications
 documented as incorrect

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 9352cea..8087d27 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -86,12 +86,14 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     if type(arg2) == tuple and len(arg2) == 3:
         # Assume ntf in zpk form
         (ntf_z, ntf_p, ntf_k) = arg2
+        if nu != 1 or nq != 1 or len(ntf_z) != len(ntf_p):
+            raise ValueError('Incorrect modulator specification')
         form = 2
         order = len(ntf_z)
     else:
         # Assume ABCD form
         ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
+        if ABCD.ndim == 2 and ABCD.shape[1] == nu+ABCD.shape[0]:
             # ABCD dimensions OK
             form = 1
             order = ABCD.shape[0]-nq
-- 
2.43.0


From d36784adbbb4dc06c7c72c165750f188baa52f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 05/27] fix: compiled simulateDSM handles modulators without
 state

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 21 ++++++++++++--------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 21 ++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index e361f71..b495868 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -178,10 +178,14 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef int i
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
-            1.0, dbldata(C), order, \
-            dbldata(c_x0), 1, \
-            0.0, dbldata(y0), 1)
+        # (BLAS leaves y0 alone with a null order and refuses a null stride)
+        if order > 0:
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
+                1.0, dbldata(C), order, \
+                dbldata(c_x0), 1, \
+                0.0, dbldata(y0), 1)
+        else:
+            y0.fill(0.)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, nu,\
             1.0, dbldata(D1), nu, \
             dbldata(c_u)+i, N, \
@@ -195,10 +199,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             dbldata(v)+i, N)
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
-            1.0, dbldata(A), order, \
-            dbldata(c_x0), 1,\
-            0.0, dbldata(c_x0_temp), 1)
+        if order > 0:
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
+                1.0, dbldata(A), order, \
+                dbldata(c_x0), 1,\
+                0.0, dbldata(c_x0_temp), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nu,\
             1.0, dbldata(B1), nu, \
             dbldata(c_u)+i, N, \
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 24a3338..403dfe5 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -184,10 +184,14 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef double zerodot = 0.0
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
-        dgemv('T', &order, &nq,\
-            &onedot, dbldata(C), &order, \
-            dbldata(c_x0), &one, \
-            &zerodot, dbldata(y0), &one)
+        # (BLAS leaves y0 alone with a null order and refuses a null stride)
+        if order > 0:
+            dgemv('T', &order, &nq,\
+                &onedot, dbldata(C), &order, \
+                dbldata(c_x0), &one, \
+                &zerodot, dbldata(y0), &one)
+        else:
+            y0.fill(0.)
         dgemv('T', &nu, &nq,\
             &onedot, dbldata(D1), &nu, \
             dbldata(c_u)+i, &N, \
@@ -201,10 +205,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             dbldata(v)+i, N)
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
-        dgemv('T', &order, &order,\
-            &onedot, dbldata(A), &order, \
-            dbldata(c_x0), &one,\
-            &zerodot, dbldata(c_x0_temp), &one)
+        if order > 0:
+            dgemv('T', &order, &order,\
+                &onedot, dbldata(A), &order, \
+                dbldata(c_x0), &one,\
+                &zerodot, dbldata(c_x0_temp), &one)
         dgemv('T', &nu, &order,\
             &onedot, dbldata(B1), &nu, \
             dbldata(c_u)+i, &N, \
-- 
2.43.0


From b078333128fac5a32f92990f85dbe245557e7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 06/27] fix: cplxpair keeps pairs together, never hangs and
 takes integers

---
 src/pydsm/relab.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..e3b865c 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -275,6 +275,8 @@ def cplxpair(x, tol=None, dim=None):
                             tol*np.abs(v))), x_cplx.size-start-1)+1
             if (sim_len % 2) != 0:
                 sim_len -= 1
+            if sim_len == 0:
+                raise ValueError('Complex numbers cannot be paired')
             # At this point, sim_len elements with identical real part
             # have been identified.
             sub_x = x_cplx[start:start+sim_len]
@@ -285,9 +287,8 @@ def cplxpair(x, tol=None, dim=None):
                 raise ValueError('Complex numbers cannot be paired')
             # Output should contain "perfect" pairs. Hence, keep entries
             # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len] = np.concatenate(
-                (np.conj(sub_x[:sim_len//2-1:-1]),
-                 sub_x[:sim_len//2-1:-1]))
+            x_cplx[start:start+sim_len:2] = np.conj(sub_x[:sim_len//2-1:-1])
+            x_cplx[start+1:start+sim_len:2] = sub_x[:sim_len//2-1:-1]
             start += sim_len
         return np.concatenate((x_cplx, x_real))
 
@@ -300,5 +301,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From 0401f26dc7aefa0db4b73379d2055274953bfd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 07/27] fix: raw_xcorr computes the documented
 cross-correlation

---
 src/pydsm/correlations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..db9f88e 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -103,11 +103,11 @@ def raw_xcorr(x, y, N):
     Notes
     -----
     the routine does not make any check on the lengths of x, y and N. It
-    is responsibility of the user to assure that N<=len(y). In some cases
+    is responsibility of the user to assure that N<=len(x). In some cases
     (but only in some cases), zero padding is assumed.
     """
     mx = len(x)
     my = len(y)
-    q = np.asarray([np.dot(y[k:min(my, mx+k)],
-                           x[0:min(my-k, mx)]) for k in range(N+1)])
+    q = np.asarray([np.dot(x[k:min(mx, my+k)],
+                           y[0:min(mx-k, my)]) for k in range(N+1)])
     return q
-- 
2.43.0


From 1287bce5656673c09e59f5823876aa4b0cdd137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 08/27] fix: idtft_hermitian honours its own default options

---
 src/pydsm/ft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..d87e6b3 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options, [],
+                            ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
-- 
2.43.0


From ebc47eb938b98a0f3c5be3a711fededba028d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 09/27] fix: dtft_hermitian and undbm accept any array_like as
 documented

---
 src/pydsm/delsig/_decibel.py | 2 +-
 src/pydsm/ft.py              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index d87e6b3..b4148fd 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -65,10 +65,10 @@ def fft_centered(x, fs=1):
 
     Returns
     -------
-    X : ndarray
-        samples of the DFT of the input vector
     ff : ndarray
         vector of frequencies corresponding to the samples in X
+    X : ndarray
+        samples of the DFT of the input vector
 
     Other Parameters
     ----------------
@@ -138,7 +138,7 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.real(x)
     return lambda f: \
         x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
 
-- 
2.43.0


From 0e32a357776197675610b8ee4a7dff8d7c1080d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 10/27] fix: ds_optzeros returns ten distinct optimal zeros for
 order 10

---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From 0b30cbf8f69849987d3b3ec6d16b0064956c2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 11/27] fix: dtft_hermitian and idtft_hermitian deal with
 complex hermitian data

---
 src/pydsm/ft.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index b4148fd..f465231 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,9 +138,10 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = np.real(x)
+    x = np.asarray(x)
     return lambda f: \
-        x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
+        np.real(x[0]) + 2*np.sum(np.real(
+            x[1:]*np.exp(-2j*np.pi*f/fs*np.arange(1, len(x)))))
 
 
 def _idtft(Ff, t, fs=1, **quad_opts):
@@ -197,7 +198,8 @@ idtft.default_options = {"quad_opts": {"epsabs": 1E-12,
 
 
 def _idtft_hermitian(Ff, t, fs=1, **quad_opts):
-    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs))*np.cos(2*np.pi*f*t),
+    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs) *
+                                                 np.exp(2j*np.pi*f*t)),
                                0, 0.5, **quad_opts)[0]
 
 
-- 
2.43.0


From 2bc9c1bf8678f1c7144e242df48aad7a84185949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:43 +0000
Subject: [PATCH 12/27] fix: eps is the distance to the next floating point
 number, for integers too

---
 src/pydsm/relab.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index e3b865c..2868745 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -75,17 +75,9 @@ def eps(x=1.):
     >>> print(eps(np.float32))
     1.1920929e-07
     """
-
-    def _eps(xi):
-        return np.finfo(xi).eps * np.abs(xi)
     if isinstance(x, (type, np.dtype)):
         return np.finfo(x).eps
-    elif np.isscalar(x):
-        return _eps(x)
-    x = np.asarray(x)
-    d = np.empty_like(x)
-    d.flat = [_eps(xi) for xi in x.flat]
-    return d
+    return np.spacing(np.abs(x))
 
 
 def db(x, signal_type='voltage', R=1):
-- 
2.43.0


From 9e3de3024b8edd9584dfb2e40a9b78a3365e62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 13/27] fix: NTF design functions use their own default
 options, which are no longer shared

---
 src/pydsm/NTFdesign/filter_based.py           | 15 ++--
 src/pydsm/NTFdesign/psychoacoustic.py         | 12 ++-
 .../NTFdesign/weighting/_fir_weighting.py     | 89 +++++++++----------
 src/pydsm/ft.py                               |  3 +-
 4 files changed, 60 insertions(+), 59 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..c1f2da6 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -47,6 +47,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 from .merit_factors import quantization_noise_gain as _quantization_noise_gain
 from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
@@ -130,8 +131,8 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return _quantization_noise_gain(NTF, w, **opts)
 
-quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+quantization_noise_gain.default_options = deepcopy(
+    _quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +214,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -292,7 +293,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     # Manage optional parameters
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
+                             [], ['quad_opts'], False)
     opts2 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              ['show_progress'], ['cvxopt_opts'])
@@ -300,7 +301,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     q0 = q0_from_filter(order, H, H_type, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+synthesize_ntf_from_filter.default_options = deepcopy(
+    q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..311adb8 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,11 +52,13 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
+from .weighting._fir_weighting import _digested_weighting_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 
@@ -290,10 +292,14 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    # Manage optional parameters
+    opts1, opts2 = _digested_weighting_options(
+        options, ntf_fir_audio_weighting.default_options)
+    opts1.update(opts2)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts1)
 
-ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+ntf_fir_audio_weighting.default_options = deepcopy(
+    ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..c022184 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,7 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -297,6 +298,34 @@ ntf_fir_from_q0.default_options = {"modeler": "cvxpy_old",
                                    'fix_pos': True}
 
 
+def _digested_weighting_options(options, defaults):
+    """
+    Digest the options of the functions based on :func:`ntf_fir_weighting`
+
+    Returns the options for :func:`q0_weighting` and those for
+    :func:`ntf_fir_from_q0`.
+    """
+    opts1 = digested_options(options, defaults, [], ['quad_opts'], False)
+    opts2 = digested_options(
+        options, defaults,
+        ['show_progress', 'fix_pos', 'modeler'], [], False)
+    multikeys = []
+    if opts2['modeler'] == 'cvxpy':
+        opts2.update(digested_options(
+            options, defaults, [], ['cvxpy_opts'], False))
+        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
+            multikeys = ['cvxopt_opts']
+        elif opts2['cvxpy_opts']['solver'] == 'scs':
+            multikeys = ['scs_opts']
+    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
+        multikeys = ['cvxopt_opts']
+    else:
+        raise ValueError('Unsupported modeling backend {}'.format(
+            opts2['modeler']))
+    opts2.update(digested_options(options, defaults, [], multikeys))
+    return opts1, opts2
+
+
 def ntf_fir_weighting(order, w, H_inf=1.5,
                       normalize="auto", **options):
     u"""Synthesize FIR NTF based on a noise weighting function or a filter.
@@ -413,37 +442,15 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     scipy.integrate.quad : for the meaning of the integrator parameters
     """
     # Manage optional parameters
-    opts1 = digested_options(options, ntf_fir_weighting.default_options,
-                             [], ['quad_opts'], False)
-    opts2 = digested_options(
-        options, ntf_fir_weighting.default_options,
-        ['show_progress', 'fix_pos', 'modeler'], [], False)
-    if opts2['modeler'] == 'cvxpy':
-        opts2.update(digested_options(
-            options, ntf_fir_weighting.default_options,
-            [], ['cvxpy_opts'], False))
-        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-        elif opts2['cvxpy_opts']['solver'] == 'scs':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['scs_opts'], False))
-    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-    else:
-        raise ValueError('Unsupported modeling backend {}'.format(
-            opts2['modeler']))
-    digested_options(options, {})
+    opts1, opts2 = _digested_weighting_options(
+        options, ntf_fir_weighting.default_options)
     # Do the computation
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = deepcopy(q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -573,17 +580,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +598,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
@@ -633,22 +640,8 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
     ntf_ir = _ntf_fir_from_digested(Qs, A, C, H_inf, **dig_opts)
     return (np.roots(ntf_ir), poles, 1.)
 
-ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
-                                        "cvxpy_opts": {'override_kktsolver':
-                                                       True,
-                                                       'solver': 'cvxopt'},
-                                        "cvxopt_opts": {'maxiters': 100,
-                                                        'abstol': 1e-7,
-                                                        'reltol': 1e-6,
-                                                        'feastol': 1e-6},
-                                        'scs_opts': {'max_iters': 2500,
-                                                     'eps': 1e-3,
-                                                     'alpha': 1.8,
-                                                     'normalize': True,
-                                                     'use_indirect': False},
-                                        'show_progress': True,
-                                        'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options = deepcopy(
+    ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index f465231..ce624bc 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -41,6 +41,7 @@ Functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 import scipy as sp
 __import__("scipy.fftpack")
@@ -250,4 +251,4 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = deepcopy(idtft.default_options)
-- 
2.43.0


From 2c727daf15cad428151e51322302e5229f33f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 14/27] fix: pole of the A-weighting filter (737.9 Hz, as in
 the weighting function)

---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From 5bb68ed65012011114909ac660a40e8dc136ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 15/27] fix: loudness levels from sound pressure levels in ISO
 226 (operator precedence)

---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..f0ff8a3 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10.0**((L_p+tbl_L_U)/10.0-9.0))**tbl_alpha_f -
+           (0.4*10.0**((tbl_T_f+tbl_L_U)/10.0-9.0))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From 8aada2ae0f8f0d4dda0bcb52382f6d518ecbc7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 16/27] fix: FIR designs of order 1 with the cvxpy_old and
 picos modelers

The 1x1 variable's value comes back as a scalar, so indexing its first row
failed; and cvxpy_tdr.belongs refused the scalar object that a 1x1
symmetric variable is.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py    |  2 +-
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py        |  2 +-
 .../NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py    |  2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py  |  2 +-
 src/pydsm/cvxpy_tdr/interface.py                       | 10 +++++++++-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..773089c 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -138,4 +138,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p = cvxpy_tdr.program(cvxpy_tdr.minimize(cvxpy_tdr.max(gg)), F)
     p.options.update(opts["cvxpy_tdr_opts"])
     p.solve(quiet)
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.asarray(c.value).ravel()[::-1]))
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..733ba69 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -143,4 +143,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.asarray(c.value).ravel()[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..372faeb 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -53,4 +53,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
                              [constraint1, constraint2])
     p.options.update(opts["cvxpy_tdr_opts"])
     p.solve(quiet)
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.asarray(br.value).ravel()))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..83629f3 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -62,4 +62,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.asarray(br.value).ravel()))
diff --git a/src/pydsm/cvxpy_tdr/interface.py b/src/pydsm/cvxpy_tdr/interface.py
index 3d37138..352db78 100644
--- a/src/pydsm/cvxpy_tdr/interface.py
+++ b/src/pydsm/cvxpy_tdr/interface.py
@@ -228,11 +228,19 @@ def belongs(x,S):
     r"""
     | Forms constraint :math:`x \in S`.
 
-    :param x: :ref:`multidimensional object<multi_ref>`.
+    :param x: number,
+              :ref:`scalar object<scalar_ref>` or
+              :ref:`multidimensional object<multi_ref>`.
     :param S: set instance.
     :rtype: :ref:`constraint<constr_obj>`.
     """
 
+    # Convert scalar to array
+    if np.isscalar(x) or type(x).__name__ in SCALAR_OBJS:
+        new_ar = cvxpy_array(1,1)
+        new_ar[0,0] = x
+        x = new_ar
+
     # Check first argument
     if ((type(x) is not cvxpy_matrix) and
         (type(x).__name__ not in ARRAY_OBJS)):
-- 
2.43.0


From eda5af83c81f6a8f983c9bdf7bea9bd7e90894f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 17/27] fix: the zero at the centre of the band (zf) with the
 cvxpy and picos modelers

cvxpy.sum_entries no longer exists, cvxpy.hstack takes a list, cvxopt
matrices do not implement &, and the right-hand side is a row.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 733ba69..b3c390b 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -126,11 +126,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = cvxopt.matrix(np.cos(omega0*nn))
-                vi = cvxopt.matrix(np.sin(omega0*nn))
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
                 vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                    [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
+                p.add_constraint(c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From 9ef43163c3d2f8a8ac5a780eb2235e9c9b2b3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 18/27] fix: the zero at half the sample rate (f0=1/2 with zf)

The imaginary part of the condition is identically null there: up to
rounding it was 0 = 0, an ill posed equality that made the optimisers fail.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py    |  4 +++-
 .../NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py      | 14 +++++++++-----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py    | 10 +++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index b0a57e3..2a4dbc2 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -120,12 +120,14 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
+                # (at f0=1/2 the imaginary part is identically null)
                 nn = np.arange(order).reshape((order, 1))
                 vr = np.cos(omega0*nn)
                 vi = np.sin(omega0*nn)
                 vn = np.array(
                     [[-np.cos(omega0*order), -np.sin(omega0*order)]])
-                F += [c @ np.hstack((vr, vi)) == vn]
+                k = 1 if f0 == 0.5 else 2
+                F += [c @ np.hstack((vr, vi))[:, :k] == vn[:, :k]]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index 773089c..70aa9ab 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -120,12 +120,16 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [cvxpy_tdr.belongs(-M, cvxpy_tdr.semidefinite_cone)]
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
+                # (at f0=1/2 the imaginary part is identically null)
                 nn = np.arange(order).reshape((order, 1))
-                vr = cvxpy_tdr.matrix(np.cos(omega0*nn))
-                vi = cvxpy_tdr.matrix(np.sin(omega0*nn))
-                vn = cvxpy_tdr.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                k = 1 if f0 == 0.5 else 2
+                F += [cvxpy_tdr.equals(
+                    c*cvxpy_tdr.matrix(np.hstack((vr, vi))[:, :k]),
+                    cvxpy_tdr.matrix(vn[:, :k]))]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy_tdr.variable(order, order, 'symmetric')
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index b3c390b..e5a5b8d 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -125,12 +125,16 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             p.add_constraint(M << 0.0)
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
+                # (at f0=1/2 the imaginary part is identically null)
                 nn = np.arange(order).reshape((order, 1))
                 vr = np.cos(omega0*nn)
                 vi = np.sin(omega0*nn)
-                vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
-                p.add_constraint(c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                k = 1 if f0 == 0.5 else 2
+                p.add_constraint(
+                    c*cvxopt.matrix(np.hstack((vr, vi))[:, :k]) ==
+                    cvxopt.matrix(vn[:, :k]))
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From 24a0c2a78bc2d284ac488e7344cb415eb37bb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 19/27] fix: Dunn's zeros for order 7 were 8

---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 311adb8..fbb8747 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -108,7 +108,7 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-- 
2.43.0


From c440a14c4d16653193f1f2d8e62acbb3da881bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 20/27] fix: band pass Chebyshev NTFs

The band was doubled as a tuple (giving four edges) and the order passed to
cheby2 was not an integer: all band pass designs failed.
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..4dd77df 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -110,7 +110,6 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
         f1, f2 = ds_f1f2(osr, f0)
-        f1f2 = (f1, f2)
 
     # Iteratively solve for the attenuation spec (x) which yields the
     # desired H_inf
@@ -144,7 +143,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From eb67c57278ee06540a8b64c9ac002e45ac5b2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 21/27] fix: band pass NTFs with given zeros had half the poles

The order was halved and not restored when the zeros are given, which made
the NTF improper.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..0b45755 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -86,6 +86,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        # With the order not halved anymore, as many poles as zeros
+        order = z.size
 
     p = np.zeros(order)
     k = 1
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..f55e4b1 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -89,6 +89,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        # With the order not halved anymore, as many poles as zeros
+        order = z.size
 
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
-- 
2.43.0


From fcfd0a4fb8bf4527085c58a5330c730f22102a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 22/27] fix: clans failed when poles to start from lay on the
 circle of radius rmax

The damping of such poles is 0 up to rounding: when negative, its square root
is not a number, and the optimiser fails.
---
 src/pydsm/delsig/_clans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 8a86af3..4a61441 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -194,7 +194,8 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         s = (z-1)/(z+1)
         coeffs = np.poly(s).real
         wn = np.sqrt(coeffs[2])
-        zeta = coeffs[1]/(2*wn)
+        # On the circle, zeta is 0 up to rounding
+        zeta = max(coeffs[1]/(2*wn), 0.)
         x[i] = np.sqrt(zeta)
         x[i+1] = np.sqrt(wn)
 
-- 
2.43.0


From 8a3f1d1e92e6e5ef4dd055ee4b24bfac59ed55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 23/27] fix: derivatives of cone functions when a variable
 appears more than once

---
 src/pydsm/cvxpy_tdr/sets/exp_cone.py          | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/kl_div_epi.py        | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py |  6 +++---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py     |  6 +++---
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/exp_cone.py b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
index bad3764..c082fbe 100644
--- a/src/pydsm/cvxpy_tdr/sets/exp_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
@@ -101,12 +101,12 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = np.exp((v*1.)/(y*1.))
+                g[mp[el[0,0]]] += np.exp((v*1.)/(y*1.))
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                g[mp[el[1,0]]] = np.exp(t)*(1-t)
+                g[mp[el[1,0]]] += np.exp(t)*(1-t)
             if type(el[2,0]) is cvxpy_scalar_var:
-                g[mp[el[2,0]]] = -1.
+                g[mp[el[2,0]]] += -1.
             return g
 
         # hess f
@@ -119,16 +119,16 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = np.exp((v*1.)/(y*1.))/(y*1.)
+                h[mp[el[0,0]],mp[el[0,0]]] += np.exp((v*1.)/(y*1.))/(y*1.)
             if (type(el[0,0]) is cvxpy_scalar_var and
                 type(el[1,0]) is cvxpy_scalar_var):
                 t = (v*1.)/(y*1.)
                 w = -np.exp(t)*t/(y*1.)
-                h[mp[el[0,0]],mp[el[1,0]]] = w
-                h[mp[el[1,0]],mp[el[0,0]]] = w
+                h[mp[el[0,0]],mp[el[1,0]]] += w
+                h[mp[el[1,0]],mp[el[0,0]]] += w
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                h[mp[el[1,0]],mp[el[1,0]]] = np.exp(t)*(t**2.)/(y*1.)
+                h[mp[el[1,0]],mp[el[1,0]]] += np.exp(t)*(t**2.)/(y*1.)
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
index 9b3ed3e..fe46190 100644
--- a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
@@ -102,11 +102,11 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    g[mp[u[i,0]]] = np.log(u_i*1./v_i)
+                    g[mp[u[i,0]]] += np.log(u_i*1./v_i)
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    g[mp[v[i,0]]] = (-u_i*1./v_i)+1.
+                    g[mp[v[i,0]]] += (-u_i*1./v_i)+1.
             if type(t) is cvxpy_scalar_var:
-                g[mp[t]] = -1.
+                g[mp[t]] += -1.
             return g
 
         # hess f
@@ -122,14 +122,14 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    h[mp[u[i,0]],mp[u[i,0]]] = 1./u_i
+                    h[mp[u[i,0]],mp[u[i,0]]] += 1./u_i
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    h[mp[v[i,0]],mp[v[i,0]]] = u_i*1./(v_i**2.)
+                    h[mp[v[i,0]],mp[v[i,0]]] += u_i*1./(v_i**2.)
                 if (type(u[i,0]) is cvxpy_scalar_var and
                     type(v[i,0]) is cvxpy_scalar_var):
                     w = -1./v_i
-                    h[mp[u[i,0]],mp[v[i,0]]] = w
-                    h[mp[v[i,0]],mp[u[i,0]]] = w
+                    h[mp[u[i,0]],mp[v[i,0]]] += w
+                    h[mp[v[i,0]],mp[u[i,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
index ee90b06..70f7180 100644
--- a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
+++ b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
@@ -88,9 +88,9 @@ class cvxpy_log_norm_cdf_hypo(object):
             if v is None:
                 v = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = -norm.pdf(v)/norm.cdf(v)
+                g[mp[el[0,0]]] += -norm.pdf(v)/norm.cdf(v)
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = 1.
+                g[mp[el[1,0]]] += 1.
             return g
 
         # hess f
@@ -103,7 +103,7 @@ class cvxpy_log_norm_cdf_hypo(object):
                 t = norm.pdf(v)
                 s = norm.cdf(v)
                 r = t/s
-                h[mp[el[0,0]],mp[el[0,0]]] = r **2.+v*r
+                h[mp[el[0,0]],mp[el[0,0]]] += r **2.+v*r
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index d5d2609..4e3cabc 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -89,9 +89,9 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = p*(z**(p-1.))
+                g[mp[el[0,0]]] += p*(z**(p-1.))
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = -1.
+                g[mp[el[1,0]]] += -1.
             return g
 
         # hess f
@@ -101,7 +101,7 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = p*(p-1.)*(z**(p-2.))
+                h[mp[el[0,0]],mp[el[0,0]]] += p*(p-1.)*(z**(p-2.))
             return h
 
         # ind f
-- 
2.43.0


From a31f43249881d0f137497aa0c504394d8ac9108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 24/27] fix: reshape of arrays (index was a float)

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From c33a2e34f1631dbf322c3586e24e0a6b37162be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 25/27] fix: sparse matrices of cvxpy_tdr (could not be
 created, operators, sparse minus dense)

---
 src/pydsm/cvxpy_tdr/arrays.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..020183d 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -286,7 +286,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -300,7 +303,7 @@ class cvxpy_array(object):
                         elif action == RIGHT_ADD:
                             new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
@@ -680,7 +683,8 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
+        if self.format != sp.lil_matrix.__name__[:3]:
+            self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
@@ -725,7 +729,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -734,7 +738,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -743,7 +747,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -752,7 +756,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -761,7 +765,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From 9aaf00bed806235a8370ac1bd7eb9964d4265481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 26/27] fix: programs used as functions more than once shared
 the variables they minimize over

---
 src/pydsm/cvxpy_tdr/programs.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..5229b3b 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -336,13 +336,25 @@ class cvxpy_program(object):
         if len(args) != len(args_ref):
             raise TypeError("Invalid number of arguments")
 
+        # The variables that are minimized over belong to this call alone
+        # and parameters that are not arguments have their current values
+        own_map = {}
+        for param in self.parameters:
+            if param not in args_ref:
+                own_map[param] = param.value
+        for v in self.variables:
+            if v not in args_ref:
+                own_map[v] = cvxpy_scalar_var()
+
         # Create map and new program
         replace_map = {}
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
         new_p = cvxpy_program(self.action,
-                              re_eval(self.objective,replace_map),
-                              re_eval(self.constraints,replace_map),
+                              re_eval(re_eval(self.objective,own_map),
+                                      replace_map),
+                              re_eval(re_eval(self.constraints,own_map),
+                                      replace_map),
                               [],self.options,'')
 
         # Embed
-- 
2.43.0


From 95da7b225abc63881a9b6c0a65c8444abd231861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 27/27] fix: optimal value of programs whose objective is a
 constant

---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..76cf819 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -45,13 +45,19 @@ def solve_prog(p,quiet):
 
     valid = True
 
+    # Value of the objective (constant objectives are unknown to the solver)
+    if p_expanded.objective.type == CONSTANT:
+        value = p_expanded.objective.value
+    elif sol[PRIMAL_OBJECTIVE] is not None:
+        value = sol[PRIMAL_OBJECTIVE]*sign
+
     # Primal infeasible
     if sol['status'] == PRIMAL_INFEASIBLE:
         obj = np.inf*sign
 
     # Uknown
     elif sol['status'] == UNKNOWN:
-        obj = sol[PRIMAL_OBJECTIVE]*sign
+        obj = value
         valid = False
 
     # Dual infeasible
@@ -60,7 +66,7 @@ def solve_prog(p,quiet):
 
     # Optimal
     else:
-        obj =sol[PRIMAL_OBJECTIVE]*sign
+        obj = value
 
     # Return optimal value
     return obj,valid
-- 
2.43.0

