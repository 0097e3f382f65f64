From 920d194c43a1689ed13e983edc54c5b21df19ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/30] fix: start maximin_design's SLSQP from a flat vector
 (scipy requires a 1-D x0)

---
 active_subspaces/utils/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From bd0f0a179ebd7ce4837a61b0845623002341279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 02/30] fix: start the active-variable minimizers from a flat
 vector (scipy requires a 1-D x0)

---
 active_subspaces/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..1d0cd1c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
-- 
2.43.0


From 48b5281cbfa40f9b30ccf7924e3b6907d7e33519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 03/30] fix: reduce the RBF variance estimate to a scalar
 before taking the maximum

---
 active_subspaces/utils/response_surfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..92ce8f8 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,8 +381,8 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
-    
+    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps])
+
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
     return r
-- 
2.43.0


From 43b79634f7466ab1ab903fd5dee59706abcb92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 04/30] fix: keep the RBF kernel matrix conditioned while
 tuning (zero conditional variance made training fail)

---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 92ce8f8..f5eb1ff 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -366,6 +366,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning, as train does
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0


From 17af357b318248d8d1f35d2b1d1145b440ba53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 05/30] fix: qphd_subspace compares the minimum of X, not the
 function amin, with -1

---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From 0d63e5a73ab51c6c4daf2e02be20ffe6ce423dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 06/30] fix: random_walk_z returns one sample per row (reshape
 scrambled the coordinates)

---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..76f015b 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.transpose().reshape((N, m-n))
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From 9cb6a90ad91974af9a01552d52ae9919a9c8fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 07/30] fix: local_linear_gradients drops the center from its
 neighbors, not an arbitrary point; p=M works

---
 active_subspaces/gradients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..d8d1959 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,7 +55,8 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
+        # neighbors first; the point itself (and its copies) only as a last resort
+        ind = np.hstack((ind[D2[ind] != 0], ind[D2[ind] == 0]))
         A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
         b = f[ind[:p]] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
-- 
2.43.0


From 4dd0570b551bec4134bb2b73904585a88ba3b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 08/30] fix: compute_boundary updates the domain's dimensions
 along with its boundary

---
 active_subspaces/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 76f015b..ef67e5e 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -125,6 +125,7 @@ class BoundedActiveVariableDomain(ActiveVariableDomain):
                         'jac' : lambda x: A})
 
         # store variables
+        self.m, self.n = m, n
         self.vertY, self.vertX = Y, X
         self.convhull, self.constraints = convhull, constraints
 
-- 
2.43.0


From 7820f6e05520de76a049207467db98aff1a40acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 09/30] fix: maximin_design keeps the design in the polytope,
 not in its reflection through the origin

---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..52cca98 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization
     curr_state = np.random.get_state()
-- 
2.43.0


From 2be7c7999864671da6ab130002da1acde57a721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 10/30] fix: jacobi_matrix accepts two rows of recurrence
 coefficients

---
 active_subspaces/utils/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/active_subspaces/utils/quadrature.py b/active_subspaces/utils/quadrature.py
index 35a8ca4..bb493dd 100644
--- a/active_subspaces/utils/quadrature.py
+++ b/active_subspaces/utils/quadrature.py
@@ -134,6 +134,8 @@ def jacobi_matrix(ab):
     n = ab.shape[0] - 1
     if n == 0:
         return ab[0,0]
+    elif n == 1:
+        return np.array([[ab[0,0]]])
     else:
         J = np.zeros((n, n))
         J[0,0] = ab[0,0]
-- 
2.43.0


From 8faada686fb42ebe950ce53e5bfc1e6373c50c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 11/30] fix: exact n-th powers give the full tensor grid (64
 points in 3 dimensions gave 27)

---
 active_subspaces/integrals.py         | 2 +-
 active_subspaces/response_surfaces.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..49584ba 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,7 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-9)) for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..e9b8e70 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -279,7 +279,7 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-9)) for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
-- 
2.43.0


From e5128c95d624daa44d3d6d0d399af2333f40230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 12/30] fix: UnboundedMinVariableMap picks the minimizer of the
 quadratic, not its mirror image

---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 1d0cd1c..5c35a6f 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = np.linalg.solve(self._zAz, -c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From 91a5b9d59d33dfe5c93ebd35a2052aa16cd36737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 13/30] fix: BoundedMinVariableMap minimizes the trained
 quadratic (the Hessian was used without its 1/2)

---
 active_subspaces/optimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 5c35a6f..071a7f8 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,8 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            # zAz is a Hessian; the QP's objective is c^T z + z^T Q z
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
-- 
2.43.0


From 864d85f9e232713d51e5069c8dc13437d17be454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 14/30] fix: BoundedMinVariableMap works when every variable is
 active

---
 active_subspaces/optimizers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 071a7f8..7483654 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -103,6 +103,9 @@ class BoundedMinVariableMap(MinVariableMap):
         W1, W2 = self.domain.subspaces.W1, self.domain.subspaces.W2
         m, n = W1.shape
         NY = Y.shape[0]
+        if m == n:
+            # no inactive variables to choose
+            return np.zeros((NY, 0, N))
         qps = QPSolver()
 
         Zlist = []
-- 
2.43.0


From 78c9e566cc0ee30ed24ed78b5bb694db6719c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 15/30] fix: PolynomialApproximation stores the training
 values, not their weighted version

---
 active_subspaces/utils/response_surfaces.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index f5eb1ff..46d96e9 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -100,10 +100,12 @@ class PolynomialApproximation(ResponseSurface):
         B, indices = polynomial_bases(X,  self.N)
         p = B.shape[1]
         if weights is not None:
-            B, f = weights*B, weights*f
+            B, fw = weights*B, weights*f
+        else:
+            fw = f
 
-        poly_weights = np.linalg.lstsq(B, f)[0]
-        Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - f)**2 / (M*np.var(f)) )
+        poly_weights = np.linalg.lstsq(B, fw)[0]
+        Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - fw)**2 / (M*np.var(fw)) )
 
         # store data
         self.X, self.f = X, f
-- 
2.43.0


From 64c1eff0e57f6924a732f14adf14735f388a3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 16/30] fix: minimizers and maximin_design restore the random
 state when they fail, too

---
 active_subspaces/optimizers.py    | 57 ++++++++++++++++---------------
 active_subspaces/utils/designs.py | 31 +++++++++--------
 2 files changed, 46 insertions(+), 42 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 7483654..8b8c8cd 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,21 +331,22 @@ def zonotope_minimize(avfun, avdom, avdfun):
 
     # a bit of globalization
     curr_state = np.random.get_state()
-    np.random.seed(42)
-    minf = 1e100
-    minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
-        cons = avdom.constraints
-        result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
-                            jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('SLSQP failed with message: {}.'.format(result.message))
-        if result.fun < minf:
-            minf = result.fun
-            minres = result
-
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        minf = 1e100
+        minres = []
+        for i in range(10):
+            y0 = np.random.normal(size=(n, ))
+            cons = avdom.constraints
+            result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
+                                jac=avdfun, options=opts)
+            if not result.success:
+                raise Exception('SLSQP failed with message: {}.'.format(result.message))
+            if result.fun < minf:
+                minf = result.fun
+                minres = result
+    finally:
+        np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -387,17 +388,19 @@ def unbounded_minimize(avfun, avdom, avdfun):
 
     # some tricks for globalization
     curr_state = np.random.get_state()
-    np.random.seed(42)
-    minf = 1e100
-    minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
-        result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('{} failed with message: {}.'.format(method, result.message))
-        if result.fun < minf:
-            minf = result.fun
-            minres = result
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        minf = 1e100
+        minres = []
+        for i in range(10):
+            y0 = np.random.normal(size=(n, ))
+            result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
+            if not result.success:
+                raise Exception('{} failed with message: {}.'.format(method, result.message))
+            if result.fun < minf:
+                minf = result.fun
+                minres = result
+    finally:
+        np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 52cca98..bd24686 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -69,21 +69,22 @@ def maximin_design(vert, N):
     # some tricks for the globalization
     curr_state = np.random.get_state()
 
-    np.random.seed(42)
-    minf = 1e10
-    minres = []
-
-    for i in range(3):
-        y0 = np.random.normal(size=(N*n, ))
-        res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
-                        method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
-        if not res.success:
-            raise Exception('SLSQP failed with message: {}.'.format(res.message))
-        if res.fun < minf:
-            minf = res.fun
-            minres = res
-
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        minf = 1e10
+        minres = []
+
+        for i in range(3):
+            y0 = np.random.normal(size=(N*n, ))
+            res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
+                            method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
+            if not res.success:
+                raise Exception('SLSQP failed with message: {}.'.format(res.message))
+            if res.fun < minf:
+                minf = res.fun
+                minres = res
+    finally:
+        np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
     return design
 
-- 
2.43.0


From 16463cf3b1a7b8a5cfdcb36e412615349999c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 17/30] fix: domain boundaries come from corners of the
 hypercube when an input has zero weight

---
 active_subspaces/domains.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index ef67e5e..fb1be8b 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -390,17 +390,26 @@ def interval_endpoints(W1):
     """
 
     m = W1.shape[0]
-    y0 = np.dot(W1.T, np.sign(W1))[0]
+    x0 = _corners(W1)
+    y0 = np.dot(W1.T, x0)[0]
     if y0 < -y0:
         yl, yu = y0, -y0
-        xl, xu = np.sign(W1), -np.sign(W1)
+        xl, xu = x0, -x0
     else:
         yl, yu = -y0, y0
-        xl, xu = -np.sign(W1), np.sign(W1)
+        xl, xu = -x0, x0
     Y = np.array([yl, yu]).reshape((2,1))
     X = np.vstack((xl.reshape((1, m)), xu.reshape((1, m))))
     return Y, X
 
+def _corners(S):
+    """Signs of the entries of `S`, with 1 for a zero: corners of the hypercube.
+
+    """
+    X = np.sign(S)
+    X[X==0] = 1
+    return X
+
 def unique_rows(S):
     """Return the unique rows from ndarray
     
@@ -452,14 +461,14 @@ def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
 
     # initialize
     Z = np.random.normal(size=(Nsamples, n))
-    X = unique_rows(np.sign(np.dot(Z, W1.transpose())))
+    X = unique_rows(_corners(np.dot(Z, W1.transpose())))
     X = unique_rows(np.vstack((X, -X)))
     N = X.shape[0]
     
     count = 0
     while N < totalverts:
         Z = np.random.normal(size=(Nsamples, n))
-        X0 = unique_rows(np.sign(np.dot(Z, W1.transpose())))
+        X0 = unique_rows(_corners(np.dot(Z, W1.transpose())))
         X0 = unique_rows(np.vstack((X0, -X0)))
         X = unique_rows(np.vstack((X, X0)))
         N = X.shape[0]
-- 
2.43.0


From 20cd6c0be1de258f52d0f58f880611c1c4651cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 18/30] fix: a Subspaces.compute that fails leaves the previous
 subspaces intact

---
 active_subspaces/subspaces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..d4676a4 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,9 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        # everything succeeded: store the results together
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From 4c12c444b99275c720215a480f51e2048257bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 19/30] fix: sample_z works when every variable is active
 (corners raised a solver failure)

---
 active_subspaces/domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fb1be8b..544d287 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -534,6 +534,10 @@ def sample_z(N, y, W1, W2):
     if not isinstance(N, int):
         raise TypeError('N should be an integer.')
 
+    if W2.shape[1] == 0:
+        # no inactive variables
+        return np.zeros((N, 0))
+
     Z = rejection_sampling_z(N, y, W1, W2)
     if Z is None:
         Z = hit_and_run_z(N, y, W1, W2)
-- 
2.43.0


From 282e30c530b49c9a7f6f7f1fdf02464de0c77e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 20/30] fix: hit_and_run_z keeps to constraints it is next to
 (thin slices gave points far outside the hypercube)

---
 active_subspaces/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 544d287..39a2bd6 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -616,11 +616,11 @@ def hit_and_run_z(N, y, W1, W2):
         f, g = b - np.dot(A,z0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g < 0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g > 0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From c4a1400f71b20a3d690e3e5275364b3eb477f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 21/30] fix: PolynomialApproximation of degree 0 can be trained

---
 active_subspaces/utils/response_surfaces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 46d96e9..4a1e07e 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -113,7 +113,10 @@ class PolynomialApproximation(ResponseSurface):
         self.Rsqr = Rsqr
 
         # organize linear and quadratic coefficients
-        self.g = poly_weights[1:m+1].copy().reshape((m,1))
+        if self.N > 0:
+            self.g = poly_weights[1:m+1].copy().reshape((m,1))
+        else:
+            self.g = np.zeros((m, 1))
         if self.N > 1:
             H = np.zeros((m, m))
             for i in range(m+1, int(m+1+comb(m+1,2))):
-- 
2.43.0


From 8f5ddf6595ee671a62e806e236a6e9fcf3b54600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 22/30] fix: maximin_design starts its searches inside the
 polytope

Normal starting points outside the vertices' hull often collapse onto a
vertex or onto each other, where the objective's gradient vanishes: the
design returned then has least distance 0.
---
 active_subspaces/utils/designs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index bd24686..e757949 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -75,7 +75,13 @@ def maximin_design(vert, N):
         minres = []
 
         for i in range(3):
-            y0 = np.random.normal(size=(N*n, ))
+            y0 = np.random.normal(size=(N, n))
+            # start inside the polytope, as random averages of its vertices,
+            # where the normal samples are not
+            out = np.any(np.dot(y0, C.equations[:,:n].T) + C.equations[:,n] > 0, axis=1)
+            wt = np.random.exponential(size=(np.sum(out), vert.shape[0]))
+            y0[out,:] = np.dot(wt / np.sum(wt, axis=1, keepdims=True), vert)
+            y0 = y0.reshape((N*n, ))
             res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                             method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
             if not res.success:
-- 
2.43.0


From 431ba9fc8dfefe29bf3b9eefc1311c20a947b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 23/30] fix: quadratic programs restart SciPy's optimizers that
 stop short

L-BFGS-B and SLSQP now and then report success after a stalled line
search, far from the minimizer of a strictly convex program.
---
 active_subspaces/utils/qp_solver.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 9ab00ca..0f39668 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -226,6 +226,21 @@ def _scipy_linear_program_ineq(c, A, b):
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
+def _scipy_minimize(fun, x0, **kwargs):
+
+    # scipy's optimizers may report success where a line search stalled, far
+    # from the minimizer: restart them at the solution while that gains
+    res = minimize(fun, x0, **kwargs)
+    for i in range(20):
+        if not res.success:
+            break
+        again = minimize(fun, res.x, **kwargs)
+        if not again.success or \
+                not res.fun - again.fun > 1e-8*max(1.0, abs(res.fun)):
+            break
+        res = again
+    return res
+
 def _scipy_quadratic_program_bnd(c, Q, lb, ub):
 
     # define the objective and gradient
@@ -243,7 +258,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         bounds.append((lb[i,0],ub[i,0]))
 
     x0 = np.zeros((c.size,))
-    res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
+    res = _scipy_minimize(fun, x0, method='L-BFGS-B', jac=jac,
                     bounds=bounds, options={"disp": False})
 
     if res.success:
@@ -276,7 +291,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
             'jac' : lambda x: A})
 
     x0 = np.zeros((c.size,))
-    res = minimize(fun, x0, method='SLSQP', jac=jac,
+    res = _scipy_minimize(fun, x0, method='SLSQP', jac=jac,
                     constraints=cons, options={"disp": False})
 
     if res.success:
-- 
2.43.0


From 84a478461b232f0bbb454589ff9f317c64ee0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 24/30] fix: minimize accepts minimizers that rounding puts
 outside the zonotope

---
 active_subspaces/optimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 8b8c8cd..c215ddf 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -112,10 +112,11 @@ class BoundedMinVariableMap(MinVariableMap):
         A_ineq = np.vstack((W2, -W2))
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
+            # a minimizer on the boundary may lie outside by rounding
             b_ineq = np.vstack((
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
-                ))
+                )) - 1e-8
             # zAz is a Hessian; the QP's objective is c^T z + z^T Q z
             z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
-- 
2.43.0


From fa04f326ecffff37d2839e35e58f9857333624bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 25/30] fix: borehole tutorial model accepts integer arrays

---
 tutorials/test_functions/borehole/borehole_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tutorials/test_functions/borehole/borehole_functions.py b/tutorials/test_functions/borehole/borehole_functions.py
index 2a6fa1a..81000aa 100644
--- a/tutorials/test_functions/borehole/borehole_functions.py
+++ b/tutorials/test_functions/borehole/borehole_functions.py
@@ -5,7 +5,7 @@ def borehole(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns column vector of borehole function at each row of inputs
     
-    x = xx.copy()
+    x = xx.astype(float) # a copy, also of integers
     x = np.atleast_2d(x)
     M = x.shape[0]
     
@@ -27,7 +27,7 @@ def borehole_grad(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns matrix whose ith row is gradient of borehole function at ith row of inputs
     
-    x = xx.copy()
+    x = xx.astype(float) # a copy, also of integers
     x = np.atleast_2d(x)
     M = x.shape[0]
     
-- 
2.43.0


From 5a5525f708af5dcb8b85ac6f95f293069233c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 26/30] Revert "fix: borehole tutorial model accepts integer
 arrays"

This reverts commit fa04f326ecffff37d2839e35e58f9857333624bf.
---
 tutorials/test_functions/borehole/borehole_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tutorials/test_functions/borehole/borehole_functions.py b/tutorials/test_functions/borehole/borehole_functions.py
index 81000aa..2a6fa1a 100644
--- a/tutorials/test_functions/borehole/borehole_functions.py
+++ b/tutorials/test_functions/borehole/borehole_functions.py
@@ -5,7 +5,7 @@ def borehole(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns column vector of borehole function at each row of inputs
     
-    x = xx.astype(float) # a copy, also of integers
+    x = xx.copy()
     x = np.atleast_2d(x)
     M = x.shape[0]
     
@@ -27,7 +27,7 @@ def borehole_grad(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns matrix whose ith row is gradient of borehole function at ith row of inputs
     
-    x = xx.astype(float) # a copy, also of integers
+    x = xx.copy()
     x = np.atleast_2d(x)
     M = x.shape[0]
     
-- 
2.43.0


From 70d4d4799b116989a72b32e3fc6eb16c5437bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 27/30] fix: the bivariate summary and zonotope plots show
 their points (new axes covered them)

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 4c04d1b..3edc021 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -382,7 +382,7 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
         ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
         plt.axis([ymin, ymax, ymin, ymax])
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.grid(True)
         plt.title(out_label)
         plt.colorbar()
@@ -472,7 +472,7 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
 
     if y is not None:
         plt.scatter(y[:,0], y[:,1], c=f, s=100.0, vmin=np.min(f), vmax=np.max(f))
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.title(out_label)
         plt.colorbar()
 
-- 
2.43.0


From cda0467fcb336c74e76f2134f4d2b5979899ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 28/30] fix: zonotope_2d_plot saves its figure before showing
 it (an empty one was saved once the window was closed)

---
 active_subspaces/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 3edc021..19a7c99 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -479,10 +479,10 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
     plt.axis([1.1*xmin,1.1*xmax,1.1*xmin,1.1*xmax])
     plt.xlabel('Active variable 1')
     plt.ylabel('Active variable 2')
-    show_plot(plt)
     if opts['savefigs']:
         figname = 'figs/zonotope_2d_' + out_label + opts['figtype']
         plt.savefig(figname, dpi=300, bbox_inches='tight', pad_inches=0.0)
+    show_plot(plt)
 
 def show_plot(plot, opts=None):
     plot.show()
-- 
2.43.0


From 4bf7603a0ed255fb664bbbf7b89eaf4dd0b1e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 29/30] fix: the bivariate summary plot's axes reach active
 variables that are all positive or all negative

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 19a7c99..939abef 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -379,8 +379,8 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         plt.scatter(y1, y2, c=f, s=150.0, vmin=np.min(f), vmax=np.max(f))
         plt.xlabel('Active variable 1')
         plt.ylabel('Active variable 2')
-        ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
-        ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
+        ymin, ymax = np.amin(y), np.amax(y)
+        ymin, ymax = ymin - 0.1*np.fabs(ymin), ymax + 0.1*np.fabs(ymax)
         plt.axis([ymin, ymax, ymin, ymax])
         plt.gca().set_aspect('equal')
         plt.grid(True)
-- 
2.43.0


From d8d2e7bcee55f438e14d867d138b8f4cbbe83ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 30/30] fix: quadratic programs' gradients allow a matrix that
 is not symmetric

---
 active_subspaces/utils/qp_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 0f39668..e70f49d 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -249,7 +249,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # make bounds
@@ -282,7 +282,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # inequality constraints
-- 
2.43.0

