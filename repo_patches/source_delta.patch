From f8e3d75deb1433dfd904c0feb43713f19e9e9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 01/54] fix: Huber M-estimators multiply by their weights
 instead of dividing

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..aa2bd24 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From c2b6ae6d949e0458edf960790fe9af9742d6e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 02/54] fix: real Huber threshold and consistency constant use
 the chi2_p law of real quadratic forms

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aa2bd24..ee4c813 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From 0fddb2f7037b8aade0614d44e0df3a0c6eab83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/54] fix: Student-t fixed points use the degrees of freedom
 of the t law they are scored with

---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ee4c813..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From a79fc52ba3e9f3a310ede2374f2894cd548d602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 04/54] fix: estimators fitted by natural gradient can be
 fitted again

---
 robuststats/estimation/covariance.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..68331f3 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -511,7 +511,8 @@ class HuberMEstimator(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = huber_m_estimator_fixed_point(
@@ -585,7 +586,8 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = student_t_mle_fixed_point(
@@ -687,7 +689,8 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
@@ -1085,7 +1088,8 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_huber_m_estimator_fixed_point(
@@ -1163,7 +1167,8 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_student_t_mle_fixed_point(
@@ -1266,7 +1271,8 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ is not None and self.iteration_ > 0\
+                and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
-- 
2.43.0


From 3da33ae5d5dbdec56d8c6f547956c84bcec6669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 05/54] fix: centred M-estimators expose their (zero) location
 so that score and mahalanobis work

---
 robuststats/estimation/covariance.py | 6 ++++++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 68331f3..344b1ad 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -520,6 +520,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -594,6 +595,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -696,6 +698,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1097,6 +1100,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1175,6 +1179,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1278,6 +1283,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..29c77bd 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -176,6 +176,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         self.A_ = A
         self.B_ = B
         self._set_covariance(np.kron(A, B))
+        self.location_ = np.zeros(X.shape[1])
 
         return self
 
-- 
2.43.0


From c7e51265d36bfa3ff2be65628b145b614e5dfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 06/54] fix: complex estimators read real input as complex
 instead of folding features in two

---
 robuststats/estimation/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..fb083ae 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -355,7 +355,7 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
             is computed.
         """
         covariance = covariancetocomplex(
-            check_array(covariancetoreal(covariance)))
+            check_array(covariancetoreal(np.asarray(covariance, dtype=complex))))
         # set covariance
         self.covariance_ = covariance
         # set precision
@@ -364,9 +364,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
+         super(ComplexEmpiricalCovariance, self)._validate_data(
+             arraytoreal(np.asarray(X, dtype=complex)), **kwargs)
         )
         return X_verified
 
-- 
2.43.0


From bb7a940d55c32972b1604850bba68ffdc2406500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 07/54] fix: error norm of complex covariances is a norm of the
 complex difference

---
 robuststats/estimation/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index fb083ae..0201d20 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -403,8 +403,17 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == 'frobenius':
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == 'spectral':
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From dc29a830ae099b10fd4c68e803b17b79ff4d9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 08/54] fix: score and mahalanobis of complex covariance
 estimators handle complex data

---
 robuststats/estimation/base.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 0201d20..a1661eb 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -19,6 +19,7 @@ from sklearn.utils.validation import check_array,\
 import warnings
 from ..models.mappings import covariancetoreal,\
             covariancetocomplex, arraytoreal, arraytocomplex
+from ..models.probability import complex_multivariate_normal
 from ..utils.checking import check_value, check_positive, check_type
 
 # -----------------------------------------------------------------------
@@ -398,6 +399,21 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         return self
 
+    def score(self, X_test, y=None):
+        """Overidden score of EmpiricalCovariance: mean log-likelihood of
+        the data under the circular complex Gaussian model."""
+        X_test = self._validate_data(X_test, reset=False)
+        return np.mean(complex_multivariate_normal.logpdf(
+            X_test, self.location_.astype(complex), self.covariance_,
+            allow_singular=True))
+
+    def mahalanobis(self, X):
+        """Overidden mahalanobis of EmpiricalCovariance
+        to handle complex data (squared distances)."""
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.einsum(
+            'ij,jk,ik->i', X.conj(), self.get_precision(), X))
+
     def error_norm(self, comp_cov, norm='frobenius', scaling=True,
                    squared=True):
         """Overidden error_norm of EmpiricalCovariance
-- 
2.43.0


From f3d051cc1399f3be6dc529580412cfb7031fb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/54] fix: Tyler estimators honour parameters changed by
 set_params or after a copy

---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 344b1ad..046ed6a 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -695,6 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
                 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
@@ -1280,6 +1281,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
                 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
-- 
2.43.0


From 2e74b7289447f68920054c598c5185c8af272817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 10/54] fix: complex Tyler natural gradient solves the complex
 problem and accepts a complex start

---
 robuststats/estimation/covariance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 046ed6a..fd048d1 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex,\
+                covariancetoreal
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -919,7 +920,11 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
+    # Adding the rotated data 1j*X makes the minimiser over real matrices have
+    # the structure of a complex matrix: it then is the complex Tyler estimate.
+    X_real = arraytoreal(np.vstack([X, 1j*X]))
+    if init is not None:
+        init = covariancetoreal(init.astype(complex))
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From d5a82a681be64b742fa6e87190207b1806314207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 11/54] fix: Kronecker MM estimates A instead of its conjugate

---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 29c77bd..60df470 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = (M_i[:, :, i].T.conj() @ i_B @ M_i[:, :, i]).T
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +108,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 62133d7a4ae09440cebd99da5dd5e7235f74d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 12/54] fix: Kronecker MM returns the final error instead of
 the tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 60df470..9824b32 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 15275a92d5c231000a22b0ba75ab5d5d9ade7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 13/54] fix: Kronecker Student-t gradient is the gradient of
 its cost

---
 robuststats/estimation/structured.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 9824b32..ea7b69e 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -276,11 +276,12 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
+            M_i = Y[i, :].reshape((b, a), order='F')
+            N_i = (M_i.T.conj()@i_B@M_i).T
+            u_i = (df/2+a*b)/(df/2+np.real(np.trace(i_A@N_i)))
 
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
+            grad_A -= u_i * i_A@N_i@i_A
+            grad_B -= u_i * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
         grad_A = grad_A/n_samples + b*i_A
         grad_B = grad_B/n_samples + a*i_B
 
-- 
2.43.0


From 23ac847dfa7003bfbbd11d8db96363f8ba656da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 14/54] fix: Kronecker Student-t score is the log-likelihood
 under the fitted covariance

---
 robuststats/estimation/structured.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index ea7b69e..dbdb9ee 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -405,15 +405,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From 13841218054beb72b74a23f593d15a552bdeb97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 15/54] fix: Kronecker Student-t estimator honours parameters
 changed by set_params

---
 robuststats/estimation/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index dbdb9ee..be36628 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -371,6 +371,9 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self : object
         """
         X = self._validate_data(X)
+        self.alpha = (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+        self.manifold = KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
         if self.assume_centered:
             self.location_ = np.zeros(X.shape[1])
         else:
-- 
2.43.0


From c94f7d8959487b5844020e008e7b8ee1eac56308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 16/54] fix: Tyler costs keep an exact gradient at matrices
 with repeated eigenvalues

---
 robuststats/models/cost.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..405653f 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
@@ -86,6 +83,5 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
     return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
-- 
2.43.0


From c3155360ea1dd2eb4376b78213e34ae0a5dc4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 17/54] fix: Tyler natural gradient returns a stationary
 starting point instead of NaN

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index fd048d1..5546b2f 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -367,7 +367,9 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
     solver = SteepestDescent()
-    sigma = solver.solve(problem, x=init)
+    sigma = manifold.rand() if init is None else init
+    if manifold.norm(sigma, problem.grad(sigma)) >= solver._mingradnorm:
+        sigma = solver.solve(problem, x=sigma)
     return sigma/S(sigma), -cost(sigma), None
 
 
-- 
2.43.0


From a536959059ed162213c97d4c5a1c64ea8d02d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 18/54] fix: vectorize of a feature array leaves out
 preallocated rows

---
 robuststats/estimation/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index a1661eb..2a2cec6 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -122,6 +122,7 @@ class _FeatureArray():
         temp = list()
         for a in self._array:
             vec = None
+            a = a[:len(self)]
             bs = len(a)
 
             # check if matrix
-- 
2.43.0


From c6c04291d82603f1d53b6fa3d6d40f2035a6b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 19/54] fix: feature arrays accept numpy integers as index

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 2a2cec6..bc0e9e8 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -73,7 +73,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From 02cedcc32655ecca93945b36877c2d395354b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 20/54] fix: feature arrays store copies and reject an invalid
 append as a whole

---
 robuststats/estimation/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index bc0e9e8..ae52bcd 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -93,6 +93,8 @@ class _FeatureArray():
 
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
+        # Check all components before storing any of them.
+        batches = list()
         for i, (a, d) in enumerate(zip(self._array, data)):
             check_type(d, 'd', [np.ndarray, np.memmap])
             if a is not None:
@@ -103,9 +105,13 @@ class _FeatureArray():
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(self._shape[i])])
+            batches.append(d)
+            check_value(len(d), 'len(d)', [len(batches[0])])
 
+        for i, (a, d) in enumerate(zip(self._array, batches)):
             if a is None:
-                self._array[i] = d
+                self._array[i] = np.array(d)
             else:
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
-- 
2.43.0


From 55e5f0fcf3eae6a880664a155b2c6d6bf1505b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 21/54] fix: feature estimation works on a copy of the
 estimator

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index ae52bcd..555f891 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -166,7 +166,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From cd4a9e4d9922135e5ef5b9150a81f34ed3993797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 22/54] fix: batch covariances keep the element type and state
 of the estimator

---
 robuststats/estimation/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 555f891..20f0edf 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -266,18 +266,18 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
         if self.n_jobs == 1:
-            for i in range(n_trials):
-                self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
+            cov_list = [_fit_transform_covariance_copy(self.estimator, x, **kwargs)
+                        for x in X]
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
                     for x in X
                 )
-            for i, cov in enumerate(cov_list):
-                covmats[i, :, :] = cov
+        dtype = np.result_type(*cov_list) if cov_list else X.dtype
+        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
+        for i, cov in enumerate(cov_list):
+            covmats[i, :, :] = cov
         return covmats
 
 
-- 
2.43.0


From 8c89cfb93ad420cea2df0c37fc1ef7c593d1f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 23/54] fix: arraytocomplex rejects odd sizes instead of
 broadcasting

---
 robuststats/models/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..d23bb42 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -64,6 +64,8 @@ def arraytocomplex(a):
         when input array format is not of dimension 1 or 2.
     """
     if not np.iscomplexobj(a):
+        if a.ndim in (1, 2) and a.shape[-1] % 2 != 0:
+            raise AttributeError("Input array size is not even")
         if a.ndim == 1:
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
-- 
2.43.0


From c757dcbcd9e407bc1fec024dea965e974c198bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 24/54] fix: unvech is the inverse of vech for Hermitian and
 integer matrices

---
 robuststats/utils/linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..a73eaff 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -179,10 +179,10 @@ def unvech(v):
     rows = int(np.round(rows))
 
     result = np.zeros((rows, rows), dtype=v.dtype)
-    result[np.triu_indices(rows)] = v
+    # vech stacks the columns of the lower triangle
+    result.T[np.triu_indices(rows)] = v
+    diagonal = np.real(np.diag(result))
     result = result + result.conj().T
-
-    # divide diagonal elements by 2
-    result[np.diag_indices(rows)] /= 2
+    result[np.diag_indices(rows)] = diagonal
 
     return result
\ No newline at end of file
-- 
2.43.0


From bfe359bcae0d376e314d0e0f2ebf9cec124b153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 25/54] fix: complex models handle omitted, scalar and mixed
 real/complex parameters

---
 robuststats/models/probability.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..6f19aa9 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -37,14 +37,21 @@ def _check_parameters_complex_normal(mean, cov):
     array_like
         Covariance matrix of the distribution, complex if necessary.
     """
-    if mean is None:
-        mean = np.zeros((len(cov),), dtype=cov.dtype)
-
     if np.isrealobj(mean) and np.isrealobj(cov):
+        if mean is None and np.ndim(cov) > 0:
+            mean = np.zeros(len(cov))
         return mean, cov
-    else:
-        return arraytoreal(mean.astype(complex)),\
-                covariancetoreal(cov.astype(complex))
+
+    # Same conventions as scipy for omitted or scalar parameters
+    cov = np.asarray(1 if cov is None else cov, dtype=complex)
+    if mean is None:
+        mean = np.zeros(len(cov) if cov.ndim > 0 else 1)
+    mean = np.atleast_1d(np.asarray(mean, dtype=complex))
+    if cov.ndim == 0:
+        cov = cov*np.eye(len(mean))
+    elif cov.ndim == 1:
+        cov = np.diag(cov)
+    return arraytoreal(mean), covariancetoreal(cov)
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -71,13 +78,13 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
-        return arraytoreal(X.astype(complex)), mean_map, cov_map
-    elif np.iscomplexobj(X) and np.isrealobj(cov):
+        return arraytoreal(np.asarray(X, dtype=complex)), mean_map, cov_map
+    elif np.iscomplexobj(X):
         logging.warning(
             "Input data is complex while parameters of model are not."
             " Discarding imaginary part of data")
-- 
2.43.0


From 0596352e91390c2645614fa37f6f6294d52d883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 26/54] fix: frozen complex normal cdf accepts the options its
 logcdf passes

---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 6f19aa9..ef31678 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -111,11 +111,11 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, **kwargs):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, **kwargs))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
-- 
2.43.0


From bb4cf870fb43c8c60758e6ee3a4e77476a375a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 27/54] fix: unfrozen complex t densities are those of the
 complex law

---
 robuststats/models/probability.py | 34 +++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index ef31678..127b29d 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -380,6 +380,40 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        """Log of the multivariate t probability density function.
+        Parameters
+        ----------
+        x : array_like
+            Quantiles, with the last axis of `x` denoting the components.
+        %(_mvn_doc_default_callparams)s
+        Returns
+        -------
+        logpdf : ndarray or scalar
+            Log of the probability density function evaluated at `x`
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        """Multivariate t probability density function.
+        Parameters
+        ----------
+        x : array_like
+            Quantiles, with the last axis of `x` denoting the components.
+        %(_mvn_doc_default_callparams)s
+        Returns
+        -------
+        pdf : ndarray or scalar
+            Probability density function evaluated at `x`
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).pdf(x, loc, shape, df, allow_singular))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From a6a1d6a5ea24afd9cb955e4bddaadd5db228d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 28/54] fix: real dimension of the Hermitian positive definite
 manifolds

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..88f1646 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From 96bd08274b945b9c7983b8ee5462575e915c22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 29/54] fix: random tangent vectors of weighted products have
 unit norm

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 88f1646..7c455ce 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From b7f33408eacf6b54ece04cf3e05e9ac05c7c60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 30/54] fix: gradient, distance and random vectors of the
 Kronecker manifold use its metric

---
 robuststats/models/manifolds.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 7c455ce..57362cd 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,5 +475,22 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                           np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
+
+    def dist(self, X, Y):
+        return self.norm(X, self.log(X, Y))
+
+    def randvec(self, X):
+        U = super().randvec(X)
+        return (1/self.norm(X, U)) * U
+
+    def egrad2rgrad(self, X, U):
+        rgrad = super().egrad2rgrad(X, U)
+        # The trace term of the metric couples the components of B.
+        c = (self._alpha - 1) * self._a**2
+        t = np.real(np.trace(la.solve(X[1], rgrad[1]), axis1=-2, axis2=-1))
+        t = c * t / (self._weights[1] + c*self._b)
+        rgrad[1] = rgrad[1] - np.reshape(t, np.shape(t) + (1, 1)) * X[1]
+        return rgrad
-- 
2.43.0


From c1580e76eeaba982cb6498f0311d11b0acd2bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 31/54] fix: Kronecker Student-t cost and gradient have the
 same scale

---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index be36628..eacd28c 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -282,8 +282,8 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
 
             grad_A -= u_i * i_A@N_i@i_A
             grad_B -= u_i * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
-        grad_A = grad_A/n_samples + b*i_A
-        grad_B = grad_B/n_samples + a*i_B
+        grad_A = grad_A + n_samples*b*i_A
+        grad_B = grad_B + n_samples*a*i_B
 
         return (grad_A.T.conj(), grad_B.T.conj())
 
-- 
2.43.0


From 7155c0794f27f29039b9e084ac33d5f4b930f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 32/54] fix: online updates outside of fit advance the learning
 rate

---
 robuststats/online/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..09ba587 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -66,6 +66,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self._manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
@@ -90,6 +91,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self._cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From 42b1d095cb8a85045d86635b48f1479c2a5e1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 33/54] fix: online fit without a starting point reports it
 instead of raising

---
 robuststats/online/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 09ba587..cea1db7 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -71,12 +71,12 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
-        if self.estimate_ is None:
+        if init is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
+        self.set_estimate(init)
 
         n_samples, n_features = X.shape
         if self._verbosity:
-- 
2.43.0


From 4b9c4b1d3232ef1d1482b2861dbd3afaddb423fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 34/54] fix: online fit restarts the learning rate

---
 robuststats/online/estimation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index cea1db7..410b0df 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -77,6 +77,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             )
             return self
         self.set_estimate(init)
+        self._iteration = 0
 
         n_samples, n_features = X.shape
         if self._verbosity:
-- 
2.43.0


From 19f46a5e0c75a5954ccf9b6d8dbf57bd48255eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 35/54] fix: online estimator stores its parameters as
 scikit-learn expects

---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 410b0df..fbbf532 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         self._iteration += 1
         return self
@@ -80,16 +80,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         self._iteration = 0
 
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
         return self
-- 
2.43.0


From 5fe6175099dab01e4583b6bb9d7f88e3fedfb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 36/54] fix: online estimator owns its estimate and only keeps
 one with a valid covariance

---
 robuststats/online/estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index fbbf532..836b505 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -10,6 +10,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
+from copy import deepcopy
 import logging
 from tqdm import tqdm
 
@@ -36,9 +37,10 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
-        self.estimate_ = estimate
+        estimate = deepcopy(estimate)
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-- 
2.43.0


From b9aa8f133d5af242efec595f977cd7eba247d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 37/54] fix: estimates never share memory with the starting
 point

---
 robuststats/estimation/covariance.py | 12 ++++++------
 robuststats/estimation/structured.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 5546b2f..b0de32a 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -156,7 +156,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
     if init is None:
         sigma = empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, p)
@@ -236,7 +236,7 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
     if init is None:
         sigma = empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
     delta = np.inf  # Distance between two iterations
     iteration = 0
 
@@ -411,7 +411,7 @@ def tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
     if init is None:
         sigma = empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
 
     S = get_normalisation_function(normalisation)
     
@@ -757,7 +757,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
     if init is None:
         sigma = complex_empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, 2*p)/2    
@@ -849,7 +849,7 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
     if init is None:
         sigma = complex_empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
     delta = np.inf  # Distance between two iterations
     iteration = 0
 
@@ -994,7 +994,7 @@ def complex_tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
     if init is None:
         sigma = complex_empirical_covariance(X, assume_centered=True)
     else:
-        sigma = init
+        sigma = np.array(init)
 
     S = get_normalisation_function(normalisation)
     
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index eacd28c..86aea92 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -335,7 +335,7 @@ def _estimate_covariance_kronecker_t_gradient(X, df, a, b, manifold,
     if init is None:
         theta_0 = (np.eye(a, dtype=complex), np.eye(b, dtype=complex))
     else:
-        theta_0 = init
+        theta_0 = tuple(np.array(theta) for theta in init)
     A, B = solver.solve(problem, x=theta_0)
 
     return A, B
-- 
2.43.0


From 63d4f9e8fd674d09a930f3bd00ad2ec66c4090ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 38/54] fix: Tyler natural gradient rejects line-search points
 where the cost cannot be evaluated

---
 robuststats/estimation/covariance.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b0de32a..588cd93 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -363,8 +363,18 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     manifold = SymmetricPositiveDefinite(n_features)
     cost = _generate_realTyler_cost_function(Y)
     egrad = _generate_Tyler_egrad(Y, cost)
+
+    @Callable
+    def line_search_cost(Q):
+        # Trial points too far away to evaluate the cost are rejected.
+        try:
+            value = cost(Q)
+        except la.LinAlgError:
+            return np.inf
+        return value if np.isfinite(value) else np.inf
+
     verbose = verbosity*(verbosity+1)
-    problem = Problem(manifold=manifold, cost=cost,
+    problem = Problem(manifold=manifold, cost=line_search_cost,
                       egrad=egrad, verbosity=verbose)
     solver = SteepestDescent()
     sigma = manifold.rand() if init is None else init
-- 
2.43.0


From d2aee78811b56ec6ec65074facde1b7aa9c96a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 39/54] fix: complex Tyler natural gradient starts from a
 matrix with complex structure

---
 robuststats/estimation/covariance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 588cd93..4f8dadf 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -935,8 +935,11 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     # Adding the rotated data 1j*X makes the minimiser over real matrices have
     # the structure of a complex matrix: it then is the complex Tyler estimate.
     X_real = arraytoreal(np.vstack([X, 1j*X]))
-    if init is not None:
-        init = covariancetoreal(init.astype(complex))
+    # The start has this structure too: if X is real up to phases, there are
+    # other real minimisers.
+    if init is None:
+        init = HermitianPositiveDefinite(X.shape[1]).rand()
+    init = covariancetoreal(init.astype(complex))
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From d7ed52f39f4108b6d9000048abbe4129c85eb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 40/54] fix: online estimator exposes its (zero) location so
 that score and mahalanobis work

---
 robuststats/online/estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 836b505..7f0cb9d 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -12,6 +12,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 from robuststats.estimation.base import ComplexEmpiricalCovariance
 from copy import deepcopy
 import logging
+import numpy as np
 from tqdm import tqdm
 
 
@@ -40,6 +41,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         estimate = deepcopy(estimate)
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(len(self.covariance_))
         self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
-- 
2.43.0


From 38879d413178814e9666d269116b7dbf29fa60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 41/54] fix: frozen models keep copies of their parameters

---
 robuststats/models/probability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 127b29d..d61c4c8 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -10,6 +10,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 # TODO: Rewrite doc since autodoc can't find scipy doc..
 
+from copy import deepcopy
 import logging
 from scipy.stats._multivariate import  multivariate_normal_gen,\
     multivariate_normal_frozen, multivariate_t_frozen,\
@@ -98,6 +99,7 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
 
     def __init__(self, mean=None, cov=1, allow_singular=False, seed=None,
                  maxpts=None, abseps=1e-5, releps=1e-5):
+        mean, cov = deepcopy(mean), deepcopy(cov)
         self._mean_orig = mean
         self._cov_orig = cov
         mean, cov = _check_parameters_complex_normal(mean, cov)
@@ -317,6 +319,7 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
 
     def __init__(self, loc=None, shape=1, df=1, allow_singular=False,
                  seed=None):
+        loc, shape = deepcopy(loc), deepcopy(shape)
         self._loc_orig = loc
         self._shape_orig = shape
         loc, shape = _check_parameters_complex_normal(loc, shape)
-- 
2.43.0


From 5b6030175da108ae70ab6f2e8c1980c862fa7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 42/54] fix: Tyler costs do not under- or overflow with the
 determinant

---
 robuststats/models/cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 405653f..a1accf5 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -47,7 +47,7 @@ def Tyler_cost_real(X, Q, autograd=False):
 
     n, p = X.shape
     q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
-    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
+    return p*be.sum(be.log(q)) + n*be_la.slogdet(Q)[1]
 
 
 def Tyler_cost_complex(X, Q, autograd=False):
@@ -84,4 +84,4 @@ def Tyler_cost_complex(X, Q, autograd=False):
 
     n, p = X.shape
     q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
-    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
+    return p*be.sum(be.log(be.real(q))) + n*be_la.slogdet(Q)[1]
\ No newline at end of file
-- 
2.43.0


From 8ecdd1930f17973bce17ae2d34ad6e25ab995296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 43/54] fix: determinant normalisation does not under- or
 overflow

---
 robuststats/estimation/covariance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4f8dadf..2e6b0d8 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -62,7 +62,11 @@ def get_normalisation_function(normalisation=None):
         return np.real(np.trace(covariance)) / covariance.shape[0]
 
     def determinant(covariance):
-        return np.real(la.det(covariance))**(1/covariance.shape[0])
+        det = np.real(la.det(covariance))
+        if not np.finfo(float).tiny <= det < np.inf:
+            # out of the range of floating point numbers
+            return np.exp(la.slogdet(covariance)[1]/covariance.shape[0])
+        return det**(1/covariance.shape[0])
 
     def element(covariance):
         return covariance[0, 0]
-- 
2.43.0


From 73093aa7ce44ac3ae4b5229b715433acd8d5201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 44/54] fix: generated covariances of unit determinant are
 finite in high dimension

---
 robuststats/utils/generation_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/utils/generation_data.py b/robuststats/utils/generation_data.py
index f2f4c39..6aa88d4 100644
--- a/robuststats/utils/generation_data.py
+++ b/robuststats/utils/generation_data.py
@@ -31,7 +31,7 @@ def generate_covariance(p, unit_det=False):
     sigma = Q@D@Q.T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = sigma/np.exp(la.slogdet(sigma)[1]/p)
 
     return sigma
 
@@ -47,7 +47,7 @@ def generate_complex_covariance(p, unit_det=False):
     sigma = Q@D@Q.conj().T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = sigma/np.exp(la.slogdet(sigma)[1]/p)
 
     return sigma
 
-- 
2.43.0


From 20f43f1f3ed58a984742e8c7f219063cb2604b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:03 +0000
Subject: [PATCH 45/54] fix: Tyler estimators can be pickled

---
 robuststats/estimation/covariance.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 2e6b0d8..a480e74 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -692,6 +692,12 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
 
         self._estimation_function = estimation_function
 
+    def __getstate__(self):
+        # The estimation function can not be pickled: fit sets it again.
+        state = super().__getstate__().copy()
+        state.pop('_estimation_function', None)
+        return state
+
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
         specified method when initialised object.
@@ -1285,6 +1291,12 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
 
         self._estimation_function = estimation_function
 
+    def __getstate__(self):
+        # The estimation function can not be pickled: fit sets it again.
+        state = super().__getstate__().copy()
+        state.pop('_estimation_function', None)
+        return state
+
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
         specified method when initialised object.
-- 
2.43.0


From dec468f18900dbec2f8a016f022d92dfd683eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:15 +0000
Subject: [PATCH 46/54] fix: retraction of Hermitian positive definite matrices
 stays Hermitian

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 57362cd..27eca3b 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -204,7 +204,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
 
     def retr(self, x, u):
         r = x + u + (1/2)*u@la.solve(x, u)
-        return r
+        return multiherm(r)
 
     def log(self, x, y):
         k = self._k
-- 
2.43.0


From def44bd4a90c9edaa223ba3a115fb386438c118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:26 +0000
Subject: [PATCH 47/54] fix: default start of the real fixed-point estimators
 does not overflow for integer data

---
 robuststats/estimation/covariance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index a480e74..8637249 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,7 +158,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
     
 
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = np.array(init)
         
@@ -238,7 +238,7 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
     
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = np.array(init)
     delta = np.inf  # Distance between two iterations
@@ -423,7 +423,7 @@ def tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
     # Initialisation
     N, p = X.shape
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = np.array(init)
 
-- 
2.43.0


From 2b3025730acc2b5f63068ea2baf7e86967a5f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 48/54] fix: real estimators compute with floating-point data

---
 robuststats/estimation/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 20f0edf..98ceca1 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -345,6 +345,11 @@ def complex_empirical_covariance(X, *, assume_centered=False):
 class RealEmpiricalCovariance(EmpiricalCovariance, TransformerMixin):
     """Scikit-learn Empirical covariance + transform to get the covariance after.
     """
+    def _validate_data(self, X, **kwargs):
+        X = super()._validate_data(X, **kwargs)
+        # Sums of products of narrow integers would overflow
+        return X if X.dtype.kind == 'f' else X.astype(float)
+
     def transform(self, X):
         return self.covariance_
 
-- 
2.43.0


From c43c09a525f376cb685534319fa29f6950970076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:26 +0000
Subject: [PATCH 49/54] fix: natural gradient accepts a starting matrix of
 integers

---
 robuststats/estimation/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 8637249..a6f61e9 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -381,7 +381,7 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     problem = Problem(manifold=manifold, cost=line_search_cost,
                       egrad=egrad, verbosity=verbose)
     solver = SteepestDescent()
-    sigma = manifold.rand() if init is None else init
+    sigma = manifold.rand() if init is None else np.asarray(init, dtype=float)
     if manifold.norm(sigma, problem.grad(sigma)) >= solver._mingradnorm:
         sigma = solver.solve(problem, x=sigma)
     return sigma/S(sigma), -cost(sigma), None
-- 
2.43.0


From b9c77628a2f197300b45b9fc1b78bf88f23e02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:26 +0000
Subject: [PATCH 50/54] fix: retraction and transport of positive vectors
 accept integer points

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 27eca3b..1a1da2e 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -84,13 +84,13 @@ class StrictlyPositiveVectors(EuclideanEmbeddedSubmanifold):
         return x*np.exp((1./x)*u)
 
     def retr(self, x, u):
-        return x + u + (1/2)*(x**-1)*(u**2)
+        return x + u + (1/2)*(1./x)*(u**2)
 
     def log(self, x, y):
         return x*np.log((1./x)*y)
 
     def transp(self, x1, x2, d):
-        res = self.proj(x2, x2*(x1**(-1)*d))
+        res = self.proj(x2, x2*((1./x1)*d))
         return res
 
 # ---------------------------------------------------------------------
-- 
2.43.0


From 03097fc00e4c8905872177ecc65bacd9f6f3b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:26 +0000
Subject: [PATCH 51/54] fix: Huber estimator with q=1 is the sample covariance
 and not nan

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index a6f61e9..5303e7a 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -164,7 +164,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, p)
-    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
+    beta = chi2.cdf(lbda, p+2) + (lbda*(1-q)/p if q < 1 else 0)
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -781,7 +781,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, 2*p)/2    
-    beta = chi2.cdf(2*lbda, 2*p+2) + lbda*(1-q)/p    
+    beta = chi2.cdf(2*lbda, 2*p+2) + (lbda*(1-q)/p if q < 1 else 0)
     
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From 085a93c917d6ce39e61b1af47ac444758c25b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 52/54] fix: Student-t scores refuse nan and data of another
 number of features

---
 robuststats/estimation/covariance.py | 2 ++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 5303e7a..be493f0 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -621,6 +621,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         if self.iteration_ ==0:
             logging.error("Estimator hasn't been fitted yet !")
             return None
+        X_test = self._validate_data(X_test, reset=False)
         logpdf = multivariate_t(
             shape=self.covariance_, df=self.df).logpdf(X_test)
         return np.sum(logpdf)
@@ -1219,6 +1220,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         if self.iteration_ ==0:
             logging.error("Estimator hasn't been fitted yet !")
             return None
+        X_test = self._validate_data(X_test, reset=False)
         logpdf = complex_multivariate_t(
             shape=self.covariance_, df=self.df).logpdf(X_test)
         return np.sum(logpdf)
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 86aea92..09373fd 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -408,6 +408,7 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
+        X_test = self._validate_data(X_test, reset=False)
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
-- 
2.43.0


From 2f88c183365dc2d343255087f6de1b3aafe1bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 53/54] fix: Hermitian parts and Toeplitz powers of narrow
 integers overflow

---
 robuststats/utils/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index a73eaff..250d803 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -21,7 +21,7 @@ def multihconj(A, autograd=False):
 
 def multiherm(A, autograd=False):
     # Inspired by MATLAB multiherm function by Nicholas Boumal.
-    return 0.5 * (A + multihconj(A, autograd))
+    return 0.5*A + 0.5*multihconj(A, autograd)
 
 # From: https://github.com/alexandrebarachant/pyRiemann/
 # blob/master/pyriemann/utils/base.py
@@ -128,7 +128,7 @@ def powm(Ci, alpha, autograd=False):
 
 def hermitian(X, autograd=False):
     be = get_be_autograd(autograd)
-    return .5*(X + be.conjugate(X.T))
+    return .5*X + .5*be.conjugate(X.T)
 
 
 def ToeplitzMatrix(rho, p, dtype=complex):
@@ -140,7 +140,7 @@ def ToeplitzMatrix(rho, p, dtype=complex):
             Outputs:
                 * the matrix """
 
-    return toeplitz(np.power(rho, np.arange(0, p))).astype(dtype)
+    return toeplitz(np.power(rho, np.arange(0., p))).astype(dtype)
 
 
 def vec(mat):
-- 
2.43.0


From aefbcdb2d4db00be9736880fe154974c44338654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 54/54] fix: complex equivalents of narrow integer matrices
 overflow

---
 robuststats/models/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index d23bb42..a3b8cbe 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -198,7 +198,7 @@ def covariancetocomplex(a):
     if not np.iscomplexobj(a):
         if iscovariance(a) and len(a) % 2 == 0:
             p = int(len(a)/2)
-            complex_matrix = 2 * a[:p, :p] + 2j*a[p:, :p]
+            complex_matrix = 2. * a[:p, :p] + 2j*a[p:, :p]
             return complex_matrix
         else:
             raise AttributeError("Input array format not supported.")
-- 
2.43.0

