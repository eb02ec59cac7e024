From 9c7855fd4b1b7a406387262529190dd4bddef42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 01/39] fix: undefined covariance keeps its (dim, dim) shape

Covariance() returned a scalar infinity when fewer than ddof+1 samples had
been seen, so a control-variate estimator failed on a first single sample.
---
 src/primate/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..5e30ce2 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -59,7 +59,7 @@ class Covariance(Mean):
 		"""
 		# assert ddof < self.n, f"Need more than {ddof} samples for ddof={ddof}"
 		if (self.n - ddof) <= 0:
-			return np.inf if self.dim else np.diag(np.inf, self.dim)
+			return np.inf if self.dim == 1 else np.diag(np.full(self.dim, np.inf))
 		cov = self.S / (self.n - ddof)
 		return cov.item() if self.dim == 1 else cov
 
-- 
2.43.0


From 46b568652239e65029819482bd3db55dd2ca2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 02/39] fix: use n-1 degrees of freedom in the confidence
 criterion

t_scores[i] holds the score for i+1 degrees of freedom, so indexing it with
n_samples used n+1 degrees of freedom instead of n-1.
---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..c4a0cec 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 25efb883dd51e0bc17a23afa2c474d84ae7cec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/39] fix: knee criterion uses the running means of the
 recorded values

The recorded values were divided by 1..n without being accumulated, so the
curve was not the sequence of sample means its comment and docs describe.
---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index c4a0cec..4436e39 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -310,7 +310,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From 24f6c0d3ec23ea998f3f94c569c0eff66f992229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 04/39] fix: start the Lanczos recurrence from clean buffers

Vectors left in Q by an earlier run were orthogonalized against, and entries
of alpha and beta past an early stop kept the values of the earlier run, so
MatrixFunction.quad depended on the calls before it.
---
 src/primate/include/lanczos.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..319ed65 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -116,9 +116,10 @@ void lanczos_recurrence(
 
   // Setup for first iteration
   std::array< int, 3 > pos = { int(ncv) - 1, 0, 1 };          // Indices for the recurrence
-  Q.col(pos[0]) = static_cast< VectorF >(VectorF::Zero(n));   // Ensure previous is 0
+  Q.setZero();                                                // Ensure no stale vectors are orthogonalized against
   Q.col(0) = v.normalized();                                  // Load unit-norm v as q0
-  beta[0] = 0.0;                                              // Ensure beta_0 is 0
+  std::fill_n(alpha, deg + 1, F(0));                          // Entries past an early stop are 0
+  std::fill_n(beta, deg + 1, F(0));                           // Ensure beta_0 is 0
 
   for (int j = 0; j < deg; ++j) {
 
-- 
2.43.0


From 828c6d4f39340ecd7958366412c43071913aa5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 05/39] fix: lanczos(dtype=...) allocates its buffers in the
 requested precision

With a dtype other than the operator's, the native overload converted (copied)
the output buffers and the function returned zeros.
---
 src/primate/lanczos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..f5baf80 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -77,12 +77,12 @@ def lanczos(
 	## Basic parameter validation
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
-	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
+	f_dtype = f_dtype if dtype is None else np.dtype(dtype)  # v0, alpha, beta and Q must agree on the precision
 
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
@@ -92,9 +92,9 @@ def lanczos(
 	## Generate the starting vector if none is specified
 	if v0 is None:
 		rng = np.random.default_rng(seed)
-		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(dt)
+		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
-		v0: np.ndarray = np.array(v0).astype(dt)
+		v0: np.ndarray = np.array(v0).astype(f_dtype)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
-- 
2.43.0


From 33c192c3e81a065c2897d124a7866cb25549c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 06/39] fix: initialize the LinearOperator base class of the
 operators

Without it, products with scipy's current LinearOperator fail (missing _xp).
---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..4674857 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(np.dtype(dtype), A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -166,13 +165,12 @@ class Toeplitz(LinearOperator):
 	"""Matrix-free operator for representing Toeplitz or circulant matrices."""
 
 	def __init__(self, c: np.ndarray, r: Optional[np.ndarray] = None, dtype: np.dtype = F64):
+		super().__init__(np.dtype(dtype), (len(c), len(c)))
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.real(np.fft.fft(self._d))
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 0e14466df3a2ae1daea7432e9abc9986f6af54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 07/39] fix: MatrixFunction._matvec returns a vector

The (n, 1) result made products with matrices stack columns along a wrong axis.
---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 4674857..1e6c712 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -120,7 +120,7 @@ class MatrixFunction(LinearOperator):
 		## TODO: call the lapack function with pre-allocated memory for extra speed
 		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return np.ravel(x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T)
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
-- 
2.43.0


From 635cd6ecd6b745cd2f76283c8cb71f0ff917a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 08/39] fix: keep the complex spectrum of nonsymmetric Toeplitz
 operators

The circulant embedding's Fourier transform is real only when r equals c.
---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 1e6c712..e2c8315 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -169,7 +169,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 
 	## NOTE: We return a copy because the output cannot be a view
-- 
2.43.0


From 168170672232983b6952edae907ff10e411d780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 09/39] fix: matrix functions ignore the part of T past an
 invariant subspace

When the recurrence stopped early, the zero rest of the Jacobi matrix added
spurious zero Ritz values, so functions like the inverse produced NaNs.
---
 src/primate/operators.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index e2c8315..e13ce28 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -98,6 +98,12 @@ class MatrixFunction(LinearOperator):
 	def _adjoint(self):
 		return self
 
+	def _krylov_dim(self) -> int:
+		"""Dimension of the Krylov subspace last expanded; smaller than the degree if it was found to be invariant."""
+		tol = np.sqrt(self.shape[0]) * self._rtol  # see the stopping rule of the Lanczos recurrence
+		small = np.flatnonzero(self._beta[1 : self._deg] < tol)
+		return self._deg if len(small) == 0 else int(small[0]) + 1
+
 	def _matvec(self, x: np.ndarray):
 		r"""Estimates the matrix-vector action using the Lanczos method.
 
@@ -118,9 +124,10 @@ class MatrixFunction(LinearOperator):
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		d = self._krylov_dim()
+		rw, Y = eigh_tridiag(self._alpha[:d], self._beta[1:d])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return np.ravel(x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T)
+		return np.ravel(x_norm * self._Q[:, :d] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T)
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -145,8 +152,10 @@ class MatrixFunction(LinearOperator):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			d = self._krylov_dim()
+			nodes, weights = self._nodes[:d], self._weights[:d]
+			quadrature(self._alpha, self._beta, deg=d, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 2d78f455e0bd2b495616b7ee83eec95f263f115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 10/39] fix: symmetric(pd=True) clips supplied eigenvalues

As documented; negative eigenvalues passed with ew were kept.
---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..b092dc9 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -174,7 +174,7 @@ def symmetric(
 	Q, R = np.linalg.qr(A)
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
-	ew = np.atleast_1d(ew)
+	ew = np.atleast_1d(np.maximum(ew, 0.0) if pd else ew)
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From 73320c2d0a3b34ed2f77638bb6c7dd673787f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 11/39] fix: list softsign among the built-in matrix functions

param_callable handles the name but rejected it as unknown.
---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From 93fcf97dcd369bf2a216b46ab17fb6c72c1d7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 12/39] fix: keep the caller's maxiter when falling back to
 tqli

---
 src/primate/tridiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..db66c6a 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -17,7 +17,7 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 			res = _eigh_tridiag(d, e, Z, method="mrrr")
 			return res
 		except np.linalg.LinAlgError:
-			return _eigh_tridiag(d, e, Z, method="tqli")
+			return _eigh_tridiag(d, e, Z, method="tqli", maxiter=maxiter)
 
 
 ## Note this issue: https://github.com/scipy/scipy/issues/13982
-- 
2.43.0


From a9508a5b852ac34ada27806b9e67acd81e363217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 13/39] fix: use the Wilkinson shift in tqli

The shift was overwritten before use and sign() did not transfer the sign, so
the denominator could be zero, e.g. for d = [2, 1], e = [0, 1] (NaN results).
---
 src/primate/tqli.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..9147d3b 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,7 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	return abs(a) if b >= 0.0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,8 +56,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
-- 
2.43.0


From 09d9804c425f914d698646c76ddb371c50f17acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 14/39] fix: finish a tqli sweep whose last rotation leaves r =
 0

The recovery test reused r, which is overwritten after the underflow check, so
a completed sweep could be treated as an interrupted one.
---
 src/primate/tqli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 9147d3b..4db4d53 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -59,6 +59,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
+				underflow = False
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
 					f, b = s * e[i], c * e[i]
@@ -67,6 +68,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 						# if abs(r) <= 2.2250738585072014e-128:
 						d[i + 1] -= p
 						e[m] = 0.0
+						underflow = True
 						break
 					s, c = (f / r, g / r)
 					g = d[i + 1] - p
@@ -79,7 +81,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if underflow:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From 8d3a6d530211856b0187b62df48a6e120c9aafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 15/39] fix: rayleigh_ritz honours its method argument

The documented choice of solver and maxiter was ignored.
---
 src/primate/lanczos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index f5baf80..45068bc 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -149,6 +149,8 @@ def rayleigh_ritz(
 
 	## Run the lanczos method
 	deg = np.clip([deg], 2, n).item()
+	assert method.lower() in {"rrr", "tqli"}, f"Invalid tridiagonal solver '{method}'; must be 'rrr' or 'tqli'."
+	solver = {"method": "auto" if method.lower() == "rrr" else "tqli", "maxiter": kwargs.pop("maxiter", 30)}
 	Q_basis = kwargs.pop("return_basis", False)
 	if Q_basis:
 		(a, b), Q = lanczos(A, deg=deg, return_basis=True, **kwargs)
@@ -157,10 +159,10 @@ def rayleigh_ritz(
 
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
-		rw, Y = eigh_tridiag(a, b)
+		rw, Y = eigh_tridiag(a, b, **solver)
 		return (rw, Y) if not Q_basis else (rw, Y, Q)
 	else:
-		rw = eigvalsh_tridiag(a, b)
+		rw = eigvalsh_tridiag(a, b, **solver)
 		return rw if not Q_basis else (rw, Q)
 
 
-- 
2.43.0


From 11b5fa48e5a1817f8fc7134a670ebfa3f1e0f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 16/39] fix: quadrature(quad='fttr') returns the rule of the
 requested degree

Nodes came from the whole matrix, with weights for only the first deg of them.
---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 3527f7ffb22265fb9549246987027af254a21731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 17/39] fix: fttr handles one-point rules and nodes that are
 all zero

ortho_poly indexed past a length-one matrix, and scaling by the sum of the
nodes divided by zero when they vanish.
---
 src/primate/fttr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..fc781ef 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
@@ -20,7 +21,7 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	This functions computes the weights of the Gaussian quadrature of nodes `theta` w.r.t a basis of orthogonal polynomials.
 	"""
 	n = len(alpha)
-	mu_0 = np.sum(np.abs(theta[:k]))
+	mu_0 = 1.0  # any positive scale does; it cancels in the weights
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From f613a66d95cae02db1ff797f25b35522fc5d6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 18/39] fix: hutch samples in batches without full=True, too

The batch argument was ignored unless full or callback was given, so the same
call returned different estimates with and without full=True.
---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..0c8244e 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -112,7 +112,7 @@ def hutch(
 		return (estimator.estimate, result)
 	else:
 		while not converge(estimator):
-			estimator.update(quad_form(pdf(size=(N, 1)).astype(f_dtype)))
+			estimator.update(quad_form(pdf(size=(N, batch)).astype(f_dtype)))
 		return estimator.estimate
 
 
-- 
2.43.0


From b9f343d77129f7e2edc4708fcfa153e9f9949348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 19/39] fix: keep the result of hutch and diag up to date

result.estimate stayed 0.0 for hutch, and callbacks saw it unset in both.
---
 src/primate/diagonal.py | 3 ++-
 src/primate/trace.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..0bf0012 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,10 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 0c8244e..b16d541 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,6 +107,7 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
-- 
2.43.0


From 424be81ed471d752f66a02cda1c1d9d80e04c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 20/39] fix: hutchpp and diag accept a callable pdf as
 documented

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0bf0012..eacf756 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index b16d541..a9498fa 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -138,7 +138,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From 27f733bae1ae1839f5ebc04b7f83644c352ff3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 21/39] fix: hutchpp rounds its sample count up to a positive
 multiple of three

nb += nb % 3 turned 4 into 5, and matrices smaller than 3 divided by zero.
---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index a9498fa..2f5721d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -150,7 +150,7 @@ def hutchpp(
 
 	## Setup constants
 	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
-	nb += nb % 3  # ensure nb divides by 3
+	nb = max(3, nb + (-nb) % 3)  # ensure 3 divides nb
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
 
-- 
2.43.0


From e6b945860b91e71dbe617938978ab148056778ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 22/39] fix: hutchpp collects one quadratic form per sampled
 vector

The sums ran over rows, so result.samples held n partial sums, and operators
with a quad method could not be used with full=True (mismatched dimensions).
---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 2f5721d..aa7fff9 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -164,13 +164,13 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("ij,ij->j", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
 	G = pdf(size=(N, nb)).astype(f_dtype)
 	G -= Q @ (Q.T @ G)
-	defl_ests = np.einsum("...i,...i->...", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
+	defl_ests = np.einsum("ij,ij->j", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
 	tr_defl = (1 / nb) * np.sum(defl_ests)
 
 	if not full:
-- 
2.43.0


From c49460b2dd80d75b7169191b844e5c4331bccb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 23/39] fix: xtrace honours the convergence criterion it is
 given

The argument was overwritten before it was parsed.
---
 src/primate/trace.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index aa7fff9..3e4e62f 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -272,8 +272,7 @@ def xtrace(
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
-- 
2.43.0


From 73967a481c5bf19ea99d5ffcd804788822c5de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 24/39] fix: xtrace applies the normalization of the sphere
 distribution

The name of the distribution was replaced by the sampler before it was compared
to 'sphere', so the default estimate was not exact at n vectors.
---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 3e4e62f..d01bbe2 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -285,7 +285,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
@@ -293,7 +293,7 @@ def xtrace(
 		## Sample a batch of random isotropic vectors
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
-		N = pdf(size=(n, ns))  # 'new' vectors
+		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-- 
2.43.0


From cc47e47f525e7391ebccd5af5c1c7af2174a617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 25/39] fix: xtrace supports the confidence and tolerance
 criteria and callbacks

Its estimator had no covariance (confidence failed) and measured the change of
the estimate from zero, and callbacks received an empty result.
---
 src/primate/trace.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index d01bbe2..df85710 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -266,7 +266,7 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
@@ -305,11 +305,13 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		previous = estimator.estimate
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		if not np.isnan(previous):
+			estimator.delta = np.atleast_1d(estimator.estimate - previous)
+		result.estimator, result.criterion = estimator, converge
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		callback(result)
 
-	result.estimator = estimator
-	result.estimate = estimator.estimate
-	result.criterion = converge
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From ce6aeef094dd47ec385215515586abaf75172e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 26/39] fix: a reported mean does not change with later updates

Mean() returned its running vector, which update() modifies in place, so e.g.
estimates kept by a callback of diag all became the last one.
---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 5e30ce2..6cdc074 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From 1d66a112e28d2e477bb7745704a90d8f39fca881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 27/39] fix: recorded values are copies of the samples

They were views of the caller's array and changed with it.
---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 4436e39..6f7cc16 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From 29e0f910cab8d3b6db6fc51860fda669f040871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 28/39] fix: control-variate coefficients wait for enough
 samples

The covariance of k controls is singular for up to k samples, so updating the
estimator sample by sample raised LinAlgError.
---
 src/primate/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 6f7cc16..1d77af9 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -170,7 +170,10 @@ class ControlVariableEstimator(MeanEstimator):
 		C = self.cov(ddof=1)
 		if self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			if self.n_samples < self.cov.dim:  # too few samples to determine the coefficients
+				self.alpha = np.zeros(self.cov.dim - 1)
+			else:
+				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 6c1b4eaa251b88905dd033b5bc9d2a6b9bc9bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 29/39] fix: normal confidence interval of constant samples is
 the mean, not NaN

---
 src/primate/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 6cdc074..7a55411 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -108,7 +108,8 @@ def confidence_interval(a: np.ndarray, confidence: float = 0.95, sdist: str = "t
 	elif sdist == "normal":
 		sq_n = np.sqrt(len(a))
 		mean, std = np.mean(a), np.std(a, ddof=1)
-		return sp.stats.norm.interval(confidence, loc=mean, scale=std / sq_n)
+		m = sp.stats.norm.ppf((1 + confidence) / 2.0)
+		return mean - m * (std / sq_n), mean + m * (std / sq_n)
 	else:
 		raise ValueError(f"Unknown sampling distribution '{sdist}'.")
 
-- 
2.43.0


From 2649a3dd32be8c6d24497da03cb202e43c3eb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 30/39] fix: xtrace works on one-by-one operators

---
 src/primate/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index df85710..2a6c3d4 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -296,7 +296,10 @@ def xtrace(
 		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			if Q.shape[1] == 0:
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")  # qr_insert cannot grow an empty 1 x 0 factor
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 2caac51ac3e293e822e0a73169f4539226ae9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 31/39] fix: is_linear_op answers False for objects that are
 not matrices instead of raising

---
 src/primate/operators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index e13ce28..467ab6c 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -26,11 +26,10 @@ def is_valid_operator(A: Union[np.ndarray, LinearOperator]) -> np.dtype:
 def is_linear_op(A: Any) -> bool:
 	"""Checks whether a given operator has the correct interface for use with implicit matrix algorithms."""
 	attr_checks = [hasattr(A, "__matmul__"), hasattr(A, "matmul"), hasattr(A, "dot"), hasattr(A, "matvec")]
-	is_valid_op = True
-	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
-	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
-	is_valid_op &= A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
-	return is_valid_op
+	is_valid_op = any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
+	is_valid_op = is_valid_op and hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
+	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
+	return bool(is_valid_op)
 
 
 class MatrixFunction(LinearOperator):
-- 
2.43.0


From 237850027c248348b6e19965ac5d9ed08aeb6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 32/39] fix: Lanczos stops at an exactly invariant subspace
 when the tolerance is zero

---
 src/primate/include/lanczos.h | 2 +-
 src/primate/operators.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 319ed65..7d0fbfc 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -138,7 +138,7 @@ void lanczos_recurrence(
 
     // Early-stop criterion is when K_j(A, v) is near invariant subspace.
     beta[j+1] = v.norm();
-    if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn
+    if (beta[j+1] <= residual_tol || (j+1) == deg) { // additional break prevents overriding qn
       break;
     }
     Q.col(n) = v / beta[j+1]; // normalize such that Q stays orthonormal
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 467ab6c..cd0adfb 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -100,7 +100,7 @@ class MatrixFunction(LinearOperator):
 	def _krylov_dim(self) -> int:
 		"""Dimension of the Krylov subspace last expanded; smaller than the degree if it was found to be invariant."""
 		tol = np.sqrt(self.shape[0]) * self._rtol  # see the stopping rule of the Lanczos recurrence
-		small = np.flatnonzero(self._beta[1 : self._deg] < tol)
+		small = np.flatnonzero(self._beta[1 : self._deg] <= tol)
 		return self._deg if len(small) == 0 else int(small[0]) + 1
 
 	def _matvec(self, x: np.ndarray):
-- 
2.43.0


From 924680d105d7d635d0df35bb03ac6121a8fe9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 33/39] fix: copy strided results of a Python operator's matvec
 element by element

---
 src/primate/include/pylinop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..016464e 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,7 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    py_array< F > output = matvec_out.cast< py_array< F > >(); // contiguous, whatever the strides of the result
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From f55e7f600ed7dfdbb0ded6d54113f721586f9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 34/39] fix: reject results of the wrong length from a Python
 operator's matvec instead of reading past them

---
 src/primate/include/pylinop.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 016464e..140433d 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -35,6 +35,7 @@ struct PyLinearOperator {
     py::object matvec_out = _op.attr("matvec")(input);
     py_array< F > output = matvec_out.cast< py_array< F > >(); // contiguous, whatever the strides of the result
     // std::copy(output.data(), output.data() + output.size(), out);
+    if (static_cast< size_t >(output.size()) != _shape.first) { throw std::invalid_argument("The operator's matvec returned a vector of the wrong length."); }
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
-- 
2.43.0


From 056d1ca8eccb2f608a135e7afedb84a7f3c916dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 35/39] fix: native modulus helper without an intermediate sum
 that can overflow

---
 src/primate/include/lanczos.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 7d0fbfc..64adb54 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -32,7 +32,8 @@ using AdjSolver = Eigen::SelfAdjointEigenSolver< T >;
 
 // Emulate python modulus behavior since C++ '%' is not a true modulus
 constexpr inline auto mod(int a, int b) noexcept -> int {
-  return (b + (a % b)) % b; 
+  const int r = a % b; // b + r may not be representable
+  return r < 0 ? r + b : r;
 }
 
 // Orthogonalizes v with respect to columns in U via modified gram schmidt
-- 
2.43.0


From c430c74ef4f8022b1c685411d95d30f4a87a9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 36/39] fix: an empty batch leaves the streaming statistics
 unchanged

---
 src/primate/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 7a55411..6635809 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -29,6 +29,8 @@ class Mean:
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # no new observations
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
@@ -72,6 +74,8 @@ class Covariance(Mean):
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # no new observations
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
-- 
2.43.0


From 422c69ca677112c38e9aa13410bc96a991ddd48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 37/39] fix: quadrature fills an output array given alone

---
 src/primate/integrate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..aee80f4 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -69,8 +69,10 @@ def quadrature(
 		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
-	if nodes is not None and weights is not None:
-		assert len(nodes) == deg and len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+	assert nodes is None or len(nodes) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+	assert weights is None or len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+	if nodes is not None:
 		np.copyto(nodes, theta)
+	if weights is not None:
 		np.copyto(weights, tau)
 	return theta, tau
-- 
2.43.0


From 94bd3c93845b04e0228753f9d11a212bf41b3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 38/39] fix: the control-variate estimator reports its change

---
 src/primate/estimators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1d77af9..e06c6ec 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -148,7 +148,7 @@ class MeanEstimator(Estimator):
 class ControlVariableEstimator(MeanEstimator):
 	def __init__(self, ecv: Union[float, np.ndarray], alpha: Union[float, np.ndarray, None] = None, record: bool = False):
 		ecv: np.ndarray = np.atleast_1d(ecv).ravel()
-		super().__init__(len(ecv), covariance=False, record=record)
+		super().__init__(dim=1, covariance=False, record=record)
 		if alpha is not None:
 			alpha: np.ndarray = np.atleast_1d(alpha).ravel()
 			assert len(ecv) == len(alpha), "Coefficients alpha must have same length as the control variables."  # type: ignore
@@ -157,7 +157,6 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
 
 	def __len__(self) -> int:
 		return self.n_samples
@@ -165,6 +164,7 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		previous = 0.0 if self.n_samples == 0 else self.estimate
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		C = self.cov(ddof=1)
@@ -174,6 +174,7 @@ class ControlVariableEstimator(MeanEstimator):
 				self.alpha = np.zeros(self.cov.dim - 1)
 			else:
 				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+		self.delta = np.atleast_1d(self.estimate - previous)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 8010e861d80024ed214a5d6c4b552deead389145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 39/39] fix: growing a triangular inverse keeps its precision

---
 src/primate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..3fbbbb7 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -17,7 +17,7 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 	b = np.atleast_2d(b).reshape((n + 1, 1))
 	assert B_inv.dtype == b.dtype, "dtypes of `B_inv` and `b` did not match."
 
-	B_ast = np.zeros(shape=(n + 1, n + 1))
+	B_ast = np.zeros(shape=(n + 1, n + 1), dtype=B_inv.dtype)
 	B_ast[:n, :n] = B_inv
 	B_ast[n, n] = np.reciprocal(b[-1]).item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
-- 
2.43.0

