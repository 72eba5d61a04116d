From 600a0e50f6d933eb0ff398fee2d76ae2c728ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 01/25] fix: honor initial_call in IPSDTA

---
 ssspy/bss/ipsdta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..20a38f5 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,9 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +105,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +117,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 2f9e73162dae090ec7d6b1918fecab7cf680a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 02/25] fix: resolve default of record_loss before initializing
 the loss record of proximal methods

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..d96a046 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -294,11 +294,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -312,6 +307,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c0feeb7 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -290,6 +285,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From a05eae276be7ff43cba946633203cf9c3456f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 03/25] fix: record loss with penalty function given to
 masking-based methods

---
 ssspy/bss/admmbss.py | 2 ++
 ssspy/bss/pdsbss.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index d96a046..03e9c82 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -304,6 +304,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index c0feeb7..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -282,6 +282,8 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
-- 
2.43.0


From 8c92f0e807eb83eb3b521b72cb3604e15d32599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 04/25] fix: apply minimal distortion principle in the whitened
 domain in FastIVA and FasterIVA

---
 ssspy/bss/iva.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..6dbe688 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,23 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle technique to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=self.reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 65ed5812c9b3e0d853d05bed53b228852c5604b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 05/25] fix: do not rescale the linear term when normalizing
 the secular equation of LQPQM

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..ca362e4 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From b74c7df309928692897a9573d72fd9cd096d287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 06/25] fix: solve least squares for rows of demixing filters
 in ADMM

---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 03e9c82..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -429,7 +430,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 1018956be5d56949cb91b716b521e619bd3293c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 07/25] fix: use principal eigenvector of LQPQM without linear
 term

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index ca362e4..16c52d6 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From e285ea720b5d6c5c13bc1036c1a91ad6fed45169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 08/25] fix: avoid cancellation in roots of cubic equations

---
 ssspy/linalg/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..822354b 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,9 +79,12 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
-    # U = 0, when P = 0.
-    is_singular = P == 0
+    # Choose sign of square root to avoid cancellation.
+    sqrt_discriminant = np.sqrt(discriminant)
+    is_cancelled = np.abs(Q / 2 - sqrt_discriminant) < np.abs(Q / 2 + sqrt_discriminant)
+    U = cbrt(-Q / 2 + np.where(is_cancelled, -sqrt_discriminant, sqrt_discriminant))
+    # U = 0, when P = 0 and Q = 0.
+    is_singular = U == 0
     U = np.where(is_singular, 1, U)
     V = -P / (3 * U)
 
-- 
2.43.0


From 8b33a4f36185c224cdf10ff333061f1af8a87866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 09/25] fix: find global minimum of LQPQM when linear term
 hardly excites principal component

---
 ssspy/linalg/lqpqm.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index 16c52d6..1d0551e 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -108,9 +108,26 @@ def lqpqm2(
         normalization=True,
     )
 
+    # Components satisfying phi * |v|^2 < flooring_fn(0) are ignored in solve_equation.
+    # When the principal component is ignored, lambda may not be greater than phi_max.
+    # In that case, lambda is phi_max, and the principal component is
+    # determined so that lambda is equal to the value of the quadratic function.
+    phi_max_non_singular = phi_non_singular[:, -1]
+    is_hard = lamb_non_singular <= phi_max_non_singular
+    lamb_non_singular = np.maximum(lamb_non_singular, phi_max_non_singular)
+
     num = phi_non_singular * v_tilde_non_singular
     denom = lamb_non_singular[..., np.newaxis] - phi_non_singular
-    v_nonsingular = num / denom
+    contribution = phi_non_singular * np.abs(v_tilde_non_singular) ** 2
+    margin = flooring_fn(0) ** 0.25 * lamb_non_singular[..., np.newaxis]
+    is_ignored = (contribution < flooring_fn(0)) & (denom <= margin)
+    v_nonsingular = np.where(is_ignored, 0, num / np.where(is_ignored, 1, denom))
+
+    w_nonsingular = v_nonsingular + v_tilde_non_singular
+    quadratic = np.sum(phi_non_singular * np.abs(w_nonsingular) ** 2, axis=-1) + z_non_singular
+    scale = np.maximum(lamb_non_singular - quadratic, 0)
+    scale = np.where(is_hard, scale, 0) / np.where(is_hard, phi_max_non_singular, 1)
+    v_nonsingular[:, -1] += np.sqrt(scale)
     y_non_singular = np.sum(sigma_non_singular * v_nonsingular[:, np.newaxis, :], axis=-1)
 
     y = np.zeros_like(v)
-- 
2.43.0


From 7b2b9869b8581b4ec47c1b93e7dae7614454815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 10/25] fix: square root of singular positive semidefinite
 matrices

---
 ssspy/linalg/sqrtm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssspy/linalg/sqrtm.py b/ssspy/linalg/sqrtm.py
index 2206ba5..c1cf6ff 100644
--- a/ssspy/linalg/sqrtm.py
+++ b/ssspy/linalg/sqrtm.py
@@ -22,6 +22,8 @@ def sqrtmh(X: np.ndarray) -> np.ndarray:
     if np.iscomplexobj(X):
         P_Hermite = P_Hermite.conj()
 
+    # eigenvalues of singular matrix may be negative due to rounding error
+    Lamb = np.maximum(Lamb, 0)
     Lamb = np.sqrt(Lamb)[..., np.newaxis] * np.eye(Lamb.shape[-1])
 
     return P @ Lamb @ P_Hermite
-- 
2.43.0


From 41b5592ecc5b484083fcf0358a1a33588102c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 11/25] fix: log-sum-exp of infinite values

---
 ssspy/special/logsumexp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssspy/special/logsumexp.py b/ssspy/special/logsumexp.py
index 022fded..062ce72 100644
--- a/ssspy/special/logsumexp.py
+++ b/ssspy/special/logsumexp.py
@@ -30,9 +30,13 @@ def logsumexp(X: np.ndarray, axis: int = None, keepdims: bool = False) -> np.nda
             array([3.40760596, 6.40760596])
     """
     vmax = np.max(X, axis=axis, keepdims=True)
+    # X - vmax is not defined if vmax is infinite
+    vmax = np.where(np.isfinite(vmax), vmax, 0)
     exp = np.exp(X - vmax)
     sum_exp = exp.sum(axis=axis, keepdims=True)
-    v = np.log(sum_exp) + vmax
+
+    with np.errstate(divide="ignore"):
+        v = np.log(sum_exp) + vmax
 
     if not keepdims:
         v = np.squeeze(v, axis=axis)
-- 
2.43.0


From ad3458b6e3ff328ee3a62dbc66b25de83e3dd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 12/25] fix: floor standard deviation in score-based
 permutation solver

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..ad39b88 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -195,7 +195,7 @@ def score_based_permutation_solver(
 
     sequence_mean = sequence.mean(axis=-1, keepdims=True)
     sequence_std = sequence.std(axis=-1, keepdims=True)
-    sequence_normalized = (sequence - sequence_mean) / sequence_std
+    sequence_normalized = (sequence - sequence_mean) / flooring_fn(sequence_std)
 
     for _ in range(global_iter):
         centroid = sequence_normalized.mean(axis=0)
-- 
2.43.0


From 9d413ca8ee3b0326a35eb31201fb1a2198860216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 13/25] fix: overwrite sequence in score-based permutation
 solver

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index ad39b88..be0f2b6 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From f2a5d2a157a5cda1584657399a0c9b4a707676ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 14/25] fix: normalize score of permutation by standard
 deviation of counterpart

---
 ssspy/algorithm/permutation_alignment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index be0f2b6..93d22f1 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -199,7 +199,7 @@ def score_based_permutation_solver(
 
     for _ in range(global_iter):
         centroid = sequence_normalized.mean(axis=0)
-        centroid_std = centroid.std(axis=-1, keepdims=True)
+        centroid_std = centroid.std(axis=-1)
         scores = []
 
         for perm in permutations:
@@ -236,6 +236,7 @@ def score_based_permutation_solver(
             # deterministic
             covariant_indices = sorted(list(covariant_indices))
             covariant_sequence = sequence_normalized[covariant_indices]
+            covariant_std = covariant_sequence.std(axis=-1)
 
             scores = []
 
@@ -244,7 +245,7 @@ def score_based_permutation_solver(
                     sequence_normalized[bin_idx, perm, na] * covariant_sequence[:, na],
                     axis=-1,
                 )
-                denom = flooring_fn(centroid_std)
+                denom = flooring_fn(covariant_std[:, na])
                 corr = num / denom
                 score = np.sum(eye * corr - (1 - eye) * corr, axis=(1, 2))
                 score = score.sum(axis=0)
-- 
2.43.0


From 39072b6a57522086c36f09ec06f30474c4563002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 15/25] fix: floor variance of silent frames in Gauss IVA

---
 ssspy/bss/iva.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 6dbe688..c15abfd 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2665,7 +2665,9 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+
+        self.variance = self.flooring_fn(variance)
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -2987,7 +2989,9 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+
+        self.variance = self.flooring_fn(variance)
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3487,4 +3491,6 @@ class AuxGaussIVA(AuxIVA):
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+
+        self.variance = self.flooring_fn(variance)
-- 
2.43.0


From 5e389a1174f7f95ae78c3755faa7bd75c39c18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 16/25] fix: clip full-scale floating-point samples in wavwrite

---
 ssspy/io/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..e973390 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,9 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = _waveform.astype("f8") * vmax
+        _waveform = np.clip(_waveform, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 4261f9f1743320970c4a2d1cdcb47bd780dd0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 17/25] fix: reject negative frame_offset in wavread

---
 ssspy/io/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e973390..51f3ba0 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -163,6 +163,11 @@ def _read_data_chunk(
     start = f.tell() + block_align * frame_offset
     max_frame = data_chunk_size // block_align
 
+    if frame_offset < 0:
+        raise ValueError(
+            f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer."
+        )
+
     if num_frames is None:
         shape = (n_full_samples - n_channels * frame_offset,)
         end_frame = data_chunk_size // block_align
-- 
2.43.0


From 00fb48ff4d2738c56715e349f86bf7cbc1b18f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 18/25] fix: reject WAV header whose block align is
 inconsistent

---
 ssspy/io/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 51f3ba0..d5cb8d0 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -144,6 +144,9 @@ def _read_fmt_chunk(
     if bits_per_sample * sample_rate * n_channels != 8 * byte_rate:
         raise ValueError("Invalid header is detected.")
 
+    if bits_per_sample * n_channels != 8 * block_align:
+        raise ValueError("Invalid header is detected.")
+
     return n_channels, sample_rate, block_align
 
 
-- 
2.43.0


From 296cd6b527a1b32b31f61dd334c0217ddaa7ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 19/25] fix: treat 8bit PCM as unsigned in wavread and wavwrite

---
 ssspy/io/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index d5cb8d0..258de7f 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -87,6 +87,9 @@ def wavwrite(
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
+
+        # 8bit PCM is stored as offset binary
+        _waveform = _waveform.view("u1") ^ 0x80
     elif _waveform.dtype == "i2":
         bits_per_sample = 16
     else:
@@ -185,6 +188,10 @@ def _read_data_chunk(
 
     data = np.memmap(f, dtype=f"<i{bytes_per_sample}", mode="c", offset=start, shape=shape)
 
+    if bytes_per_sample == 1:
+        # 8bit PCM is stored as offset binary
+        data = (data.view("u1") ^ 0x80).view("i1")
+
     if n_channels > 1:
         data = data.reshape(-1, n_channels)
 
-- 
2.43.0


From 3ee424e1c99ff7c6719c0278b3511462091bc233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 20/25] fix: reject WAV header whose bits per sample is not a
 multiple of 8

---
 ssspy/io/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 258de7f..da5ba66 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -147,7 +147,7 @@ def _read_fmt_chunk(
     if bits_per_sample * sample_rate * n_channels != 8 * byte_rate:
         raise ValueError("Invalid header is detected.")
 
-    if bits_per_sample * n_channels != 8 * block_align:
+    if bits_per_sample % 8 != 0 or bits_per_sample * n_channels != 8 * block_align:
         raise ValueError("Invalid header is detected.")
 
     return n_channels, sample_rate, block_align
-- 
2.43.0


From bbb73592614eee826a5f5991cd2451172d5cca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 21/25] fix: distinguish cached datasets by tag and
 reverberation time

---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..b1b443e 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From ea02f6b10adfc285f7b31f5ec22079011a2b96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 22/25] fix: require contrast functions of AuxIVA and AuxFDICA
 at construction

---
 ssspy/bss/fdica.py |  6 +++++-
 ssspy/bss/iva.py   | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/fdica.py b/ssspy/bss/fdica.py
index 75517b2..6441c46 100644
--- a/ssspy/bss/fdica.py
+++ b/ssspy/bss/fdica.py
@@ -972,7 +972,11 @@ class AuxFDICA(FDICABase):
         assert spatial_algorithm in spatial_algorithms, "Not support {}.".format(spatial_algorithms)
 
         self.spatial_algorithm = spatial_algorithm
-        self.d_contrast_fn = d_contrast_fn
+
+        if d_contrast_fn is None:
+            raise ValueError("Specify derivative of contrast function.")
+        else:
+            self.d_contrast_fn = d_contrast_fn
 
         if pair_selector is None:
             if spatial_algorithm == "IP2":
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index c15abfd..105b3c2 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -620,8 +620,16 @@ class AuxIVABase(IVABase):
             record_loss=record_loss,
             reference_id=reference_id,
         )
-        self.contrast_fn = contrast_fn
-        self.d_contrast_fn = d_contrast_fn
+
+        if contrast_fn is None:
+            raise ValueError("Specify contrast function.")
+        else:
+            self.contrast_fn = contrast_fn
+
+        if d_contrast_fn is None:
+            raise ValueError("Specify derivative of contrast function.")
+        else:
+            self.d_contrast_fn = d_contrast_fn
 
     def __call__(
         self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
-- 
2.43.0


From c272d424954d2640570ea2cf715233b1594c9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 23/25] fix: use the flooring function handed to
 AuxGaussIVA.update_once for the variance

---
 ssspy/bss/iva.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 105b3c2..f17beb2 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -3361,7 +3361,7 @@ class AuxGaussIVA(AuxIVA):
                 Default: ``self``.
 
         """
-        self.update_source_model()
+        self.update_source_model(flooring_fn=flooring_fn)
 
         super().update_once(flooring_fn=flooring_fn)
 
@@ -3491,8 +3491,24 @@ class AuxGaussIVA(AuxIVA):
 
         self.demix_filter = W
 
-    def update_source_model(self) -> None:
-        r"""Update variance of Gaussian distribution."""
+    def update_source_model(
+        self,
+        flooring_fn: Optional[Union[str, Callable[[np.ndarray], np.ndarray]]] = "self",
+    ) -> None:
+        r"""Update variance of Gaussian distribution.
+
+        Args:
+            flooring_fn (callable or str, optional):
+                A flooring function for numerical stability.
+                This function is expected to return the same shape tensor as the input.
+                If you explicitly set ``flooring_fn=None``,
+                the identity function (``lambda x: x``) is used.
+                If ``self`` is given as str, ``self.flooring_fn`` is used.
+                Default: ``self``.
+
+        """
+        flooring_fn = choose_flooring_fn(flooring_fn, method=self)
+
         if self.demix_filter is None:
             Y = self.output
         else:
@@ -3501,4 +3517,4 @@ class AuxGaussIVA(AuxIVA):
 
         variance = np.mean(np.abs(Y) ** 2, axis=1)
 
-        self.variance = self.flooring_fn(variance)
+        self.variance = flooring_fn(variance)
-- 
2.43.0


From d1e8ce008468f3521ad80656421bb3c097b9ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 24/25] fix: keep imaginary parts and precision when initial
 demixing filters are given in a real or integer format

---
 ssspy/bss/fdica.py   | 2 +-
 ssspy/bss/ica.py     | 4 ++--
 ssspy/bss/ilrma.py   | 2 +-
 ssspy/bss/ipsdta.py  | 4 ++--
 ssspy/bss/iva.py     | 2 +-
 ssspy/bss/mnmf.py    | 2 +-
 ssspy/bss/proxbss.py | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ssspy/bss/fdica.py b/ssspy/bss/fdica.py
index 6441c46..faab195 100644
--- a/ssspy/bss/fdica.py
+++ b/ssspy/bss/fdica.py
@@ -166,7 +166,7 @@ class FDICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ica.py b/ssspy/bss/ica.py
index 402fee8..0a80f0b 100644
--- a/ssspy/bss/ica.py
+++ b/ssspy/bss/ica.py
@@ -121,7 +121,7 @@ class GradICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.float64)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
@@ -311,7 +311,7 @@ class FastICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.float64)
 
         Z = whiten(X)
 
diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..fad8e3f 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -191,7 +191,7 @@ class ILRMABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 20a38f5..5758dc0 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -180,7 +180,7 @@ class IPSDTABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
@@ -507,7 +507,7 @@ class BlockDecompositionIPSDTABase(IPSDTABase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f17beb2..e87f494 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -163,7 +163,7 @@ class IVABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..761af6a 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -559,7 +559,7 @@ class FastMNMFBase(MNMFBase):
             Q = np.tile(Q, reps=(n_bins, 1, 1))
         else:
             # To avoid overwriting.
-            Q = self.diagonalizer.copy()
+            Q = self.diagonalizer.astype(np.complex128)
 
         self.diagonalizer = Q
 
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 64de0df..8f4b903 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -133,7 +133,7 @@ class ProxBSSBase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
-- 
2.43.0


From 2dc51edf0a1c04ffae6770ba326057f2c36e90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 25/25] fix: determine the number of sources of CACGMM by each
 input mixture

---
 ssspy/bss/cacgmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssspy/bss/cacgmm.py b/ssspy/bss/cacgmm.py
index 778ce1e..c363265 100644
--- a/ssspy/bss/cacgmm.py
+++ b/ssspy/bss/cacgmm.py
@@ -64,6 +64,7 @@ class CACGMMBase(IterativeMethodBase):
         super().__init__(callbacks=callbacks, record_loss=record_loss)
 
         self.n_sources = n_sources
+        self._inferred_n_sources = None
 
         if flooring_fn is None:
             self.flooring_fn = identity
@@ -147,8 +148,11 @@ class CACGMMBase(IterativeMethodBase):
         n_sources = self.n_sources
         n_channels, n_bins, n_frames = X.shape
 
-        if n_sources is None:
+        # Parameters are initialized at every call, so the number of sources determined
+        # by the previous mixture should not be taken over.
+        if n_sources is None or n_sources == self._inferred_n_sources:
             n_sources = n_channels
+            self._inferred_n_sources = n_sources
 
         self.n_sources, self.n_channels = n_sources, n_channels
         self.n_bins, self.n_frames = n_bins, n_frames
-- 
2.43.0

