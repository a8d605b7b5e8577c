From e23b8f3c646aebdfa22f58aae995378cacefe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 01/21] fix: do not scale linear term when normalizing LQPQM
 equation

Dividing f(lambda) = 0 by phi_max rescales lambda, phi and z, but v is left
as it is. v was also divided, so that the returned root was not that of f.
---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..ca362e4 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 14a7c84d7c611789dba13075d9a684e57563a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 02/21] fix: solve least squares of demixing filter in
 ADMM-based BSS with correct layout

XX is the Gram matrix of the transposed system, so that both the right hand
side and the solution should be transposed. Otherwise, ADMM diverges.
---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From bdc14a7bfffe5616e4d77c7a63f9bfc972b7c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 03/21] fix: apply minimal distortion principle of FastIVA to
 filters for whitened input

---
 ssspy/bss/iva.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..b2e859a 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,26 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        # ``demix_filter`` is applied to whitened input.
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 4548cdf9fd301f179178d9623bda4e5366cade31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 04/21] fix: clip floating point waveform to range of 16-bit
 PCM in wavwrite

---
 ssspy/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..b1a4fec 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,8 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = np.clip(_waveform.astype("f8") * vmax, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 0a3bfb2ebf9b3d420595841b030f217283a01bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 05/21] fix: reject negative frame_offset in wavread

---
 ssspy/io/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index b1a4fec..ea72674 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -155,6 +155,11 @@ def _read_data_chunk(
     return_2d: Optional[bool] = None,
     channels_first: Optional[bool] = None,
 ) -> np.ndarray:
+    if frame_offset < 0:
+        raise ValueError(
+            f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer."
+        )
+
     data_chunk_size = struct.unpack("<I", f.read(4))[0]
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
-- 
2.43.0


From cafe3f16d4bd01c0ad3da34a3d74d55b1be1cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 06/21] fix: treat 8-bit PCM as unsigned integer in wavread and
 wavwrite

---
 ssspy/io/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index ea72674..cdb3ac0 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -86,6 +86,9 @@ def wavwrite(
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
+
+        # 8-bit PCM is stored as unsigned integer
+        _waveform = (_waveform.astype("<i2") + 128).astype("u1")
     elif _waveform.dtype == "i2":
         bits_per_sample = 16
     else:
@@ -179,7 +182,9 @@ def _read_data_chunk(
     if end_frame > max_frame:
         raise ValueError(f"num_frames={num_frames} exceeds maximum frame {max_frame}.")
 
-    data = np.memmap(f, dtype=f"<i{bytes_per_sample}", mode="c", offset=start, shape=shape)
+    # 8-bit PCM is stored as unsigned integer
+    dtype = "u1" if bytes_per_sample == 1 else f"<i{bytes_per_sample}"
+    data = np.memmap(f, dtype=dtype, mode="c", offset=start, shape=shape)
 
     if n_channels > 1:
         data = data.reshape(-1, n_channels)
@@ -195,6 +200,9 @@ def _read_data_chunk(
 
     vmax = 2 ** (8 * bytes_per_sample - 1)
 
+    if bytes_per_sample == 1:
+        return (data.astype("<i2") - vmax) / vmax
+
     return data / vmax
 
 
-- 
2.43.0


From 2313b58d0f0a18799e7f6eb20dce781540fa35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 07/21] fix: record loss of proximal methods by default when
 penalty_fn is given

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..bee12d4 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -313,6 +308,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c0feeb7 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -290,6 +285,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From 91ef5a3452cc4101d19775cf8cee09ac9ce5a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 08/21] fix: compute loss of masking-based methods with given
 penalty_fn

---
 ssspy/bss/admmbss.py | 2 +-
 ssspy/bss/pdsbss.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index bee12d4..92e9073 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -318,7 +318,7 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(mask_fn), "mask_fn should be callable."
 
-        self.penalty_fn = penalty_fn
+        self.penalty_fn = None if penalty_fn is None else [penalty_fn]
         self.mask_fn = mask_fn
 
         self.input = None
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index c0feeb7..f3804ab 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -295,7 +295,7 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(mask_fn), "mask_fn should be callable."
 
-        self.penalty_fn = penalty_fn
+        self.penalty_fn = None if penalty_fn is None else [penalty_fn]
         self.mask_fn = mask_fn
 
         self.input = None
-- 
2.43.0


From 761bb8644022b90bc9d641ab3eb41bed3d81faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 09/21] fix: overwrite sequence in
 score_based_permutation_solver when overwrite=True

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..a7ca41b 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From eafeccf2672488e20153dcab32d20717da0aa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 10/21] fix: avoid cancellation in solving cubic equation

---
 ssspy/linalg/polynomial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..56ac27f 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,9 +79,15 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
+    sqrt_discriminant = np.sqrt(discriminant)
+    U_plus = -Q / 2 + sqrt_discriminant
+    U_minus = -Q / 2 - sqrt_discriminant
+    # To avoid cancellation, use U_plus * U_minus = -((P / 3) ** 3).
+    is_cancelled = np.abs(U_plus) < np.abs(U_minus)
+    U_minus = np.where(is_cancelled, U_minus, 1)
+    U = cbrt(np.where(is_cancelled, -((P / 3) ** 3) / U_minus, U_plus))
     # U = 0, when P = 0.
-    is_singular = P == 0
+    is_singular = U == 0
     U = np.where(is_singular, 1, U)
     V = -P / (3 * U)
 
-- 
2.43.0


From 7ecdd366b8f7649b6c2d62e6d84bec413e2b60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 11/21] fix: use eigenvector of maximum eigenvalue in singular
 case of LQPQM

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index ca362e4..4b29259 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[..., -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From 185ee59d6a7749ccea59e4a4b85f483e9aaa95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 12/21] fix: return minimizer of LQPQM when linear term is
 negligible along leading eigenvector

---
 ssspy/linalg/lqpqm.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index 4b29259..0545321 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -108,9 +108,26 @@ def lqpqm2(
         normalization=True,
     )
 
+    # When v is too small along eigenvector of maximum eigenvalue, root is not always
+    # larger than maximum eigenvalue. In that case, minimizer is given by lamb = phi_max.
+    phi_max_non_singular = phi_non_singular[:, -1]
+    is_hard = lamb_non_singular <= phi_max_non_singular
+    lamb_non_singular = np.maximum(lamb_non_singular, phi_max_non_singular)
+
     num = phi_non_singular * v_tilde_non_singular
     denom = lamb_non_singular[..., np.newaxis] - phi_non_singular
-    v_nonsingular = num / denom
+    is_pole = denom <= 0
+    v_nonsingular = np.where(is_pole, 0, num) / np.where(is_pole, 1, denom)
+
+    q_hard = np.where(is_pole, 0, v_nonsingular + v_tilde_non_singular)
+    power = np.sum(phi_non_singular * np.abs(q_hard) ** 2, axis=-1)
+    power = np.maximum(lamb_non_singular - z_non_singular - power, 0)
+    v_max = v_tilde_non_singular[:, -1]
+    v_max_norm = np.abs(v_max)
+    is_zero = v_max_norm == 0
+    phase = np.where(is_zero, 1, v_max) / np.where(is_zero, 1, v_max_norm)
+    scale = np.sqrt(power / lamb_non_singular) * phase
+    v_nonsingular[:, -1] = np.where(is_hard, scale, v_nonsingular[:, -1])
     y_non_singular = np.sum(sigma_non_singular * v_nonsingular[:, np.newaxis, :], axis=-1)
 
     y = np.zeros_like(v)
-- 
2.43.0


From e3a996111be4cc0a8b2be30c71ee2f91c32925ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 13/21] fix: treat exactly vanishing cross terms as singular in
 IPSDTA without flooring

With flooring_fn=None the strict comparison against a zero floor never held, so
blocks of one bin or diagonal bases divided zero by zero and made every filter NaN.
---
 ssspy/bss/ipsdta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..3d39514 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -1102,7 +1102,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
@@ -1718,7 +1718,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(pi_R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
-- 
2.43.0


From ecca8945ba503ad1709e2921e1d4046e4ac5323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 14/21] fix: floor variance of time-varying Gaussian IVA

Frames of digital silence have zero variance, which turned every demixing filter of
GradGaussIVA, NaturalGradGaussIVA and AuxGaussIVA into NaN.
---
 ssspy/bss/iva.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index b2e859a..891e1f8 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2668,7 +2668,7 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -2990,7 +2990,7 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3490,4 +3490,4 @@ class AuxGaussIVA(AuxIVA):
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
-- 
2.43.0


From e8020e23865c0165f5fe3dee73bbe81a4571dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 15/21] fix: use second derivative with respect to squared norm
 in FastIVA

---
 ssspy/bss/iva.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 891e1f8..aefdf1e 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -1190,7 +1190,7 @@ class FastIVA(FastIVABase):
             \frac{G'_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})}
             {2\|\vec{\boldsymbol{y}}_{jn}\|_{2}}
             \left(\boldsymbol{w}_{in}-y_{ijn}^{*}\boldsymbol{x}_{ij}\right) \notag \\
-            &-\frac{1}{J}\sum_{j}\frac{|y_{ijn}|^{2}}{2\|\vec{\boldsymbol{y}}_{jn}\|_{2}}\left(
+            &-\frac{1}{J}\sum_{j}\frac{|y_{ijn}|^{2}}{4\|\vec{\boldsymbol{y}}_{jn}\|_{2}^{2}}\left(
             \frac{G'_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})}
             {\|\vec{\boldsymbol{y}}_{jn}\|_{2}}
             - G''_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})
@@ -1213,7 +1213,7 @@ class FastIVA(FastIVABase):
         W_YZ = W_Hermite[:, :, :, np.newaxis] - YZ
         W_YZ = np.mean(varphi[:, np.newaxis, np.newaxis, :] * W_YZ, axis=-1)
 
-        Y_GG = (2 * varphi - self.dd_contrast_fn(norm)) / flooring_fn(2 * norm)
+        Y_GG = (2 * varphi - self.dd_contrast_fn(norm)) / flooring_fn(2 * norm) ** 2
         YY_GG = Y_GG[:, np.newaxis, :] * (np.abs(Y) ** 2)
         YY_GGW = np.mean(W_Hermite[:, :, :, np.newaxis] * YY_GG[:, np.newaxis, :, :], axis=-1)
 
-- 
2.43.0


From b33c9117852abd9d83b46f971c421ee99137b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 16/21] fix: use eigenvector of smallest eigenvalue in
 FasterIVA

---
 ssspy/bss/iva.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index aefdf1e..ba0b949 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -1387,7 +1387,7 @@ class FasterIVA(FastIVABase):
                 Default: ``self``.
 
         In FasterIVA, we compute the eigenvector of :math:`\boldsymbol{U}_{in}`
-        which corresponds to the largest eigenvalue by solving
+        which corresponds to the smallest eigenvalue by solving
 
         .. math::
             \boldsymbol{U}_{in}\boldsymbol{w}_{in}
@@ -1413,7 +1413,7 @@ class FasterIVA(FastIVABase):
         U = np.mean(varphi_ZZ, axis=-1)  # (n_bins, n_sources, n_channels, n_channels)
 
         _, w = eigh(U)  # (n_bins, n_sources, n_channels, n_channels)
-        W = w[..., -1].conj()  # eigenvector that corresponds to largest eigenvalue
+        W = w[..., 0].conj()  # eigenvector that corresponds to smallest eigenvalue
         u, _, v_Hermite = np.linalg.svd(W)
         W = u @ v_Hermite
 
-- 
2.43.0


From 0e051b215138e184f7068c4da2f5baac6f6c4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 17/21] fix: do not reuse cached sample data of another tag or
 reverberation time

---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..5761aa8 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From 4224cca0f5055ca462b1b3017e758e6239d8740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 18/21] fix: keep imaginary parts of filters updated from
 real-valued initial filters

---
 ssspy/bss/fdica.py  | 2 +-
 ssspy/bss/ilrma.py  | 2 +-
 ssspy/bss/ipsdta.py | 4 ++--
 ssspy/bss/iva.py    | 2 +-
 ssspy/bss/mnmf.py   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/fdica.py b/ssspy/bss/fdica.py
index 75517b2..d5a554c 100644
--- a/ssspy/bss/fdica.py
+++ b/ssspy/bss/fdica.py
@@ -166,7 +166,7 @@ class FDICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128, order="C")
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..099e6e2 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -191,7 +191,7 @@ class ILRMABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128, order="C")
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 3d39514..8f7c0ce 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -175,7 +175,7 @@ class IPSDTABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128, order="C")
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
@@ -502,7 +502,7 @@ class BlockDecompositionIPSDTABase(IPSDTABase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128, order="C")
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index ba0b949..a6b9114 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -163,7 +163,7 @@ class IVABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128, order="C")
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..81fe9b2 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -559,7 +559,7 @@ class FastMNMFBase(MNMFBase):
             Q = np.tile(Q, reps=(n_bins, 1, 1))
         else:
             # To avoid overwriting.
-            Q = self.diagonalizer.copy()
+            Q = self.diagonalizer.astype(np.complex128, order="C")
 
         self.diagonalizer = Q
 
-- 
2.43.0


From ec6dd0a4690ee12be8471efbfb252eec412b7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 19/21] fix: keep fractional parts of FastICA filters updated
 from integer-valued initial filters

---
 ssspy/bss/ica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/bss/ica.py b/ssspy/bss/ica.py
index 402fee8..ea5363c 100644
--- a/ssspy/bss/ica.py
+++ b/ssspy/bss/ica.py
@@ -311,7 +311,7 @@ class FastICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.float64, order="C")
 
         Z = whiten(X)
 
-- 
2.43.0


From 38e9c24cea41a590683c2740c5d911531a663f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 20/21] fix: keep partially downloaded archives of sample data
 from being reused

---
 ssspy/utils/dataset/mird.py      | 5 ++++-
 ssspy/utils/dataset/sisec2010.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index 5761aa8..dbdccde 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -43,7 +43,10 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        # file named zip_path should always be complete, even if download is interrupted
+        tmp_path = zip_path + ".part"
+        urllib.request.urlretrieve(url, tmp_path)
+        os.replace(tmp_path, zip_path)
 
     rir_path = os.path.join(root, template_rir_name.format(reverb_duration, 0))
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 389d8c8..d952c23 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -15,7 +15,10 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        # file named zip_path should always be complete, even if download is interrupted
+        tmp_path = zip_path + ".part"
+        urllib.request.urlretrieve(url, tmp_path)
+        os.replace(tmp_path, zip_path)
 
     if not os.path.exists(os.path.join(root, "{}_inst_matrix.mat".format(tag))):
         shutil.unpack_archive(zip_path, root)
-- 
2.43.0


From 02afd32a37dafd7289ed92f199c71b837864dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 21/21] fix: apply flooring_fn of IPSDTA when its covariances
 are reconstructed

---
 ssspy/bss/ipsdta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 8f7c0ce..95aaa6f 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -295,7 +295,7 @@ class IPSDTABase(IterativeMethodBase):
             T = T.transpose(0, 3, 1, 2)
 
         R = np.sum(T[:, :, np.newaxis, :, :] * V[:, :, :, np.newaxis, np.newaxis], axis=1)
-        R = to_psd(R, axis1=2, axis2=3)
+        R = to_psd(R, axis1=2, axis2=3, flooring_fn=self.flooring_fn)
 
         return R
 
@@ -644,7 +644,7 @@ class BlockDecompositionIPSDTABase(IPSDTABase):
                 T[:, :, na, :, :, :] * V[:, :, :, na, na, na],
                 axis=1,
             )
-            R = to_psd(R, axis1=3, axis2=4)
+            R = to_psd(R, axis1=3, axis2=4, flooring_fn=self.flooring_fn)
 
             return R
 
-- 
2.43.0

