From 2742206da5c5ff2cf9be3aa0381a483629d7bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 01/28] fix: numpy/jax take the decaying kz branch for
 absorbing substrates

The root was conjugated unconditionally, which for n - ik media turned the decaying
branch into the growing one: R + T of a passive stack could exceed one.
---
 meent/on_jax/emsolver/transfer_method.py   | 22 ++++++++++++++++------
 meent/on_numpy/emsolver/transfer_method.py | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 1399c25..542cb26 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -4,14 +4,24 @@ import jax.numpy as jnp
 from .primitives import eig, conj, meeinv
 
 
+def decaying_branch(kz):
+    """Orient the root of kz so that no order grows away from the grating.
+
+    On the n - ik convention an outgoing order must have Im(kz) <= 0. The square root already
+    returns that branch for an absorbing medium, so only the roots that come out growing (the
+    evanescent orders of a lossless medium) are conjugated.
+    """
+    return jnp.where(kz.imag > 0, kz.conj(), kz)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
     kz_top = (n_top ** 2 - kx ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
 
-    kz_top = kz_top.conjugate()
-    kz_bot = kz_bot.conjugate()
+    kz_top = decaying_branch(kz_top)
+    kz_bot = decaying_branch(kz_bot)
 
     F = jnp.eye(ff_x, dtype=type_complex)
 
@@ -208,8 +218,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
@@ -489,8 +499,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3b7027e..6bd90cc 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -3,14 +3,24 @@ import numpy as np
 from .primitives import meeinv
 
 
+def decaying_branch(kz):
+    """Orient the root of kz so that no order grows away from the grating.
+
+    On the n - ik convention an outgoing order must have Im(kz) <= 0. The square root already
+    returns that branch for an absorbing medium, so only the roots that come out growing (the
+    evanescent orders of a lossless medium) are conjugated.
+    """
+    return np.where(kz.imag > 0, kz.conj(), kz)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
     kz_top = (n_top ** 2 - kx ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
 
-    kz_top = kz_top.conj()
-    kz_bot = kz_bot.conj()
+    kz_top = decaying_branch(kz_top)
+    kz_bot = decaying_branch(kz_bot)
 
     F = np.eye(ff_x, dtype=type_complex)
 
@@ -146,8 +156,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
@@ -391,8 +401,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
-- 
2.43.0


From 48ce73027efc2f14af562434d3bc76ce4147b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 02/28] fix: torch p-polarised transmission efficiency into an
 absorbing substrate

The conical and 2D solvers weighted |T_p|^2 with Re(kz)/|n|^2 instead of Re(kz/n^2), so power
went missing for n - ik substrates while the 1D TM solver and the other backends conserved it.
---
 meent/on_torch/emsolver/transfer_method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..a320abc 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -442,7 +442,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * abs(n_bot) ** 2 * (kz_bot / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -488,7 +488,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * abs(n_bot) ** 2 * (kz_bot / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
@@ -723,7 +723,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * abs(n_bot) ** 2 * (kz_bot / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -769,7 +769,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * abs(n_bot) ** 2 * (kz_bot / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
-- 
2.43.0


From 18fbc6ca21611eacb8b724a206a79001f0c3fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:21 +0000
Subject: [PATCH 03/28] fix: torch TE/TM-incidence amplitudes use the same
 convention as the main result

res_te_inc/res_tm_inc kept T on the conjugate convention and R_p/T_p with the opposite sign, so
the coefficients reported for pure TE or TM incidence disagreed with 'res' for the same wave.
---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index a320abc..0be0903 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -476,13 +476,13 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
@@ -757,13 +757,13 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
-- 
2.43.0


From 60ec3e6b682a28e77cb618dcedaa81b972b246ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:54 +0000
Subject: [PATCH 04/28] fix: discrete Fourier series uses the same y
 orientation as the other modelings

cell_compression flips the rows so that row 0 is the largest y, as do the vector modeling and the
field reconstruction; the DFS path did not, so fourier_type 0 and 1 solved mirror-image gratings.
---
 meent/on_jax/emsolver/convolution_matrix.py   | 1 +
 meent/on_numpy/emsolver/convolution_matrix.py | 1 +
 meent/on_torch/emsolver/convolution_matrix.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index e83bfb8..9172331 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -113,6 +113,7 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=j
         # e.g., 8 bytes * (40*500) * (40*500) / 1E6 = 3200 MB = 3.2 GB
 
     for i, layer in enumerate(ucell):
+        layer = jnp.flipud(layer)  # same row order (y axis) as cell_compression and the vector modeling
         if layer.shape[0] < minimum_pattern_size_y:
             n = minimum_pattern_size_y // layer.shape[0]
             layer = jnp.repeat(layer, n + 1, axis=0, total_repeat_length=layer.shape[0] * (n + 1))
diff --git a/meent/on_numpy/emsolver/convolution_matrix.py b/meent/on_numpy/emsolver/convolution_matrix.py
index 9d8426c..79254ba 100644
--- a/meent/on_numpy/emsolver/convolution_matrix.py
+++ b/meent/on_numpy/emsolver/convolution_matrix.py
@@ -108,6 +108,7 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=n
         # e.g., 8 bytes * (40*500) * (40*500) / 1E6 = 3200 MB = 3.2 GB
 
     for i, layer in enumerate(ucell):
+        layer = np.flipud(layer)  # same row order (y axis) as cell_compression and the vector modeling
         if layer.shape[0] < minimum_pattern_size_y:
             n = minimum_pattern_size_y // layer.shape[0]
             layer = np.repeat(layer, n + 1, axis=0)
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index cd3b391..e1f909a 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -198,6 +198,7 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=torch.device('cpu'),
         return a
 
     for i, layer in enumerate(ucell):
+        layer = torch.flipud(layer)  # same row order (y axis) as cell_compression and the vector modeling
 
         if layer.ndim == 2:  # Isotropic: nx=ny=nz, so repeat and square ONCE and share the
             # same eps across epx/epy/epz (they still need 3 separate DFTs with different
-- 
2.43.0


From 69bc1e02dc0017b09627b780dce9c5b97fb4da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 05/28] fix: solve a one-row cell with Fourier orders in y by
 the 2D formulation

Routing it to the 1D conical solver, which has no y orders, always ended in a reshape error.
---
 meent/on_jax/emsolver/rcwa.py   | 4 ++--
 meent/on_numpy/emsolver/rcwa.py | 4 ++--
 meent/on_torch/emsolver/rcwa.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..2d40d06 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -145,8 +145,8 @@ class RCWAJax(_BaseRCWA):
 
         """
         if self.modeling_type_assigned == 0:  # Raster
-            if self.ucell.shape[1] == 1:
-                if (self.pol in (0, 1)) and (self.phi is None) and (self.fto[1] == 0):
+            if self.ucell.shape[1] == 1 and self.fto[1] == 0:  # the 1D forms carry no orders in y
+                if (self.pol in (0, 1)) and (self.phi is None):
                     self._grating_type_assigned = 0
                 else:
                     self._grating_type_assigned = 1
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 429e9b2..9629846 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -133,8 +133,8 @@ class RCWANumpy(_BaseRCWA):
         """
 
         if self.modeling_type_assigned == 0:  # Raster
-            if self.ucell.shape[1] == 1:
-                if (self.pol in (0, 1)) and (self.phi is None) and (self.fto[1] == 0):
+            if self.ucell.shape[1] == 1 and self.fto[1] == 0:  # the 1D forms carry no orders in y
+                if (self.pol in (0, 1)) and (self.phi is None):
                     self._grating_type_assigned = 0  # 1D TE and TM only
                 else:
                     self._grating_type_assigned = 1  # 1D conical
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 530e578..f86f6c5 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -141,12 +141,12 @@ class RCWATorch(_BaseRCWA):
             else:  # (Layers, H, W): isotropic
                 self.is_aniso = False
 
-            if self.ucell.shape[1] == 1:
+            if self.ucell.shape[1] == 1 and self.fto[1] == 0:  # the 1D forms carry no orders in y
                 # Torch backend only: phi=0 is treated the same as phi=None (routes to the
                 # fast pure-1D solver), unlike the numpy/jax backends where phi=0 deliberately
                 # forces the conical solver. See QA/1d_pattern_in_1dc_and_2d.py for that contract.
                 phi_is_zero_or_none = self.phi is None or self.phi == 0
-                if (self.pol in (0, 1)) and phi_is_zero_or_none and (self.fto[1] == 0):
+                if (self.pol in (0, 1)) and phi_is_zero_or_none:
                     self._grating_type_assigned = 0
                 elif self.is_aniso:
                     self._grating_type_assigned = 2
-- 
2.43.0


From 88c6ea1e18fed760de99488f1d646ec3c86c431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 06/28] fix: JAX conv_solve_field calls the solver that exists

It unpacked four values from a removed _conv_solve under a jit that could not hash the pytree's
auxiliary data, so every call raised. It now returns (result, field) like the other backends.
---
 meent/on_jax/emsolver/rcwa.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2d40d06..e8bb8c3 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -3,7 +3,6 @@ import jax
 import numpy as np
 import jax.numpy as jnp
 
-from functools import partial
 
 from ._base import _BaseRCWA, jax_device_set
 from .convolution_matrix import to_conv_mat_raster_discrete, to_conv_mat_raster_continuous, to_conv_mat_vector
@@ -281,24 +280,15 @@ class RCWAJax(_BaseRCWA):
     def field_plot(self, field_cell):
         field_plot(field_cell, self.pol)
 
-    @partial(jax.jit, static_argnums=(1, 2, 3))
     @jax_device_set
     def conv_solve_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False), **kwargs):
-        [setattr(self, k, v) for k, v in kwargs.items()]  # needed for optimization
-
-        if self.fourier_type == 1:
-            print('CFT (fourier_type=1) is not supported with JAX jit-compilation. Use conv_solve_field_no_jit.')
-            return None, None, None
-
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve(**kwargs)
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res, field_cell
 
     @jax_device_set
     def conv_solve_field_no_jit(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
-        de_ri, de_ti, _, _ = self._conv_solve()
-        field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return self.conv_solve_field(res_x, res_y, res_z, set_field_input)
 
     def run_ucell_vmap(self, ucell_list):
         """
-- 
2.43.0


From 7268a50b7ff994341919f6ab0bbb8fe26037a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 07/28] fix: torch grad() no longer accumulates gradients over
 calls

A second call returned the sum of both gradients (and rewrote the one already returned).
---
 meent/on_torch/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..bde82d9 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -17,6 +17,7 @@ class OptimizerTorch(Grad):
 
     def grad(self, pois, forward, loss_fn):
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
+        [setattr(getattr(self, poi), 'grad', None) for poi in pois]  # do not accumulate over calls
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
-- 
2.43.0


From 2e989b5895689310ae51ccec9f5a6f6352f61e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 08/28] fix: rotated rectangles with different triangle and
 parallelogram splits

The two split counts were swapped in places, so the slabs of a rotated rectangle overshot its
corners unless both counts were equal.
---
 meent/on_jax/modeler/modeling.py   | 12 ++++++------
 meent/on_numpy/modeler/modeling.py | 12 ++++++------
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..9527f2d 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -191,13 +191,13 @@ class ModelingJax:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_parallelogram + 1).reshape(
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * jnp.arange(n_split_parallelogram + 1).reshape(
                 (-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -207,7 +207,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
@@ -270,7 +270,7 @@ class ModelingJax:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -285,7 +285,7 @@ class ModelingJax:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * jnp.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -305,7 +305,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..90c119b 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -166,12 +166,12 @@ class ModelingNumpy:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * np.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * np.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * np.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -179,7 +179,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * np.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -240,7 +240,7 @@ class ModelingNumpy:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * np.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -255,7 +255,7 @@ class ModelingNumpy:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * np.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -275,7 +275,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..2359dc5 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -208,12 +208,12 @@ class ModelingTorch:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -221,7 +221,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * torch.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -246,13 +246,13 @@ class ModelingTorch:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * torch.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * torch.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -262,7 +262,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
-- 
2.43.0


From c761679c70d44e40b4167fbf057c52579e682e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 09/28] fix: JAX rejects a unit cell of an unsupported dtype

It silently kept the previous unit cell and went on solving that; NumPy raises ValueError.
---
 meent/on_jax/emsolver/rcwa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index e8bb8c3..eb6e993 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -101,6 +101,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
 
         elif isinstance(ucell, np.ndarray):  # Raster
             self._modeling_type_assigned = 0
@@ -110,6 +112,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
-- 
2.43.0


From bec57e6ce42f1c5fb9af12256a5cc97acc2acce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 10/28] fix: torch backend can be constructed without a period,
 as the defaults promise

---
 meent/on_torch/modeler/modeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 2359dc5..87d3f93 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -66,7 +66,8 @@ class ModelingTorch:
         self.y_list = None
         self.mat_table = None
         self.ucell_info_list = None
-        self.period = period
+        if period is not None:
+            self.period = period
         # self.type_complex = torch.complex128
         # self.type_float = torch.float64
 
-- 
2.43.0


From cb665df514a0b755a3bc5010a50ba584dec8ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 11/28] fix: torch device setter accepts the device names the
 constructor accepts

---
 meent/on_torch/emsolver/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..3472e44 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -85,9 +85,9 @@ class _BaseRCWA:
 
     @device.setter
     def device(self, device):
-        if device == 0:
+        if device in (0, 'cpu'):
             self._device = torch.device('cpu')
-        elif device == 1:
+        elif device in (1, 'gpu', 'cuda'):
             self._device = torch.device('cuda')
         elif type(device) is torch.device:
             self._device = device
-- 
2.43.0


From c023a157579b24ff1701e4ed5385e251b5cd7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:04 +0000
Subject: [PATCH 12/28] fix: conical and 2D solves where a diffraction order
 leaves at kx = 0

---
 meent/on_jax/emsolver/transfer_method.py   | 4 ++--
 meent/on_numpy/emsolver/transfer_method.py | 4 ++--
 meent/on_torch/emsolver/transfer_method.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 542cb26..30b2b6a 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -221,7 +221,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -502,7 +502,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 6bd90cc..16c66ba 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -159,7 +159,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -404,7 +404,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 0be0903..4b03fc7 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -223,7 +223,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, device='cpu', type_complex=torch
 
     # varphi = torch.arctan(ky / kx_vector)
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = torch.diag(kz_bot)
 
 
@@ -528,7 +528,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, device=torch.device('cpu'), type_complex
     kz_top = kz_top.flatten()
     kz_bot = kz_bot.flatten()
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20, kx)).flatten()  # kx may vanish
     Kz_bot = torch.diag(kz_bot)
 
     big_F = torch.cat(
-- 
2.43.0


From 41cb9751e811fc2d050ba64f15d9d6a0aeac721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:24 +0000
Subject: [PATCH 13/28] fix: layers whose index matches the substrate no longer
 make the solve singular

---
 meent/on_jax/emsolver/primitives.py        | 14 ++++++++++++++
 meent/on_jax/emsolver/transfer_method.py   | 12 ++++++------
 meent/on_numpy/emsolver/primitives.py      | 14 ++++++++++++++
 meent/on_numpy/emsolver/transfer_method.py | 12 ++++++------
 meent/on_torch/emsolver/primitives.py      | 14 ++++++++++++++
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 6 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/emsolver/primitives.py b/meent/on_jax/emsolver/primitives.py
index 22b3fe4..6bdce92 100644
--- a/meent/on_jax/emsolver/primitives.py
+++ b/meent/on_jax/emsolver/primitives.py
@@ -77,3 +77,17 @@ def meeinv(x, use_pinv=False):
         res = jnp.linalg.inv(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """Square root of the modal eigenvalues, on the branch of the waves leaving downwards.
+
+    A propagating mode has a negative real eigenvalue, so the rounding error in its imaginary part
+    picks the sign of the principal root. Both signs describe the layer equally well, but the
+    backward one makes the connecting matrices singular where the mode also exists in the next
+    medium (e.g. a layer of the substrate material).
+    """
+    q = eigenvalues ** 0.5
+    backward = (q.imag < 0) & (abs(q.real) < 1E-3 * abs(q.imag))
+
+    return jnp.where(backward, -q, q)
diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 30b2b6a..f747a1b 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from .primitives import eig, conj, meeinv
+from .primitives import eig, conj, forward_root, meeinv
 
 
 def decaying_branch(kz):
@@ -67,7 +67,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         A = Kx ** 2 - epy_conv
         eigenvalues, W = eig(A, type_complex, perturbation)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = jnp.diag(q)
         V = W @ Q
         return W, V, q
@@ -78,7 +78,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         eigenvalues, W = eig(epx_conv @ B, type_complex, perturbation)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = jnp.diag(q)
         # V = jnp.linalg.inv(epx_conv) @ W @ Q
@@ -286,8 +286,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=j
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = jnp.diag(q_1)
     Q_2 = jnp.diag(q_2)
@@ -534,7 +534,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.compl
     # eigenvalues, W = jnp.linalg.eig(Omega2_LR)
     eigenvalues, W = eig(Omega2_LR, type_complex, perturbation)
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     Q = jnp.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_numpy/emsolver/primitives.py b/meent/on_numpy/emsolver/primitives.py
index 14976a3..4bc7309 100644
--- a/meent/on_numpy/emsolver/primitives.py
+++ b/meent/on_numpy/emsolver/primitives.py
@@ -8,3 +8,17 @@ def meeinv(x, use_pinv=False):
         res = np.linalg.inv(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """Square root of the modal eigenvalues, on the branch of the waves leaving downwards.
+
+    A propagating mode has a negative real eigenvalue, so the rounding error in its imaginary part
+    picks the sign of the principal root. Both signs describe the layer equally well, but the
+    backward one makes the connecting matrices singular where the mode also exists in the next
+    medium (e.g. a layer of the substrate material).
+    """
+    q = eigenvalues ** 0.5
+    backward = (q.imag < 0) & (abs(q.real) < 1E-3 * abs(q.imag))
+
+    return np.where(backward, -q, q)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 16c66ba..f99cc6d 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .primitives import meeinv
+from .primitives import forward_root, meeinv
 
 
 def decaying_branch(kz):
@@ -45,7 +45,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         A = Kx ** 2 - epy_conv
         eigenvalues, W = np.linalg.eig(A)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = np.diag(q)
         V = W @ Q
 
@@ -55,7 +55,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         eigenvalues, W = np.linalg.eig(epx_conv @ B)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = np.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -191,8 +191,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=n
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = np.diag(q_1)
     Q_2 = np.diag(q_2)
@@ -436,7 +436,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=np.comple
     eigenvalues, W = np.linalg.eig(Omega2_LR)
 
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     Q = np.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 196920d..6af16fb 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -103,3 +103,17 @@ def meeinv(x, use_pinv=False):
             res = RobustPinv.apply(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """Square root of the modal eigenvalues, on the branch of the waves leaving downwards.
+
+    A propagating mode has a negative real eigenvalue, so the rounding error in its imaginary part
+    picks the sign of the principal root. Both signs describe the layer equally well, but the
+    backward one makes the connecting matrices singular where the mode also exists in the next
+    medium (e.g. a layer of the substrate material).
+    """
+    q = eigenvalues ** 0.5
+    backward = (q.imag < 0) & (abs(q.real) < 1E-3 * abs(q.imag))
+
+    return torch.where(backward, -q, q)
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 4b03fc7..29e2f49 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import torch
 
-from .primitives import Eig, meeinv
+from .primitives import Eig, forward_root, meeinv
 
 
 def branch_sign(value):
@@ -64,7 +64,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(A)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = torch.diag(q)
         V = W @ Q
 
@@ -75,7 +75,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(epx_conv @ B)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = torch.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -277,8 +277,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device='cpu',
     eigenvalues_1, W_1 = Eig.apply(Omega2_RL)
     eigenvalues_2, W_2 = Eig.apply(Omega2_LR)
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = torch.diag(q_1)
     Q_2 = torch.diag(q_2)
@@ -573,7 +573,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
 
     Eig.perturbation = perturbation
     eigenvalues, W = Eig.apply(Omega2_LR)
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     q = torch.where(q.abs() < 1E-10, torch.full_like(q, 1E-10), q)
 
-- 
2.43.0


From 517a0aa7cc60f3056d4bbbba3a3bf04052851c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:07 +0000
Subject: [PATCH 14/28] fix: axis-aligned ellipses whose contour is symmetric
 about its highest point no longer vanish

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 9527f2d..dce0e4c 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -434,7 +434,7 @@ class ModelingJax:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1] // 2):
@@ -450,7 +450,7 @@ class ModelingJax:
             arr = arr.at[:, ::2].set(jnp.stack(right_array, axis=1))
             arr = arr.at[:, 1::2].set(jnp.stack(left_array, axis=1))
 
-        elif left_y < right_y:
+        else:
             # arr[:, ::2] = jnp.stack(left_array, axis=1)
             # arr[:, 1::2] = jnp.stack(right_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 90c119b..74c7bc0 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -455,7 +455,7 @@ class ModelingNumpy:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -467,7 +467,7 @@ class ModelingNumpy:
         if left_y > right_y:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = np.stack(left_array, axis=1)
             arr[:, 1::2] = np.stack(right_array, axis=1)
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 87d3f93..bfef803 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -359,7 +359,7 @@ class ModelingTorch:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -371,7 +371,7 @@ class ModelingTorch:
         if left_y > right_y:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = torch.stack(left_array, dim=1)
             arr[:, 1::2] = torch.stack(right_array, dim=1)
 
-- 
2.43.0


From 1359cf638621a6bd4048a68dfd8745a9fe869aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:18 +0000
Subject: [PATCH 15/28] fix: offset added to coincident edges at zero in vector
 modeling is relative to the period, not absolute

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index dce0e4c..fcbff75 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -501,7 +501,7 @@ class ModelingJax:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)
@@ -548,7 +548,7 @@ class ModelingJax:
 
                     if top_left[1] == 0:
                         # top_left = top_left.at[1].add(perturbation)
-                        top_left[1] = top_left[1] + perturbation  # TODO: no jit at all?
+                        top_left[1] = top_left[1] + perturbation * self.period[0]  # TODO: no jit at all?
                     else:
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
                         # top_left = top_left.at[1].add(top_left[1] * perturbation)
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 74c7bc0..1d8ac70 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -520,7 +520,7 @@ class ModelingNumpy:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)  # TODO: change; save how many perturbations were applied in a variable
@@ -562,7 +562,7 @@ class ModelingNumpy:
                     perturbation += perturbation_unit
 
                     if top_left[1] == 0:
-                        top_left[1] = top_left[1] + perturbation
+                        top_left[1] = top_left[1] + perturbation * self.period[0]
                     else:
                         # top_left[1] = top_left[1] - (top_left[1] * perturbation)
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index bfef803..4d60421 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -422,7 +422,7 @@ class ModelingTorch:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)
@@ -464,7 +464,7 @@ class ModelingTorch:
                     perturbation += perturbation_unit
 
                     if top_left[1] == 0:
-                        top_left[1] = top_left[1] + perturbation
+                        top_left[1] = top_left[1] + perturbation * self.period[0]
                     else:
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
                     col_list.insert(index, top_left[1])
-- 
2.43.0


From fcbcceef9e4bc474aabb509b94919c0690ef98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 16/28] fix: torch material lookup warns about out-of-range
 wavelengths given as tensors

---
 meent/on_torch/modeler/modeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 4d60421..ed30e71 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -618,7 +618,9 @@ def warn_if_out_of_range(material, mat_data, wl):
     always means the wavelength was passed in nanometres or micrometres.
     """
     try:
-        wl_min, wl_max = float(np.min(wl)), float(np.max(wl))
+        # np.min(tensor) defers to Tensor.min, which rejects numpy's axis keyword
+        wl_values = np.asarray(wl)
+        wl_min, wl_max = float(np.min(wl_values)), float(np.max(wl_values))
     except Exception:  # device-resident or traced values have no range to inspect here
         return
 
-- 
2.43.0


From 946487d853875aefffbde25f1b637e9dd8f9fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:20 +0000
Subject: [PATCH 17/28] fix: fits without any pole or oscillator term keep the
 shape of the wavelength

---
 meent/dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meent/dispersion.py b/meent/dispersion.py
index fe2c2fd..a78629e 100644
--- a/meent/dispersion.py
+++ b/meent/dispersion.py
@@ -91,7 +91,7 @@ def graphene_falkovsky(fermi_level, mobility=10000.0, temperature=300.0,
 def formula_1(coefficients, wl, xp):
     """Sellmeier: n^2 - 1 = C0 + sum_i C_2i-1 * L^2 / (L^2 - C_2i^2), with L and C_2i in metres."""
     wl2 = xp.asarray(wl) ** 2
-    n2 = 1.0 + coefficients[0]
+    n2 = 1.0 + coefficients[0] + xp.zeros_like(wl2)  # shaped like wl even without any pole term
     for i in range(1, len(coefficients), 2):
         n2 = n2 + coefficients[i] * wl2 / (wl2 - coefficients[i + 1] ** 2)
     return xp.sqrt(n2)
@@ -101,7 +101,7 @@ def formula_2(coefficients, wl, xp):
     """Sellmeier-2: as formula 1, but the pole term is C_2i rather than C_2i squared, so C_2i is
     in metres squared."""
     wl2 = xp.asarray(wl) ** 2
-    n2 = 1.0 + coefficients[0]
+    n2 = 1.0 + coefficients[0] + xp.zeros_like(wl2)  # shaped like wl even without any pole term
     for i in range(1, len(coefficients), 2):
         n2 = n2 + coefficients[i] * wl2 / (wl2 - coefficients[i + 1])
     return xp.sqrt(n2)
@@ -143,7 +143,7 @@ def model_brendel_bormann_cm(coefficients, wl, xp):
     Coefficients are [eps_inf, (strength, gamma, sigma, centre) * n], all in cm-1.
     """
     omega = 1e-2 / xp.asarray(wl)  # m -> cm-1
-    permittivity = coefficients[0]
+    permittivity = coefficients[0] + xp.zeros_like(omega)
     for i in range(1, len(coefficients), 4):
         strength, gamma, sigma, centre = coefficients[i:i + 4]
         a = xp.sqrt(omega ** 2 + 1j * gamma * omega)
-- 
2.43.0


From 2787875fd6e5bc9b1daccddcfa4f5392b825fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:39 +0000
Subject: [PATCH 18/28] fix: torch rotated rectangles keep the gradient of
 their centre

torch.tensor([[cx], [cy]]) copied the values out, so a differentiable centre got no gradient
(silently, when anything else in the loss was differentiable), and rounded it to float32.
---
 meent/on_torch/modeler/modeling.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index ed30e71..024e16c 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -135,10 +135,14 @@ class ModelingTorch:
         DL = rotate @ torch.vstack([-lx / 2, -ly / 2])
         LU = rotate @ torch.vstack([-lx / 2, ly / 2])
 
-        UR += torch.tensor([[cx], [cy]])
-        RD += torch.tensor([[cx], [cy]])
-        DL += torch.tensor([[cx], [cy]])
-        LU += torch.tensor([[cx], [cy]])
+        # Not torch.tensor([[cx], [cy]]): it detaches a differentiable centre (and rounds it to float32).
+        centre = torch.stack([c.reshape(1).type(self.type_float) if torch.is_tensor(c)
+                              else torch.tensor([c], dtype=self.type_float) for c in (cx, cy)])
+
+        UR = UR + centre
+        RD = RD + centre
+        DL = DL + centre
+        LU = LU + centre
 
         if 0 <= angle < torch.pi / 2:
             angle_inside = (torch.pi / 2) - angle
-- 
2.43.0


From 79808fb3b0717c708fffd47eea828f988091c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:03 +0000
Subject: [PATCH 19/28] fix: torch vector modeling can differentiate with
 respect to a real index

The backward pass of writing a real tensor into the complex cell raises.
---
 meent/on_torch/modeler/modeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 024e16c..6c45164 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -540,7 +540,9 @@ class ModelingTorch:
             if is_aniso:
                 ucell_layer[row_begin:row_end, col_begin:col_end, :] = _to_index_vector(pmty, datatype)
             else:
-                ucell_layer[row_begin:row_end, col_begin:col_end] = pmty
+                # A real tensor written into the complex cell has no backward pass; cast it first.
+                ucell_layer[row_begin:row_end, col_begin:col_end] = \
+                    pmty.type(datatype) if torch.is_tensor(pmty) else pmty
 
         x_list = torch.cat(col_list).reshape((-1, 1))
         y_list = torch.cat(row_list).reshape((-1, 1))
-- 
2.43.0


From 28724ea5aa8325d4e196028ba93d33a47cd7b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 20/28] fix: torch gradient of equal neighbouring pixels under
 the continuous Fourier series

cell_compression merges them and reads one pixel of each run, so the others got gradient 0.
---
 meent/on_torch/emsolver/convolution_matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index e1f909a..6b36a22 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -15,6 +15,9 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     else:
         type_float = torch.float32
 
+    # Merging equal neighbours reads one pixel of each run, so the gradient of the others would come back as 0.
+    keep_all = cell.requires_grad
+
     # find discontinuities in x
     step_y, step_x = 1. / torch.tensor(cell.shape, device=device, dtype=type_float)
     x = []
@@ -25,7 +28,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_next = torch.roll(cell, -1, dims=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col].reshape((1, -1)))
 
@@ -33,7 +36,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x_next = torch.roll(cell_x, -1, dims=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :].reshape((1, -1)))
 
-- 
2.43.0


From 6fd32868c0c51eb5f6a101e8e593217c3758ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:46 +0000
Subject: [PATCH 21/28] fix: JAX gradient of equal neighbouring pixels under
 the continuous Fourier series

cell_compression merges them and reads one pixel of each run, so the others got gradient 0.
---
 meent/on_jax/emsolver/convolution_matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index 9172331..7d1d860 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -19,6 +19,9 @@ def cell_compression(cell, type_complex=jnp.complex128):
     else:
         type_float = jnp.float32
 
+    # Merging equal neighbours reads one pixel of each run, so the gradient of the others would come back as 0.
+    keep_all = isinstance(cell, jax.core.Tracer)
+
     # find discontinuities in x
     step_y, step_x = 1. / jnp.array(cell.shape, dtype=type_float)
     x = []
@@ -29,7 +32,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_next = jnp.roll(cell, -1, axis=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col])
 
@@ -37,7 +40,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x_next = jnp.roll(cell_x, -1, axis=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :])
 
-- 
2.43.0


From 24d30414ca084cfbd5b165dc8d9c054051daaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:31 +0000
Subject: [PATCH 22/28] fix: torch gradient of a diagonal index at an isotropic
 1D device

Three equal indices were routed to the conical form, which assumes they stay equal.
---
 meent/on_torch/emsolver/rcwa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index f86f6c5..148d0c5 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -137,7 +137,9 @@ class RCWATorch(_BaseRCWA):
         if self.modeling_type_assigned == 0:
             if self.ucell.dim() == 4:  # (Layers, H, W, 3): anisotropic
                 nx, ny, nz = self.ucell[..., 0], self.ucell[..., 1], self.ucell[..., 2]
-                self.is_aniso = not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
+                # While differentiating, equal indices are still three independent ones: the conical form
+                # relies on them staying equal and would return a wrong gradient.
+                self.is_aniso = self.ucell.requires_grad or not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
             else:  # (Layers, H, W): isotropic
                 self.is_aniso = False
 
-- 
2.43.0


From 902b3f870b56d9d917786dfb2dd2cc76b8f3c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:03 +0000
Subject: [PATCH 23/28] fix: rejected truncation array leaves the previous
 truncation

---
 meent/on_jax/emsolver/_base.py   | 16 ++++++++--------
 meent/on_numpy/emsolver/_base.py | 16 ++++++++--------
 meent/on_torch/emsolver/_base.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..c48f583 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -183,16 +183,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray) or isinstance(fto, jnp.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..d5e697a 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -155,16 +155,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 3472e44..6f66dc4 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -193,16 +193,16 @@ class _BaseRCWA:
             else:
                 raise ValueError('Torch fto')
         elif isinstance(fto, np.ndarray) or isinstance(fto, torch.Tensor):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError('Torch fto')
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError('Torch fto')
         elif type(fto) in (int, float):
-- 
2.43.0


From 9f3a107c8d7020c6f10f3d5a094ec915ef1d5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:15 +0000
Subject: [PATCH 24/28] fix: rejected cell leaves the previous cell and its
 modeling type

---
 meent/on_jax/emsolver/rcwa.py   | 4 ++--
 meent/on_numpy/emsolver/rcwa.py | 2 +-
 meent/on_torch/emsolver/rcwa.py | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index eb6e993..6556b00 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -94,7 +94,6 @@ class RCWAJax(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, jnp.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (jnp.float64, jnp.float32, jnp.int64, jnp.int32):
                 dtype = self.type_float
                 self._ucell = ucell.astype(dtype)
@@ -103,9 +102,9 @@ class RCWAJax(_BaseRCWA):
                 self._ucell = ucell.astype(dtype)
             else:
                 raise ValueError
+            self._modeling_type_assigned = 0
 
         elif isinstance(ucell, np.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (np.int64, np.float64, np.int32, np.float32):
                 dtype = self.type_float
                 self._ucell = jnp.array(ucell, dtype=dtype)
@@ -114,6 +113,7 @@ class RCWAJax(_BaseRCWA):
                 self._ucell = jnp.array(ucell, dtype=dtype)
             else:
                 raise ValueError
+            self._modeling_type_assigned = 0
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 9629846..f2af7cb 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -89,7 +89,6 @@ class RCWANumpy(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, np.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (np.int64, np.float64, np.int32, np.float32):
                 dtype = self.type_float
             elif ucell.dtype in (np.complex128, np.complex64):
@@ -98,6 +97,7 @@ class RCWANumpy(_BaseRCWA):
                 raise ValueError
             # self._ucell = np.array(ucell, dtype=dtype)
             self._ucell = ucell.astype(dtype)
+            self._modeling_type_assigned = 0
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 148d0c5..7727e58 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -94,8 +94,6 @@ class RCWATorch(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, (torch.Tensor, np.ndarray)):
-            self._modeling_type_assigned = 0
-            
             if isinstance(ucell, np.ndarray):
                 ucell = torch.from_numpy(ucell)
 
@@ -117,6 +115,7 @@ class RCWATorch(_BaseRCWA):
                 dtype = self.type_float
 
             self._ucell = ucell.to(device=self.device, dtype=dtype)
+            self._modeling_type_assigned = 0
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
             self._ucell = ucell
-- 
2.43.0


From 91df45f2651dc3580a6932bc1d365e347a4babfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:15 +0000
Subject: [PATCH 25/28] fix: rejected psi or period leaves the previous value

---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_numpy/emsolver/_base.py | 2 +-
 meent/on_torch/emsolver/_base.py | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index c48f583..3fce7ed 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -139,8 +139,8 @@ class _BaseRCWA:
     @psi.setter
     def psi(self, psi):
         if psi is not None:
-            self._psi = jnp.array(psi, dtype=self.type_complex)
             pol = -(2 * psi / jnp.pi - 1)
+            self._psi = jnp.array(psi, dtype=self.type_complex)
             self._pol = pol
 
     @property
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index d5e697a..34755d1 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -117,8 +117,8 @@ class _BaseRCWA:
     @psi.setter
     def psi(self, psi):
         if psi is not None:
-            self._psi = np.array(psi, dtype=self.type_complex)  # TODO: complex, QA
             pol = -(2 * psi / np.pi - 1)
+            self._psi = np.array(psi, dtype=self.type_complex)  # TODO: complex, QA
             self._pol = pol
 
     @property
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 6f66dc4..c6099a9 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -222,9 +222,10 @@ class _BaseRCWA:
             # A single period means a 1D grating and is duplicated onto both axes. Do that
             # by concatenating the stored tensor rather than by rebuilding a list, so a
             # differentiable period reaches both axes through the same graph.
-            self._period = _to_tensor(period, self.device, self.type_float)
-            if len(self._period) == 1:
-                self._period = torch.cat([self._period, self._period])
+            period = _to_tensor(period, self.device, self.type_float)
+            if len(period) == 1:
+                period = torch.cat([period, period])
+            self._period = period
         else:
             raise ValueError
 
-- 
2.43.0


From 40972698582c8d7440e8c41a2208ccb00fb4c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:33 +0000
Subject: [PATCH 26/28] fix: changing the precision recasts psi, period and
 cell as well

---
 meent/on_jax/emsolver/_base.py   | 4 +++-
 meent/on_numpy/emsolver/_base.py | 4 +++-
 meent/on_torch/emsolver/_base.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index 3fce7ed..2eebe99 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -96,10 +96,12 @@ class _BaseRCWA:
         self._type_int = jnp.int64 if self.type_complex is not jnp.complex64 else jnp.int32
         self.theta = self.theta
         self.phi = self.phi
-        self._psi = self.psi
+        self._psi = jnp.array(self.psi, dtype=self.type_complex)
 
         self.fto = self.fto
+        self.period = self.period
         self.thickness = self.thickness
+        self.ucell = self.ucell
 
     @property
     def type_float(self):
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 34755d1..80bf929 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -73,10 +73,12 @@ class _BaseRCWA:
         self._type_int = np.int64 if self.type_complex is not np.complex64 else np.int32
         self.theta = self.theta
         self.phi = self.phi
-        self._psi = self.psi
+        self._psi = np.array(self.psi, dtype=self.type_complex)
 
         self.fto = self.fto
+        self.period = self.period
         self.thickness = self.thickness
+        self.ucell = self.ucell
 
     @property
     def type_float(self):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index c6099a9..4f32a22 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -111,10 +111,12 @@ class _BaseRCWA:
         self._type_int = torch.int64 if self.type_complex is not torch.complex64 else torch.int32
         self.theta = self.theta
         self.phi = self.phi
-        self._psi = self.psi
+        self._psi = _to_tensor(self.psi, self.device, self.type_complex)
 
         self.fto = self.fto
+        self.period = self.period
         self.thickness = self.thickness
+        self.ucell = self.ucell
 
     @property
     def type_float(self):
-- 
2.43.0


From 8cb9a35e7c61d41fa7e0e3b98127fe9138f4328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:52 +0000
Subject: [PATCH 27/28] fix: unused polarisation channel of the numpy 1D solve
 has the chosen precision

---
 meent/on_numpy/emsolver/transfer_method.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index f99cc6d..5a19b1d 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -114,23 +114,23 @@ def transfer_1d_4(pol, ff_x, F, G, T, kz_top, kz_bot, theta, n_top, n_bot, type_
     if pol == 0:
         de_ti = (T * T.conj() * (kz_bot / (n_top * np.cos(theta))).real).real
         R_s = R
-        R_p = np.zeros(R.shape)
+        R_p = np.zeros_like(R)
         T_s = T
-        T_p = np.zeros(T.shape)
+        T_p = np.zeros_like(T)
         de_ri_s = de_ri
-        de_ri_p = np.zeros(de_ri.shape)
+        de_ri_p = np.zeros_like(de_ri)
         de_ti_s = de_ti
-        de_ti_p = np.zeros(de_ri.shape)
+        de_ti_p = np.zeros_like(de_ri)
 
     elif pol == 1:
         de_ti = (T * T.conj() * (kz_bot / n_bot ** 2 / (np.cos(theta) / n_top)).real).real
-        R_s = np.zeros(R.shape)
+        R_s = np.zeros_like(R)
         R_p = R
-        T_s = np.zeros(T.shape)
+        T_s = np.zeros_like(T)
         T_p = T
-        de_ri_s = np.zeros(de_ri.shape)
+        de_ri_s = np.zeros_like(de_ri)
         de_ri_p = de_ri
-        de_ti_s = np.zeros(de_ri.shape)
+        de_ti_s = np.zeros_like(de_ri)
         de_ti_p = de_ti
     else:
         raise ValueError
-- 
2.43.0


From 4963eb31f7f62290167b69355201733167bb82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:50 +0000
Subject: [PATCH 28/28] fix: ellipse slices do not depend on rounding noise of
 a backend

Contour points of equal height were ordered by rounding, so that the three
backends cut the same symmetric ellipse into different (mirrored) slabs.
---
 meent/on_jax/modeler/modeling.py   | 14 ++++++++++----
 meent/on_numpy/modeler/modeling.py | 14 ++++++++++----
 meent/on_torch/modeler/modeling.py | 22 ++++++++++++++--------
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index fcbff75..93364d8 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -415,11 +415,17 @@ class ModelingJax:
         points_contour_rot = points_contour_rot.at[0, :, :].add(cx)
         points_contour_rot = points_contour_rot.at[1, :, :].add(cy)
 
-        y_highest_index = jnp.argmax(points_contour_rot.real, axis=1)[1, 0]
+        # Points of equal height must not be told apart by rounding, which differs between backends.
+        margin = 1E-5 * (abs(lx) + abs(ly))
+
+        def highest(y):
+            return jnp.argmax(y >= y.max() - margin)
+
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         points_contour_rot = jnp.roll(points_contour_rot, (points_contour_rot.shape[1] // 2 - y_highest_index).item(),
                                       axis=1)
-        y_highest_index = jnp.argmax(points_contour_rot.real, axis=1)[1, 0]
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         right = points_contour_rot[:, y_highest_index - 1]
         left = points_contour_rot[:, y_highest_index + 1]
@@ -432,7 +438,7 @@ class ModelingJax:
 
         res = []
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             right_array.append(points_contour_rot[:, y_highest_index])
         else:
             left_array.append(points_contour_rot[:, y_highest_index])
@@ -443,7 +449,7 @@ class ModelingJax:
 
         arr = jnp.zeros((2, len(right_array) + len(left_array), 1), dtype=points_contour_rot.dtype)
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             # arr[:, ::2] = jnp.stack(right_array, axis=1)
             # arr[:, 1::2] = jnp.stack(left_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 1d8ac70..79fab6c 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -437,10 +437,16 @@ class ModelingNumpy:
         points_contour_rot[0] += cx
         points_contour_rot[1] += cy
 
-        y_highest_index = np.argmax(points_contour_rot.real, axis=1)[1, 0]
+        # Points of equal height must not be told apart by rounding, which differs between backends.
+        margin = 1E-5 * (abs(lx) + abs(ly))
+
+        def highest(y):
+            return np.argmax(y >= y.max() - margin)
+
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         points_contour_rot = np.roll(points_contour_rot, (points_contour_rot.shape[1] // 2 - y_highest_index).item(), axis=1)
-        y_highest_index = np.argmax(points_contour_rot.real, axis=1)[1, 0]
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         right = points_contour_rot[:, y_highest_index-1]
         left = points_contour_rot[:, y_highest_index+1]
@@ -453,7 +459,7 @@ class ModelingNumpy:
 
         res = []
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             right_array.append(points_contour_rot[:, y_highest_index])
         else:
             left_array.append(points_contour_rot[:, y_highest_index])
@@ -464,7 +470,7 @@ class ModelingNumpy:
 
         arr = np.zeros((2, len(right_array) + len(left_array), 1), dtype=points_contour_rot.dtype)
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
         else:
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 6c45164..d7114fa 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -313,11 +313,11 @@ class ModelingTorch:
 
         angle = angle % (2 * torch.pi)
 
-        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w))
-        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h))
+        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w, dtype=self.type_float))
+        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h, dtype=self.type_float))
 
-        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w))[:-1]
-        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h))[:-1]
+        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w, dtype=self.type_float))[:-1]
+        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h, dtype=self.type_float))[:-1]
         points_origin_contour = torch.vstack([points_x_origin_contour, points_y_origin_contour])
 
         axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin))])
@@ -345,10 +345,16 @@ class ModelingTorch:
         points_contour_rot[0] += cx
         points_contour_rot[1] += cy
 
-        y_highest_index = torch.argmax(points_contour_rot.real, dim=1)[1, 0]
+        # Points of equal height must not be told apart by rounding, which differs between backends.
+        margin = 1E-5 * (abs(lx) + abs(ly))
+
+        def highest(y):
+            return torch.nonzero(y >= y.max() - margin)[0, 0]
+
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         points_contour_rot = torch.roll(points_contour_rot, (points_contour_rot.shape[1] // 2 - y_highest_index).item(), dims=1)
-        y_highest_index = torch.argmax(points_contour_rot.real, dim=1)[1, 0]
+        y_highest_index = highest(points_contour_rot[1, :, 0].real)
 
         right = points_contour_rot[:, y_highest_index-1]
         left = points_contour_rot[:, y_highest_index+1]
@@ -361,7 +367,7 @@ class ModelingTorch:
 
         res = []
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             right_array.append(points_contour_rot[:, y_highest_index])
         else:
             left_array.append(points_contour_rot[:, y_highest_index])
@@ -372,7 +378,7 @@ class ModelingTorch:
 
         arr = torch.zeros((2, len(right_array) + len(left_array), 1), dtype=points_contour_rot.dtype)
 
-        if left_y > right_y:
+        if left_y > right_y + margin:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
         else:
-- 
2.43.0

