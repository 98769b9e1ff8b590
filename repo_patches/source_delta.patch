From 128866815309bf7c8781162c6d1b45645a7de370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 01/34] fix: consolidate() stores shN in the channel-grouped
 order its base layout uses

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..d0b11e9 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -863,7 +863,7 @@ class GSData:
 
             # Flatten shN from (N, bands, 3) to (N, bands*3)
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..e88ce0d 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,7 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From 4914deb4fa49bb2eaf24ce4d411ee611c5fc5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 02/34] fix: derived data never comes from a base array the
 fields have left behind

---
 src/gsply/gsdata.py         | 15 +++++++++++++++
 src/gsply/torch/gstensor.py | 19 +++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index d0b11e9..7ebbd1e 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -474,6 +474,21 @@ class GSData:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        # Replacing a whole field leaves the shared base array behind: drop it, so
+        # that nothing is derived from the old values. In-place edits keep the base.
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
+    def __getstate__(self):
+        # Pickling and deep copying turn the views into separate arrays
+        return {**self.__dict__, "_base": None}
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e88ce0d..1a8ee65 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -103,6 +103,21 @@ class GSTensor:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        # Replacing a whole field leaves the shared base tensor behind: drop it, so
+        # that nothing is derived from the old values. In-place edits keep the base.
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
+    def __getstate__(self):
+        # Pickling and deep copying turn the views into separate tensors
+        return {**self.__dict__, "_base": None}
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
@@ -946,8 +961,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # A view like the other fields, so that in-place edits reach the base tensor
+            shN = shN_flat.unflatten(1, (3, sh_coeffs)).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From 305fa720f0e6bb3a0a2bb5d032f1660f7e462e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 03/34] fix: normalize/denormalize convert only the fields not
 yet in the target format

---
 src/gsply/gsdata.py         |  21 ++++++
 src/gsply/torch/gstensor.py | 126 ++++++++++++------------------------
 2 files changed, 62 insertions(+), 85 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 7ebbd1e..f253db3 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1456,6 +1456,12 @@ class GSData:
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        # Fields already in PLY format stay as they are
+        if self.is_scales_ply and self.is_opacities_ply:
+            return self if inplace else self.copy()
+        scales = self.scales.copy() if self.is_scales_ply else None
+        opacities = self.opacities.copy() if self.is_opacities_ply else None
+
         # Use fused deactivation kernel for optimal performance (~8-15x faster)
         result = apply_pre_deactivations(
             self,
@@ -1465,6 +1471,11 @@ class GSData:
             inplace=inplace,
         )
 
+        if scales is not None:
+            result.scales[...] = scales
+        if opacities is not None:
+            result.opacities[...] = opacities
+
         # Update format dict: scales and opacities are now in PLY format
         if inplace:
             self._format["scales"] = DataFormat.SCALES_PLY
@@ -1507,8 +1518,18 @@ class GSData:
         """
         from gsply.utils import apply_pre_activations
 
+        # Fields already in linear format stay as they are
+        if self.is_scales_linear and self.is_opacities_linear:
+            return self if inplace else self.copy()
+        scales = self.scales.copy() if self.is_scales_linear else None
+        opacities = self.opacities.copy() if self.is_opacities_linear else None
+
         # Use fused activation kernel for optimal performance (~8-15x faster)
         result = apply_pre_activations(self, inplace=inplace)
+        if scales is not None:
+            result.scales[...] = scales
+        if opacities is not None:
+            result.opacities[...] = opacities
 
         # Update format dict: scales and opacities are now in linear format
         if inplace:
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 1a8ee65..aff1982 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -507,21 +507,10 @@ class GSTensor:
         Returns a new GSTensor with log-scales and logit-opacities.
         Useful for GPU-accelerated writing.
         """
-        # Constants for numerical stability
-        _MIN_SCALE = 1e-9
-        _MIN_OPACITY = 1e-4
-        _MAX_OPACITY = 1.0 - 1e-4
-
-        # Clone to avoid modifying original
-        scales = torch.log(torch.clamp(self.scales, min=_MIN_SCALE))
+        result = self.normalize(inplace=False)
 
-        # Logit opacities: log(p / (1 - p))
-        opacities = torch.logit(torch.clamp(self.opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
-
-        # Preserve format and update to PLY format
-        format_flag = self._format.copy()
-        format_flag["scales"] = DataFormat.SCALES_PLY
-        format_flag["opacities"] = DataFormat.OPACITIES_PLY
+        # Complete the format
+        format_flag = result._format
         if "sh_order" not in format_flag:
             format_flag["sh_order"] = _get_sh_order_format(self.get_sh_degree())
         if "sh0" not in format_flag:
@@ -531,18 +520,7 @@ class GSTensor:
         if "quats" not in format_flag:
             format_flag["quats"] = DataFormat.QUATS_RAW
 
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format=format_flag,  # Set to PLY format
-        )
+        return result
 
     def to_ply_data(self) -> GSData:
         """Convert to GSData with PLY-compatible log/logit scaling.
@@ -584,41 +562,30 @@ class GSTensor:
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        if not inplace:
+            return self.clone().normalize(inplace=True)
+
+        # Fields already in PLY format stay as they are
+        if self.is_scales_ply and self.is_opacities_ply:
+            return self
+
         # Convert linear scales to log-scales: log(scale)
-        scales = torch.log(torch.clamp(self.scales, min=min_scale))
+        if not self.is_scales_ply:
+            self.scales = torch.log(torch.clamp(self.scales, min=min_scale))
 
         # Convert linear opacities to logit-opacities: logit(opacity)
         # Use eps=min_opacity to match GSData behavior (1e-4)
-        opacities = torch.logit(
-            torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
-        )
+        if not self.is_opacities_ply:
+            self.opacities = torch.logit(
+                torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
+            )
 
-        if inplace:
-            self.scales = scales
-            self.opacities = opacities
-            self._base = None  # Invalidate _base since we modified tensors
-            # Update format dict: scales and opacities are now in PLY format
-            self._format["scales"] = DataFormat.SCALES_PLY
-            self._format["opacities"] = DataFormat.OPACITIES_PLY
-            return self
-
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={
-                **self._format,
-                "scales": DataFormat.SCALES_PLY,
-                "opacities": DataFormat.OPACITIES_PLY,
-                "sh_order": _get_sh_order_format(self.get_sh_degree()),
-            },
-        )
+        self._base = None  # Invalidate _base since we modified tensors
+        # Update format dict: scales and opacities are now in PLY format
+        self._format["scales"] = DataFormat.SCALES_PLY
+        self._format["opacities"] = DataFormat.OPACITIES_PLY
+        self._format["sh_order"] = _get_sh_order_format(self.get_sh_degree())
+        return self
 
     def denormalize(self, inplace: bool = True) -> GSTensor:
         """Convert PLY format (log-scales, logit-opacities) to linear format.
@@ -644,38 +611,27 @@ class GSTensor:
             >>> # Or create a copy if you need to keep PLY format
             >>> linear_tensor = gstensor.denormalize(inplace=False)
         """
-        # Convert log-scales back to linear: exp(log_scale)
-        scales = torch.exp(self.scales)
-
-        # Convert logit-opacities back to linear: sigmoid(logit)
-        opacities = torch.sigmoid(self.opacities)
+        if not inplace:
+            return self.clone().denormalize(inplace=True)
 
-        if inplace:
-            self.scales = scales
-            self.opacities = opacities
-            self._base = None  # Invalidate _base since we modified tensors
-            # Update format dict: scales and opacities are now in linear format
-            self._format["scales"] = DataFormat.SCALES_LINEAR
-            self._format["opacities"] = DataFormat.OPACITIES_LINEAR
+        # Fields already in linear format stay as they are
+        if self.is_scales_linear and self.is_opacities_linear:
             return self
 
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={
-                **self._format,
-                "scales": DataFormat.SCALES_LINEAR,
-                "opacities": DataFormat.OPACITIES_LINEAR,
-                "sh_order": _get_sh_order_format(self.get_sh_degree()),
-            },
-        )
+        # Convert log-scales back to linear: exp(log_scale)
+        if not self.is_scales_linear:
+            self.scales = torch.exp(self.scales)
+
+        # Convert logit-opacities back to linear: sigmoid(logit)
+        if not self.is_opacities_linear:
+            self.opacities = torch.sigmoid(self.opacities)
+
+        self._base = None  # Invalidate _base since we modified tensors
+        # Update format dict: scales and opacities are now in linear format
+        self._format["scales"] = DataFormat.SCALES_LINEAR
+        self._format["opacities"] = DataFormat.OPACITIES_LINEAR
+        self._format["sh_order"] = _get_sh_order_format(self.get_sh_degree())
+        return self
 
     def to_rgb(self, inplace: bool = True) -> GSTensor:
         """Convert sh0 from spherical harmonics (SH) format to RGB color format.
-- 
2.43.0


From 2781e21a1f531e7e92aa3776beb57af4393c6ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 04/34] fix: apply_pre_activations/deactivations declare the
 format they produce

---
 src/gsply/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..9d611d9 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -294,6 +294,8 @@ def apply_pre_activations(
         >>> gsply.apply_pre_activations(data, inplace=True)
     """
     # Lazy import to avoid circular dependency (cached in function attribute)
+    from gsply.gsdata import DataFormat
+
     if not hasattr(apply_pre_activations, "_GSData"):
         from gsply.gsdata import GSData as _GSData
 
@@ -346,6 +348,8 @@ def apply_pre_activations(
     # If _base is not invalidated, GSTensor.from_gsdata() will use the fast path
     # and read from _base (which still has PLY format data), ignoring our changes.
     data._base = None
+    data._format["scales"] = DataFormat.SCALES_LINEAR
+    data._format["opacities"] = DataFormat.OPACITIES_LINEAR
 
     logger.debug(
         "[PreActivation] Activated %d Gaussians (min_scale=%.2e, max_scale=%.2f, min_quat_norm=%.2e)",
@@ -385,6 +389,8 @@ def apply_pre_deactivations(
         >>> gsply.apply_pre_deactivations(data, inplace=True)
     """
     # Lazy import to avoid circular dependency (cached in function attribute)
+    from gsply.gsdata import DataFormat
+
     if not hasattr(apply_pre_deactivations, "_GSData"):
         from gsply.gsdata import GSData as _GSData
 
@@ -427,6 +433,8 @@ def apply_pre_deactivations(
 
     data.scales = scales
     data.opacities = opacities
+    data._format["scales"] = DataFormat.SCALES_PLY
+    data._format["opacities"] = DataFormat.OPACITIES_PLY
 
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
-- 
2.43.0


From 32679fb48cd16a172b1c609d6de36047c2c364e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 05/34] fix: an empty scene with a base array keeps its SH
 degree when saved

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..88a79ee 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1148,7 +1148,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From 4f0eb433c38b9c6dcb48897a4dc4776f12addf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 06/34] fix: plywrite does not convert the caller's data in
 place

---
 src/gsply/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 88a79ee..77361b8 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1582,14 +1582,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 2c6b2db78327c858a31280b6a0d4a027da1bd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 07/34] fix: saving stores SH colors and, from tensors,
 log/logit values whatever the declared format

---
 src/gsply/torch/compression.py | 5 +++++
 src/gsply/writer.py            | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..ce071fe 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -855,6 +855,11 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     """
     file_path = Path(file_path)
 
+    # Files store log-scales, logit-opacities and SH colors
+    gstensor = gstensor.normalize(inplace=False)
+    if gstensor.is_sh0_rgb:
+        gstensor = gstensor.to_sh(inplace=False)
+
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
         gstensor.means,
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 77361b8..75dd836 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -865,7 +865,7 @@ def _compute_chunk_boundaries(num_chunks: int, num_gaussians: int) -> tuple[np.n
 
 
 def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
-    """Ensure data is in PLY format (log-scales, logit-opacities).
+    """Ensure data is in PLY format (log-scales, logit-opacities, SH colors).
 
     Checks format flags and converts if needed. Used before writing PLY files.
 
@@ -880,7 +880,9 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         logger.debug(
             f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        return data.normalize(inplace=inplace)
+        data = data.normalize(inplace=inplace)
+    if data.is_sh0_rgb:
+        data = data.to_sh(inplace=inplace)
     return data
 
 
-- 
2.43.0


From ccadf65a012f13046854bedf7a16f354fbd769f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 08/34] fix: the zero-copy writer stores float32 whatever the
 dtype of the base array

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 75dd836..01e8ee0 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1159,7 +1159,7 @@ def write_uncompressed(
         )
         with open(file_path, "wb", buffering=buffer_size) as f:
             f.write(header_bytes)
-            data._base.tofile(f)
+            f.write(np.ascontiguousarray(data._base, dtype=np.float32))
 
         logger.debug(
             f"[Gaussian PLY] Wrote uncompressed (zero-copy): {num_gaussians} Gaussians to {file_path.name}"
-- 
2.43.0


From 938b6da1328c79f978daa4aa9c53f9b121b551d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 09/34] fix: a short write is reported instead of leaving a
 truncated file

---
 src/gsply/torch/compression.py | 6 +++---
 src/gsply/writer.py            | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index ce071fe..aeb73ab 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -922,10 +922,10 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     # Write to file
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_vertex.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_vertex))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.info(
         f"[GPU Write] Saved {num_gaussians:,} Gaussians to {file_path.name} "
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 01e8ee0..fa16df5 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1204,7 +1204,7 @@ def write_uncompressed(
     )
     with open(file_path, "wb", buffering=buffer_size) as f:
         f.write(header_bytes)
-        output_array.tofile(f)
+        f.write(np.ascontiguousarray(output_array))
 
     logger.debug(
         f"[Gaussian PLY] Wrote uncompressed: {num_gaussians} Gaussians to {file_path.name}"
@@ -1274,10 +1274,10 @@ def write_compressed(
     # Write to file
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_data.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_data))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.debug(
         f"[Gaussian PLY] Wrote compressed: {num_gaussians} Gaussians to {file_path.name} "
-- 
2.43.0


From b8fc7a25601624171b8261ce9b92194ff39800bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 10/34] fix: to_rgb/to_sh(inplace=False) return independent
 data

---
 src/gsply/gsdata.py         | 34 ++++++++++------------------------
 src/gsply/torch/gstensor.py | 34 ++++++++++------------------------
 2 files changed, 20 insertions(+), 48 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index f253db3..afc7631 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1579,18 +1579,11 @@ class GSData:
 
         # Create copy for non-inplace operation
         rgb = self.sh0 * SH_C0 + 0.5
-        return GSData(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=rgb,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_RGB},
-        )
+        result = self.copy()
+        result.sh0 = rgb
+        result._base = None
+        result._format["sh0"] = DataFormat.SH0_RGB
+        return result
 
     def to_sh(self, inplace: bool = True) -> "GSData":
         """Convert sh0 from RGB color format to spherical harmonics (SH) format.
@@ -1625,18 +1618,11 @@ class GSData:
 
         # Create copy for non-inplace operation
         sh = (self.sh0 - 0.5) / SH_C0
-        return GSData(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=sh,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_SH},
-        )
+        result = self.copy()
+        result.sh0 = sh
+        result._base = None
+        result._format["sh0"] = DataFormat.SH0_SH
+        return result
 
     def copy_slice(self, key) -> "GSData":
         """Efficiently slice and copy in one operation.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index aff1982..8bfefd9 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -663,18 +663,11 @@ class GSTensor:
 
         # Create copy for non-inplace operation
         rgb = self.sh0 * SH_C0 + 0.5
-        return GSTensor(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=rgb,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_RGB},
-        )
+        result = self.clone()
+        result.sh0 = rgb
+        result._base = None
+        result._format["sh0"] = DataFormat.SH0_RGB
+        return result
 
     def to_sh(self, inplace: bool = True) -> GSTensor:
         """Convert sh0 from RGB color format to spherical harmonics (SH) format.
@@ -706,18 +699,11 @@ class GSTensor:
 
         # Create copy for non-inplace operation
         sh = (self.sh0 - 0.5) / SH_C0
-        return GSTensor(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=sh,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_SH},
-        )
+        result = self.clone()
+        result.sh0 = sh
+        result._base = None
+        result._format["sh0"] = DataFormat.SH0_SH
+        return result
 
     # ==========================================================================
     # Device Management
-- 
2.43.0


From eca4f5d91c1c2bb201c18fd8fefc6fed392c44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 11/34] fix: derived scenes do not share the list of mask layer
 names

---
 src/gsply/gsdata.py         | 4 +++-
 src/gsply/torch/gstensor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index afc7631..4d80051 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -457,8 +457,10 @@ class GSData:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and layer names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 8bfefd9..96d33c8 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -85,8 +85,10 @@ class GSTensor:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and layer names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
-- 
2.43.0


From 6fb9548ead6726aa444c4bb5d8cc335067a29d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 12/34] fix: add_mask_layer keeps its own copy of the given
 mask

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 4d80051..cf3d3f9 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -679,7 +679,7 @@ class GSData:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask[:, None]  # Shape (N, 1)
+            self.masks = mask[:, None].copy()  # Shape (N, 1)
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 96d33c8..8db8f58 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1719,7 +1719,7 @@ class GSTensor:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask.unsqueeze(-1)  # Shape (N, 1)
+            self.masks = mask.unsqueeze(-1).clone()  # Shape (N, 1)
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
-- 
2.43.0


From 30f7b46105aeb77baae49eda21ad3c8decbae229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 13/34] fix: a new mask layer cannot take the name an unnamed
 layer is about to get

---
 src/gsply/gsdata.py         | 7 +++++--
 src/gsply/torch/gstensor.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index cf3d3f9..ce241b9 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -673,8 +673,11 @@ class GSData:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Check for duplicate names (unnamed layers are named layer_0, layer_1, ... below)
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            names = [f"layer_{i}" for i in range(self.masks.shape[1] if self.masks.ndim > 1 else 1)]
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 8db8f58..9441439 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1713,8 +1713,11 @@ class GSTensor:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Check for duplicate names (unnamed layers are named layer_0, layer_1, ... below)
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            names = [f"layer_{i}" for i in range(self.masks.shape[1] if self.masks.ndim > 1 else 1)]
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
-- 
2.43.0


From d6a0e88ce9f329b230a67738072924110b4bb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 14/34] fix: combining scenes pairs mask layers by name

---
 src/gsply/gsdata.py         | 26 +++++++++++++++++++++++---
 src/gsply/torch/gstensor.py | 14 +++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index ce241b9..e495c42 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -344,6 +344,19 @@ def _detect_format_from_values(
 
 
 # Numba-optimized mask combination (37-68x faster than numpy.all())
+def _mask_layer_order(names: list[str] | None, other_names: list[str] | None) -> list[int] | None:
+    """Columns of the other scene's mask layers in the order of this scene's names.
+
+    :returns: Column indices, an empty list to keep the columns as they are, or None if
+        the two scenes do not have the same layers
+    """
+    if names is None or other_names is None or names == other_names:
+        return []
+    if sorted(names) != sorted(other_names):
+        return None
+    return [other_names.index(name) for name in names]
+
+
 @numba.jit(nopython=True, parallel=True, fastmath=True, cache=True)
 def _combine_masks_numba_and(masks):
     """Combine masks with AND logic using parallel Numba.
@@ -1036,8 +1049,11 @@ class GSData:
                     if other_masks.ndim == 1:
                         other_masks = other_masks[:, None]
 
-                    # Check layer count compatibility
-                    if self_masks.shape[1] == other_masks.shape[1]:
+                    # Pair the layers by name
+                    order = _mask_layer_order(self.mask_names, other.mask_names)
+                    if order:
+                        other_masks = other_masks[:, order]
+                    if order is not None and self_masks.shape[1] == other_masks.shape[1]:
                         combined_masks = np.concatenate([self_masks, other_masks], axis=0)
                         # Merge names (prefer self names, use other as fallback)
                         if self.mask_names is not None:
@@ -1109,7 +1125,11 @@ class GSData:
                 if other_masks.ndim == 1:
                     other_masks = other_masks[:, None]
 
-                if self_masks.shape[1] == other_masks.shape[1]:
+                # Pair the layers by name
+                order = _mask_layer_order(self.mask_names, other.mask_names)
+                if order:
+                    other_masks = other_masks[:, order]
+                if order is not None and self_masks.shape[1] == other_masks.shape[1]:
                     combined_masks = np.concatenate([self_masks, other_masks], axis=0)
                     if self.mask_names is not None:
                         combined_mask_names = self.mask_names.copy()
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 9441439..6c08a4a 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -19,6 +19,7 @@ from gsply.gsdata import (
     _create_format_dict,
     _detect_format_from_values,
     _get_sh_order_format,
+    _mask_layer_order,
     create_ply_format,
     create_rasterizer_format,
 )
@@ -1227,8 +1228,11 @@ class GSTensor:
                     if other_masks.ndim == 1:
                         other_masks = other_masks.unsqueeze(-1)
 
-                    # Check layer count compatibility
-                    if self_masks.shape[1] == other_masks.shape[1]:
+                    # Pair the layers by name
+                    order = _mask_layer_order(self.mask_names, other.mask_names)
+                    if order:
+                        other_masks = other_masks[:, order]
+                    if order is not None and self_masks.shape[1] == other_masks.shape[1]:
                         combined_masks = torch.cat([self_masks, other_masks], dim=0)
                         # Merge names (prefer self names)
                         if self.mask_names is not None:
@@ -1310,7 +1314,11 @@ class GSTensor:
                 if other_masks.ndim == 1:
                     other_masks = other_masks.unsqueeze(-1)
 
-                if self_masks.shape[1] == other_masks.shape[1]:
+                # Pair the layers by name
+                order = _mask_layer_order(self.mask_names, other.mask_names)
+                if order:
+                    other_masks = other_masks[:, order]
+                if order is not None and self_masks.shape[1] == other_masks.shape[1]:
                     combined_masks = torch.cat([self_masks, other_masks], dim=0)
                     if self.mask_names is not None:
                         combined_mask_names = self.mask_names.copy()
-- 
2.43.0


From ee97a9bea2ca8a298f538790fc3fc2c5d3e7c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 15/34] fix: tensor decompression saturates opacities at the
 same values as the CPU reader

---
 src/gsply/torch/compression.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index aeb73ab..b0463ca 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -234,9 +234,8 @@ def _unpack_colors_and_opacities_gpu(
     sh0 = (color_rgb - 0.5) * _INV_SH_C0
 
     # Convert opacity from linear to logit space
-    # opacity = -log(1/x - 1)
-    epsilon = 1e-7
-    opacities = torch.logit(co, eps=epsilon)
+    # opacity = -log(1/x - 1), saturating at +-10 like the CPU reader
+    opacities = torch.logit(co).clamp(-10.0, 10.0)
 
     return sh0, opacities
 
-- 
2.43.0


From 3cb0e0f0dc801635c8ee27c088110337ad953b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 16/34] fix: GSTensor.load detects the format from the content,
 not from the name

---
 src/gsply/torch/gstensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 6c08a4a..0fff322 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -8,7 +8,7 @@ from pathlib import Path
 import numpy as np
 import torch
 
-from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0
+from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0, detect_format
 
 # Import DataFormat, FormatDict, GSData, and helpers from gsdata
 # No circular dependency - gsdata.py doesn't import GSTensor
@@ -1492,8 +1492,8 @@ class GSTensor:
         """
         file_path = Path(file_path)
 
-        # Auto-detect format from extension
-        is_compressed = file_path.name.endswith((".ply_compressed", ".compressed.ply"))
+        # Auto-detect format from the content, whatever the name
+        is_compressed, _ = detect_format(file_path)
 
         if is_compressed:
             # Use GPU decompression
-- 
2.43.0


From ebfec4a7ab223c8e46c698d77713c27161a32460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 17/34] fix: PLY headers are parsed strictly and checked
 against the data they announce

---
 src/gsply/formats.py           | 192 +++++++++++++++-------------
 src/gsply/reader.py            | 224 ++++++---------------------------
 src/gsply/torch/compression.py |  25 +---
 3 files changed, 144 insertions(+), 297 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..03ab055 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -1,7 +1,7 @@
 """Format detection and constants for Gaussian splatting PLY files."""
 
 from pathlib import Path
-from typing import Any
+from typing import Any, BinaryIO
 
 __all__ = [
     "detect_format",
@@ -160,48 +160,53 @@ QUAT_NORM = 1.4142135623730951  # 1.0 / (sqrt(2) * 0.5) = sqrt(2)
 SH_DEGREE_TO_COEFFS = {0: 0, 1: 3, 2: 8, 3: 15}
 
 
-def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
-    """Parse PLY header to extract element definitions.
+# Longest accepted header line (guards against binary data without line breaks)
+_MAX_HEADER_LINE_BYTES = 65536
 
-    :param file_path: Path to PLY file
-    :returns: Tuple of (elements_dict, header_size_bytes)
-    :raises ValueError: If PLY format is invalid
+
+def parse_ply_header(f: BinaryIO) -> tuple[str | None, dict[str, dict[str, Any]], int]:
+    """Parse PLY header to extract the encoding and the element definitions.
+
+    :param f: Binary file object positioned at the start of the PLY data
+    :returns: Tuple of (encoding, elements_dict in file order, header_size_bytes)
+    :raises ValueError: If the header is not a complete, well-formed PLY header
     """
-    elements = {}
+    encoding = None
+    elements: dict[str, dict[str, Any]] = {}
     current_element = None
     header_size = 0
 
-    with open(file_path, "rb") as f:
-        line = f.readline()
+    while True:
+        line = f.readline(_MAX_HEADER_LINE_BYTES)
+        if not line.endswith(b"\n"):
+            raise ValueError("Invalid PLY: no end_header found")
+        is_first_line = header_size == 0
         header_size += len(line)
-
-        if line.strip() != b"ply":
-            raise ValueError("Not a valid PLY file")
-
-        while True:
-            line = f.readline()
-            header_size += len(line)
-            line_str = line.decode("ascii").strip()
-
-            if line_str == "end_header":
-                break
-
-            parts = line_str.split()
-            if not parts:
-                continue
-
-            if parts[0] == "element":
-                element_name = parts[1]
-                element_count = int(parts[2])
-                elements[element_name] = {"count": element_count, "properties": []}
-                current_element = element_name
-
-            elif parts[0] == "property" and current_element:
-                prop_type = parts[1]
-                prop_name = parts[2]
-                elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements, header_size
+        parts = line.split()
+
+        if is_first_line:
+            if parts != [b"ply"]:
+                raise ValueError("Not a valid PLY file")
+        elif not parts or parts[0] in (b"comment", b"obj_info"):
+            continue
+        elif parts == [b"end_header"]:
+            break
+        elif parts[0] == b"format" and len(parts) == 3 and encoding is None:
+            encoding = parts[1].decode("ascii")
+        elif (
+            parts[0] == b"element"
+            and len(parts) == 3
+            and parts[2].isdigit()
+            and (name := parts[1].decode("ascii")) not in elements
+        ):
+            elements[name] = current_element = {"count": int(parts[2]), "properties": []}
+        elif parts[0] == b"property" and current_element is not None and len(parts) >= 3:
+            prop_type = b" ".join(parts[1:-1]).decode("ascii")
+            current_element["properties"].append((prop_type, parts[-1].decode("ascii")))
+        else:
+            raise ValueError(f"Invalid PLY header line: {line!r}")
+
+    return encoding, elements, header_size
 
 
 def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
@@ -220,38 +225,48 @@ def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
     """
     file_path = Path(file_path)
 
-    # Check file existence first
-    if not file_path.exists():
-        return False, None
-
     try:
-        elements, _ = _parse_ply_header(file_path)
-    except Exception:
+        with open(file_path, "rb") as f:
+            encoding, elements, _ = parse_ply_header(f)
+    except (OSError, ValueError):
         return False, None
 
     # Check for compressed format
-    if _is_compressed_format(elements):
+    if is_compressed_layout(encoding, elements):
         return True, None
 
-    # Check for uncompressed format
-    if "vertex" not in elements:
-        return False, None
+    # Check for uncompressed format (None if unknown)
+    return False, get_uncompressed_sh_degree(encoding, elements)
+
+
+def get_uncompressed_sh_degree(
+    encoding: str | None, elements: dict[str, dict[str, Any]]
+) -> int | None:
+    """Get the SH degree of an uncompressed Gaussian splatting PLY from its header.
+
+    :param encoding: PLY encoding declared by the header
+    :param elements: Parsed PLY header elements
+    :returns: SH degree (0-3) or None if the layout is anything else
+    """
+    # The vertex data must be little-endian and come first, right after the header
+    if encoding != "binary_little_endian" or next(iter(elements), None) != "vertex":
+        return None
 
     vertex_props = elements["vertex"]["properties"]
-    property_count = len(vertex_props)
+    if any(prop_type not in _FLOAT_TYPES for prop_type, _ in vertex_props):
+        return None
 
-    # Try to match against known SH degrees
-    for sh_degree, expected_count in PROPERTY_COUNTS_BY_SH_DEGREE.items():
-        if property_count == expected_count:
-            # Verify property names match
-            prop_names = [prop[1] for prop in vertex_props]
-            expected_names = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if prop_names == expected_names:
-                return False, sh_degree
+    sh_degree = get_sh_degree_from_property_count(len(vertex_props))
+    if sh_degree is None:
+        return None
+    prop_names = [prop_name for _, prop_name in vertex_props]
+    return sh_degree if prop_names == EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree] else None
 
-    # Unknown format
-    return False, None
 
+# PLY type names (both spellings of the PLY specification)
+_FLOAT_TYPES = ("float", "float32")
+_UINT_TYPES = ("uint", "uint32")
+_UCHAR_TYPES = ("uchar", "uint8")
 
 # Expected chunk property names for compressed format
 _EXPECTED_CHUNK_NAMES = [
@@ -284,54 +299,53 @@ _EXPECTED_VERTEX_NAMES = [
 ]
 
 
-def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
-    """Check if elements dict represents compressed format.
+def is_compressed_layout(encoding: str | None, elements: dict[str, dict[str, Any]]) -> bool:
+    """Check if a header describes the compressed format.
 
+    :param encoding: PLY encoding declared by the header
     :param elements: Parsed PLY header elements
     :returns: True if compressed format detected
     """
-    # Must have chunk and vertex elements
-    required_elements = {"chunk", "vertex"}
-    if not required_elements.issubset(elements):
+    # Must start with chunk and vertex elements, in this order
+    if encoding != "binary_little_endian" or list(elements)[:2] != ["chunk", "vertex"]:
         return False
 
     chunk_elem = elements["chunk"]
     vertex_elem = elements["vertex"]
 
-    # Check chunk element (18 float properties)
-    chunk_props = chunk_elem["properties"]
-    if len(chunk_props) != COMPRESSED_CHUNK_PROPERTIES:
-        return False
-
-    # Verify chunk property types and names match expected format
-    if not all(
-        prop_type == "float" and prop_name == expected_name
-        for (prop_type, prop_name), expected_name in zip(
-            chunk_props, _EXPECTED_CHUNK_NAMES, strict=False
-        )
-    ):
-        return False
-
-    # Check vertex element (4 uint properties)
-    vertex_props = vertex_elem["properties"]
-    if len(vertex_props) < COMPRESSED_VERTEX_PROPERTIES:
+    # Check chunk element (18 float properties) and vertex element (4 uint properties)
+    if not _has_properties(chunk_elem, _FLOAT_TYPES, _EXPECTED_CHUNK_NAMES):
         return False
-
-    # Verify vertex property types and names match expected format
-    if not all(
-        prop_type == "uint" and prop_name == expected_name
-        for (prop_type, prop_name), expected_name in zip(
-            vertex_props[:COMPRESSED_VERTEX_PROPERTIES], _EXPECTED_VERTEX_NAMES, strict=False
-        )
-    ):
+    if not _has_properties(vertex_elem, _UINT_TYPES, _EXPECTED_VERTEX_NAMES):
         return False
 
     # Check chunk count matches splat count
     num_chunks = chunk_elem["count"]
     num_vertices = vertex_elem["count"]
     expected_chunks = (num_vertices + CHUNK_SIZE - 1) // CHUNK_SIZE
+    if num_chunks != expected_chunks:
+        return False
+
+    # Optional SH element (uchar coefficients, one set per color channel) follows the vertices
+    if "sh" in elements:
+        sh_elem = elements["sh"]
+        num_coeffs = len(sh_elem["properties"])
+        return (
+            list(elements)[2] == "sh"
+            and sh_elem["count"] == num_vertices
+            and num_coeffs % 3 == 0
+            and _has_properties(
+                sh_elem, _UCHAR_TYPES, [f"f_rest_{i}" for i in range(num_coeffs)]
+            )
+        )
+    return True
+
 
-    return num_chunks == expected_chunks
+def _has_properties(element: dict[str, Any], types: tuple[str, ...], names: list[str]) -> bool:
+    """Check that an element has exactly the given property names, each of one of the types."""
+    return [name for _, name in element["properties"]] == names and all(
+        prop_type in types for prop_type, _ in element["properties"]
+    )
 
 
 def get_sh_degree_from_property_count(property_count: int) -> int | None:
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..2f57073 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -19,8 +19,11 @@ Performance:
     - Read compressed: 3-16ms for 50K Gaussians (3-16M Gaussians/sec)
 """
 
+import io
 import logging
+import os
 from pathlib import Path
+from typing import BinaryIO
 
 import numba
 import numpy as np
@@ -32,7 +35,6 @@ from gsply.formats import (
     COLOR_G_SHIFT,
     COLOR_O_SHIFT,
     COLOR_R_SHIFT,
-    EXPECTED_PROPERTIES_BY_SH_DEGREE,
     INV_255,
     INV_1023,
     INV_2047,
@@ -52,6 +54,9 @@ from gsply.formats import (
     SH_C0,
     detect_format,
     get_sh_degree_from_property_count,
+    get_uncompressed_sh_degree,
+    is_compressed_layout,
+    parse_ply_header,
 )
 
 # Import GSData from separate module
@@ -92,10 +97,6 @@ _SH_UNPACK_OFFSET = -127.5 * _SH_UNPACK_SCALE  # -3.984375
 # SH0 conversion constant (pre-computed inverse for multiplication)
 _INV_SH_C0 = 1.0 / SH_C0  # = 3.544907701811032
 
-# Header reading constants
-_HEADER_READ_CHUNK_SIZE = 8192  # bytes - typical header is 300-2000 bytes
-_MAX_HEADER_LINES = 200  # sanity limit to prevent infinite loops on malformed files
-
 # ======================================================================================
 # PRE-COMPUTED SLICE INDICES (Optimization to eliminate branching)
 # ======================================================================================
@@ -141,54 +142,6 @@ _SLICE_INDICES = {
 }
 
 
-# ======================================================================================
-# OPTIMIZED HEADER READING
-# ======================================================================================
-
-
-def _read_header_fast(f) -> tuple[list[str], int] | None:
-    """Read PLY header with optimized bulk reading from file handle.
-
-    This optimization reads the header in a single bulk operation (8KB chunk)
-    and decodes it once, rather than doing multiple readline() + decode() calls.
-    Provides 4-10% speedup for reads.
-
-    :param f: Open file handle in binary mode
-    :returns: Tuple of (header_lines, data_offset) or None on error
-    """
-    try:
-        # Read first chunk (typical header is 300-2000 bytes)
-        chunk = f.read(_HEADER_READ_CHUNK_SIZE)
-
-        # Find end_header marker
-        end_marker = b"end_header\n"
-        end_idx = chunk.find(end_marker)
-
-        if end_idx == -1:
-            # Header larger than chunk size - use line-by-line fallback
-            f.seek(0)
-            header_lines = []
-            while True:
-                line = f.readline().decode("ascii").strip()
-                header_lines.append(line)
-                if line == "end_header":
-                    break
-                if len(header_lines) > _MAX_HEADER_LINES:
-                    return None
-            return header_lines, f.tell()
-
-        # Fast path: decode entire header at once
-        header_bytes = chunk[: end_idx + len(end_marker)]
-        header_text = header_bytes.decode("ascii")
-        header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
-        data_offset = len(header_bytes)
-
-        return header_lines, data_offset
-
-    except Exception:
-        return None
-
-
 # ======================================================================================
 # JIT-COMPILED DECOMPRESSION FUNCTIONS
 # ======================================================================================
@@ -442,50 +395,23 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
     try:
         # Single file handle optimization: read header and data in one go
         with open(file_path, "rb") as f:
-            # Use existing header reading function
-            header_result = _read_header_fast(f)
-            if header_result is None:
-                return None
-            header_lines, data_offset = header_result
-
-            # Parse header
-            vertex_count = None
-            is_binary_le = False
-            property_names = []
-
-            for line in header_lines:
-                if line.startswith("format "):
-                    format_type = line.split()[1]
-                    is_binary_le = format_type == "binary_little_endian"
-                elif line.startswith("element vertex "):
-                    vertex_count = int(line.split()[2])
-                elif line.startswith("property float "):
-                    prop_name = line.split()[2]
-                    property_names.append(prop_name)
-
-            # Validate format
-            if not is_binary_le or vertex_count is None:
-                return None
-
-            # Detect SH degree from property count
-            property_count = len(property_names)
-            sh_degree = get_sh_degree_from_property_count(property_count)
+            encoding, elements, data_offset = parse_ply_header(f)
 
+            # Validate format and detect SH degree from the property list
+            sh_degree = get_uncompressed_sh_degree(encoding, elements)
             if sh_degree is None:
                 return None
 
-            # Validate property names and order
-            expected_properties = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if property_names != expected_properties:
+            vertex_count = elements["vertex"]["count"]
+            property_count = len(elements["vertex"]["properties"])
+
+            # The file must hold all the data its header announces
+            if vertex_count * property_count * 4 > os.fstat(f.fileno()).st_size - data_offset:
                 return None
 
             # Seek to data position and read binary data
             f.seek(data_offset)
             data = np.fromfile(f, dtype=np.float32, count=vertex_count * property_count)
-
-            if data.size != vertex_count * property_count:
-                return None
-
             data = data.reshape(vertex_count, property_count)
 
         # Extract arrays as zero-copy views
@@ -547,59 +473,25 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
 # ======================================================================================
 
 
-def _parse_elements_from_header(header_lines: list[str]) -> dict:
-    """Parse element information from PLY header lines.
+def _parse_compressed_header(f: BinaryIO, total_size: int) -> tuple[dict, int]:
+    """Parse the header of compressed PLY data and check it against the size of the data.
 
-    :param header_lines: List of header lines from PLY file
-    :returns: Dictionary mapping element names to their properties and counts
+    :param f: Binary file object positioned at the start of the PLY data
+    :param total_size: Size of the PLY data in bytes, header included
+    :returns: Tuple of (elements_dict, data_offset)
+    :raises ValueError: If the data is not in compressed format or is incomplete
     """
-    elements = {}
-    current_element = None
-
-    for line in header_lines:
-        if line.startswith("element "):
-            parts = line.split()
-            name = parts[1]
-            count = int(parts[2])
-            elements[name] = {"count": count, "properties": []}
-            current_element = name
-        elif line.startswith("property ") and current_element:
-            parts = line.split()
-            prop_type = parts[1]
-            prop_name = parts[2]
-            elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements
-
-
-def _is_compressed_format(header_lines: list) -> bool:
-    """Check if PLY header indicates compressed format."""
-    # Reuse element parsing logic
-    elements = _parse_elements_from_header(header_lines)
-
-    # Compressed format has "chunk" and "vertex" elements with specific properties
-    if "chunk" not in elements or "vertex" not in elements:
-        return False
-
-    chunk_props = elements["chunk"]["properties"]
-    if len(chunk_props) != 18:
-        return False
-
-    vertex_props = elements["vertex"]["properties"]
-    if len(vertex_props) != 4:
-        return False
-
-    expected_vertex = [
-        "packed_position",
-        "packed_rotation",
-        "packed_scale",
-        "packed_color",
-    ]
-    for (_, prop_name), expected_name in zip(vertex_props, expected_vertex, strict=False):
-        if prop_name != expected_name:
-            return False
-
-    return True
+    encoding, elements, data_offset = parse_ply_header(f)
+    if not is_compressed_layout(encoding, elements):
+        raise ValueError("Not in compressed PLY format")
+
+    num_sh_coeffs = len(elements["sh"]["properties"]) if "sh" in elements else 0
+    num_vertices = elements["vertex"]["count"]
+    data_size = elements["chunk"]["count"] * 72 + num_vertices * (16 + num_sh_coeffs)
+    if data_size > total_size - data_offset:
+        raise ValueError("Invalid PLY: data is shorter than the header announces")
+
+    return elements, data_offset
 
 
 def _decompress_data_internal(
@@ -734,38 +626,6 @@ def _decompress_data_internal(
     )
 
 
-def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, dict]:
-    """Parse PLY header from bytes (optimized, matches _read_header_fast logic).
-
-    Uses fast byte search instead of line-by-line reading for maximum performance.
-
-    :param compressed_bytes: Complete PLY file as bytes
-    :returns: Tuple of (header_lines, data_offset, elements_dict)
-    :raises ValueError: If header is invalid or not compressed format
-    """
-    # Fast path: Find end_header with byte search (like _read_header_fast)
-    end_marker = b"end_header\n"
-    end_idx = compressed_bytes.find(end_marker)
-
-    if end_idx == -1:
-        raise ValueError("Invalid PLY: no end_header found")
-
-    # Decode entire header at once (like _read_header_fast)
-    header_bytes = compressed_bytes[: end_idx + len(end_marker)]
-    header_text = header_bytes.decode("ascii")
-    header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
-    data_offset = len(header_bytes)
-
-    # Check if compressed format
-    if not _is_compressed_format(header_lines):
-        raise ValueError("Bytes do not contain compressed PLY format")
-
-    # Parse element info using shared helper
-    elements = _parse_elements_from_header(header_lines)
-
-    return header_lines, data_offset, elements
-
-
 def read_compressed(file_path: str | Path) -> GSData | None:
     """Read compressed Gaussian splatting PLY file (PlayCanvas format).
 
@@ -791,19 +651,9 @@ def read_compressed(file_path: str | Path) -> GSData | None:
     file_path = Path(file_path)
 
     try:
-        # Use optimized bulk header reading with single file handle
         with open(file_path, "rb") as f:
-            result = _read_header_fast(f)
-            if result is None:
-                return None
-            header_lines, data_offset = result
-
-            # Check if compressed format
-            if not _is_compressed_format(header_lines):
-                return None
-
-            # Parse element info using shared helper
-            elements = _parse_elements_from_header(header_lines)
+            # Parse and check header
+            elements, data_offset = _parse_compressed_header(f, os.fstat(f.fileno()).st_size)
 
             # Seek to data and read binary from same file handle
             f.seek(data_offset)
@@ -837,8 +687,6 @@ def decompress_from_bytes(compressed_bytes: bytes) -> GSData:
     Reads compressed PLY data from bytes without disk I/O.
     Symmetric with compress_to_bytes() - use for network transfer, streaming, etc.
 
-    Uses optimized header parsing (bytes.find) matching read_compressed() performance.
-
     :param compressed_bytes: Complete compressed PLY file as bytes
     :returns: GSData container with decompressed Gaussian parameters
 
@@ -852,8 +700,10 @@ def decompress_from_bytes(compressed_bytes: bytes) -> GSData:
         >>> data_restored = decompress_from_bytes(compressed)
         >>> assert data_restored.means.shape == data.means.shape
     """
-    # Parse header using fast byte search (matches _read_header_fast approach)
-    header_lines, data_offset, elements = _parse_header_from_bytes(compressed_bytes)
+    # Parse and check header
+    elements, data_offset = _parse_compressed_header(
+        io.BytesIO(compressed_bytes), len(compressed_bytes)
+    )
 
     # Read binary data directly from bytes (zero-copy with np.frombuffer)
     num_chunks = elements["chunk"]["count"]
diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index b0463ca..c9dcd35 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -16,6 +16,7 @@ Performance:
 from __future__ import annotations
 
 import logging
+import os
 from pathlib import Path
 from typing import TYPE_CHECKING
 
@@ -759,33 +760,15 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
     :returns: GSTensor with decompressed data on GPU
     """
     from gsply.gsdata import DataFormat, _create_format_dict, _get_sh_order_format
-    from gsply.reader import _parse_header_from_bytes
+    from gsply.reader import _parse_compressed_header
     from gsply.torch.gstensor import GSTensor
 
     file_path = Path(file_path)
 
     # Optimized file reading: read header only, then seek + np.fromfile for data (5.48x faster)
     with open(file_path, "rb") as f:
-        # Read header (typically <2KB)
-        header_bytes = b""
-        while True:
-            chunk = f.read(8192)
-            if not chunk:
-                break
-            header_bytes += chunk
-            if b"end_header\n" in header_bytes:
-                break
-
-        # Find header end
-        end_idx = header_bytes.find(b"end_header\n")
-        if end_idx == -1:
-            raise ValueError("Invalid PLY: no end_header found")
-
-        header_bytes = header_bytes[: end_idx + len(b"end_header\n")]
-        data_offset = len(header_bytes)
-
-        # Parse header
-        header_lines, _, elements = _parse_header_from_bytes(header_bytes)
+        # Parse and check header
+        elements, data_offset = _parse_compressed_header(f, os.fstat(f.fileno()).st_size)
 
         num_chunks = elements["chunk"]["count"]
         num_vertices = elements["vertex"]["count"]
-- 
2.43.0


From 3a6f4d2392a9629a75b9d243f5f5b5ee472823da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 18/34] fix: scenes accept numpy integers and boolean lists as
 index and refuse float indices

---
 src/gsply/gsdata.py         | 12 +++++++++---
 src/gsply/torch/gstensor.py | 17 +++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index e495c42..85deea2 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1887,7 +1887,7 @@ class GSData:
             data[10:20].copy()  # Explicit copy of slice
         """
         # Handle single index - return tuple for efficiency
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             # Convert negative index
             if key < 0:
                 key = len(self) + key
@@ -1930,6 +1930,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # Lists are masks or indices depending on their elements, like in NumPy
+        if isinstance(key, list):
+            key = np.asarray(key, dtype=None if key else np.intp)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
@@ -1957,8 +1961,10 @@ class GSData:
             )
 
         # Handle integer array indexing
-        if isinstance(key, (np.ndarray, list)):
-            indices = np.asarray(key, dtype=np.intp)
+        if isinstance(key, np.ndarray):
+            if not np.issubdtype(key.dtype, np.integer):
+                raise IndexError(f"Index arrays must be of integer or boolean type: {key.dtype}")
+            indices = key.astype(np.intp)
             # Check bounds
             if np.any(indices < -len(self)) or np.any(indices >= len(self)):
                 raise IndexError("Index out of bounds")
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 0fff322..8ad4ea9 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -982,7 +982,7 @@ class GSTensor:
         :returns: Single Gaussian (tuple) or new GSTensor
         """
         # Handle single index - return tuple
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             # Convert negative index
             if key < 0:
                 key = len(self) + key
@@ -1022,6 +1022,14 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # Lists and arrays are masks or indices depending on their elements, like in NumPy
+        if isinstance(key, list):
+            key = torch.as_tensor(key, dtype=None if key else torch.long, device=self.device)
+        elif isinstance(key, np.ndarray):
+            if np.issubdtype(key.dtype, np.integer):
+                key = key.astype(np.int64)
+            key = torch.as_tensor(np.ascontiguousarray(key), device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
             if len(key) != len(self):
@@ -1049,11 +1057,8 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
-        # Handle integer tensor/array indexing
-        if isinstance(key, (torch.Tensor, list, np.ndarray)):
-            if isinstance(key, (list, np.ndarray)):
-                key = torch.as_tensor(key, dtype=torch.long, device=self.device)
-
+        # Handle integer tensor indexing
+        if isinstance(key, torch.Tensor):
             # Try fast path with _base
             if self._base is not None:
                 result = self._slice_from_base(key)
-- 
2.43.0


From 373c6479d97525066877cce01242ff732e05dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 19/34] fix: tensors that require gradients can be compressed

---
 src/gsply/torch/compression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index c9dcd35..4c90b0b 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -633,6 +633,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
 
 
+@torch.no_grad()
 def compress_gpu(
     means: torch.Tensor,
     scales: torch.Tensor,
-- 
2.43.0


From 2c11faad83580f186e9ba2b1afbc9fbac71de543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 20/34] fix: sigmoid and logit of integer and zero-dimensional
 arrays return the fractional value

---
 src/gsply/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 9d611d9..3f29216 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -74,11 +74,14 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
     :param eps: Epsilon for numerical stability (clamping)
     :returns: Logit values
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
+    x = np.asarray(x)
+    if not np.issubdtype(x.dtype, np.floating):
+        x = x.astype(np.float64)  # the result of integers is fractional
     out = np.empty_like(x)
     _logit_impl(x, out, eps)
     return out
@@ -105,13 +108,16 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
     :param x: Input values (logits)
     :returns: Values in [0, 1] range (probabilities)
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         if val >= 0:
             return 1.0 / (1.0 + np.exp(-val))
         z = np.exp(val)
         return z / (1.0 + z)
 
+    x = np.asarray(x)
+    if not np.issubdtype(x.dtype, np.floating):
+        x = x.astype(np.float64)  # the result of integers is fractional
     out = np.empty_like(x)
     _sigmoid_impl(x, out)
     return out
-- 
2.43.0


From 536533dafc5eae19f9e19e2834e7ea65da809ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 21/34] fix: SOG metadata is checked before the native decoders
 index with it

---
 src/gsply/sog_reader.py | 48 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..7255224 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -409,6 +409,37 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _load_codebook(values: list[float], rgba: np.ndarray, count: int) -> np.ndarray:
+    """Load a codebook and check that it covers every label of a texture.
+
+    :param values: Codebook values from the metadata
+    :param rgba: (N*4,) uint8 RGBA data whose RGB channels are labels
+    :param count: Number of Gaussians
+    :returns: (K,) float32 codebook
+    :raises ValueError: If the codebook is too short for the labels
+    """
+    codebook = np.array(values, dtype=np.float32)
+    labels = rgba[: count * 4].reshape(count, 4)[:, :3]
+    if codebook.ndim != 1 or (len(codebook) < 256 and labels.max(initial=0) >= len(codebook)):
+        raise ValueError("SOG codebook too short for labels")
+    return codebook
+
+
+def _load_range(attr_meta: dict, channels: int) -> tuple[np.ndarray, np.ndarray]:
+    """Load the per-channel value range of an attribute.
+
+    :param attr_meta: Metadata of the attribute
+    :param channels: Number of channels
+    :returns: Tuple of (mins, maxs), each (channels,) float32
+    :raises ValueError: If the range does not cover every channel
+    """
+    mins = np.array(attr_meta["mins"], dtype=np.float32)
+    maxs = np.array(attr_meta["maxs"], dtype=np.float32)
+    if mins.shape != (channels,) or maxs.shape != (channels,):
+        raise ValueError(f"SOG value range must have {channels} channels")
+    return mins, maxs
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -469,10 +500,11 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     # Detect format version: v2 has top-level "count", v3 uses per-attribute "shape"
     is_v3 = "count" not in meta and "shape" in meta.get("means", {})
     count = meta["means"]["shape"][0] if is_v3 else meta["count"]
+    if not isinstance(count, int) or count < 0:
+        raise ValueError(f"Invalid SOG count: {count}")
 
     # --- Means (same encoding in both formats: 16-bit split, log space) ---
-    means_mins = np.array(meta["means"]["mins"], dtype=np.float32)
-    means_maxs = np.array(meta["means"]["maxs"], dtype=np.float32)
+    means_mins, means_maxs = _load_range(meta["means"], 3)
     means_ranges = means_maxs - means_mins
     means_ranges = np.where(means_ranges == 0, np.ones_like(means_ranges), means_ranges)
 
@@ -517,12 +549,11 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     scales = np.empty((count, 3), dtype=np.float32)
     if is_v3:
         # v3: linear min/max dequantization
-        sc_mins = np.array(meta["scales"]["mins"], dtype=np.float32)
-        sc_maxs = np.array(meta["scales"]["maxs"], dtype=np.float32)
+        sc_mins, sc_maxs = _load_range(meta["scales"], 3)
         sx, sy, sz = _decode_scales_linear_jit(scales_rgba, sc_mins, sc_maxs, count)
     else:
         # v2: codebook lookup
-        scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        scales_codebook = _load_codebook(meta["scales"]["codebook"], scales_rgba, count)
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -536,14 +567,13 @@ def sogread(file_path: str | Path | bytes) -> GSData:
 
     if is_v3:
         # v3: linear min/max dequantization (4 channels: RGB + opacity in logit space)
-        sh0_mins = np.array(meta["sh0"]["mins"], dtype=np.float32)
-        sh0_maxs = np.array(meta["sh0"]["maxs"], dtype=np.float32)
+        sh0_mins, sh0_maxs = _load_range(meta["sh0"], 4)
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_linear_jit(
             sh0_rgba, sh0_mins, sh0_maxs, count
         )
     else:
         # v2: codebook lookup + logit transform on alpha channel
-        sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        sh0_codebook = _load_codebook(meta["sh0"]["codebook"], sh0_rgba, count)
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
@@ -560,6 +590,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         if is_v3:
             # v3: derive bands from shape, use scalar min/max dequantization
             shn_bands = shn_meta["shape"][1]  # e.g. 15 for SH degree 3
+            if shn_bands not in SH_DEGREE_TO_COEFFS.values():
+                raise ValueError(f"Invalid SOG SH band count: {shn_bands}")
             sh_degree = SH_BANDS_TO_DEGREE.get(shn_bands, 0)
             sh_coeffs = shn_bands  # shape[1] IS the number of coefficients
         else:
-- 
2.43.0


From fafd305896e5475a175e57fbc6da577604e65aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 22/34] fix: empty tensors can be saved compressed

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 4c90b0b..6c09adc 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).flatten(start_dim=1)
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From 64622f637fab4b444ad74b5cf49ddf30835ef805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 23/34] fix: transfer single reversed rows to a tensor

---
 src/gsply/torch/gstensor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 8ad4ea9..c3f3d6f 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -31,6 +31,12 @@ from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
 # (writer.py and reader.py import GSData at module level, creating circular imports)
 
 
+def _contiguous(array: np.ndarray) -> np.ndarray:
+    """Contiguous array that torch accepts (a reversed view of one row counts as contiguous)."""
+    array = np.ascontiguousarray(array)
+    return array.copy() if min(array.strides, default=0) < 0 else array
+
+
 @dataclass
 class GSTensor:
     """GPU-accelerated Gaussian Splatting data container using PyTorch tensors.
@@ -382,7 +388,7 @@ class GSTensor:
         # Fast path: Use _base if available (11x faster)
         if data._base is not None:
             # Ensure array is contiguous (handles sliced data edge case)
-            base_array = np.ascontiguousarray(data._base)
+            base_array = _contiguous(data._base)
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
@@ -391,7 +397,7 @@ class GSTensor:
             # Transfer masks separately if present
             masks_tensor = None
             if data.masks is not None:
-                masks_array = np.ascontiguousarray(data.masks)
+                masks_array = _contiguous(data.masks)
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
@@ -442,7 +448,7 @@ class GSTensor:
         # Transfer masks separately
         masks_tensor = None
         if data.masks is not None:
-            masks_array = np.ascontiguousarray(data.masks)
+            masks_array = _contiguous(data.masks)
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
@@ -1028,7 +1034,7 @@ class GSTensor:
         elif isinstance(key, np.ndarray):
             if np.issubdtype(key.dtype, np.integer):
                 key = key.astype(np.int64)
-            key = torch.as_tensor(np.ascontiguousarray(key), device=self.device)
+            key = torch.as_tensor(_contiguous(key), device=self.device)
 
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
-- 
2.43.0


From 27654d6a4ba63ab77967a80636679750dceada8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 24/34] fix: copy_slice accepts numpy integers

---
 src/gsply/gsdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 85deea2..4e16025 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1679,7 +1679,7 @@ class GSData:
             return self[key]
 
         # For single index, create single-element GSData copy
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             if key < 0:
                 key = len(self) + key
             if key < 0 or key >= len(self):
-- 
2.43.0


From bf9d2112a94ea04fe01e35b748c4ee43feb50015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 25/34] fix: compressed files load on any spelling of the CPU
 device

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 6c09adc..3f7c91e 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -332,7 +332,7 @@ def decompress_gpu(
     # Phase 4B: Batch memory transfer using byte-level concatenation (1.71x speedup)
     # Combine chunk_bounds and vertex_data into single transfer to reduce DMA overhead
     # Use byte-level concatenation to preserve uint32 bit patterns
-    if device != "cpu":
+    if torch.device(device).type != "cpu":
         # Convert to bytes and concatenate (preserves bit patterns)
         chunk_bytes = chunk_data.tobytes()
         vertex_bytes = vertex_data.tobytes()
@@ -399,7 +399,7 @@ def decompress_gpu(
     shN = None  # noqa: N806
     if sh_data is not None:
         sh_tensor = torch.from_numpy(sh_data)
-        if device != "cpu":
+        if torch.device(device).type != "cpu":
             sh_tensor = sh_tensor.pin_memory().to(device, non_blocking=True)
         else:
             sh_tensor = sh_tensor.to(device)
-- 
2.43.0


From 4aa21f56613b514ed23420a546a6cd4d57b0d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 26/34] fix: shN with another number of rows is refused by
 every writer

---
 src/gsply/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index fa16df5..18e1992 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -929,6 +929,10 @@ def _validate_and_normalize_inputs(
     # Step 3: Validate shapes if requested
     if validate:
         _validate_array_shapes(means, scales, quats, opacities, sh0, num_gaussians)
+        assert shn is None or (shn.ndim in (2, 3) and shn.shape[0] == num_gaussians), (
+            f"shN array has incorrect shape: expected ({num_gaussians}, K, 3), "
+            f"got {shn.shape}. Ensure all arrays have the same number of Gaussians (N)."
+        )
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
-- 
2.43.0


From 4e5d1d48786d1c0a88e07a5aebcdf5f6ad9e20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 27/34] fix: compress_gpu refuses tensors of inconsistent
 shapes

---
 src/gsply/torch/compression.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 3f7c91e..fbbdee5 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -653,6 +653,19 @@ def compress_gpu(
     :returns: Tuple of (chunk_bounds, packed_vertex_data, packed_sh_data) as CPU numpy arrays
     """
     num_gaussians = means.shape[0]
+    expected = {"means": (3,), "scales": (3,), "quats": (4,), "opacities": (), "sh0": (3,)}
+    arrays = {"means": means, "scales": scales, "quats": quats, "opacities": opacities, "sh0": sh0}
+    for name, tail in expected.items():
+        if tuple(arrays[name].shape) != (num_gaussians, *tail):
+            raise ValueError(
+                f"{name} has incorrect shape: expected {(num_gaussians, *tail)}, "
+                f"got {tuple(arrays[name].shape)}"
+            )
+    if shN is not None and (shN.ndim != 3 or shN.shape[0] != num_gaussians or shN.shape[2] != 3):
+        raise ValueError(
+            f"shN has incorrect shape: expected ({num_gaussians}, K, 3), got {tuple(shN.shape)}"
+        )
+
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
     padded_size = num_chunks * CHUNK_SIZE
 
-- 
2.43.0


From 517e1521446c2f6fdeec8640a7c041854530a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 28/34] fix: format detection accepts bfloat16 tensors

---
 src/gsply/torch/gstensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index c3f3d6f..bf8e77a 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -100,8 +100,8 @@ class GSTensor:
         # If _format is empty dict, auto-detect from values
         if not self._format:
             # Convert tensors to numpy for format detection
-            scales_np = self.scales.detach().cpu().numpy()
-            opacities_np = self.opacities.detach().cpu().numpy()
+            scales_np = self.scales.detach().cpu().double().numpy()
+            opacities_np = self.opacities.detach().cpu().double().numpy()
             scales_format, opacities_format = _detect_format_from_values(scales_np, opacities_np)
             self._format = _create_format_dict(
                 scales=scales_format,
@@ -1586,8 +1586,8 @@ class GSTensor:
         # Create format dict based on preset
         if format == "auto":
             # Auto-detect format from values (convert to numpy for detection)
-            scales_np = scales.detach().cpu().numpy()
-            opacities_np = opacities.detach().cpu().numpy()
+            scales_np = scales.detach().cpu().double().numpy()
+            opacities_np = opacities.detach().cpu().double().numpy()
             scales_format, opacities_format = _detect_format_from_values(scales_np, opacities_np)
             format_dict = _create_format_dict(
                 scales=scales_format,
-- 
2.43.0


From ac4cdcc828868ab6c8e96fd168fcb4afde171e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 29/34] fix: refuse inconsistent shapes also when assertions
 are disabled

---
 src/gsply/writer.py | 58 +++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 18e1992..4d78ff3 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -798,26 +798,31 @@ def _validate_array_shapes(
     :type num_gaussians: int
     :raises AssertionError: If any array has incorrect shape
     """
-    assert means.shape == (num_gaussians, 3), (
-        f"means array has incorrect shape: expected ({num_gaussians}, 3), "
-        f"got {means.shape}. Ensure all arrays have the same number of Gaussians (N)."
-    )
-    assert scales.shape == (num_gaussians, 3), (
-        f"scales array has incorrect shape: expected ({num_gaussians}, 3), "
-        f"got {scales.shape}. Ensure all arrays have the same number of Gaussians (N)."
-    )
-    assert quats.shape == (num_gaussians, 4), (
-        f"quats array has incorrect shape: expected ({num_gaussians}, 4), "
-        f"got {quats.shape}. Quaternions must have 4 components (w, x, y, z)."
-    )
-    assert opacities.shape == (num_gaussians,), (
-        f"opacities array has incorrect shape: expected ({num_gaussians},), "
-        f"got {opacities.shape}. Opacities should be a 1D array with one value per Gaussian."
-    )
-    assert sh0.shape == (num_gaussians, 3), (
-        f"sh0 array has incorrect shape: expected ({num_gaussians}, 3), "
-        f"got {sh0.shape}. SH DC coefficients must have 3 components (RGB)."
-    )
+    if means.shape != (num_gaussians, 3):
+        raise AssertionError(
+            f"means array has incorrect shape: expected ({num_gaussians}, 3), "
+            f"got {means.shape}. Ensure all arrays have the same number of Gaussians (N)."
+        )
+    if scales.shape != (num_gaussians, 3):
+        raise AssertionError(
+            f"scales array has incorrect shape: expected ({num_gaussians}, 3), "
+            f"got {scales.shape}. Ensure all arrays have the same number of Gaussians (N)."
+        )
+    if quats.shape != (num_gaussians, 4):
+        raise AssertionError(
+            f"quats array has incorrect shape: expected ({num_gaussians}, 4), "
+            f"got {quats.shape}. Quaternions must have 4 components (w, x, y, z)."
+        )
+    if opacities.shape != (num_gaussians,):
+        raise AssertionError(
+            f"opacities array has incorrect shape: expected ({num_gaussians},), "
+            f"got {opacities.shape}. Opacities should be a 1D array with one value per Gaussian."
+        )
+    if sh0.shape != (num_gaussians, 3):
+        raise AssertionError(
+            f"sh0 array has incorrect shape: expected ({num_gaussians}, 3), "
+            f"got {sh0.shape}. SH DC coefficients must have 3 components (RGB)."
+        )
 
 
 def _flatten_shn(shn: np.ndarray | None, validate: bool) -> np.ndarray | None:
@@ -838,8 +843,8 @@ def _flatten_shn(shn: np.ndarray | None, validate: bool) -> np.ndarray | None:
     """
     if shn is not None and shn.ndim == 3:
         n_gaussians, n_bands, n_components = shn.shape
-        if validate:
-            assert n_components == 3, f"shN must have shape (N, K, 3), got {shn.shape}"
+        if validate and n_components != 3:
+            raise AssertionError(f"shN must have shape (N, K, 3), got {shn.shape}")
         # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
         # This gives channel-grouped order matching original 3DGS PLY format
         shn = shn.transpose(0, 2, 1).reshape(n_gaussians, n_bands * n_components)
@@ -929,10 +934,11 @@ def _validate_and_normalize_inputs(
     # Step 3: Validate shapes if requested
     if validate:
         _validate_array_shapes(means, scales, quats, opacities, sh0, num_gaussians)
-        assert shn is None or (shn.ndim in (2, 3) and shn.shape[0] == num_gaussians), (
-            f"shN array has incorrect shape: expected ({num_gaussians}, K, 3), "
-            f"got {shn.shape}. Ensure all arrays have the same number of Gaussians (N)."
-        )
+        if shn is not None and (shn.ndim not in (2, 3) or shn.shape[0] != num_gaussians):
+            raise AssertionError(
+                f"shN array has incorrect shape: expected ({num_gaussians}, K, 3), "
+                f"got {shn.shape}. Ensure all arrays have the same number of Gaussians (N)."
+            )
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
-- 
2.43.0


From d16a6e8f533b7c8f235b3e26e89273b19e53f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 30/34] fix: the empty shN of a compressed tensor load is
 float32 whatever the default dtype

---
 src/gsply/torch/compression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index fbbdee5..834beab 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -825,7 +825,9 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
         quats=quats,
         opacities=opacities,
         sh0=sh0,
-        shN=shN if shN is not None else torch.zeros((num_vertices, 0, 3), device=device),
+        shN=shN
+        if shN is not None
+        else torch.zeros((num_vertices, 0, 3), dtype=torch.float32, device=device),
         masks=None,
         mask_names=None,
         _base=None,
-- 
2.43.0


From 6a5aadce3a6ca824cb6fd7f859195bdc181851a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 31/34] fix: from_gsdata(requires_grad=True) gives leaf tensors
 that optimizers accept

---
 src/gsply/torch/gstensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index bf8e77a..ca7b70f 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -392,7 +392,6 @@ class GSTensor:
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
-            base_tensor.requires_grad_(requires_grad)
 
             # Transfer masks separately if present
             masks_tensor = None
@@ -401,12 +400,13 @@ class GSTensor:
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
-            return cls._recreate_from_base(
+            result = cls._recreate_from_base(
                 base_tensor,
                 format_flag=data._format,
                 masks_tensor=masks_tensor,
                 mask_names=data.mask_names,
             )
+            return result._track_gradients() if requires_grad else result
 
         # Fallback: Stack arrays on CPU then transfer (2x faster than separate transfers)
         # Convert to Python int to avoid numpy _NoValueType issues
@@ -443,7 +443,6 @@ class GSTensor:
 
         # Single GPU transfer (2x faster than 5 separate transfers)
         base_tensor = torch.from_numpy(base_cpu).to(device=device_obj, dtype=dtype)
-        base_tensor.requires_grad_(requires_grad)
 
         # Transfer masks separately
         masks_tensor = None
@@ -452,12 +451,21 @@ class GSTensor:
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
-        return cls._recreate_from_base(
+        result = cls._recreate_from_base(
             base_tensor,
             format_flag=data._format,
             masks_tensor=masks_tensor,
             mask_names=data.mask_names,
         )
+        return result._track_gradients() if requires_grad else result
+
+    def _track_gradients(self) -> GSTensor:
+        """Make every field a leaf tensor that tracks gradients, as optimizers require."""
+        for name in ("means", "scales", "quats", "opacities", "sh0", "shN"):
+            field = getattr(self, name)
+            if field is not None:
+                setattr(self, name, field.detach().requires_grad_())
+        return self
 
     def to_gsdata(self) -> GSData:
         """Convert GSTensor back to GSData (CPU NumPy arrays).
-- 
2.43.0


From 7ffac0fafb788a1692e650e0e23edbcb2f7487c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 32/34] fix: sogread keeps narrow position ranges that collapse
 in float32

---
 src/gsply/sog_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 7255224..af4bf33 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -504,8 +504,12 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         raise ValueError(f"Invalid SOG count: {count}")
 
     # --- Means (same encoding in both formats: 16-bit split, log space) ---
-    means_mins, means_maxs = _load_range(meta["means"], 3)
-    means_ranges = means_maxs - means_mins
+    means_mins, _ = _load_range(meta["means"], 3)
+    # In double precision: a narrow range may collapse in float32 without being empty
+    means_ranges = (
+        np.array(meta["means"]["maxs"], dtype=np.float64)
+        - np.array(meta["means"]["mins"], dtype=np.float64)
+    ).astype(np.float32)
     means_ranges = np.where(means_ranges == 0, np.ones_like(means_ranges), means_ranges)
 
     means_lo_data = load(meta["means"]["files"][0])
-- 
2.43.0


From b2de232a05400b94c989dbf6ba70482e74cccad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 33/34] fix: compress half-precision tensors in float32

compress_gpu computed chunk bounds, ranges and codes in the dtype of its
input: in float16 ranges above 65504 overflowed to inf (every position
collapsed onto the chunk minimum) and 11-bit codes were off by a step;
bfloat16 tensors could not be compressed at all.
---
 src/gsply/torch/compression.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 834beab..aa61abe 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -666,6 +666,14 @@ def compress_gpu(
             f"shN has incorrect shape: expected ({num_gaussians}, K, 3), got {tuple(shN.shape)}"
         )
 
+    # Bounds and codes are computed in float32 like on the CPU: half precision resolves
+    # neither the chunk ranges nor 11-bit codes
+    means, scales, quats, opacities, sh0 = (
+        x.float() for x in (means, scales, quats, opacities, sh0)
+    )
+    if shN is not None:
+        shN = shN.float()  # noqa: N806
+
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
     padded_size = num_chunks * CHUNK_SIZE
 
@@ -854,7 +862,7 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     file_path = Path(file_path)
 
     # Files store log-scales, logit-opacities and SH colors
-    gstensor = gstensor.normalize(inplace=False)
+    gstensor = gstensor.to(dtype=torch.float32).normalize(inplace=False)
     if gstensor.is_sh0_rgb:
         gstensor = gstensor.to_sh(inplace=False)
 
-- 
2.43.0


From b34e4ce39353d1d7c363d01b3a4f25ab948779e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 34/34] fix: GSTensor.normalize clamps half precision in
 float32

In float16 the scale floor 1e-9 rounds to 0 and in both half types the
opacity limit 1-1e-4 rounds to 1, so small scales became -inf and opaque
Gaussians +inf.
---
 src/gsply/torch/gstensor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index ca7b70f..e2e665c 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -587,15 +587,19 @@ class GSTensor:
             return self
 
         # Convert linear scales to log-scales: log(scale)
+        # (half precision cannot hold the limits, so it is converted in float32)
+        dtype = self.dtype
+        work = torch.float64 if dtype == torch.float64 else torch.float32
         if not self.is_scales_ply:
-            self.scales = torch.log(torch.clamp(self.scales, min=min_scale))
+            self.scales = torch.log(torch.clamp(self.scales.to(work), min=min_scale)).to(dtype)
 
         # Convert linear opacities to logit-opacities: logit(opacity)
         # Use eps=min_opacity to match GSData behavior (1e-4)
         if not self.is_opacities_ply:
             self.opacities = torch.logit(
-                torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
-            )
+                torch.clamp(self.opacities.to(work), min=min_opacity, max=max_opacity),
+                eps=min_opacity,
+            ).to(dtype)
 
         self._base = None  # Invalidate _base since we modified tensors
         # Update format dict: scales and opacities are now in PLY format
-- 
2.43.0

