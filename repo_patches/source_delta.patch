From e76c5a319fca74947993944614020cf1dd37c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 01/32] fix: index chunks whose length differs from the first
 one correctly

The per-channel offsets into the flattened chunk were computed once from
the length of the first chunk, so windows of later chunks with another
length straddled channels or chunk elements.
---
 ml4gw/dataloading/chunked_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..3b951dc 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -87,9 +87,12 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         channel_idx = torch.arange(num_channels, device=self.device)
         channel_idx = channel_idx.view(1, -1, 1)
         channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
 
         while True:
+            # the offset of each channel depends on the
+            # length of the chunk we're currently reading from
+            offset_idx = idx + channel_idx * chunk_size
+
             # record the number of rows in the chunk, then
             # flatten it to make it easier to slice
             if chunk_size < self.kernel_size:
@@ -111,7 +114,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # introduces in the flattened array
                 chunk_idx *= num_channels * chunk_size
                 chunk_idx = chunk_idx.view(self.batch_size, -1, 1)
-                chunk_idx = chunk_idx + idx
+                chunk_idx = chunk_idx + offset_idx
 
                 # now sample the start index within each chunk
                 # element we're going to grab our time windows from
-- 
2.43.0


From b299945ce126cd84a534f9fdc4e19736b04b3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 02/32] fix: allow the last window of a chunk to be sampled

torch.randint excludes its upper bound, so the final window could never be
drawn and chunks exactly as long as the kernel raised.
---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 3b951dc..091dd67 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -120,7 +120,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    chunk_size - self.kernel_size + 1,
                     size=sample_size,
                     device=self.device,
                 )
-- 
2.43.0


From 4545567590fa3ef724f770bb0319e83d5786b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 03/32] fix: allow the last window of an HDF5 file to be
 sampled

np.random.randint excludes its upper bound, so the final window of a file
was never drawn and files exactly as long as the kernel raised.
---
 ml4gw/dataloading/hdf5_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..2689b62 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,7 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            max_idx = size - self.kernel_size + 1
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From cd4f809bf321f87a596e8ac95a3d4a5411a1542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 04/32] fix: finite log density between zero distance and the
 first grid point

---
 ml4gw/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..42b986a 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -347,9 +347,11 @@ class UniformComovingVolume(dist.Distribution):
         return self._linear_interp_1d(self.cdf, self.distance_grid, u)
 
     def log_prob(self, value: Tensor) -> Tensor:
+        # interpolate the density rather than its logarithm, which
+        # is infinite at zero distance
         log_prob = self._linear_interp_1d(
-            self.distance_grid, self.log_pdf, value
-        )
+            self.distance_grid, self.pdf, value
+        ).log()
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
-- 
2.43.0


From 4130547860de52144d2668381dc6d20d5dec8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 05/32] fix: normalize the log density of the cosine and sine
 distributions

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 42b986a..4d1bac1 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (value.cos() * self.norm * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From a562cee7c5354ccf3cd2723661787eb95642750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 06/32] fix: do not crop the whole series when there is no
 padding to remove

---
 ml4gw/spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/spectral.py b/ml4gw/spectral.py
index b0dabea..664598c 100644
--- a/ml4gw/spectral.py
+++ b/ml4gw/spectral.py
@@ -462,7 +462,7 @@ def normalize_by_psd(
 
     # slice off corrupted data at edges of kernel
     if crop:
-        X = X[:, :, pad:-pad]
+        X = X[:, :, pad : X.size(-1) - pad]
     return X
 
 
-- 
2.43.0


From a141da19817de1beec7ec0a8f05b35913de26ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 07/32] fix: keep the fit filter duration in double precision
 so the right number of samples is cropped

---
 ml4gw/transforms/whitening.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..3421bc3 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -158,7 +158,7 @@ class FixedWhiten(FittableSpectralTransform):
         self.register_buffer("psd", psd)
 
         # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +249,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From 9a34ed12a30948f43856bed9f0dd1b11e0f241b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 08/32] fix: honour a requested overlap of zero when fitting
 spectral transforms

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..dd78c45 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -54,7 +54,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From ffdaab7f18e8d893cd37021eb133ea9e3a920e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 09/32] fix: do not mark a transform as built when its fitted
 values are missing from the loaded state

---
 ml4gw/transforms/transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index dd78c45..08564d1 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -27,14 +27,15 @@ class FittableTransform(torch.nn.Module):
         return super().__call__(*args, **kwargs)
 
     def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
+        # keep track of number of missing keys and error messages
+        # to see if trying to load these weights causes another
+        missing_keys, error_msgs = args[-3], args[-1]
+        num_errs = len(missing_keys) + len(error_msgs)
         ret = super()._load_from_state_dict(*args)
 
         # if we didn't create any new errors, then
         # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        if len(missing_keys) + len(error_msgs) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From fbe3ddd0308b807c6a670d451a24fb79be3b9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 10/32] fix: take the decimated samples at the times given in
 the schedule

---
 ml4gw/transforms/decimator.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..6c20c01 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -145,6 +145,18 @@ class Decimator(torch.nn.Module):
                     "are only supported when split=True."
                 )
 
+    def _segment_bounds(self, s: torch.Tensor) -> tuple[int, int, int]:
+        r"""
+        First sample, end sample and step of one row of the
+        schedule, in samples of an input which begins at the
+        start of the schedule.
+        """
+        offset = int(self.schedule[0, 0] * self.sample_rate)
+        start = int(s[0] * self.sample_rate) - offset
+        stop = int(s[1] * self.sample_rate) - offset
+        step = int(self.sample_rate // s[2])
+        return start, stop, step
+
     def build_variable_indices(self) -> torch.Tensor:
         r"""
         Compute the time indices to keep based on the schedule.
@@ -156,12 +168,7 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
-            step = int(self.sample_rate // s[2])
+            start, stop, step = self._segment_bounds(s)
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
         return idx
@@ -187,9 +194,7 @@ class Decimator(torch.nn.Module):
         segments = []
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
-            step = int(self.sample_rate // s[2])
+            start, stop, step = self._segment_bounds(s)
             idx = torch.arange(
                 start,
                 stop,
-- 
2.43.0


From b7a1a03510271abd18fd11e69db19473438256ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 11/32] fix: keep the input length when heterodyning odd-length
 series

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..15f2252 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.shape[-1], dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From 28700a9a1cf58afcd05c74e63eafa4063dae50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 12/32] fix: do not modify the frequency range passed to the
 Q-transform

---
 ml4gw/transforms/qtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..6ab5cb1 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,8 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        # copy, since the limits may get replaced by default values below
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From dc3d0830b7ab66f0a4bbd6bc9094673baeb5a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 13/32] fix: return the requested number of time bins from the
 spline-interpolated Q-transform

---
 ml4gw/transforms/qtransform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 6ab5cb1..767108c 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -260,9 +260,8 @@ class SingleQTransform(torch.nn.Module):
         idx = torch.arange(len(ntiles))
         self.stack_idx = [idx[Tensor(ntiles) == n] for n in unique_ntiles]
 
-        t_out = torch.arange(
-            0, self.duration, self.duration / self.spectrogram_shape[1]
-        )
+        num_t_bins = self.spectrogram_shape[1]
+        t_out = torch.arange(num_t_bins) * (self.duration / num_t_bins)
         self.qtile_interpolators = torch.nn.ModuleList(
             [
                 SplineInterpolate1D(
-- 
2.43.0


From ae60843876c25d6c7404a9a9cbd578056a91316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 14/32] fix: allow a frequency search range that extends beyond
 the highest tile

---
 ml4gw/transforms/qtransform.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 767108c..918a417 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -331,9 +331,15 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
-            qtiles = self.qtiles[start:stop]
+            above = self.freqs > fsearch_range[0]
+            below = self.freqs <= fsearch_range[1]
+            qtiles = [
+                qtile
+                for qtile, searched in zip(
+                    self.qtiles, above & below, strict=True
+                )
+                if searched
+            ]
         else:
             qtiles = self.qtiles
 
-- 
2.43.0


From 8be1e07e2f739c0769b9dff526240e99d8355d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 15/32] fix: start the leaky integrator from zero for any lower
 bound

---
 ml4gw/transforms/integrator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..60884bd 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -110,9 +110,7 @@ class LeakyIntegrator(torch.nn.Module):
         raw_sum = torch.cumsum(score_delta, dim=-1)
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
-        # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        # No correction is needed while the raw sum is above the lower bound
+        offset = torch.clamp(offset, max=0)
 
         return raw_sum - offset
-- 
2.43.0


From 36c3fa90bbe55a31d64c792bff3491ae9ae0e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 16/32] fix: do not let coordinates of one spline interpolation
 call replace those given at construction

---
 ml4gw/transforms/spline_interpolation.py | 37 ++++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..a176b11 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,19 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor):
         """
-        Evaluate a bivariate spline on a grid of x and y points.
+        Evaluate a spline on a grid of x points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix at the output coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -310,12 +311,12 @@ class SplineInterpolate1D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +433,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self, C: Tensor, Bx_out: Tensor, By_out: Tensor
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix at the output x-coordinates.
+            By_out: Basis matrix at the output y-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -514,18 +519,18 @@ class SplineInterpolate2D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
+        else:
+            By_out = self.By_out
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From b89a10176d83badec6790e02294d48dcaca3aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 17/32] fix: accept an offset of zero in the online averager

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From aa8069062f12cb43946041a1b430a7f69a9d0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 18/32] fix: decode autoencoders that have no skip connection

---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..2cd0fba 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -72,7 +72,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
+            state = None if states is None else states[-i - 1]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From 8f72456830faea2b20632c1dd7f60f3cf8afd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 19/32] fix: connect each decoder stage with the encoder state
 of its own depth

---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 2cd0fba..18d307b 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -72,7 +72,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = None if states is None else states[-i - 1]
+            state = None if states is None else states[i]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From 1a7193f5d5fca913567165e1a3cc48b8ea822f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 20/32] fix: instantiate the default output activation of
 convolutional autoencoder blocks

---
 ml4gw/nn/autoencoder/convolutional.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..75e1cbd 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -59,7 +59,7 @@ class ConvBlock(Autoencoder):
         if output_activation is not None:
             self.output_activation = output_activation
         else:
-            self.output_activation = activation
+            self.output_activation = activation()
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
@@ -109,7 +109,6 @@ class ConvolutionalAutoencoder(Autoencoder):
         #     skip_connection = skip_connection(groups)
         super().__init__(skip_connection=skip_connection)
 
-        output_activation = output_activation or activation
         for i, channels in enumerate(encode_channels):
             # All intermediate layers should decode to
             # the same number of channels. The last decoder
-- 
2.43.0


From b80d0577f16d7769f6c560eae371f9a336745ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 21/32] fix: size the innermost decoder for an input without
 skip connection

---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index 75e1cbd..bab2741 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -117,11 +117,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the innermost decoder acts on the encoding itself, which
+            # isn't skip connected to anything
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From 0664973b901f2439cd806c6780d934678b518930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 22/32] fix: interleave skip connections group by group

---
 ml4gw/nn/autoencoder/skip_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..e7b55b2 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,7 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        X = torch.chunk(X, self.groups, dim=1)
+        state = torch.chunk(state, self.groups, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From 0a3667702c92b040e17eb9fe71e0a5459d3dd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 23/32] fix: build residual networks that have a single layer

---
 ml4gw/nn/resnet/resnet_1d.py | 2 +-
 ml4gw/nn/resnet/resnet_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..8d84d06 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -308,7 +308,7 @@ class ResNet1D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv1d):
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..82ba9be 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -308,7 +308,7 @@ class ResNet2D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv2d):
-- 
2.43.0


From 835c6827496bbc517201f73ac063e6c8221f8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 24/32] fix: crop tensors that are longer than the target size
 by more than one sample

---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From 0f98107f9a1e4203fa032d3a9f46940989bcc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 25/32] fix: ringdown amplitude goes with the square root of
 the radiated mass fraction

---
 ml4gw/waveforms/adhoc/ringdown.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..ea169f7 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -1,4 +1,3 @@
-import numpy as np
 import torch
 
 from ml4gw.constants import PI, C, G, m_per_Mpc
@@ -79,8 +78,7 @@ class Ringdown(torch.nn.Module):
         F_Q = 1 + ((7 / 24) / quality**2)
         g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)
         amplitude = (
-            np.sqrt(5 / 2)
-            * epsilon
+            torch.sqrt(5 / 2 * epsilon)
             * (G * mass / (C) ** 2)
             * quality ** (-0.5)
             * F_Q ** (-0.5)
-- 
2.43.0


From 78b17682fbff7ac9ed1ac811f5b8a844a0da1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 26/32] fix: ringdown cross polarization carries the cosine of
 the inclination

---
 ml4gw/waveforms/adhoc/ringdown.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index ea169f7..1e0b6d2 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -85,17 +85,16 @@ class Ringdown(torch.nn.Module):
             * g_a ** (-0.5)
         )
 
-        # calculate cosines with inclination
+        # calculate cosine of inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-pi * frequency * self.times / quality)
         phase_term = 2 * pi * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0


From 601388511e88bec273f16b287eb097f4d0fe4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 27/32] fix: include the matching slopes in PhenomD's phase
 derivative

---
 ml4gw/waveforms/cbc/phenom_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_d.py b/ml4gw/waveforms/cbc/phenom_d.py
index 482df88..f140e7b 100644
--- a/ml4gw/waveforms/cbc/phenom_d.py
+++ b/ml4gw/waveforms/cbc/phenom_d.py
@@ -454,8 +454,8 @@ class IMRPhenomD(TaylorF2):
         phasing += theta_plus_f2 * mrd_phase
 
         Dphasing = theta_minus_f1 * ins_Dphase
-        Dphasing += theta_plus_f1 * int_Dphase * theta_minus_f2
-        Dphasing += theta_plus_f2 * mrd_Dphase
+        Dphasing += theta_plus_f1 * (int_Dphase + C2Int) * theta_minus_f2
+        Dphasing += theta_plus_f2 * (mrd_Dphase + C2MRD)
 
         return phasing, Dphasing
 
-- 
2.43.0


From 6203635363a62f5654d8611ee5f6b6b0c1cde9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 28/32] fix: square the spins of PhenomPv2 in the order they
 are passed

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..fb01d14 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -112,8 +112,9 @@ class IMRPhenomPv2(IMRPhenomD):
         eta2 = eta * eta
         Seta = torch.sqrt(1.0 - 4.0 * eta)
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
-        chi22 = chi2_l * chi2_l
-        chi12 = chi1_l * chi1_l
+        # the larger black hole comes first in PhenomD's amplitude
+        chi12 = chi2_l * chi2_l
+        chi22 = chi1_l * chi1_l
         xi = -1.0 + chi
         m_sec = M * MTSUN_SI
         piM = PI * m_sec
-- 
2.43.0


From bf08a4c5994ea662e9c7cb846ba22f3c1958ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 29/32] fix: keep the coalescence phase of PhenomPv2 for
 aligned spins

---
 ml4gw/waveforms/cbc/phenom_p.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index fb01d14..8bb53c8 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -506,11 +506,15 @@ class IMRPhenomPv2(IMRPhenomD):
         J0x_sf = m1_2 * s1x + m2_2 * s2x
         J0y_sf = m1_2 * s1y + m2_2 * s2y
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
-        J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
-
-        thetaJ_sf = torch.arccos(J0z_sf / J0)
-
-        phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
+        J0perp_sf = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf)
+        thetaJ_sf = torch.arctan2(J0perp_sf, J0z_sf)
+
+        # without in-plane angular momentum its azimuth is a matter of
+        # convention, see atan2tol and its uses in LALSimIMRPhenomP.c
+        aligned = J0perp_sf == 0
+        phiJ_sf = torch.where(
+            aligned, PI / 2.0 - phic, torch.arctan2(J0y_sf, J0x_sf)
+        )
 
         phi_aligned = -phiJ_sf
 
@@ -536,7 +540,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
 
-        alpha0 = torch.arctan2(tmp_y, tmp_x)
+        alpha0 = torch.where(aligned, PI, torch.arctan2(tmp_y, tmp_x))
 
         # Finally we determine thetaJ, by rotating N
         tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From 814346b86130c89d1a44d576e6757801839d7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 30/32] fix: real mass difference in PhenomPv2 for nearly equal
 masses

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 8bb53c8..8879ef1 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,7 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         # the larger black hole comes first in PhenomD's amplitude
         chi12 = chi2_l * chi2_l
@@ -214,7 +214,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
-- 
2.43.0


From 47a5de58c53172d71870a67618c0bd0e766df128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 31/32] fix: coalescence time of PhenomPv2 is a time shift in
 seconds

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 8879ef1..2b88125 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -184,10 +184,7 @@ class IMRPhenomPv2(IMRPhenomD):
         phase_corr = torch.cos(2 * PI * fs * (t0)) - 1j * torch.sin(
             2 * PI * fs * (t0)
         )
-        M_s = (m1 + m2) * MTSUN_SI
-        phase_corr_tc = torch.exp(
-            -1j * fs * M_s.unsqueeze(1) * tc.unsqueeze(1)
-        )
+        phase_corr_tc = torch.exp(-2j * PI * fs * tc.unsqueeze(1))
         hp *= phase_corr * phase_corr_tc
         hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 8deba840bbac1cb7bd30901d5cc17d23ef8bd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 32/32] fix: interpolate at the first grid point from the first
 segment

---
 ml4gw/waveforms/cbc/phenom_p.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 2b88125..d769384 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -424,7 +424,8 @@ class IMRPhenomPv2(IMRPhenomD):
         m = (fp[1:] - fp[:-1]) / (xp[1:] - xp[:-1])  # slope
         b = fp[:-1] - (m * xp[:-1])
 
-        indices = torch.searchsorted(xp, x, right=False) - 1
+        # the first grid point belongs to the first segment
+        indices = (torch.searchsorted(xp, x, right=False) - 1).clamp(min=0)
 
         interpolated = m[indices] * x + b[indices]
 
-- 
2.43.0

