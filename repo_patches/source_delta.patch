From 7fb6383725ac1d7ffeeb224a32eafcbc6a64e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/53] fix: honour an explicit overlap of zero when fitting
 spectral transforms

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..dd78c45 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -54,7 +54,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From e39f69b756a319b43e86373182cc215b363ca90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 02/53] fix: crop fixed-whitened data by the filter length that
 was fitted

The filter duration was stored in single precision, so that for sample
rates that are not powers of two fewer samples than the filter length (and
for two-sample filters everything) were cropped.
---
 ml4gw/transforms/whitening.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..712a629 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -157,8 +157,10 @@ class FixedWhiten(FittableSpectralTransform):
         psd = torch.zeros((num_channels, num_freqs), dtype=dtype)
         self.register_buffer("psd", psd)
 
-        # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        # save this as a parameter since it's decided at fit time;
+        # double precision so that it gives back the same number
+        # of samples that the filter was built with
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +251,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From 8b4ea956e0600e8acec6b661d08904d18de07bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 03/53] fix: sample kernels as long as the timeseries itself

---
 ml4gw/utils/slicing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 93b17dd..f174d3b 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -313,7 +313,8 @@ def sample_kernels(
         )
 
     if X.ndim == 1:
-        idx = torch.randint(len(X) - kernel_size, size=(N,))
+        # there is always at least one possible kernel
+        idx = torch.randint(max(len(X) - kernel_size, 1), size=(N,))
         if return_idx:
             return slice_kernels(X, idx, kernel_size), idx
         return slice_kernels(X, idx, kernel_size)
@@ -322,7 +323,8 @@ def sample_kernels(
 
     if max_center_offset is None:
         # sample uniformly from all of X's time dimension
-        min_val, max_val = 0, X.shape[-1] - kernel_size
+        # in which there is at least one possible kernel
+        min_val, max_val = 0, max(X.shape[-1] - kernel_size, 1)
     elif max_center_offset >= 0:
         # a positive max_center_offset means we're allowed
         # to put some space between the center of the timeseries
-- 
2.43.0


From 29a4f17e56445b6528ad8f01d647893c48fbd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 04/53] fix: offset channels by the size of the chunk being
 sampled

The flattened offset of each channel was computed once from the first
chunk, so every chunk of a different size was sliced across channel and
chunk boundaries.
---
 ml4gw/dataloading/chunked_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..2de18b6 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -87,7 +87,6 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         channel_idx = torch.arange(num_channels, device=self.device)
         channel_idx = channel_idx.view(1, -1, 1)
         channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
 
         while True:
             # record the number of rows in the chunk, then
@@ -99,6 +98,10 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 )
             chunk = chunk.reshape(-1)
 
+            # chunks can differ in size, so the offset of each
+            # channel has to be computed for every chunk
+            kernel_idx = idx + channel_idx * chunk_size
+
             # generate batches from the current chunk
             for _ in range(self.batches_per_chunk):
                 # first sample the indices of which chunk elements
@@ -111,7 +114,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # introduces in the flattened array
                 chunk_idx *= num_channels * chunk_size
                 chunk_idx = chunk_idx.view(self.batch_size, -1, 1)
-                chunk_idx = chunk_idx + idx
+                chunk_idx = chunk_idx + kernel_idx
 
                 # now sample the start index within each chunk
                 # element we're going to grab our time windows from
-- 
2.43.0


From 023aa9c2fc1341e79125e4a0c0e328aa4fe8bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 05/53] fix: sample chunks exactly as long as a kernel

Such a chunk passes the size check but made torch.randint fail on an
empty range; its only window is the whole chunk.
---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 2de18b6..69aebaf 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -120,7 +120,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    max(chunk_size - self.kernel_size, 1),
                     size=sample_size,
                     device=self.device,
                 )
-- 
2.43.0


From 4b6815dc4cb97c885e428ebb5f6a6fbd39ce15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 06/53] fix: sample files exactly as long as a kernel

np.random.randint failed on an empty range although the file holds one
window. Files shorter than a kernel are still rejected with a ValueError,
now saying why.
---
 ml4gw/dataloading/hdf5_dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..fbd649e 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,12 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            if size < self.kernel_size:
+                raise ValueError(
+                    f"Can't sample kernels of size {self.kernel_size} "
+                    f"from file {fname} with size {size}"
+                )
+            max_idx = max(size - self.kernel_size, 1)
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From c803969d16ab0e3f990b36a6294c6c27ee0c80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 07/53] fix: accept an averaging offset of zero

An offset of 0 sliced the update up to index -0, i.e. to nothing, and the
averager failed; it means the same as no offset.
---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From 505931c9a3e1b5392fcc2428f02ab5df667e164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 08/53] fix: normalise the log-density of cosine and sine
 distributions

Cosine.log_prob (and Sine.log_prob, built on it) left out the factor
1 / (sin(high) - sin(low)), so the density did not integrate to one.
---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..ce6d562 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (self.norm * value.cos() * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From a8b7ecd4ddd207938f52583b9bb06e2b3aa3fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 09/53] fix: evaluate the log-density of log-normal
 distributions

The support method of LogNormal shadows the constraint torch validates
values against, so every call of log_prob raised an AttributeError.
---
 ml4gw/distributions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index ce6d562..45362b5 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -114,6 +114,16 @@ class LogNormal(dist.LogNormal):
         if self.low is not None:
             return dist.constraints.greater_than(self.low)
 
+    def _validate_sample(self, value: Tensor) -> None:
+        # torch expects support to be a constraint rather than
+        # a method, so values are checked against it here
+        support = self.support() or dist.constraints.positive
+        if not support.check(value).all():
+            raise ValueError(
+                "Expected values of a LogNormal distribution to be within "
+                f"its support {support}, but found {value}"
+            )
+
 
 class PowerLaw(dist.TransformedDistribution):
     """
-- 
2.43.0


From ebc771217d8e36bc9a97fa67017ba121004d9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 10/53] fix: log-density of cosmological distributions next to
 zero distance

With a minimum of zero the first grid point has a log-density of minus
infinity, and interpolating from it gave NaN throughout the first cell.
---
 ml4gw/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 45362b5..e3cd140 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -360,6 +360,10 @@ class UniformComovingVolume(dist.Distribution):
         log_prob = self._linear_interp_1d(
             self.distance_grid, self.log_pdf, value
         )
+        # the density vanishes at zero distance, where its
+        # logarithm can't be interpolated but the density can
+        pdf = self._linear_interp_1d(self.distance_grid, self.pdf, value)
+        log_prob = torch.where(log_prob.isnan(), pdf.log(), log_prob)
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
-- 
2.43.0


From c26f518ffd38cf645909bb7036edc7f8f0405210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 11/53] fix: Pearson correlation of small or large timeseries

The product of the two sums of squares underflows (or overflows) in
single precision for timeseries of order 1e-12, giving infinite or NaN
coefficients. Taking the roots first keeps the norm in range.
---
 ml4gw/transforms/pearson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/pearson.py b/ml4gw/transforms/pearson.py
index 8f75dd8..506d4e4 100644
--- a/ml4gw/transforms/pearson.py
+++ b/ml4gw/transforms/pearson.py
@@ -84,6 +84,6 @@ class ShiftedPearsonCorrelation(torch.nn.Module):
         # apply formula and sum along time dimension to give final shape
         # num_windows x batch x channels
         corr = (x * y).sum(axis=-1)
-        norm = (x**2).sum(-1) * (y**2).sum(-1)
+        norm = (x**2).sum(-1) ** 0.5 * (y**2).sum(-1) ** 0.5
 
-        return corr / norm**0.5
+        return corr / norm
-- 
2.43.0


From 3cba458615d9f85258329f247bf362e6f18c530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 12/53] fix: leaky integration with a lower bound other than
 zero

While the raw sum has not yet reached the lower bound there is nothing
to offset, whatever the bound. Limiting the offset by the bound instead
of by zero shifted the output by up to its value.
---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..27f1894 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.clamp(offset, max=0)
 
         return raw_sum - offset
-- 
2.43.0


From 195c22cbcd843b32c04a0dfe40286a30a7b3356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 13/53] fix: heterodyne timeseries with an odd number of
 samples

The inverse transform assumed an even length and returned one sample
fewer than it was given, on a stretched time axis.
---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..064bf0d 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.size(-1), dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From aaa2a8bc3debc3607f2d551a3df087f7c2e8d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 14/53] fix: decimate every segment from its scheduled start

Without split, each segment started where the previous one's sampling
ran out instead of at its own start time. That is the wrong place after
a gap in the schedule, or after a segment whose duration is no multiple
of its sampling step, and fails after a segment of a single sample. It
now matches what split=True returns.
---
 ml4gw/transforms/decimator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..b95c001 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -156,11 +156,8 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
+            start = int(s[0] * self.sample_rate)
+            stop = int(s[1] * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
-- 
2.43.0


From 23eb2bca93a81180a4ca6531c0daeabb2d31eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 15/53] fix: decimate with schedules that do not start at zero

The input must be as long as the schedule, but indices were counted from
time zero rather than from the start of the schedule, so any later start
ran past the end of the input. Likewise the duration of a schedule with
overlapping segments is not always set by its first and last rows.
---
 ml4gw/transforms/decimator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index b95c001..f6568ea 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -111,7 +111,7 @@ class Decimator(torch.nn.Module):
         self.register_buffer("idx", idx)
 
         self.expected_len = int(
-            (self.schedule[:, 1][-1] - self.schedule[:, 0][0])
+            (self.schedule[:, 1].max() - self.schedule[:, 0].min())
             * self.sample_rate
         )
 
@@ -155,9 +155,10 @@ class Decimator(torch.nn.Module):
         """
         idx = torch.tensor([], dtype=torch.long)
 
+        origin = self.schedule[:, 0].min()
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - origin) * self.sample_rate)
+            stop = int((s[1] - origin) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
@@ -183,9 +184,10 @@ class Decimator(torch.nn.Module):
         """
         segments = []
 
+        origin = self.schedule[:, 0].min()
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - origin) * self.sample_rate)
+            stop = int((s[1] - origin) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             idx = torch.arange(
                 start,
-- 
2.43.0


From b144d4e337b7a56472a8ff0367c6a67e22569ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 16/53] fix: combine eight or more spectrograms with shared
 arguments

The set of list lengths is not ordered, so lengths such as {1, 8} could be
taken for inconsistent ones.
---
 ml4gw/transforms/spectrogram.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..b327cd2 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -104,8 +104,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self.register_buffer("time_idxs", time_idxs)
 
     def _check_and_format_kwargs(self, kwargs: dict[str, list]) -> list:
-        lengths = sorted(len(v) for v in kwargs.values())
-        lengths = list(set(lengths))
+        lengths = sorted({len(v) for v in kwargs.values()})
 
         if lengths[-1] > 3:
             warnings.warn(
-- 
2.43.0


From a990334817e4590bced5a1368a7166d83b4bf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 17/53] fix: size of multi-resolution spectrogram kernels

kernel_length * sample_rate may differ from a whole number by rounding, in
which case every input was rejected.
---
 ml4gw/transforms/spectrogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index b327cd2..dab86ee 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -46,7 +46,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self, kernel_length: float, sample_rate: float, **kwargs
     ) -> None:
         super().__init__()
-        self.kernel_size = kernel_length * sample_rate
+        self.kernel_size = round(kernel_length * sample_rate)
         # This method of combination makes sense only when
         # the spectrograms are normalized, so enforce this
         if "normalized" in kwargs.keys():
@@ -64,7 +64,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
             [Spectrogram(**k) for k in self.kwargs]
         )
 
-        dummy_input = torch.ones(int(kernel_length * sample_rate))
+        dummy_input = torch.ones(self.kernel_size)
         self.shapes = torch.tensor(
             [t(dummy_input).shape for t in self.transforms]
         )
-- 
2.43.0


From 5f0abee8c0d925d450db325dd98c563aa982e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 18/53] fix: output points of one spline call do not affect
 later calls

Points given at a call replaced, for good, those given at construction.
---
 ml4gw/transforms/spline_interpolation.py | 43 +++++++++++++++---------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..6c2838f 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,23 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor | None = None):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out:
+                Basis matrix of the output points. Defaults to that
+                of the points given during initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
+        if Bx_out is None:
+            Bx_out = self.Bx_out
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -305,17 +310,16 @@ class SplineInterpolate1D(SplineInterpolateBase):
 
         Z = self._validate_inputs(Z, x_out)
 
+        Bx_out = None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +436,30 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self,
+        C: Tensor,
+        Bx_out: Tensor | None = None,
+        By_out: Tensor | None = None,
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out, By_out:
+                Basis matrices of the output points. Default to those
+                of the points given during initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
+        if Bx_out is None:
+            Bx_out = self.Bx_out
+        if By_out is None:
+            By_out = self.By_out
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -509,23 +525,20 @@ class SplineInterpolate2D(SplineInterpolateBase):
 
         Z, y_out = self._validate_inputs(Z, x_out, y_out)
 
+        Bx_out = By_out = None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From 97d8238eb0e9b17e80b69f2e4f6829daa89f0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 19/53] fix: leave the caller's frequency range unmodified

SingleQTransform wrote the default limits for its own Q into the list it
was given, so that reusing that list for another Q gave the wrong range.
---
 ml4gw/transforms/qtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..ca3aee5 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,8 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        # copy, because default limits are filled in below
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From 230b2ceab07fbff74a45e45e6abc9279b97e72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 20/53] fix: search ranges that reach beyond the largest
 frequency

The maximum energy could not be searched up to or beyond the frequency of
the last row of tiles.
---
 ml4gw/transforms/qtransform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index ca3aee5..6268889 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -332,9 +332,12 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
-            qtiles = self.qtiles[start:stop]
+            low, high = fsearch_range
+            qtiles = [
+                qtile
+                for freq, qtile in zip(self.freqs, self.qtiles, strict=True)
+                if low < freq <= high
+            ]
         else:
             qtiles = self.qtiles
 
-- 
2.43.0


From 62775e88f213cc4b93d6488e296a3b3e3cae62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 21/53] fix: number of time bins of spline-interpolated
 Q-transforms

Rounding of the step could add a bin, e.g. 50 instead of 49 for one second.
---
 ml4gw/transforms/qtransform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 6268889..bf0e6be 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -260,9 +260,8 @@ class SingleQTransform(torch.nn.Module):
         idx = torch.arange(len(ntiles))
         self.stack_idx = [idx[Tensor(ntiles) == n] for n in unique_ntiles]
 
-        t_out = torch.arange(
-            0, self.duration, self.duration / self.spectrogram_shape[1]
-        )
+        num_t_bins = self.spectrogram_shape[1]
+        t_out = torch.arange(num_t_bins) * (self.duration / num_t_bins)
         self.qtile_interpolators = torch.nn.ModuleList(
             [
                 SplineInterpolate1D(
-- 
2.43.0


From 049e8255bd82c13318e1e7f508b10529b43cc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 22/53] fix: dimensions of the Q-transform's output

The output is documented to have one more dimension than the input, but
batches of one, single channels and one-bin spectrograms lost a dimension,
and spline interpolation kept the dimensions it had added.
---
 ml4gw/transforms/qtransform.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index bf0e6be..5e1e75e 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -363,6 +363,7 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
+        self.num_dims = X.ndim
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
@@ -388,7 +389,7 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            return self._match_dims(self.interpolator(time_interped.mT).mT)
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -404,7 +405,14 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        return self._match_dims(resampled)
+
+    def _match_dims(self, X: Tensor) -> Tensor:
+        """
+        Remove the dimensions that were added to the input, so that
+        the output has one more dimension than the input
+        """
+        return X[(0,) * (3 - self.num_dims)]
 
     def forward(
         self,
-- 
2.43.0


From d3b0cc3b7cb0bee63780c51864302d99078cc588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 23/53] fix: group normalization of values much larger than
 their spread

The difference of the mean square and the squared mean could round to a
negative variance, making the output NaN.
---
 ml4gw/nn/norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/nn/norm.py b/ml4gw/nn/norm.py
index 2606de1..1349177 100644
--- a/ml4gw/nn/norm.py
+++ b/ml4gw/nn/norm.py
@@ -64,7 +64,9 @@ class GroupNorm1D(torch.nn.Module):
         # roll the mean and variance into the
         # weight and bias so that we have to do
         # fewer computations along the full time axis
-        std = (sq_mean - mean**2 + self.eps) ** 0.5
+        # (rounding can make the variance of large values negative)
+        var = (sq_mean - mean**2).clamp(min=0)
+        std = (var + self.eps) ** 0.5
         scale = self.weight / std
         shift = self.bias - scale * mean
         return shift + x * scale
-- 
2.43.0


From 642aafbc4a701092f8d5bce6e95fb11dcaf6cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 24/53] fix: residual networks with a single layer

The size of the last layer was only set by layers after the first.
---
 ml4gw/nn/resnet/resnet_1d.py | 5 ++++-
 ml4gw/nn/resnet/resnet_2d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..9c51293 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -287,7 +287,10 @@ class ResNet1D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..66b03bd 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -287,7 +287,10 @@ class ResNet2D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
-- 
2.43.0


From 7223d2cbcc020c3c4c3b72155d666a80d1522a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 25/53] fix: pairing of autoencoder blocks with their states

Without skip connections, decoding failed because there are no states to
index. With them, each block was connected to the state of the block at
the opposite end, including the output layer.
---
 ml4gw/nn/autoencoder/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..3fc297f 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -64,15 +64,16 @@ class Autoencoder(torch.nn.Module):
                 )
 
             # Don't skip connect the output layer
-            states = states[::-1] + [None]
+            states = [*states[::-1], None]
+        else:
+            states = [None] * len(self.blocks)
 
-        for i, block in enumerate(self.blocks[::-1]):
+        for block, state in zip(self.blocks[::-1], states, strict=True):
             if isinstance(X, tuple):
                 X = block.decode(*X)
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From 80ebbc251d2b5078bc7b8fede3da02545c42a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 26/53] fix: instantiate the output activation of convolutional
 blocks

The activation class itself was called on the data.
---
 ml4gw/nn/autoencoder/convolutional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..efec4cc 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -56,10 +56,11 @@ class ConvBlock(Autoencoder):
         )
 
         self.activation = activation()
-        if output_activation is not None:
-            self.output_activation = output_activation
-        else:
-            self.output_activation = activation
+        if output_activation is None:
+            output_activation = activation
+        if isinstance(output_activation, type):
+            output_activation = output_activation()
+        self.output_activation = output_activation
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
-- 
2.43.0


From 3f79dddd357da3c1758860ffd21c05c8202d1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 27/53] fix: decoder channels of the innermost autoencoder
 block

Its decoder acts directly on the encoding, to which no skip connection is
applied, but was built for the channels of one.
---
 ml4gw/nn/autoencoder/convolutional.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index efec4cc..b2a6444 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -120,10 +120,8 @@ class ConvolutionalAutoencoder(Autoencoder):
             decode = in_channels if i else decode_channels
 
             # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From 12ee7d2edaf72a7ebeb8c44feeabdb5eb72b47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 28/53] fix: keep channel groups together in concatenated skip
 connections

Channels were split into pieces of as many channels as there are groups,
so a piece could straddle two groups.
---
 ml4gw/nn/autoencoder/skip_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..e7b55b2 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,7 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        X = torch.chunk(X, self.groups, dim=1)
+        state = torch.chunk(state, self.groups, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From f0046da8fb5ccfaa950d89b8641b371564bdf2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 29/53] fix: crop on both sides when matching sizes

Removing two or more samples returned an empty tensor.
---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From 5878473a9a37c6fb5275a417c0ebb37f6324a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 30/53] fix: spin-squared terms of the precessing model's
 amplitude

The squared spins of the two bodies were exchanged.
---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..019c0a1 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -112,8 +112,9 @@ class IMRPhenomPv2(IMRPhenomD):
         eta2 = eta * eta
         Seta = torch.sqrt(1.0 - 4.0 * eta)
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
-        chi22 = chi2_l * chi2_l
-        chi12 = chi1_l * chi1_l
+        # the heavier body comes first in PhenomD's convention
+        chi12 = chi2_l * chi2_l
+        chi22 = chi1_l * chi1_l
         xi = -1.0 + chi
         m_sec = M * MTSUN_SI
         piM = PI * m_sec
-- 
2.43.0


From 6def9af3236391bf3729c4869b27c0f95b55b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 31/53] fix: precision of the precessing model's time alignment

The phase derivative at ringdown was computed on frequencies rounded to
single precision, whatever the precision of the parameters.
---
 ml4gw/waveforms/cbc/phenom_p.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 019c0a1..1a6d849 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -372,7 +372,9 @@ class IMRPhenomPv2(IMRPhenomD):
         # calculating derivative of phase with frequency following
         # https://git.ligo.org/lscsoft/lalsuite/-/blame/master/lalsimulation/lib/LALSimIMRPhenomP.c?page=2#L1057 # noqa: E501
         n_fixed = 1000
-        x = torch.linspace(0.8, 1.2, n_fixed, device=fRD.device)
+        x = torch.linspace(
+            0.8, 1.2, n_fixed, dtype=fRD.dtype, device=fRD.device
+        )
         fRDs = torch.outer(fRD, x)
         delta_fRds = (1.2 * fRD - 0.8 * fRD) / (n_fixed - 1)
         MfRDs = M_s.unsqueeze(-1) * fRDs
-- 
2.43.0


From a749c39846e64dcfaf0413e5f77547f8a444f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 32/53] fix: reference phase of aligned-spin binaries in the
 precessing model

The azimuth of the total angular momentum is undefined for them; taking
it as zero made the waveform independent of the reference phase.
---
 ml4gw/waveforms/cbc/phenom_p.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 1a6d849..5902902 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -512,7 +512,12 @@ class IMRPhenomPv2(IMRPhenomD):
 
         thetaJ_sf = torch.arccos(J0z_sf / J0)
 
-        phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
+        # without spins in the plane the azimuth of J is a convention
+        tol = 1e-15
+        aligned = (J0x_sf.abs() < tol) & (J0y_sf.abs() < tol)
+        phiJ_sf = torch.where(
+            aligned, PI / 2.0 - phic, torch.arctan2(J0y_sf, J0x_sf)
+        )
 
         phi_aligned = -phiJ_sf
 
@@ -538,7 +543,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
 
-        alpha0 = torch.arctan2(tmp_y, tmp_x)
+        alpha0 = torch.where(aligned, PI, torch.arctan2(tmp_y, tmp_x))
 
         # Finally we determine thetaJ, by rotating N
         tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From bb18c175d409f765e6b6ae0c09115beac73021f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 33/53] fix: coalescence time of the precessing model

The phase was proportional to the time in units of the total mass and
lacked a factor of two pi, so that no unit made it a shift in time.
---
 ml4gw/waveforms/cbc/phenom_p.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5902902..e2e915d 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -64,7 +64,7 @@ class IMRPhenomPv2(IMRPhenomD):
             distance :
                 Luminosity distance in Mpc.
             tc :
-                Coalescence time.
+                Coalescence time in seconds.
             phic :
                 Reference phase.
             inclination :
@@ -184,10 +184,7 @@ class IMRPhenomPv2(IMRPhenomD):
         phase_corr = torch.cos(2 * PI * fs * (t0)) - 1j * torch.sin(
             2 * PI * fs * (t0)
         )
-        M_s = (m1 + m2) * MTSUN_SI
-        phase_corr_tc = torch.exp(
-            -1j * fs * M_s.unsqueeze(1) * tc.unsqueeze(1)
-        )
+        phase_corr_tc = torch.exp(-2j * PI * fs * tc.unsqueeze(1))
         hp *= phase_corr * phase_corr_tc
         hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 87dab59507c1628d7859cbdf7d0ee1027e4ab9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 34/53] fix: equal masses in the precessing model

The symmetric mass ratio of nearly equal masses can round to more than a
quarter, of which the square root was not a number.
---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index e2e915d..44c3664 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,7 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         # the heavier body comes first in PhenomD's convention
         chi12 = chi2_l * chi2_l
@@ -211,7 +211,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
-- 
2.43.0


From bae095a020d3518d4d9e2bffa125960db50cd36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 35/53] fix: filter in second-order sections

The polynomial coefficients of high-order or narrow filters lose the
positions of the poles, so that filtering diverged: for example the highpass
of the waveform generator at 4096 Hz and 10 Hz.
---
 ml4gw/transforms/iirfilter.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ml4gw/transforms/iirfilter.py b/ml4gw/transforms/iirfilter.py
index 6b16bce..80d63eb 100644
--- a/ml4gw/transforms/iirfilter.py
+++ b/ml4gw/transforms/iirfilter.py
@@ -1,6 +1,6 @@
 import torch
 from scipy.signal import iirfilter
-from torchaudio.functional import filtfilt
+from torchaudio.functional import lfilter
 
 
 class IIRFilter(torch.nn.Module):
@@ -70,7 +70,9 @@ class IIRFilter(torch.nn.Module):
         if isinstance(rp, torch.Tensor):
             rp = rp.numpy()
 
-        b, a = iirfilter(
+        # second-order sections, since the coefficients of the
+        # transfer function lose the poles of narrow filters
+        sos = iirfilter(
             N,
             Wn,
             rs=rs,
@@ -78,11 +80,10 @@ class IIRFilter(torch.nn.Module):
             btype=btype,
             analog=analog,
             ftype=ftype,
-            output="ba",
+            output="sos",
             fs=fs,
         )
-        self.register_buffer("b", torch.tensor(b))
-        self.register_buffer("a", torch.tensor(a))
+        self.register_buffer("sos", torch.tensor(sos))
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         r"""
@@ -95,4 +96,8 @@ class IIRFilter(torch.nn.Module):
         Returns:
             The filtered signal.
         """
-        return filtfilt(x, self.a, self.b, clamp=False)
+        for _ in range(2):
+            for section in self.sos:
+                x = lfilter(x, section[3:], section[:3], clamp=False)
+            x = x.flip(-1)
+        return x
-- 
2.43.0


From 83bb35c51ec6d9b61bddfe0ca542c8e3015faf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 36/53] fix: frequency grid of the waveform generator

For sample rates that are not powers of two the number of frequencies could
be truncated to one too few, and for odd or fractional ones the Nyquist
frequency was, so that the waveform's frequencies were off.
---
 ml4gw/waveforms/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 15e9d3b..3e59fb5 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -38,7 +38,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         sample_rate:
             Rate at which returned time domain waveform will be
             sampled in Hz. This also specifies ``f_max`` for generating
-            waveforms via the nyquist frequency: ``f_max = sample_rate // 2``.
+            waveforms via the nyquist frequency: ``f_max = sample_rate / 2``.
         f_min:
             Lower frequency bound for waveforms
         duration:
@@ -78,7 +78,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
 
     @property
     def nyquist(self):
-        return int(self.sample_rate / 2)
+        return self.sample_rate / 2
 
     @property
     def size(self):
@@ -110,7 +110,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
 
     def get_frequencies(self, df: float):
         """Get the frequencies from 0 to nyquist for corresponding df"""
-        num_freqs = int(self.nyquist / df) + 1
+        num_freqs = round(float(self.nyquist / df)) + 1
         return torch.linspace(0, self.nyquist, num_freqs)
 
     def generate_conditioned_fd_waveform(
-- 
2.43.0


From 8e138b6794eda612e5bd9221eed1a5266682fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 37/53] fix: length of generated waveforms shorter than the
 chirp

For durations of a fractional number of samples, cropping gave one sample
more than padding.
---
 ml4gw/waveforms/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 3e59fb5..7f11004 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -355,7 +355,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         hc, hp = self.apply_td_condition_stage2(hc, hp, parameters)
 
         # pad waveforms on left up to requested duration
-        pad = int((self.duration * self.sample_rate) - hp.shape[-1])
+        pad = self.size - hp.shape[-1]
         hc = torch.nn.functional.pad(hc, (pad, 0))
         hp = torch.nn.functional.pad(hp, (pad, 0))
 
-- 
2.43.0


From 033b3c410f5121a31cd19b1d7fe9d9e2d7e4aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 38/53] fix: room for the right padding of generated waveforms

The inspiral of a short signal wrapped around to the end of the waveform
when the right padding was longer than what its length left free.
---
 ml4gw/waveforms/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 7f11004..c7b08f9 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -184,9 +184,11 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
             fstart, mass_1, mass_2, s1z, s2z
         )
 
-        # chirp length in samples
+        # chirp length in samples, with room for
+        # what follows the coalescence
+        tend = torch.clamp(tmerge, min=self.right_pad)
         chirplen = torch.round(
-            (tchirp_fstart + tmerge + 2.0 * textra) * self.sample_rate
+            (tchirp_fstart + tend + 2.0 * textra) * self.sample_rate
         )
 
         # pad to next power of 2
-- 
2.43.0


From b77aa4bec8a2f08d930a6e2ab0aa425177554b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 39/53] fix: ringdown wrapped around to the start of generated
 waveforms

With less right padding than the merger and ringdown take, the end of the
signal appeared at the start of the generated window.
---
 ml4gw/waveforms/generator.py | 44 ++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index c7b08f9..771c689 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -113,6 +113,41 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         num_freqs = round(float(self.nyquist / df)) + 1
         return torch.linspace(0, self.nyquist, num_freqs)
 
+    def merger_duration(
+        self,
+        mass_1: BatchTensor,
+        mass_2: BatchTensor,
+        s1z: BatchTensor,
+        s2z: BatchTensor,
+    ) -> BatchTensor:
+        """Upper bound on the final plunge, merger, and ringdown time"""
+        # upper bound on final black hole spin
+        s = utils.final_black_hole_spin_bound(s1z, s2z)
+        return utils.merge_time_bound(
+            mass_1, mass_2
+        ) + utils.ringdown_time_bound(mass_1 + mass_2, s)
+
+    def remove_wrapped_ringdown(
+        self,
+        hc: Tensor,
+        hp: Tensor,
+        parameters: dict,
+    ) -> tuple[Tensor, Tensor]:
+        """
+        Remove the part of the ringdown that does not fit into ``right_pad``,
+        and has wrapped around to the start of the waveform.
+        """
+        tmerge = self.merger_duration(
+            parameters["mass_1"].double() * MSUN,
+            parameters["mass_2"].double() * MSUN,
+            parameters["s1z"],
+            parameters["s2z"],
+        )
+        wrapped = torch.round((tmerge - self.right_pad) * self.sample_rate)
+        indices = torch.arange(hp.shape[-1], device=hp.device)
+        mask = indices < wrapped[:, None]
+        return hc.masked_fill(mask, 0.0), hp.masked_fill(mask, 0.0)
+
     def generate_conditioned_fd_waveform(
         self, **parameters: dict[str, BatchTensor]
     ) -> tuple[Float[Tensor, "{N} samples"], Float[Tensor, "{N} samples"]]:
@@ -147,7 +182,6 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
             parameters["mass_1"].double() * MSUN,
             parameters["mass_2"].double() * MSUN,
         )
-        total_mass = mass_1 + mass_2
         s1z, s2z = parameters["s1z"], parameters["s2z"]
         device = mass_1.device
 
@@ -160,13 +194,8 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         # upper bound on chirp time
         tchirp = utils.chirp_time_bound(f_min, mass_1, mass_2, s1z, s2z)
 
-        # upper bound on final black hole spin
-        s = utils.final_black_hole_spin_bound(s1z, s2z)
-
         # upper bound on the final plunge, merger, and ringdown time
-        tmerge = utils.merge_time_bound(
-            mass_1, mass_2
-        ) + utils.ringdown_time_bound(total_mass, s)
+        tmerge = self.merger_duration(mass_1, mass_2, s1z, s2z)
 
         # extra time to include for all waveforms to take care of situations
         # where the frequency is close to merger (and is sweeping rapidly):
@@ -354,6 +383,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         hc = torch.fft.irfft(hc) * self.sample_rate
         hp = torch.fft.irfft(hp) * self.sample_rate
 
+        hc, hp = self.remove_wrapped_ringdown(hc, hp, parameters)
         hc, hp = self.apply_td_condition_stage2(hc, hp, parameters)
 
         # pad waveforms on left up to requested duration
-- 
2.43.0


From ba3175ebf7687201ff34775417b5c05c73e183e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 40/53] fix: single-precision pi in burst waveforms

Their phases were off by three parts in 1e8.
---
 ml4gw/waveforms/adhoc/ringdown.py      | 9 +++------
 ml4gw/waveforms/adhoc/sine_gaussian.py | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..9e9e0a5 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -64,13 +64,10 @@ class Ringdown(torch.nn.Module):
         # convert Mpc to m
         distance = distance * m_per_Mpc
 
-        # ensure all inputs are on the same device
-        pi = torch.tensor([PI], device=frequency.device)
-
         # Calculate spin and mass
         spin = 1 - (2 / quality) ** (20 / 9)
         mass = (
-            (1 / (2 * pi))
+            (1 / (2 * PI))
             * (C**3 / (G * frequency))
             * (1 - 0.63 * (2 / quality) ** (2 / 3))
         )
@@ -93,8 +90,8 @@ class Ringdown(torch.nn.Module):
         sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
-        exp_term = torch.exp(-pi * frequency * self.times / quality)
-        phase_term = 2 * pi * frequency * self.times + phase
+        exp_term = torch.exp(-PI * frequency * self.times / quality)
+        phase_term = 2 * PI * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
         a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
diff --git a/ml4gw/waveforms/adhoc/sine_gaussian.py b/ml4gw/waveforms/adhoc/sine_gaussian.py
index b81c8ea..51ed31b 100644
--- a/ml4gw/waveforms/adhoc/sine_gaussian.py
+++ b/ml4gw/waveforms/adhoc/sine_gaussian.py
@@ -69,12 +69,12 @@ class SineGaussian(torch.nn.Module):
         eccentricity = eccentricity.view(-1, 1)
 
         # TODO: enforce all inputs are on the same device?
-        pi = torch.tensor([torch.pi], device=frequency.device)
+        pi = torch.pi
 
         # calculate relative hplus / hcross amplitudes based on eccentricity
         # as well as normalization factors
         a, b = semi_major_minor_from_e(eccentricity)
-        norm_prefactor = quality / (4.0 * frequency * torch.sqrt(pi))
+        norm_prefactor = quality / (4.0 * frequency * pi**0.5)
         cosine_norm = norm_prefactor * (1.0 + torch.exp(-quality * quality))
         sine_norm = norm_prefactor * (1.0 - torch.exp(-quality * quality))
 
-- 
2.43.0


From 3d4ec9c98dd906d1d12a5693564f478511e44708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 41/53] fix: amplitude of ringdowns

The energy radiated goes with the square of the amplitude, which therefore
grows with the square root of the fraction of the mass radiated.
---
 ml4gw/waveforms/adhoc/ringdown.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 9e9e0a5..a51b59c 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -1,4 +1,3 @@
-import numpy as np
 import torch
 
 from ml4gw.constants import PI, C, G, m_per_Mpc
@@ -76,8 +75,7 @@ class Ringdown(torch.nn.Module):
         F_Q = 1 + ((7 / 24) / quality**2)
         g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)
         amplitude = (
-            np.sqrt(5 / 2)
-            * epsilon
+            torch.sqrt(5 / 2 * epsilon)
             * (G * mass / (C) ** 2)
             * quality ** (-0.5)
             * F_Q ** (-0.5)
-- 
2.43.0


From abd24bf6bb15d04223dd23c7cef3326a4f64a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 42/53] fix: inclination of the cross polarization of ringdowns

It is as strong as plus along the spin, and vanishes edge-on, not the other
way around.
---
 ml4gw/waveforms/adhoc/ringdown.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index a51b59c..4aefbb3 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -85,14 +85,13 @@ class Ringdown(torch.nn.Module):
         # calculate cosines with inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-PI * frequency * self.times / quality)
         phase_term = 2 * PI * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0


From e4b522044f60467081c7c3d889a4e9e75bb549d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 43/53] fix: gradients through the heterodyne transform are
 finite

The phase at zero frequency is infinite, so that its exponential is not a
number. The component is set to zero after the multiplication, but its
gradient was still multiplied by the phase.
---
 ml4gw/transforms/heterodyne.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 064bf0d..e8f28b1 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -103,6 +103,8 @@ class Heterodyne(torch.nn.Module):
                 Tensor of shape `(M, F)` containing complex phase factors.
         """
         phase = torch.exp((3j / 128) * (self.pi_m_f ** (-5 / 3)))
+        # the phase is not defined at zero frequency
+        phase[:, 0] = 0
         return phase
 
     def forward(
-- 
2.43.0


From 4e288b1fd53a921f25974a2d95a3ae691fa5ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 44/53] fix: a failed load of a partial state does not count as
 fitting

---
 ml4gw/transforms/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index dd78c45..d478c73 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -27,14 +27,14 @@ class FittableTransform(torch.nn.Module):
         return super().__call__(*args, **kwargs)
 
     def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
+        # keep track of number of missing keys and error messages
+        # to see if trying to load these weights causes another
+        num_errs = len(args[-3]) + len(args[-1])
         ret = super()._load_from_state_dict(*args)
 
         # if we didn't create any new errors, then
         # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        if len(args[-3]) + len(args[-1]) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From 649ef510ddafa828da0cf8ce7a8e61e234a53844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 45/53] fix: reject kernels that run past the ends of a
 timeseries

Slicing kernels from a multichannel timeseries at a start whose window
passes the end silently filled it with samples from the other end.
---
 ml4gw/utils/slicing.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index f174d3b..83bf384 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -133,9 +133,16 @@ def slice_kernels(
     kernels = torch.arange(kernel_size, device=x.device)
     idx = idx.to(kernels.device)
 
-    # TODO: add try-catches aroud the actual slicing operations
-    # to catch out-of-range index errors and raise with a
-    # standardized error that's very explicit
+    # kernels which run past either end of a multichannel timeseries
+    # would otherwise silently wrap around to its other end
+    out_of_range = idx > x.shape[-1] - kernel_size
+    out_of_range |= (idx < 0) & (idx > -kernel_size)
+    if out_of_range.any():
+        raise IndexError(
+            f"Can't slice kernels of size {kernel_size} from timeseries "
+            f"of length {x.shape[-1]} at indices {idx[out_of_range].tolist()}"
+        )
+
     if x.ndim == 1:
         if idx.ndim != 1:
             raise ValueError(
-- 
2.43.0


From 70a68792b967f2d6132684bc6cd03e09db346b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 46/53] fix: sample no kernels when none are requested

Sampling N=0 coincident kernels returned one kernel for each channel.
---
 ml4gw/utils/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 83bf384..fdf1504 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -366,7 +366,7 @@ def sample_kernels(
     if X.ndim == 3 or coincident:
         # sampling coincidentally, so just need a single
         # index for each element in the output batch
-        N = N or len(X)
+        N = len(X) if N is None else N
         shape = (N,)
     else:
         # otherwise, each channel in each batch sample
-- 
2.43.0


From bcf2a9dabb7095c9d5334f76a1e936acf189a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 47/53] fix: keep spin angles finite when rounding pushes their
 cosines past 1

The cosine of the angle between aligned vectors could come out slightly
larger than one, turning the inclination and all of the spins into NaN.
---
 ml4gw/waveforms/conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/conversion.py b/ml4gw/waveforms/conversion.py
index e9efd36..60fb88d 100644
--- a/ml4gw/waveforms/conversion.py
+++ b/ml4gw/waveforms/conversion.py
@@ -138,7 +138,8 @@ def bilby_spins_to_lalsim(
     Jhatx = Jx / Jnorm
     Jhaty = Jy / Jnorm
     Jhatz = Jz / Jnorm
-    theta0 = torch.acos(Jhatz)
+    # rounding can push cosines just out of range
+    theta0 = torch.acos(Jhatz.clamp(-1, 1))
     phi0 = torch.atan2(Jhaty, Jhatx)
 
     # Rotation 1: Rotate about z-axis by -phi0 to put Jhat in x-z plane
@@ -165,12 +166,13 @@ def bilby_spins_to_lalsim(
     Nx = 0.0
     Ny = torch.sin(theta_jn)
     Nz = torch.cos(theta_jn)
-    incl = torch.acos(Nx * lnh_x + Ny * lnh_y + Nz * lnh_z)
+    cos_incl = Nx * lnh_x + Ny * lnh_y + Nz * lnh_z
+    incl = torch.acos(cos_incl.clamp(-1, 1))
 
     # Rotation 4-5: Now J is along z and N in y-z plane, inclined from J
     # by thetaJN and with >ve component along y.
     # Now we bring L into the z axis to get spin components.
-    thetalj = torch.acos(lnh_z)
+    thetalj = torch.acos(lnh_z.clamp(-1, 1))
     phil = torch.atan2(lnh_y, lnh_x)
 
     s1hatx, s1haty, s1hatz = rotate_z(-phil, s1hatx, s1haty, s1hatz)
-- 
2.43.0


From 253b92aef04532218e5650bba878ff3373dad4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 48/53] fix: keep IMRPhenomPv2 finite when rounding pushes
 cosines past 1

The angle of J could come out as NaN for aligned spins, and with it the
whole waveform.
---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 44c3664..4e17288 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -508,7 +508,8 @@ class IMRPhenomPv2(IMRPhenomD):
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
         J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-        thetaJ_sf = torch.arccos(J0z_sf / J0)
+        # rounding can push cosines just out of range
+        thetaJ_sf = torch.arccos((J0z_sf / J0).clamp(-1, 1))
 
         # without spins in the plane the azimuth of J is a convention
         tol = 1e-15
@@ -549,7 +550,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
         Nx_Jf, Nz_Jf = tmp_x, tmp_z
-        thetaJN = torch.arccos(Nz_Jf)
+        thetaJN = torch.arccos(Nz_Jf.clamp(-1, 1))
 
         # Finally, we need to redefine the polarizations:
         # PhenomP's polarizations are defined following Arun et al
-- 
2.43.0


From 5ff6753f206da129e14486807532e47791d9aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 49/53] fix: let QScan search frequencies that some Q values
 have no rows in

---
 ml4gw/transforms/qtransform.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 5e1e75e..a16bc2b 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -561,12 +561,28 @@ class QScan(torch.nn.Module):
         """
         for transform in self.q_transforms:
             transform.compute_qtiles(X, norm)
+
+        # the search range may hold none of the frequencies
+        # that are used for some of the Q values
+        transforms = list(self.q_transforms)
+        if fsearch_range is not None:
+            low, high = fsearch_range
+            transforms = [
+                transform
+                for transform in transforms
+                if any(low < freq <= high for freq in transform.freqs)
+            ]
+            if not transforms:
+                raise ValueError(
+                    f"No Q value has tiles in frequency range {fsearch_range}"
+                )
+
         idx = torch.argmax(
             torch.Tensor(
                 [
                     transform.get_max_energy(fsearch_range=fsearch_range)
-                    for transform in self.q_transforms
+                    for transform in transforms
                 ]
             )
         )
-        return self.q_transforms[idx].interpolate()
+        return transforms[idx].interpolate()
-- 
2.43.0


From 5f566d151ea5f8481c10902e038de70e375f5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 50/53] fix: create the B-spline basis on the device of its
 positions

---
 ml4gw/transforms/spline_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 6c2838f..02e4a68 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -112,7 +112,7 @@ class SplineInterpolateBase(torch.nn.Module):
         Returns:
             b: Tensor containing the zeroth-order B-spline basis functions.
         """
-        b = torch.zeros((n, m, k + 1))
+        b = torch.zeros((n, m, k + 1), device=x.device)
 
         mask_lower = t[: m + 1].unsqueeze(0)[:, :-1] <= x.unsqueeze(1)
         mask_upper = x.unsqueeze(1) < t[: m + 1].unsqueeze(0)[:, 1:]
@@ -145,7 +145,7 @@ class SplineInterpolateBase(torch.nn.Module):
         # calculate zeroth order basis funciton
         b = self.zeroth_order(x, k, t, n, m)
 
-        zeros_tensor = torch.zeros(b.shape[0], 1)
+        zeros_tensor = torch.zeros(b.shape[0], 1, device=b.device)
         # recursive de Boors formula for bspline basis functions
         for d in range(1, k + 1):
             L, R = self.compute_L_R(x, t, d, m)
-- 
2.43.0


From 23c2cd1e5226f6716873568d379eee74a54c3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 51/53] fix: create the window for fitting on the device of the
 data

---
 ml4gw/transforms/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index d478c73..7aece75 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -58,7 +58,9 @@ class FittableSpectralTransform(FittableTransform):
                 overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
-            window = torch.hann_window(nperseg, dtype=torch.float64)
+            window = torch.hann_window(
+                nperseg, dtype=torch.float64, device=x.device
+            )
             scale = 1.0 / (sample_rate * (window**2).sum())
             x = spectral_density(
                 x,
-- 
2.43.0


From f1f51dc22a2358c91ddde1b7702ad099977e3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 52/53] fix: move loaded chunks to the requested device

---
 ml4gw/dataloading/chunked_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 69aebaf..b2a7b62 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -62,7 +62,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
 
     def __iter__(self) -> WaveformTensor:
         it = iter(self.chunk_it)
-        chunk = next(it)
+        chunk = next(it).to(self.device)
         num_chunks, num_channels, chunk_size = chunk.shape
 
         # if we're sampling coincidentally, we only need
@@ -133,7 +133,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 yield chunk[chunk_idx]
 
             try:
-                chunk = next(it)
+                chunk = next(it).to(self.device)
             except StopIteration:
                 break
             num_chunks, num_channels, chunk_size = chunk.shape
-- 
2.43.0


From 22b367d836e27d8af7763cb6b35c959f6bd917cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:36 +0000
Subject: [PATCH 53/53] fix: let a Q-transform be copied after a differentiable
 call

---
 ml4gw/transforms/qtransform.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index a16bc2b..59faff0 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -252,6 +252,13 @@ class SingleQTransform(torch.nn.Module):
         if self.interpolation_method == "spline":
             self._set_up_spline_interp()
 
+    def __getstate__(self):
+        # tensors with a gradient history can't be copied
+        state = self.__dict__.copy()
+        if state["qtiles"] is not None:
+            state["qtiles"] = [qtile.detach() for qtile in state["qtiles"]]
+        return state
+
     def _set_up_spline_interp(self):
         ntiles = [qtile.ntiles() for qtile in self.qtile_transforms]
         # For efficiency, we'll stack all qtiles of the same length before
-- 
2.43.0

