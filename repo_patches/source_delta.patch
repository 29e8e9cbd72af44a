From 083a189d4eca79608bfe47f39b6f7ebeb9c29a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 001/105] fix: convert_degrees accepts scalars in tidal mode,
 as documented

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..f9dbb6c 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -342,5 +342,5 @@ def convert_degrees(deg, tidal_mode=True):
     """
     out = -(deg - 90) % 360
     if tidal_mode:
-        out[out > 180] -= 360
+        out = out - 360 * (out > 180)
     return out
-- 
2.43.0


From 5131cc14894682992dc4450f05c7b6e866ed1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 002/105] fix: set_inst2head_rotmat refuses an invalid matrix
 before modifying the dataset

---
 dolfyn/rotate/api.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index eb5b38f..cde1338 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -2,7 +2,7 @@ from . import vector as r_vec
 from . import awac as r_awac
 from . import signature as r_sig
 from . import rdi as r_rdi
-from .base import _make_model
+from .base import _make_model, _check_rotmat_det
 import numpy as np
 import xarray as xr
 import warnings
@@ -295,12 +295,19 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
         raise Exception(
             "You are setting 'inst2head_rotmat' after it has already "
             "been set. You can only set it once.")
+    # Validate before touching the dataset, so that a refused matrix leaves
+    # it unchanged.
+    rotmat = np.array(rotmat)
+    if rotmat.shape != (3, 3):
+        raise ValueError("Invalid inst2head_rotmat (shape must be (3, 3)).")
+    if not _check_rotmat_det(rotmat):
+        raise ValueError("Invalid inst2head_rotmat (determinant != 1).")
 
     csin = ds.coord_sys
     if csin not in ['inst', 'beam']:
         rotate2(ds, 'inst', inplace=True)
 
-    ds['inst2head_rotmat'] = xr.DataArray(np.array(rotmat),
+    ds['inst2head_rotmat'] = xr.DataArray(rotmat,
                                           dims=['x1', 'x2'],
                                           coords={'x1': [1, 2, 3],
                                                   'x2': [1, 2, 3]},
-- 
2.43.0


From 32784f02f8a4dfaea22d22d41ad13114625317e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 003/105] fix: group() keeps the segment starts when the array
 begins with True

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index f9dbb6c..3ff5591 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -87,7 +87,7 @@ def group(bl, min_length=0):
         if len(ups) == 0:
             ups = np.array([0])
         else:
-            ups = np.concatenate((np.array([0]), [len(ups)]))
+            ups = np.concatenate(([0], ups))
     if bl[-1]:
         if len(dns) == 0:
             dns = np.array([len(bl)])
-- 
2.43.0


From 725effc1e468743aeaa4914201320de5de904fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 004/105] fix: phase_angle compares both signals in every
 ensemble

---
 dolfyn/tools/psd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5ac4d4f..9b62842 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -414,6 +414,8 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     :func:`cpsd`
     """
 
+    l = len(a)
+    step, nens, nfft = stepsize(l, nfft, step=step)
     window = _getwindow(window, nfft)
     fft_inds = slice(1, int(nfft / 2. + 1))
     s1 = fft(detrend(a[0:nfft]) * window)[fft_inds]
@@ -421,13 +423,11 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     s1 /= np.abs(s1)
     s2 /= np.abs(s2)
     ang = s2 / s1
-    l = len(a)
-    step, nens, nfft = stepsize(l, nfft, step=step)
     if nens - 1:
         for i in range(step, l - nfft + 1, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
-            s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
+            s2 = fft(detrend(b[i:(i + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
     ang /= nens
-- 
2.43.0


From 99871b6d410d39d63d6c36dd78f28ac113adb92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 005/105] fix: spectra are normalized by the number of
 ensembles actually averaged

---
 dolfyn/tools/psd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 9b62842..ca6b4ed 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -227,12 +227,14 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     wght = 2. / (window ** 2).sum()
     pwr = fft(detrend(a[0:nfft]) * window)[fft_inds] * \
         np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
+    n_avg = 1
     if nens - 1:
         for i1, i2 in zip(range(step[0], l[0] - nfft + 1, step[0]),
                           range(step[1], l[1] - nfft + 1, step[1])):
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
-    pwr *= wght / nens / fs
+            n_avg += 1
+    pwr *= wght / n_avg / fs
     return pwr
 
 
@@ -310,6 +312,7 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
         pwr = np.abs(s1) ** 2
     else:
         pwr = s1 * np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
+    n_avg = 1
     if nens - 1:
         for i in range(step, l - nfft + 1, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
@@ -318,7 +321,8 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
             else:
                 pwr += s1 * \
                     np.conj(fft(detrend(b[i:(i + nfft)]) * window)[fft_inds])
-    pwr *= wght / nens / fs
+            n_avg += 1
+    pwr *= wght / n_avg / fs
     return pwr
 
 
@@ -423,6 +427,7 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     s1 /= np.abs(s1)
     s2 /= np.abs(s2)
     ang = s2 / s1
+    n_avg = 1
     if nens - 1:
         for i in range(step, l - nfft + 1, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
@@ -430,5 +435,6 @@ def phase_angle(a, b, nfft, window='hann', step=None):
             s2 = fft(detrend(b[i:(i + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
-    ang /= nens
+            n_avg += 1
+    ang /= n_avg
     return ang
-- 
2.43.0


From feda1f6acc6ae41eeb87b7c5c37ceb1ff042adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 006/105] fix: coherence removes the noise level in the units
 of its spectra (fs=1)

---
 dolfyn/tools/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index ca6b4ed..fe7c623 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -143,8 +143,8 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     # fs=1 is ok because it comes out in the normalization.  (noise
     # normalization depends on this)
     out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
-           ((psd(a, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
-            (psd(b, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
+           ((psd(a, nfft, 1, window=window, step=step1) - 2 * noise[0] ** 2) *
+            (psd(b, nfft, 1, window=window, step=step2) - 2 * noise[1] ** 2))
            )
     if debias:
         # This is from Benignus1969, it seems to work (make data with different
-- 
2.43.0


From 06d77657451100649a9824eeebd7541ce0b094d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 007/105] fix: cpsd_quasisync keeps the sign of the phase when
 the first signal is longer

---
 dolfyn/tools/psd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index fe7c623..3333808 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -216,8 +216,7 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     if l[0] == l[1]:
         return cpsd(a, b, nfft, fs, window=window)
     elif l[0] > l[1]:
-        a, b = b, a
-        l = l[::-1]
+        return np.conj(cpsd_quasisync(b, a, nfft, fs, window=window))
     step = [0, 0]
     step[0], nens, nfft = stepsize(l[0], nfft)
     step[1], nens, nfft = stepsize(l[1], nfft, nens=nens)
-- 
2.43.0


From a4ed4b6214ff76d56127d9fe42edce19fd0ef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 008/105] fix: coherence keeps each noise level with its own
 signal

---
 dolfyn/tools/psd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 3333808..ab5ac22 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -125,6 +125,10 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     and auto spectral densities of the signal `a` and `b`.
     """
 
+    if noise.__class__ not in [list, tuple, np.ndarray]:
+        noise = [noise, noise]
+    elif len(noise) == 1:
+        noise = [noise[0], noise[0]]
     l = [len(a), len(b)]
     cross = cpsd_quasisync
     if l[0] == l[1]:
@@ -132,12 +136,9 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     elif l[0] > l[1]:
         a, b = b, a
         l = l[::-1]
+        noise = noise[::-1]
     step1, nens, nfft = stepsize(l[0], nfft)
     step2, nens, nfft = stepsize(l[1], nfft, nens=nens)
-    if noise.__class__ not in [list, tuple, np.ndarray]:
-        noise = [noise, noise]
-    elif len(noise) == 1:
-        noise = [noise[0], noise[0]]
     if nens <= 2:
         raise Exception("Coherence must be computed from a set of ensembles.")
     # fs=1 is ok because it comes out in the normalization.  (noise
-- 
2.43.0


From d88b0df79f34bdc888589b5307dec01a4076a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 009/105] fix: per-call n_bin, n_fft and n_fft_coh overrides
 apply to data and coordinates alike

---
 dolfyn/adv/turbulence.py |  4 ++--
 dolfyn/binned.py         | 32 +++++++++++++++++---------------
 dolfyn/velocity.py       | 23 ++++++++++++-----------
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 1f4ccae..b84262b 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -127,8 +127,8 @@ class ADVBinner(VelBinner):
         """
 
         fs_in = self._parse_fs(fs)
-        n_fft = self._parse_nfft_coh(n_fft_coh)
-        time = self.mean(veldat.time.values)
+        n_fft = self._parse_nfft_coh(n_fft_coh, n_bin)
+        time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
             raise Exception("This function is only valid for calculating TKE using "
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d61e935..f88dcc6 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -55,8 +55,8 @@ class TimeBinner:
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
         """Returns `outshape` (the fft 'reshape'd shape) for an `inshape` array.
         """
-        n_fft = self._parse_nfft(n_fft)
         n_bin = self._parse_nbin(n_bin)
+        n_fft = self._parse_nfft(n_fft, n_bin)
         return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_fft // 2)]
 
     def _parse_fs(self, fs=None):
@@ -69,20 +69,22 @@ class TimeBinner:
             return self.n_bin
         return n_bin
 
-    def _parse_nfft(self, n_fft=None):
+    def _parse_nfft(self, n_fft=None, n_bin=None):
+        n_bin = self._parse_nbin(n_bin)
         if n_fft is None:
-            return self.n_fft
-        if n_fft > self.n_bin:
-            n_fft = self.n_bin
+            n_fft = self.n_fft
+        if n_fft > n_bin:
+            n_fft = n_bin
             warnings.warn(
                 "n_fft must be smaller than n_bin, setting n_fft = n_bin")
         return n_fft
 
-    def _parse_nfft_coh(self, n_fft_coh=None):
+    def _parse_nfft_coh(self, n_fft_coh=None, n_bin=None):
+        n_bin = self._parse_nbin(n_bin)
         if n_fft_coh is None:
-            return self.n_fft_coh
-        if n_fft_coh > self.n_bin:
-            n_fft_coh = int(self.n_bin)
+            n_fft_coh = self.n_fft_coh
+        if n_fft_coh > n_bin:
+            n_fft_coh = int(n_bin)
             warnings.warn("n_fft_coh must be smaller than or equal to n_bin, "
                           "setting n_fft_coh = n_bin")
         return n_fft_coh
@@ -141,7 +143,7 @@ class TimeBinner:
                 o_attrs[ky] = props[ky]
         return out_ds
 
-    def _new_coords(self, array):
+    def _new_coords(self, array, n_bin=None):
         """Function for setting up a new xarray.DataArray regardless of how 
         many dimensions the input data-array has
         """
@@ -154,7 +156,7 @@ class TimeBinner:
         for ky in dims:
             dims_list.append(ky)
             if 'time' in ky:
-                coords_dict[ky] = self.mean(array.time.values)
+                coords_dict[ky] = self.mean(array[ky].values, n_bin=n_bin)
             else:
                 coords_dict[ky] = array.coords[ky].values
 
@@ -391,12 +393,12 @@ class TimeBinner:
 
         fs = self._parse_fs(fs)
         n_bin = self._parse_nbin(n_bin)
-        n_fft = self._parse_nfft(n_fft)
+        n_fft = self._parse_nfft(n_fft, n_bin)
         if n_pad is None:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
         # The data is detrended in psd, so we don't need to do it here.
-        dat = self.reshape(dat, n_pad=n_pad)
+        dat = self.reshape(dat, n_pad=n_pad, n_bin=n_bin)
 
         for slc in slice1d_along_axis(dat.shape, -1):
             out[slc] = psd(dat[slc], n_fft, fs,
@@ -454,8 +456,8 @@ class TimeBinner:
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
 
         # The data is detrended in psd, so we don't need to do it here:
-        dat1 = self.reshape(dat1, n_pad=n_fft)
-        dat2 = self.reshape(dat2, n_pad=n_fft)
+        dat1 = self.reshape(dat1, n_pad=n_fft, n_bin=n_bin1)
+        dat2 = self.reshape(dat2, n_pad=n_fft, n_bin=n_bin2)
         out = np.empty(oshp, dtype='c{}'.format(dat1.dtype.itemsize * 2))
         if dat1.shape == dat2.shape:
             cross = cpsd
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c647c0d..6040605 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -698,10 +698,10 @@ class VelBinner(TimeBinner):
                                  window=window, debias=debias,
                                  noise=noise)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -774,10 +774,10 @@ class VelBinner(TimeBinner):
             out[slc] = phase_angle(dat1[slc], dat2[slc], n_fft,
                                    window=window)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -820,11 +820,11 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2)
+        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-        dt2 = self.demean(indat)
+        dt2 = self.demean(indat, n_bin=n_bin)
         se = slice(int(n_bin // 4) - 1, None, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
@@ -839,7 +839,7 @@ class VelBinner(TimeBinner):
                 # For the others we take the average of the two sides.
                 out[slc] = (tmp[se] + tmp[sb]) / 2
 
-        dims_list, coords_dict = self._new_coords(veldat)
+        dims_list, coords_dict = self._new_coords(veldat, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('lag')
         coords_dict['lag'] = np.arange(n_bin//4)
@@ -908,7 +908,7 @@ class VelBinner(TimeBinner):
                     self.std(dat2, n_bin=n_bin2)[..., :shp[-2]] *
                     n_bin2)[..., None]
 
-        dims_list, coords_dict = self._new_coords(veldat1)
+        dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
         coords_dict['dt'] = np.arange(npt)
@@ -1086,7 +1086,7 @@ class VelBinner(TimeBinner):
         """
 
         fs_in = self._parse_fs(fs)
-        n_fft = self._parse_nfft(n_fft)
+        n_fft = self._parse_nfft(n_fft, n_bin)
         if 'xarray' in type(veldat).__module__:
             vel = veldat.values
         if 'xarray' in type(noise).__module__:
@@ -1134,7 +1134,7 @@ class VelBinner(TimeBinner):
                                               n_fft=n_fft,
                                               step=step)
             coords = {'S': self.S,
-                      'time': self.mean(veldat['time'].values),
+                      'time': self.mean(veldat['time'].values, n_bin=n_bin),
                       'freq': freq}
             dims = ['S', 'time', 'freq']
         else:
@@ -1151,7 +1151,8 @@ class VelBinner(TimeBinner):
                                      n_pad=n_pad,
                                      n_fft=n_fft,
                                      step=step)
-            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values),
+            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values,
+                                                 n_bin=n_bin),
                       'freq': freq}
             dims = [veldat.dims[-1], 'freq']
 
-- 
2.43.0


From de846b832ea0a972ad4858dd1c75abae2a9b8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 010/105] fix: calc_acov works for every n_bin, not only
 multiples of 4

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 6040605..b23944e 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -825,7 +825,7 @@ class VelBinner(TimeBinner):
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
         dt2 = self.demean(indat, n_bin=n_bin)
-        se = slice(int(n_bin // 4) - 1, None, 1)
+        se = slice(int(n_bin // 4) - 1, 2 * int(n_bin // 4) - 1, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
             tmp = np.correlate(dt1[slc], dt2[slc], 'valid')
-- 
2.43.0


From 0a8408c65a5c75a86037fa04df48ab8aa5d8c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 011/105] fix: calc_xcov labels each lag with the lag computed

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index b23944e..c1fca09 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -911,7 +911,7 @@ class VelBinner(TimeBinner):
         dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
-        coords_dict['dt'] = np.arange(npt)
+        coords_dict['dt'] = np.arange(npt) - (npt - 1) // 2
 
         da = xr.DataArray(out.astype('float32'),
                           coords=coords_dict,
-- 
2.43.0


From 20bbed6ccbc0b42c18424fdee0d9088f386b2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 012/105] fix: calc_ti masks the bins below its threshold

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c1fca09..25a33c3 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -961,7 +961,7 @@ class VelBinner(TimeBinner):
                 coords[nm] = U_mag[nm].values
 
         return xr.DataArray(
-            ti.data.astype('float32'),
+            ti.filled(np.nan).astype('float32'),
             coords=coords,
             dims=dims,
             attrs={'units': '% [0,1]',
-- 
2.43.0


From f67bfcfbb5918a810b6e1861364ac7fde4b200a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 013/105] fix: ADVBinner does not remove attributes from the
 caller's dataset

---
 dolfyn/adv/turbulence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index b84262b..c950128 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -39,10 +39,8 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        for key in list(ds.attrs.keys()):
-            if 'config' in key:
-                ds.attrs.pop(key)
-        out.attrs = ds.attrs
+        out.attrs = {key: val for key, val in ds.attrs.items()
+                     if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
         out.attrs['n_fft_coh'] = self.n_fft_coh
-- 
2.43.0


From 5ac3759b4142e36afb9aa7b32479297d77c6e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 014/105] fix: calc_epsilon_LT83 removes noise in the units of
 the spectrum and accepts single-component spectra

---
 dolfyn/adv/turbulence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index c950128..df876f7 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -353,12 +353,13 @@ class ADVBinner(VelBinner):
                 raise Exception(
                     'Noise should have same first dimension as velocity')
         else:
-            noise = np.array([0, 0, 0])[:, None, None]
+            noise = 0
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
+        fs = self.fs if psd.freq.units == 'Hz' else 2 * np.pi * self.fs
         psd = psd.copy()
         if noise is not None:
-            psd -= (noise**2 / (self.fs / 2))
+            psd -= (noise**2 / (fs / 2))
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From 09dac9b44a053cfd8d83b6a2ec4c4bb2368d5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:28 +0000
Subject: [PATCH 015/105] fix: detrend fits the line through the valid samples
 only

---
 dolfyn/tools/misc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 3ff5591..fea3415 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -47,6 +47,10 @@ def detrend(arr, axis=-1, in_place=False):
     sz = np.ones(arr.ndim, dtype=int)
     sz[axis] = arr.shape[axis]
     x = np.arange(sz[axis], dtype=np.float_).reshape(sz)
+    nan = np.isnan(arr)
+    if nan.any():
+        # the fit is over the valid points only
+        x = np.where(nan, np.nan, x)
     x -= np.nanmean(x, axis=axis, keepdims=True)
     arr -= np.nanmean(arr, axis=axis, keepdims=True)
     b = np.nanmean((x * arr), axis=axis, keepdims=True) / \
-- 
2.43.0


From 0fea9c2655c5e072d910a3d4a031b76c01225c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:28 +0000
Subject: [PATCH 016/105] fix: epoch2dt64 converts times before 1970 correctly

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..8983b46 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 9976036d8e2e9cf2176ef21b1e8bf74856b5757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 017/105] fix: bins of the two signals of a cross-statistic are
 not off by one through rounding

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index f88dcc6..3ccf21d 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -450,7 +450,7 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 25a33c3..5f5b400 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -683,7 +683,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -759,7 +759,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -885,7 +885,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
-- 
2.43.0


From cf5a75a41bd2304cd4356fa874fc2f5dea7e0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 018/105] fix: calc_acov works for n_bin=5

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 5f5b400..bf759d9 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -820,7 +820,7 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
+        dt1 = self.reshape(indat, n_pad=int(n_bin / 2 - 2), n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-- 
2.43.0


From 88d02ef085c7ef6ffa5527a955b327fd3dbd1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 019/105] fix: calc_dudz works for down-looking instruments

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 5ff46e0..1c953cd 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -99,8 +99,8 @@ class ADPBinner(VelBinner):
         if orientation == 'down':
             sign *= -1
 
-        dudz, rng = sign*self._diff_func(vel, 0)
-        return xr.DataArray(dudz,
+        dudz, rng = self._diff_func(vel, 0)
+        return xr.DataArray(sign*dudz,
                             coords=[rng, vel.time],
                             dims=['range', 'time'],
                             attrs={'units': 's-1',
-- 
2.43.0


From 6f4124e03f627027098d53129eae26d51653e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 020/105] fix: calc_dissipation_LT83 removes noise in the units
 of the spectrum

---
 dolfyn/adp/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 1c953cd..6879c83 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -643,9 +643,10 @@ class ADPBinner(VelBinner):
             noise = np.array(0)
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
+        fs = self.fs if psd.freq.units == 'Hz' else 2 * np.pi * self.fs
         psd = psd.copy()
         if noise is not None:
-            psd -= noise**2 / (self.fs / 2)
+            psd -= noise**2 / (fs / 2)
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From d216d34fc080ca4ef7d768801ce315b899127ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 021/105] fix: calc_dissipation_SF fits r^(2/3) and does not
 skip separations through rounding

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 6879c83..a002651 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -750,7 +750,7 @@ class ADPBinner(VelBinner):
         for r_value in r:
             # the i in d is the index based on r and bin size
             # bin size index, > 1
-            i = int(r_value/bin_size)
+            i = int(round(r_value/bin_size))
             for idx in range(bm.shape[1]):  # for each ensemble
                 # subtract the variance of adjacent depth cells
                 d = np.nanmean(
@@ -768,7 +768,7 @@ class ADPBinner(VelBinner):
             for i in range(D.shape[1], D.shape[0]):
                 # average ensembles together
                 if not all(np.isnan(D[i, R:, idx])):  # if no nan's
-                    e[i, idx], n[i, idx] = np.polyfit(r[R:] ** 2/3,
+                    e[i, idx], n[i, idx] = np.polyfit(r[R:] ** (2/3),
                                                       D[i, R:, idx],
                                                       deg=1)
                 else:
-- 
2.43.0


From 8d1ad3cc0d3603eab90ca9ee671797d879354921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 022/105] fix: calc_stress_5beam evaluates the equations of
 Guerra & Thomson (2017)

---
 dolfyn/adp/turbulence.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index a002651..cceec6d 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -475,14 +475,14 @@ class ADPBinner(VelBinner):
         upup_ = (-2*sin(th)**4*cos(th)**2*(bp2_[1]+bp2_[0]-2*cos(th)**2*bp2_[4]) +
                  2*sin(th)**5*cos(th)*phi3*(bp2_[1]-bp2_[0])) / denm
 
-        vpvp_ = (-2*sin(th)**4*cos(th)**2*(bp2_[3]+bp2_[0]-2*cos(th)**2*bp2_[4]) -
+        vpvp_ = (-2*sin(th)**4*cos(th)**2*(bp2_[3]+bp2_[2]-2*cos(th)**2*bp2_[4]) -
                  2*sin(th)**4*cos(th)**2*phi3*(bp2_[1]-bp2_[0]) +
                  2*sin(th)**3*cos(th)**3*phi3*(bp2_[1]-bp2_[0]) -
                  2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2])) / denm
 
-        wpwp_ = (-2*sin(th)**5*cos(th) *
-                 (bp2_[1]-bp2_[0] + 2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2]) -
-                  4*sin(th)**6*cos(th)**2*bp2_[4])) / denm
+        wpwp_ = (-2*sin(th)**5*cos(th)*phi3*(bp2_[1]-bp2_[0]) +
+                 2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2]) -
+                 4*sin(th)**6*cos(th)**2*bp2_[4]) / denm
 
         tke_vec = xr.DataArray(
             np.stack([upup_, vpvp_, wpwp_]).astype('float32'),
@@ -504,14 +504,14 @@ class ADPBinner(VelBinner):
                                dtype=np.float64).astype(np.float32)
 
             upwp_ = (sin(th)**5*cos(th)*(bp2_[1]-bp2_[0]) +
-                     2*sin(th)**4*cos(th)*2*phi3*(bp2_[1]+bp2_[0]) -
-                     4*sin(th)**4*cos(th)*2*phi3*bp2_[4] -
-                     4*sin(th)**6*cos(th)*2*phi2*upvp_) / denm
+                     2*sin(th)**4*cos(th)**2*phi3*(bp2_[1]+bp2_[0]) -
+                     4*sin(th)**4*cos(th)**2*phi3*bp2_[4] -
+                     4*sin(th)**6*cos(th)**2*phi2*upvp_) / denm
 
             vpwp_ = (sin(th)**5*cos(th)*(bp2_[3]-bp2_[2]) -
-                     2*sin(th)**4*cos(th)*2*phi2*(bp2_[3]+bp2_[2]) +
-                     4*sin(th)**4*cos(th)*2*phi2*bp2_[4] +
-                     4*sin(th)**6*cos(th)*2*phi3*upvp_) / denm
+                     2*sin(th)**4*cos(th)**2*phi2*(bp2_[3]+bp2_[2]) +
+                     4*sin(th)**4*cos(th)**2*phi2*bp2_[4] +
+                     4*sin(th)**6*cos(th)**2*phi3*upvp_) / denm
 
             stress_vec = xr.DataArray(
                 np.stack([upvp_, upwp_, vpwp_]).astype('float32'),
-- 
2.43.0


From a0a0a174da9e71202bfdf06ea382f33042398640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 023/105] fix: the beam_angle argument of the stress functions
 is honoured

---
 dolfyn/adp/turbulence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index cceec6d..dfaa5ce 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -251,7 +251,9 @@ class ADPBinner(VelBinner):
         """List of error and warnings to run through for ADCP stress calculations.
         """
         # Error 1. Beam Angle
-        b_angle = getattr(ds, 'beam_angle', beam_angle)
+        b_angle = beam_angle
+        if b_angle is None:
+            b_angle = getattr(ds, 'beam_angle', None)
         if b_angle is None:
             raise Exception(
                 "    Beam angle not found in dataset and no beam angle supplied.")
-- 
2.43.0


From c6fc85ccc6483082c7340684c0645562fae2850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 024/105] fix: calc_epsilon_TE01 converts spectra given in Hz

---
 dolfyn/adv/turbulence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index df876f7..d24fcf7 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -508,6 +508,8 @@ class ADVBinner(VelBinner):
         theta = np.angle(dat_avg.velds.U.values) - \
             self._up_angle(dat_raw.velds.U.values)
         freq = dat_avg['psd'].freq.values
+        if dat_avg['psd'].freq.units == 'Hz':
+            U_mag = U_mag / (2 * np.pi)
 
         # Calculate constants
         alpha = 1.5
-- 
2.43.0


From b15a09530efd5a9194d4c13dd2192ef10587bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 025/105] fix: E_coh works for the stress profiles of an ADCP

---
 dolfyn/velocity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index bf759d9..a901618 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -363,8 +363,8 @@ class Velocity():
 
         return xr.DataArray(
             E_coh.astype('float32'),
-            coords={'time': self.ds['stress_vec'].time},
-            dims=['time'],
+            coords=E_coh.coords,
+            dims=E_coh.dims,
             attrs={'units': self.ds['stress_vec'].units,
                    'long_name': 'Coherent Turbulence Energy'})
 
-- 
2.43.0


From bc2ed9f42fde278b085699e4113bed69ce96acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 026/105] fix: epoch2dt64 accepts a single time element, as
 documented

---
 dolfyn/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 8983b46..ef68ed2 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,6 +26,8 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
+    if np.isscalar(ep_time):
+        ep_time = np.float64(ep_time)
     out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
-- 
2.43.0


From ba1b493b6ebe4b1aa0784b6b8d6c5a7337fb6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 027/105] fix: correct_motion refuses a duty cycle whose
 interval is not the recorded one

---
 dolfyn/adv/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 943e0bd..1918522 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -102,7 +102,7 @@ class CalcMotion():
         mean = actual_interval.mean()
         # Range will vary depending on how datetime64 rounds the timestamp
         # But isn't an issue if it does
-        if rng > 2 or (mean > interval+1 and mean < interval-1):
+        if rng > 2 or mean > interval+1 or mean < interval-1:
             raise Exception("Bad duty cycle detected")
 
         # If this passes, it means we're safe to blindly skip n_burst for every integral
-- 
2.43.0


From 4108af0e6ce0fdc068c44336f5efee7b876d0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 028/105] fix: correct_motion(separate_probes=True) rotates the
 velocity components, not the probes

---
 dolfyn/adv/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 1918522..c5147ea 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -444,7 +444,8 @@ def correct_motion(ds,
         rmat = ds['inst2head_rotmat']
 
         # 1) Rotate body-coordinate velocities to head-coord.
-        velrot = np.dot(rmat, velrot)
+        #    (velrot is (3 components, 3 probes, time))
+        velrot = np.einsum('ij,j...->i...', rmat, velrot)
         # 2) Rotate body-coord to beam-coord (einsum),
         # 3) Take along beam-component (diagonal),
         # 4) Rotate back to head-coord (einsum),
-- 
2.43.0


From f0a659f45fa3ec95d6124d4789bc0a8af2b2173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 029/105] fix: fill_nan_ensemble_mean accepts the sampling rate
 the readers report and single-row data

---
 dolfyn/adv/clean.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index dacb9f7..55ce3bb 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -139,7 +139,7 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
     """
 
     u = u.where(~mask)
-    bnr = VelBinner(n_bin=window*fs, fs=fs)
+    bnr = VelBinner(n_bin=int(round(window*fs)), fs=fs)
 
     if len(u.shape) == 1:
         var = u.values[None, :]
@@ -177,9 +177,9 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
         vel[i] = np.ravel(vel_filled[i], 'C')
 
     if diff:  # Trim off the extra means
-        u.values = np.squeeze(vel[:, :-extra_nans])
+        u.values = vel[:, :-extra_nans].reshape(u.shape)
     else:
-        u.values = np.squeeze(vel)
+        u.values = vel.reshape(u.shape)
 
     return u
 
-- 
2.43.0


From 64dc29694e73efd1276c1e23a8e6a9d2f9153ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 030/105] fix: nan_beyond_surface takes a given beam_angle in
 degrees, like the attribute

---
 dolfyn/adp/clean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 939aa22..a29cfe5 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -188,7 +188,7 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
     val : nan or numeric (default: np.nan)
       Specifies the value to set the bad values to
     beam_angle : int (default: dataset.attrs['beam_angle'])
-      ADCP beam inclination angle
+      ADCP beam inclination angle, in degrees
     inplace : bool (default: False)
       When True the existing data object is modified. When False
       a copy is returned.
@@ -213,10 +213,11 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
 
     if beam_angle is None:
         if hasattr(ds, 'beam_angle'):
-            beam_angle = ds.beam_angle * (np.pi/180)
+            beam_angle = ds.beam_angle
         else:
             raise Exception("'beam_angle` not found in dataset attributes. "
                             "Please supply the ADCP's beam angle.")
+    beam_angle = beam_angle * (np.pi/180)
 
     # Surface interference distance calculated from distance of transducers to surface
     if hasattr(ds, 'h_deploy'):
-- 
2.43.0


From bf5142be641eea9fcd07297a4d9ac0f348e949d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 031/105] fix: find_surface applies its threshold to every
 ping, near the echo maximum, for any number of cells

---
 dolfyn/adp/clean.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index a29cfe5..04c7c66 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -76,8 +76,7 @@ def find_surface(ds, thresh=10, nfilt=None):
     # the echo profile
     edf = np.diff(ds.amp.values.astype(np.int16), axis=1)
     inds2 = np.max((edf < 0) *
-                   np.arange(ds.vel.shape[1] - 1,
-                             dtype=np.uint8)[None, :, None], axis=1) + 1
+                   np.arange(ds.vel.shape[1] - 1)[None, :, None], axis=1) + 1
 
     # Calculate the depth of these quantities
     d1 = ds.range.values[inds]
@@ -88,9 +87,10 @@ def find_surface(ds, thresh=10, nfilt=None):
     d = np.median(D, axis=0)
 
     # Throw out values that do not increase near the surface by *thresh*
-    for ip in range(ds.vel.shape[1]):
-        itmp = np.min(inds[:, ip])
-        if (edf[itmp:, :, ip] < thresh).all():
+    for ip in range(ds.vel.shape[-1]):
+        # the step up to the (first) maximum and those beyond it
+        itmp = max(np.min(inds[:, ip]) - 1, 0)
+        if (edf[:, itmp:, ip] < thresh).all():
             d[ip] = np.NaN
 
     if nfilt:
-- 
2.43.0


From a01377e4e20e625be49f65d0307958343b817594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 032/105] fix: nan_beyond_surface blanks each variable along
 its own range coordinate

---
 dolfyn/adp/clean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 04c7c66..d340dc2 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -226,8 +226,6 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
     else:
         range_limit = ds.depth * np.cos(beam_angle) - ds.cell_size
 
-    bds = ds.range > range_limit
-
     # Echosounder data needs only be trimmed at water surface
     if 'echo' in var:
         bds_echo = ds.range_echo > ds.depth
@@ -237,6 +235,9 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
     # Correct rest of "range" data for surface interference
     for nm in var:
         a = ds[nm].values
+        # Variables of the fifth beam or other streams have their own range
+        rng = [s for s in ds[nm].dims if 'range' in s][0]
+        bds = (ds[rng] > range_limit).values
         try:  # float dtype
             a[..., bds] = val
         except:  # int dtype
-- 
2.43.0


From fec096e5c6e8f6b504831e207d3828fd08f0c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 033/105] fix: save does not change the caller's dataset

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..e3c1e96 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # Everything below changes the dataset, which belongs to the caller
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
-- 
2.43.0


From 9ad50dde09eaaa6b7ba8df0c40cc8e658ecd0b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 034/105] fix: the encoding argument of save takes precedence,
 as documented

---
 dolfyn/io/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index e3c1e96..8a08026 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,7 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
+    user_enc = kwargs.get('encoding') or {}
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -195,9 +194,11 @@ def save(ds, filename,
 
         if compression:
             # New netcdf4-c cannot compress variable length strings
-            if ds[ky].size <= 1 or isinstance(ds[ky].data[0], str):
-                continue
-            enc[ky].update(dict(zlib=True, complevel=1))
+            if ds[ky].size > 1 and not isinstance(ds[ky].data[0], str):
+                enc[ky].update(dict(zlib=True, complevel=1))
+
+        # The caller's encoding takes precedence
+        enc[ky].update(user_enc.get(ky, {}))
 
     kwargs['encoding'] = enc
 
-- 
2.43.0


From 5534b9c123623d59f94669aa472ee4d79dd4fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 035/105] fix: load restores the attributes of complex
 variables, whatever their names

---
 dolfyn/io/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 8a08026..90016eb 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -242,10 +242,11 @@ def load(filename):
     # Rejoin complex numbers
     if hasattr(ds, 'complex_vars'):
         if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
+            if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
+                ds[var].attrs = ds[var + '_real'].attrs
                 ds = ds.drop_vars([var + '_real', var + '_imag'])
 
         ds.attrs.pop('complex_vars')
-- 
2.43.0


From 565b43baf35baa4e2fd93fb12e52a8f302869d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:44 +0000
Subject: [PATCH 036/105] fix: a dataset loaded from a compressed file can be
 saved again

---
 dolfyn/io/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 90016eb..e4f2850 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -189,7 +189,8 @@ def save(ds, filename,
         enc[ky] = ds[ky].encoding
         # Remove unexpected netCDF4 encoding parameters
         # https://github.com/pydata/xarray/discussions/5709
-        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes']
+        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes',
+                  'preferred_chunks']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
         if compression:
-- 
2.43.0


From 42db61df0d554e04639912fa926737c1714784d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 037/105] fix: save_mat never changes the caller's dataset

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index e4f2850..85173b1 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -288,6 +288,9 @@ def save_mat(ds, filename, datenum=True):
 
     filename = _check_file_ext(filename, 'mat')
 
+    # Everything below changes the dataset, which belongs to the caller
+    ds = ds.copy()
+
     # Convert time to datenum
     t_coords = [t for t in ds.coords if np.issubdtype(
         ds[t].dtype, np.datetime64)]
-- 
2.43.0


From 6115410a8d761e85cd547525b21e577811ceb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 038/105] fix: load_mat keeps the attributes of time
 coordinates

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 85173b1..7f6050c 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -390,7 +390,7 @@ def load_mat(filename, datenum=True):
     if hasattr(ds, 'time_coords'):
         for ky in ds.attrs['time_coords']:
             dt = date2dt64(func(ds[ky].values))
-            ds = ds.assign_coords({ky: dt})
+            ds = ds.assign_coords({ky: (ky, dt, ds[ky].attrs)})
         ds.attrs.pop('time_coords')
     if hasattr(ds, 'time_data_vars'):
         for ky in ds.attrs['time_data_vars']:
-- 
2.43.0


From 4adb5847bc3f55031f0fe00a4a24bd86c14c3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 039/105] fix: 2-D profiles of the fifth beam keep their
 dimensions in load_mat

---
 dolfyn/io/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..260d7bd 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -196,6 +196,10 @@ def _create_dataset(data):
                 elif key == 'samp_altraw_avg':
                     ds_dict[key] = {"dims": ("n_altraw_avg", "time_altraw_avg"), "data": data['data_vars'][key]}
 
+                # profiles of the fifth beam, whatever their number of cells
+                elif key in ['vel_b5', 'amp_b5', 'corr_b5']:
+                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
+
                 # ADV/ADCP instrument vector data, bottom tracking
                 elif shp[0] == n_beams and not any(val in key for val in tag[:3]):
                     if 'bt' in key and 'time_bt' in data['coords']:
@@ -223,7 +227,7 @@ def _create_dataset(data):
 
                     ds_dict[key] = {"dims": ("dirIMU", "time" + tg), "data": data['data_vars'][key]}
 
-                elif 'b5' in tg:
+                elif 'b5' in key:
                     ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
 
             elif len(shp) == 3:  # 3D variables
-- 
2.43.0


From 9c204e14acfa2328157761b749ddec7cca3f1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 040/105] fix: RDI ensemble numbers beyond 65535 are decoded
 right

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..4376d19 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -840,7 +840,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * fd.read_ui8(1)
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From 34fd09b5a97d815bb008b151841c7c4d39c37918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 041/105] fix: RDI pressures below atmospheric are negative

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 4376d19..e988f92 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -878,7 +878,7 @@ class _RDIReader():
             if cfg['prog_ver'] >= 8.13:
                 # Added pressure sensor stuff in 8.13
                 fd.seek(2, 1)
-                ens.pressure[k] = fd.read_ui32(1) / 1000  # dPa to dbar
+                ens.pressure[k] = fd.read_i32(1) / 1000  # dPa to dbar
                 ens.pressure_std[k] = fd.read_ui32(1) / 1000
                 self._nbyte += 10
             if cfg['prog_ver'] >= 8.24:
-- 
2.43.0


From 01b93fc04e0294e11e4af42fae9f2cfe1d608406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 042/105] fix: the RDI reader does not fail on a recording cut
 within a header

---
 dolfyn/io/rdi_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..6f2d719 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -77,7 +77,8 @@ class bin_reader():
 
     def read(self, n, frmt):
         val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        # If val is empty or short we are at the end of the file.
+        if not val or len(val) < n * self._size_factor[frmt]:
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From 7f43302885c11fbf1134adf2edc34221c041fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 043/105] fix: a false RDI header pointing past the end of the
 file does not end the reading

---
 dolfyn/io/rdi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e988f92..0b3ef52 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -522,16 +522,20 @@ class _RDIReader():
         if self._debug_level > 1:
             logging.info("  ###In checkheader.")
         fd = self.f
+        pos = fd.tell()
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
         numbytes = fd.read_i16(1)
+        if numbytes is None:
+            return False
         if numbytes > 0:
             fd.seek(numbytes - 2, 1)
             cfgid = fd.read_ui8(2)
             if cfgid is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
+                fd.seek(pos, 0)
                 return False
             if len(cfgid) == 2:
                 fd.seek(-numbytes - 2, 1)
-- 
2.43.0


From b98836663931658e3d57fd12f2f311bf925206fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 044/105] fix: the RDI reader counts the ensembles in the file,
 so that none is lost to a low estimate

---
 dolfyn/io/rdi.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 0b3ef52..ed15c50 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -206,8 +206,8 @@ class _RDIReader():
 
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
-        space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        self.code_spacing()  # '0x7F'
+        self._npings = self.count_pings()
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -253,6 +253,19 @@ class _RDIReader():
         self._debug_level = debug_level
         return size
 
+    def count_pings(self,):
+        """
+        Returns the number of pings in the file, by going from header to header.
+        """
+        self.f.seek(self._pos, 0)
+        npings = 0
+        while self.search_buffer():
+            startpos = self.f.tell() - 2
+            nbyte = self.f.read_i16(1)
+            self.f.seek(startpos + nbyte + 2, 0)
+            npings += 1
+        return npings
+
     def read_hdr(self,):
         fd = self.f
         cfgid = list(fd.read_ui8(2))
-- 
2.43.0


From b28044715334b74af4b885aab3a2ad2551d99cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 045/105] fix: RDI ensembles do not inherit values absent from
 them from the previous ensemble

---
 dolfyn/io/rdi.py      | 2 ++
 dolfyn/io/rdi_defs.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index ed15c50..fb47f6f 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -437,8 +437,10 @@ class _RDIReader():
     def read_buffer(self,):
         fd = self.f
         self.ensemble.k = -1  # so that k+=1 gives 0 on the first loop.
+        self.ensemble.clear_data()
         if self._bb:
             self.ensembleBB.k = -1  # so that k+=1 gives 0 on the first loop.
+            self.ensembleBB.clear_data()
         self.print_progress()
         hdr = self.hdr
         while self.ensemble.k < self.ensemble.n_avg - 1:
diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 8c65812..5761dd2 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -185,5 +185,10 @@ class _ensemble():
                     np.zeros(_get_size(nm, n=navg, ncell=n_cells),
                              dtype=data_defs[nm][2]))
 
+    def clear_data(self,):
+        for nm in data_defs:
+            arr = self[nm]
+            arr[...] = np.NaN if arr.dtype.kind == 'f' else 0
+
     def clean_data(self,):
         self['vel'][self['vel'] == -32.768] = np.NaN
-- 
2.43.0


From 9228c6b610a724d34c0249aa1646b0ac3a207c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 046/105] fix: bad RDI bottom-track and surface-layer
 velocities are NaN, like the others

---
 dolfyn/io/rdi_defs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 5761dd2..ebd87a7 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -191,4 +191,5 @@ class _ensemble():
             arr[...] = np.NaN if arr.dtype.kind == 'f' else 0
 
     def clean_data(self,):
-        self['vel'][self['vel'] == -32.768] = np.NaN
+        for nm in ['vel', 'vel_bt', 'vel_sl']:
+            self[nm][self[nm] == -32.768] = np.NaN
-- 
2.43.0


From bcde004117d7fc0855f7948b0f385be77d924745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 047/105] fix: the RDI reader goes to the next ensemble by the
 length of this one, not of the first irregular one

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index fb47f6f..05ffa4b 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -605,7 +605,7 @@ class _RDIReader():
                     logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
                                   .format(offset, readbytes, self.hdr['nbyte']))
             self._fixoffset = offset - 4
-        fd.seek(4 + self._fixoffset, 1)
+        fd.seek(offset, 1)
 
     def remove_end(self, iens):
         dat = self.outd
-- 
2.43.0


From 587d956d9364c0f3a6ffcf3ae59876b256388779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 048/105] fix: the RDI reader skips data types it does not know
 instead of failing

---
 dolfyn/io/rdi.py | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 05ffa4b..a23a2b5 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1293,32 +1293,13 @@ class _RDIReader():
         self._nbyte = 2 + n_skip
 
     def read_nocode(self, id):
-        # Skipping bytes from codes 0340-30FC, commented if needed
-        hxid = hex(id)
-        if hxid[2:4] == '30':
-            logging.warning("Skipping bytes from codes 0340-30FC")
-            # I want to count the number of 1s in the middle 4 bits
-            # of the 2nd two bytes.
-            # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
-            # I want to count the number of 1s in the highest
-            # 2 bits of byte 3
-            # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
-            self.skip_Nbyte(12 * nflds * dfac)
-        else:
-            if self._debug_level >= 0:
-                logging.warning('  Unrecognized ID code: %0.4X' % id)
-            self.skip_nocode(id)
+        if self._debug_level >= 0:
+            logging.warning('  Unrecognized ID code: %0.4X' % id)
+        self.skip_nocode(id)
 
     def skip_nocode(self, id):
-        # Skipping bytes if ID isn't known
-        offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
-
-        self.skip_Nbyte(byte_len)
+        # Skipping bytes if ID isn't known: read_buffer goes to the next offset
+        self.skip_Nbyte(0)
         if self._debug_level >= 0:
             logging.debug(f"Skipping ID code {id}\n")
 
-- 
2.43.0


From 0c5d1783c560c1cbeb08d1a1643a1d29a2e80b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 049/105] fix: the sampling rate of VMDAS and WinRiver files is
 taken from their times, as intended

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index a23a2b5..6a85447 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1332,7 +1332,7 @@ class _RDIReader():
 
         # VMDAS and WinRiver have different set sampling frequency
         da = dat['attrs']
-        if hasattr(da, 'sourceprog') and (da['sourceprog'].lower() in ['vmdas', 'winriver', 'winriver2']):
+        if 'sourceprog' in da and (da['sourceprog'].lower() in ['vmdas', 'winriver', 'winriver2']):
             da['fs'] = round(np.diff(dat['coords']['time']).mean() ** -1, 2)
         else:
             da['fs'] = (da['sec_between_ping_groups'] *
-- 
2.43.0


From 87474be30a18b37bcded66c6d9b57b2e90743ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 050/105] fix: echo sounder depths of WinRiver files keep their
 own time

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 6a85447..49e619f 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,7 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From 45504681fe834e7cbc3ff2c5e574fa5a9e46dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 051/105] fix: one stray byte before an RDI ensemble does not
 hide it

---
 dolfyn/io/rdi.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 49e619f..8d8bf5c 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -279,8 +279,7 @@ class _RDIReader():
                 return False
             pos = fd.tell()
             nread += 1
-            cfgid[1] = cfgid[0]
-            cfgid[0] = nextbyte
+            cfgid = [cfgid[1], nextbyte]
             if not pos % 1000:
                 if self._debug_level >= 0:
                     logging.info('  Still looking for valid cfgid at file '
@@ -520,8 +519,7 @@ class _RDIReader():
             nextbyte = fd.read_ui8(1)
             if nextbyte == None:
                 return False
-            id1[1] = id1[0]
-            id1[0] = nextbyte
+            id1 = [id1[1], nextbyte]
         if search_cnt == self._search_num:
             raise Exception(
                 'Searched {} entries... Bad data encountered. -> {}'
-- 
2.43.0


From e2e4b607095b67342e15384e2e0d30b32b892c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 052/105] fix: Nortek checksums can be verified
 (do_checksum=True always failed)

---
 dolfyn/io/nortek.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..c8f484c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -475,10 +475,9 @@ class _NortekReader():
         """Perform a checksum on `byts` and read the checksum value.
         """
         if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+            cs = np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
+                               self._thisid_bytes + byts)) + 46476
+            if cs % 65536 != unpack(self.endian + 'H', self.read(2))[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
         else:
             self.f.seek(2, 1)
-- 
2.43.0


From 804b5346e98afb0b4f58a55cff63713ae321b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 053/105] fix: AWAC pitch, roll and temperature are signed

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index c8f484c..3d25422 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1063,7 +1063,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '4H3hBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From 536360d1d3d575a8b83a06fd4bba3103fe5aa1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 054/105] fix: Vector temperature is signed

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 3d25422..449812b 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -838,7 +838,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
-- 
2.43.0


From 70fc2204e24819599ddfc62c509510febeb17c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 055/105] fix: AWAC profiles with a fill byte do not lose the
 next profile

---
 dolfyn/io/nortek.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 449812b..1407aa8 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1045,10 +1045,9 @@ class _NortekReader():
             self._init_data(nortek_defs.awac_profile)
             self._dtypes += ['awac_profile']
 
-        # Note: docs state there is 'fill' byte at the end, if nbins is odd,
-        # but doesn't appear to be the case
         n = self.config['usr']['n_beams']
-        byts = self.read(116 + n*3 * nbins)
+        sz = self.read(2)
+        byts = sz + self.read(114 + n*3 * nbins)
         c = self.c
         dat['coords']['time'][c] = self.rd_time(byts[2:8])
         ds = dat['sys']
@@ -1072,6 +1071,9 @@ class _NortekReader():
         for idx in range(n):
             dv['vel'][idx, :, c] = tmp[idx * nbins: (idx + 1) * nbins]
             dv['amp'][idx, :, c] = tmp[(idx + n) * nbins: (idx + n+1) * nbins]
+        # The record size says whether there is a fill byte.
+        if 2 * unpack(self.endian + 'H', sz)[0] - 4 > len(byts):
+            byts += self.read(1)
         self.checksum(byts)
         self.c += 1
 
-- 
2.43.0


From 2cbabed7ffbc61cc3fd7ddf7c9f7d494b90e5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 056/105] fix: times of Vector bursts with few system records
 are in seconds

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 1407aa8..d4b6c26 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -872,10 +872,10 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
+                t[iburst] = ((arng - inds[0]) / fs +
                              t[iburst][inds[0]])
             else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+                t[iburst] = (t[iburst][0] + arng / fs)
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From 52e148db6400cad115619f381916dc8357c996b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 057/105] fix: Vector heading is interpolated across north

---
 dolfyn/io/nortek.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d4b6c26..f3ffe04 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -888,7 +888,12 @@ class _NortekReader():
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
-        tbx.interpgaps(dv['heading'], t)
+        # Interpolate heading the short way around
+        hd = dv['heading'].astype(np.float64)
+        gd = ~np.isnan(hd)
+        hd[gd] = np.unwrap(hd[gd], period=360)
+        tbx.interpgaps(hd, t)
+        dv['heading'] = (hd % 360).astype(np.float32)
         tbx.interpgaps(dv['pitch'], t)
         tbx.interpgaps(dv['roll'], t)
         tbx.interpgaps(dv['temp'], t)
-- 
2.43.0


From f673cbd0028da01a1da4d1b958eaf11144f50b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 058/105] fix: Nortek burst_mode attribute follows the
 configuration

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index f3ffe04..23f9cd1 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -510,7 +510,7 @@ class _NortekReader():
         # (note: bit numbering is zero-based)
         cfg_u['usr']['profile_mode'] = [
             'single', 'continuous'][TimCtrlReg[1]]
-        cfg_u['usr']['burst_mode'] = str(bool(~TimCtrlReg[2]))
+        cfg_u['usr']['burst_mode'] = str(not TimCtrlReg[2])
         cfg_u['usr']['power_level'] = TimCtrlReg[5] + 2 * TimCtrlReg[6] + 1
         cfg_u['usr']['sync_out_pos'] = ['middle', 'end', ][TimCtrlReg[7]]
         cfg_u['usr']['sample_on_sync'] = str(bool(TimCtrlReg[8]))
-- 
2.43.0


From 462687623f194d9f7f4a4cdf75693206ce06fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 059/105] fix: samples beyond the end of a Nortek file are not
 invented

---
 dolfyn/io/nortek.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 23f9cd1..14f663d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -433,8 +433,8 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
+        for group in ['coords', 'data_vars', 'sys']:
+            _crop_data(self.data[group], slice(0, self.c), self.n_samp_guess)
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
@@ -1284,6 +1284,8 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if nm in ['beam2inst_orientmat', 'range']:
+            continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
-- 
2.43.0


From 4b2ce2748d880df9fccd2645b4e834dca8a0ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 060/105] fix: the start of a Nortek nens window is cropped, as
 the warning says

---
 dolfyn/io/nortek.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 14f663d..54eaa58 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1274,6 +1274,9 @@ class _NortekReader():
         for nm in ['data_header', 'checkdata']:
             if nm in self.config and isinstance(self.config[nm], list):
                 self.config[nm] = _recatenate(self.config[nm])
+        # Crop the start (nens[0]), now that times and sensors are known
+        for group in ['coords', 'data_vars', 'sys']:
+            _crop_data(self.data[group], slice(self._n_start, None), self.c)
 
     def __exit__(self, type, value, trace):
         self.close()
-- 
2.43.0


From d8afaa3268a1223303704f61f2e257d093d953f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 061/105] fix: a Nortek record with a size of 0 does not make
 the reader loop forever

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 54eaa58..58e6d20 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -451,7 +451,7 @@ class _NortekReader():
                 shift = 20
             else:
                 sz = 2 * unpack(self.endian + 'H', self.read(2))[0]
-                shift = sz - 4
+                shift = max(sz - 4, 0)
             self.f.seek(shift, 1)
         return self.pos
 
-- 
2.43.0


From 439cd70bb2a721151dcbd42a0bd0b8f3a8bad449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 062/105] fix: only trailing nan samples are cropped, not as
 many samples as there are nan's

---
 dolfyn/io/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 260d7bd..60d05db 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -99,12 +99,13 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    # The length of the run of nan's at the end
+    trailing = l if nan.all() else np.argmin(nan[::-1])
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
-            if data['data_vars'][key].shape[-1] == l:
+            if key != 'beam2inst_orientmat' and data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
     return data
-- 
2.43.0


From 813b1e16cbc0c9cba126118779449dff94c01274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 063/105] fix: an IMU record never adds or removes a Vector
 sample

---
 dolfyn/io/nortek.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 58e6d20..eb0c049 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -917,6 +917,7 @@ class _NortekReader():
                 dat['long_name'].pop('orientmat')
 
         # 0x71 = 113
+        c0 = self.c
         if self.c == 0:
             logging.warning('First "microstrain data" block '
                             'is before first "vector system data" block.')
@@ -1007,10 +1008,11 @@ class _NortekReader():
              dv['mag'][:, c]) = (dt[0:3], dt[3:6], dt[6:9],)
         else:
             logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
-            self.f.seek(-2, 1)
+            self.c = c0
+            self.f.seek(-6, 1)  # to the start of this record
             return 10
         self.checksum(byts0 + byts)
-        self.c += 1  # reset the increment
+        self.c = c0  # reset the increment
 
     def sci_microstrain(self,):
         """Rotate orientation data into ADV coordinate system.
-- 
2.43.0


From 5a9d5d92d38843911abc1ccfd7acdb0e978c5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 064/105] fix: the water temperature of a Signature record is a
 signed number

---
 dolfyn/io/nortek2_defs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 8456734..2014910 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -189,7 +189,7 @@ _burst_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
@@ -237,7 +237,7 @@ _bt_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
-- 
2.43.0


From 6ce0b9a74035187671b799602df597f145736ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 065/105] fix: the compass data of a bottom-track record is in
 units of 0.1 uT, as in the others

---
 dolfyn/io/nortek2_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 2014910..e2638c4 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -253,7 +253,7 @@ _bt_hdr = [
     ('unused', 'B', [], None),
     ('batt', 'H', [], _LinFunc(0.1, dtype=dt32),
      'V', 'Battery Voltage', 'battery_voltage'),
-    ('mag', 'h', [3], None, 'uT', 'Compass'),
+    ('mag', 'h', [3], _LinFunc(0.1, dtype=dt32), 'uT', 'Compass'),
     ('accel', 'h', [3], _LinFunc(1. / 16384 * grav, dtype=dt32),
      'm s-2', 'Acceleration', ''),
     ('ambig_vel', 'I', [], _LinFunc(0.001, dtype=dt32), 'm s-1'),
-- 
2.43.0


From 49cf2c64b957b212354751a0b632bfde6614acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 066/105] fix: the percent-good data of a Signature is part of
 the dataset

---
 dolfyn/io/base.py         | 6 +++++-
 dolfyn/io/nortek2_defs.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 60d05db..2249dcb 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -197,8 +197,12 @@ def _create_dataset(data):
                 elif key == 'samp_altraw_avg':
                     ds_dict[key] = {"dims": ("n_altraw_avg", "time_altraw_avg"), "data": data['data_vars'][key]}
 
+                elif key in ['prcnt_gd', 'prcnt_gd_avg']:
+                    tg = key[len('prcnt_gd'):]
+                    ds_dict[key] = {"dims": ("range" + tg, "time" + tg), "data": data['data_vars'][key]}
+
                 # profiles of the fifth beam, whatever their number of cells
-                elif key in ['vel_b5', 'amp_b5', 'corr_b5']:
+                elif key in ['vel_b5', 'amp_b5', 'corr_b5', 'prcnt_gd_b5']:
                     ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
 
                 # ADV/ADCP instrument vector data, bottom tracking
diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index e2638c4..f23deed 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -351,7 +351,7 @@ def _calc_burst_struct(config, nb, nc):
     if flags['ahrs']:
         dd += _ahrs_def
     if flags['p_gd']:
-        dd += [('percent_good', 'B', [nc], None, '%', 'Percent Good',
+        dd += [('prcnt_gd', 'B', [nc], None, '%', 'Percent Good',
                 'proportion_of_acceptable_signal_returns_from_acoustic_instrument_in_sea_water')]
     if flags['std']:
         dd += [('pitch_std', 'h', [],
-- 
2.43.0


From c984a81c51afb4c895674c1355e3905ec8b411f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 067/105] fix: a Signature average recorded without an AHRS can
 be read

---
 dolfyn/io/nortek2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..a812a54 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,10 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        # Only an average was recorded if there is no 'heading'
+        tag = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tag], ds['pitch' + tag], ds['roll' + tag])
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
@@ -620,7 +622,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
-- 
2.43.0


From 6209b746c862da6bb8a457eab4cb96290cee719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 068/105] fix: every AHRS matrix of a Signature is turned into
 earth->inst, not only the first

---
 dolfyn/io/nortek2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index a812a54..eb4d339 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -643,7 +643,9 @@ def _reduce(data):
         da['has_imu'] = 1  # logical
         # Signature AHRS rotation matrix returned in "inst->earth"
         # Change to dolfyn's "earth->inst"
-        dv['orientmat'] = np.rollaxis(dv['orientmat'], 1)
+        for ky in dv:
+            if ky == 'orientmat' or ky.startswith('orientmat_'):
+                dv[ky] = np.rollaxis(dv[ky], 1)
     else:
         da['has_imu'] = 0
 
-- 
2.43.0


From f711150de765ffd4329b62126a80ba9a656960de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 069/105] fix: the raw altimeter samples are signed

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index eb4d339..666c35a 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -326,7 +326,7 @@ class _Ad2cpReader():
                     outdat[id]['samp_alt'] = defs._nans(
                         [rdr._N[tmp_idx],
                          len(outdat[id]['samp_alt'])],
-                        dtype=np.uint16)
+                        dtype=np.int16)
                 else:
                     if sz != rdr._N[tmp_idx]:
                         raise Exception(
-- 
2.43.0


From c5e213d8664985c79db1ea8128c6143bc5771502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:24 +0000
Subject: [PATCH 070/105] fix: raw altimeter records, which are not in every
 ensemble, neither split nor skip ensembles

---
 dolfyn/io/nortek2.py     |  8 ++++++--
 dolfyn/io/nortek2_lib.py | 22 +++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 666c35a..1f243c6 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -229,10 +229,14 @@ class _Ad2cpReader():
         nens = int(ens_stop - ens_start)
 
         # ID 26 and 31 recorded infrequently
+        pos_start = self._ens_pos[ens_start]
+        pos_stop = (self._ens_pos[ens_stop] if ens_stop < len(self._ens_pos)
+                    else self._eof)
+
         def n_id(id):
             return ((self._index['ID'] == id) &
-                    (self._index['ens'] >= ens_start) &
-                    (self._index['ens'] < ens_stop)).sum()
+                    (self._index['pos'] >= pos_start) &
+                    (self._index['pos'] < pos_stop)).sum()
         n_altraw = {26: n_id(26), 31: n_id(31)}
         if not n_altraw[26] and 26 in self._burst_readers:
             self._burst_readers.pop(26)
diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..66a2196 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -156,7 +156,10 @@ def _create_index(infile, outfile, N_ens, debug):
 
 
 def _check_index(idx, infile, fix_hw_ens=False, dp=False):
-    uid = np.unique(idx['ID'])
+    # The raw altimeter (26 and 31) isn't recorded in every ensemble
+    ping = np.nonzero(~np.isin(idx['ID'], [26, 31]))[0]
+    ids = idx['ID'][ping]
+    uid = np.unique(ids)
     if fix_hw_ens:
         hwe = idx['hw_ens']
     else:
@@ -174,7 +177,7 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
     # This loop fixes 'skips' inside the file
     for id in uid:
         # These are the indices for this ID
-        inds = np.nonzero(idx['ID'] == id)[0]
+        inds = np.nonzero(ids == id)[0]
         # These are bad steps in the indices for this ID
         ibad = np.nonzero(np.diff(inds) > N_id)[0]
         # Check if spacing is equal for dual profiling ADCPs
@@ -193,9 +196,9 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             # The ping number reported here may not be quite right if
             # the ensemble count is wrong.
             warnings.warn("Skipped ping (ID: {}) in file {} at ensemble {}."
-                          .format(id, infile, idx['ens'][inds[ib + 1] - 1]))
-            hwe[inds[(ib + 1):]] += 1
-            ens[inds[(ib + 1):]] += 1
+                          .format(id, infile, ens[ping[inds[ib + 1] - 1]]))
+            hwe[ping[inds[(ib + 1):]]] += 1
+            ens[ping[inds[(ib + 1):]]] += 1
 
     # if not dp:
     #     # This block fixes skips that originate from before this file.
@@ -217,8 +220,13 @@ def _boolarray_firstensemble_ping(index):
     """Return a boolean of the index that indicates only the first ping in 
     each ensemble.
     """
-    dens = np.ones(index['ens'].shape, dtype='bool')
-    dens[1:] = np.diff(index['ens']) != 0
+    # The raw altimeter isn't recorded in every ensemble, and its count is
+    # therefore not the count of ensembles
+    ping = ~np.isin(index['ID'], [26, 31])
+    first = np.ones(ping.sum(), dtype='bool')
+    first[1:] = np.diff(index['ens'][ping]) != 0
+    dens = np.zeros(index['ens'].shape, dtype='bool')
+    dens[ping] = first
     return dens
 
 
-- 
2.43.0


From bf5733bb2442e61db5cc0abdaf486648893d396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 071/105] fix: crop_ensembles can include the last ensemble of
 a file

---
 dolfyn/io/nortek2_lib.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 66a2196..66b07a0 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -287,12 +287,15 @@ def crop_ensembles(infile, outfile, range):
     with open(_abspath(infile), 'rb') as fin:
         with open(_abspath(outfile), 'wb') as fout:
             fout.write(fin.read(idx['pos'][0]))
-            i0 = np.nonzero(idx['ens'] == range[0])[0][0]
-            ie = np.nonzero(idx['ens'] == range[1])[0][0]
-            pos = idx['pos'][i0]
-            nbyte = idx['pos'][ie] - pos
-            fin.seek(pos, 0)
-            fout.write(fin.read(nbyte))
+            first = _boolarray_firstensemble_ping(idx)
+            ens, pos = idx['ens'][first], idx['pos'][first]
+            fin.seek(pos[np.nonzero(ens == range[0])[0][0]], 0)
+            stop = pos[ens >= range[1]]
+            if len(stop):
+                fout.write(fin.read(int(stop[0]) - fin.tell()))
+            else:
+                # Up to, and including, the last ensemble
+                fout.write(fin.read())
 
 
 class _BitIndexer():
-- 
2.43.0


From 8be5c8599216c6c81a63621ed8baac61bea69e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 072/105] fix: an interrupted indexing does not leave an
 incomplete index behind

---
 dolfyn/io/nortek2_lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 66b07a0..49f5d3e 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,5 +1,6 @@
 import struct
 import os.path as path
+from os import replace
 import numpy as np
 from logging import getLogger
 import warnings
@@ -98,7 +99,10 @@ def _create_index(infile, outfile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
     fin = open(_abspath(infile), 'rb')
-    fout = open(_abspath(outfile), 'wb')
+    # Not under its final name until it is complete: an index that an
+    # interruption cut short would be taken for that of the whole file
+    tmpfile = _abspath(outfile) + '.tmp'
+    fout = open(tmpfile, 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
     ids = [21, 22, 23, 24, 26, 28,
@@ -152,6 +156,7 @@ def _create_index(infile, outfile, N_ens, debug):
             fin.seek(dat[4], 1)
     fin.close()
     fout.close()
+    replace(tmpfile, _abspath(outfile))
     print(" Done.")
 
 
-- 
2.43.0


From 7fdc31193129b8db25b3ab666942118c9f7275e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 073/105] fix: a skipped fifth-beam ping does not halve what is
 averaged over the two pings

---
 dolfyn/io/nortek2.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 1f243c6..b935128 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -607,6 +607,15 @@ def _reduce(data):
     dc = data['coords']
     da = data['attrs']
 
+    # A ping that was skipped has no part in the averages
+    fields = ['c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt',
+              'heading', 'pitch', 'roll']
+    if 'status' in dv and 'status_b5' in dv:
+        skip, skip_b5 = dv['status'] == 0, dv['status_b5'] == 0
+        for ky in fields:
+            dv[ky][skip] = dv[ky + '_b5'][skip]
+            dv[ky + '_b5'][skip_b5] = dv[ky][skip_b5]
+
     # Average these fields
     for ky in ['c_sound', 'temp', 'pressure',
                'temp_press', 'temp_clock', 'batt']:
-- 
2.43.0


From f55f70d9ac5e222378148cecb1a9bb9849a5e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 074/105] fix: a Signature file that ends within the header of
 a record can be read

---
 dolfyn/io/nortek2_lib.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 49f5d3e..f32a1cd 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -123,13 +123,17 @@ def _create_index(infile, outfile, N_ens, debug):
             break
         if dat[2] in ids:
             idk = dat[2]
-            d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
-            fin.seek(4, 1)
-            yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
-            fin.seek(14, 1)
-            beams_cy = struct.unpack('<H', fin.read(2))[0]
-            fin.seek(seek_2ens[dat[2]], 1)
-            ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            try:
+                d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
+                fin.seek(4, 1)
+                yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
+                fin.seek(14, 1)
+                beams_cy = struct.unpack('<H', fin.read(2))[0]
+                fin.seek(seek_2ens[dat[2]], 1)
+                ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            except struct.error:
+                # The file ends within this record
+                break
 
             if last_ens[idk] > 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
-- 
2.43.0


From 2392af8d3914462c598e501976b17795f6e85330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 075/105] fix: the time of a Signature average is that of the
 average, not of its bottom track or altimeter

---
 dolfyn/io/nortek2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index b935128..51eebbd 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -674,10 +674,7 @@ def _reduce(data):
 
     # If burst velocity isn't used, need to copy one for 'time'
     if 'time' not in dc:
-        for val in dc:
-            if 'time' in val:
-                time = val
-        dc['time'] = dc[time]
+        dc['time'] = dc['time_avg']
 
 
 def split_dp_datasets(ds):
-- 
2.43.0


From 893af9453c4535d22124175d14b646873ba59a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 076/105] fix: a window of a Vector recording after its last
 system record can be read

---
 dolfyn/rotate/vector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..23bca90 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -192,10 +192,12 @@ def _calc_omat(time, hh, pp, rr, orientation_down=None):
     hh = hh.data.copy()
     if np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
         # The end of the data may not have valid orientations
-        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
-        rr[lastgd:] = rr[lastgd]
-        pp[lastgd:] = pp[lastgd]
-        hh[lastgd:] = hh[lastgd]
+        good = np.nonzero(~np.isnan(rr + pp + hh))[0]
+        if len(good):
+            lastgd = good[-1]
+            rr[lastgd:] = rr[lastgd]
+            pp[lastgd:] = pp[lastgd]
+            hh[lastgd:] = hh[lastgd]
     if orientation_down is not None:
         # For Nortek Vector ADVs: 'down' configuration means the head was
         # pointing 'up', where the 'up' orientation corresponds to the
-- 
2.43.0


From 62526fbea12dfae4635bd859183fbf16db9fd3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 077/105] fix: the declination in the userdata replaces that of
 the RDI file in the data, not only in the attribute

---
 dolfyn/io/rdi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 8d8bf5c..5e34432 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -176,7 +176,6 @@ def _set_rdi_declination(dat, fname, inplace):
             "'magnetic_var_deg', delete the value from userdata.json and "
             "re-read the file."
             .format(dat.attrs['magnetic_var_deg'], fname, declin))
-        dat.attrs['declination'] = declin
 
     if declin is not None:
         set_declination(dat, declin, inplace)
-- 
2.43.0


From 30c033800a22a8da247f7a49c1c5191e45d16149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 078/105] fix: userdata can be given as the name of its file

---
 dolfyn/io/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 2249dcb..7f2391c 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -41,15 +41,14 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
+    if isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
+        return _read_userdata(userdata)
+    elif userdata:
         for basefile in [filename.rsplit('.', 1)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
@@ -57,8 +56,11 @@ def _read_userdata(fname):
     """Reads a userdata.json file and returns the data it contains as a
     dictionary.
     """
-    with open(fname) as data_file:
-        data = json.load(data_file)
+    if hasattr(fname, 'read'):
+        data = json.load(fname)
+    else:
+        with open(fname) as data_file:
+            data = json.load(data_file)
     for nm in ['body2head_rotmat', 'body2head_vec']:
         if nm in data:
             new_name = 'inst' + nm[4:]
-- 
2.43.0


From 0cab015e12e787fb4b11892f8a2e17e2604d9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 079/105] fix: user metadata such as 'deck_height' is not taken
 for the declination

---
 dolfyn/io/nortek.py  | 2 +-
 dolfyn/io/nortek2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index eb0c049..e41e6b3 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -82,7 +82,7 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
     for nm in userdata:
         if 'rotmat' in nm:
             rotmat = userdata[nm]
-        elif 'dec' in nm:
+        elif 'declin' in nm or nm == 'dec':
             declin = userdata[nm]
         else:
             dat['attrs'][nm] = userdata[nm]
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 51eebbd..aabb0bf 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -89,7 +89,7 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     declin = None
     for nm in userdata:
-        if 'dec' in nm:
+        if 'declin' in nm or nm == 'dec':
             declin = userdata[nm]
         else:
             out['attrs'][nm] = userdata[nm]
-- 
2.43.0


From 318d054e6475d29caac82b286cb0d8303d113a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 080/105] fix: RDI ensembles recorded before a variable first
 appears hold 0, not what was in memory

---
 dolfyn/io/rdi_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index ebd87a7..f9ec8fc 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -140,7 +140,7 @@ def _idata(dat, nm, sz):
     units = data_defs[nm][3]
     long_name = data_defs[nm][4]
     standard_name = data_defs[nm][5]
-    arr = np.empty(sz, dtype=dtype)
+    arr = np.zeros(sz, dtype=dtype)
     if dtype.startswith('float'):
         arr[:] = np.NaN
     dat[group][nm] = arr
-- 
2.43.0


From 2eae4c6ab65ad6fdd519b4b7cf5198651a8823b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 081/105] fix: indexing a damaged Signature file ends: a
 record's size is never negative

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index f32a1cd..e08c62a 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -37,7 +37,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
-- 
2.43.0


From 7c09ce42c969bcb14d120fc7d6c44f05996c3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:26 +0000
Subject: [PATCH 082/105] fix: the units and names of a variable are those of
 its own stream (bottom track, raw altimeter)

---
 dolfyn/io/base.py    | 2 +-
 dolfyn/io/nortek2.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 7f2391c..e0d2e70 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -270,7 +270,7 @@ def _create_dataset(data):
                 ds[key].attrs['coverage_content_type'] = 'physicalMeasurement'
             try:  # make sure ones with tags get units
                 tg = '_' + key.rsplit('_')[-1]
-                if any(val in key for val in tag):
+                if md not in ds[key].attrs and any(val in key for val in tag):
                     ds[key].attrs[md] = data[md][key[:-len(tg)]]
             except:
                 pass
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index aabb0bf..7fa0cfb 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -459,12 +459,15 @@ def _reorg(dat):
         if id not in dat:
             continue
         dnow = dat[id]
-        outdat['units'].update(dnow['units'])
-        outdat['long_name'].update(dnow['long_name'])
         for ky in dnow['units']:
             if not dnow['standard_name'][ky]:
                 dnow['standard_name'].pop(ky)
-        outdat['standard_name'].update(dnow['standard_name'])
+        # Each stream describes its own variables; those without a tag are
+        # described by the first stream that has them
+        for md in ['units', 'long_name', 'standard_name']:
+            for ky, val in dnow[md].items():
+                outdat[md].setdefault(ky, val)
+                outdat[md][ky + tag] = val
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
             lib._collapse(dnow['config'], exclude=collapse_exclude,
                           name='config'))
-- 
2.43.0


From 614651ad31aeb8089f82e6ed21515b9b31b686f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:46 +0000
Subject: [PATCH 083/105] fix: the summary of a dataset without a time axis can
 be printed

---
 dolfyn/velocity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index a901618..212fdb3 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -168,10 +168,12 @@ class Velocity():
 
     def __repr__(self, ):
         time_string = '{:.2f} {} (started: {})'
-        if ('time' not in self or dt642epoch(self['time'][0]) < 1):
+        # One sample (a scalar time) or no time at all can be shown too
+        time = np.atleast_1d(self['time'].values) if 'time' in self else None
+        if (time is None or dt642epoch(time[0]) < 1):
             time_string = '-->No Time Information!<--'
         else:
-            tm = self['time'][[0, -1]].values
+            tm = time[[0, -1]]
             dt = dt642date(tm[0])[0]
             delta = (dt642epoch(tm[-1]) -
                      dt642epoch(tm[0])) / (3600 * 24)  # days
@@ -193,7 +195,7 @@ class Velocity():
                 time_string = '-->Error in time info<--'
 
         p = self.ds.attrs
-        t_shape = self['time'].shape
+        t_shape = ('??',) if time is None else time.shape
         if len(t_shape) > 1:
             shape_string = '({} bins, {} pings @ {}Hz)'.format(
                 t_shape[0], t_shape, p.get('fs'))
-- 
2.43.0


From 2a07dafe3d3f7ca8fdc39a2b58cdba9ad57a1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 084/105] fix: bins of a non-integer length no longer run off
 the end of the record

---
 dolfyn/binned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 3ccf21d..052bad0 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -49,7 +49,7 @@ class TimeBinner:
     def _outshape(self, inshape, n_pad=0, n_bin=None):
         """Returns `outshape` (the 'reshape'd shape) for an `inshape` array.
         """
-        n_bin = int(self._parse_nbin(n_bin))
+        n_bin = self._parse_nbin(n_bin)
         return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_bin + n_pad)]
 
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
-- 
2.43.0


From dcd279cbc3546ad4b61960f8308cebdd571f3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 085/105] fix: cross-statistics of equally long records keep
 their bins aligned for a non-integer bin length

---
 dolfyn/binned.py   | 3 ++-
 dolfyn/velocity.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 052bad0..fbaedd7 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -450,7 +450,8 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
+        n_bin1 = n_bin2 if dat1.shape[-1] == dat2.shape[-1] else \
+            int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 212fdb3..0c8eb4e 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -685,7 +685,8 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
+        n_bin1 = n_bin2 if dat1.shape[-1] == dat2.shape[-1] else \
+            int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -761,7 +762,8 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
+        n_bin1 = n_bin2 if dat1.shape[-1] == dat2.shape[-1] else \
+            int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -887,7 +889,8 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
+        n_bin1 = n_bin2 if dat1.shape[-1] == dat2.shape[-1] else \
+            int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
-- 
2.43.0


From 0c5a142f21ce82eb25861e21a7553da05cee5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:30 +0000
Subject: [PATCH 086/105] fix: spectra with the default padding work for a
 non-integer bin length

---
 dolfyn/binned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index fbaedd7..39958ce 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -199,6 +199,7 @@ class TimeBinner:
         n_bin = self._parse_nbin(n_bin)
         if arr.shape[-1] < n_bin:
             raise Exception('n_bin is larger than length of input array')
+        n_pad = int(n_pad)
         npd0 = int(n_pad // 2)
         npd1 = int((n_pad + 1) // 2)
         shp = self._outshape(arr.shape, n_pad=0, n_bin=n_bin)
-- 
2.43.0


From b726101c31dc57f9226bd40f404926873738450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:45 +0000
Subject: [PATCH 087/105] fix: read RDI files whose first ensemble has an
 invalid time stamp

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 5e34432..9e99153 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -71,7 +71,7 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
             dat['attrs'][nm] = userdata[nm]
 
         # Pass one if only one ds returned
-        if not np.isfinite(dat['coords']['time'][0]):
+        if not np.isfinite(dat['coords']['time']).any():
             continue
 
         # GPS data not necessarily sampling at the same rate as ADCP DAQ.
-- 
2.43.0


From 09426d82a6ddf1feab2c840ac3be6baddcfb1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:45 +0000
Subject: [PATCH 088/105] fix: one invalid time stamp no longer makes the
 sampling rate of VMDAS and WinRiver files nan

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 9e99153..8e153c4 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1330,7 +1330,7 @@ class _RDIReader():
         # VMDAS and WinRiver have different set sampling frequency
         da = dat['attrs']
         if 'sourceprog' in da and (da['sourceprog'].lower() in ['vmdas', 'winriver', 'winriver2']):
-            da['fs'] = round(np.diff(dat['coords']['time']).mean() ** -1, 2)
+            da['fs'] = round(np.nanmean(np.diff(dat['coords']['time'])) ** -1, 2)
         else:
             da['fs'] = (da['sec_between_ping_groups'] *
                         da['pings_per_ensemble']) ** (-1)
-- 
2.43.0


From 9f8f5e960f3a3d98a3ef912e613c5dda59bf90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:45 +0000
Subject: [PATCH 089/105] fix: an ensemble with an invalid clock no longer
 makes a WinRiver2 file unreadable

---
 dolfyn/io/rdi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 8e153c4..bef347c 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1170,8 +1170,11 @@ class _RDIReader():
                 clock = self.ensemble.rtc[:, :]
                 if clock[0, 0] < 100:
                     clock[0, :] += defs.century
-                date = tmlib.datetime(*clock[:3, 0]) + time
-                ens.time_gps[k] = tmlib.date2epoch(date)[0]
+                try:
+                    date = tmlib.datetime(*clock[:3, 0]) + time
+                    ens.time_gps[k] = tmlib.date2epoch(date)[0]
+                except ValueError:  # invalid time stamp in this ping
+                    ens.time_gps[k] = np.NaN
                 self.f.seek(1, 1)
                 ens.latitude_gps[k] = self.f.read_f64(1)
                 tcNS = self.f.reads(1)  # 'N' or 'S'
-- 
2.43.0


From c09e298f873df55bd1eb6f8a80a53e65261ca0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 090/105] fix: read_signature closes the data file

---
 dolfyn/io/nortek2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 7fa0cfb..4025400 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -66,7 +66,10 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     userdata = _find_userdata(filename, userdata)
 
     rdr = _Ad2cpReader(filename, rebuild_index=rebuild_index, debug=debug, dual_profile=dual_profile)
-    d = rdr.readfile(nens[0], nens[1])
+    try:
+        d = rdr.readfile(nens[0], nens[1])
+    finally:
+        rdr.f.close()
     rdr.sci_data(d)
     if rdr._dp:
         _clean_dp_skips(d)
-- 
2.43.0


From 30b833ba7425461b2eb8e44c22c2b0e41a21afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 091/105] fix: n_cells_echo of an echosounder with more than
 1023 cells

---
 dolfyn/io/nortek2.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 4025400..a9fe814 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -482,9 +482,12 @@ def _reorg(dat):
             dnow['minute'],
             dnow['second'],
             dnow['usec100'].astype('uint32') * 100)
-        tmp = lib._beams_cy_int2dict(
-            lib._collapse(dnow['beam_config'], exclude=collapse_exclude,
-                          name='beam_config'), 21)  # always 21 here
+        beam_config = lib._collapse(
+            dnow['beam_config'], exclude=collapse_exclude, name='beam_config')
+        tmp = lib._beams_cy_int2dict(beam_config, 21)  # always 21 here
+        if id == 28:
+            # The echosounder has but a number of cells there
+            tmp['n_cells'] = beam_config
         cfg['n_cells' + tag] = tmp['n_cells']
         cfg['coord_sys_axes' + tag] = tmp['cy']
         cfg['n_beams' + tag] = tmp['n_beams']
-- 
2.43.0


From 0c7c24152e19f145fb856d3626868f66d38c36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 092/105] fix: split a dual profile recording with as many
 averages as bursts

---
 dolfyn/io/nortek2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index a9fe814..e0632c2 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -702,6 +702,9 @@ def split_dp_datasets(ds):
                 # altraw goes with burst, altraw_avg goes with avg
                 continue
             other_coords.append(key)
+        elif key == 'time_avg' and 'vel' in ds:
+            # As many averages as there are bursts
+            other_coords.append(key)
 
     # Fetch variables, coordinates, and attrs for second profiling configuration
     other_vars = [v for v in ds.data_vars if any(x in ds[v].coords for x in other_coords)]
-- 
2.43.0


From 1723dfdbffa850c9a36e5a6b94d3a3e5bfaaac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 093/105] fix: split a dual profile recording whose averages
 have neither amplitude nor correlation

---
 dolfyn/io/nortek2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index e0632c2..4bee24c 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -726,6 +726,7 @@ def split_dp_datasets(ds):
         ds2.attrs[a] = ds.attrs[a]
     for v in other_vars:
         ds2[v] = ds[v]
+    ds2['beam'] = ds['beam']
     # Set rotate_vars
     rotate_vars2 = [v for v in ds.attrs['rotate_vars'] if v in other_vars]
     ds2.attrs['rotate_vars'] = rotate_vars2
-- 
2.43.0


From b7d694bb8e31c8c123b6ed4160a44b6005fe3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 094/105] fix: keep single samples and single cells in .mat
 files

load_mat squeezes the arrays, and a dataset with one ping, one depth cell
or a one-element variable could not be loaded again. save_mat now stores the
shapes, and load_mat restores them where they are present.
---
 dolfyn/io/api.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 7f6050c..7da0295 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -314,12 +314,15 @@ def save_mat(ds, filename, datenum=True):
 
     # Save xarray structure with more descriptive structure names
     matfile = {'vars': {}, 'coords': {}, 'config': {},
-               'units': {}, 'long_name': {}, 'standard_name': {}}
+               'units': {}, 'long_name': {}, 'standard_name': {},
+               'shape': {}}
     for ky in ds.data_vars:
         matfile['vars'][ky] = ds[ky].values
+        matfile['shape'][ky] = ds[ky].shape
         copy_attrs(matfile, ds, ky)
     for ky in ds.coords:
         matfile['coords'][ky] = ds[ky].values
+        matfile['shape'][ky] = ds[ky].shape
         copy_attrs(matfile, ds, ky)
     matfile['config'] = ds.attrs
 
@@ -361,6 +364,14 @@ def load_mat(filename, datenum=True):
         for ky in key_list:
             ds_dict[nm][ky] = getattr(data[nm], ky)
 
+    # Restore the dimensions of length one that were squeezed
+    if 'shape' in data:
+        full = sio.loadmat(filename, struct_as_record=False)
+        for nm in ['vars', 'coords']:
+            for ky in ds_dict[nm]:
+                ds_dict[nm][ky] = np.reshape(
+                    getattr(full[nm][0, 0], ky), getattr(data['shape'], ky))
+
     ds_dict['data_vars'] = ds_dict.pop('vars')
     ds_dict['attrs'] = ds_dict.pop('config')
 
-- 
2.43.0


From 7f435dd7215239fbc8d3da016cc90ebe502e6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 095/105] fix: load empty text attributes from .mat files as
 empty text

They came back as empty arrays, which cannot be compared or saved again.
---
 dolfyn/io/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 7da0295..2ba297b 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -381,7 +381,10 @@ def load_mat(filename, datenum=True):
 
     # Convert numpy arrays and strings back to lists
     for nm in ds.attrs:
-        if isinstance(ds.attrs[nm], np.ndarray) and ds.attrs[nm].size > 1:
+        if isinstance(ds.attrs[nm], np.ndarray) and ds.attrs[nm].size == 0 \
+                and ds.attrs[nm].dtype.kind == 'U':
+            ds.attrs[nm] = ''
+        elif isinstance(ds.attrs[nm], np.ndarray) and ds.attrs[nm].size > 1:
             try:
                 ds.attrs[nm] = [x.strip(' ') for x in list(ds.attrs[nm])]
             except:
-- 
2.43.0


From 759565201e22c63d21b60d9c768adf02a64f92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 096/105] fix: load .mat files whose attitude is that of
 another stream

A dataset with orientmat_avg or quaternions_avg but no orientmat/quaternions
(a Signature with averaged data only) was saved, but loading it raised
KeyError.
---
 dolfyn/io/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index e0d2e70..554c3d7 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -159,10 +159,12 @@ def _create_dataset(data):
                 ds_dict['earth'] = {"dims": ('earth'), "data": ['E', 'N', 'U']}
                 ds_dict['inst'] = {"dims": ('inst'), "data": ['X', 'Y', 'Z']}
                 ds_dict[key] = {"dims": ('earth', 'inst', 'time' + tg), "data": data['data_vars'][key]}
-                data["units"].update({"earth": "1", "inst": "1", key: data["units"]["orientmat"]})
+                data["units"].update({"earth": "1", "inst": "1", key: data["units"].get(
+                                          "orientmat", data["units"].get(key))})
                 data["long_name"].update({"earth": "Earth Reference Frame",
                                           "inst": "Instrument Reference Frame",
-                                          key: data["long_name"]["orientmat"]})
+                                          key: data["long_name"].get(
+                                              "orientmat", data["long_name"].get(key))})
 
         # quaternion units never change
         elif 'quaternions' in key:
@@ -177,8 +179,9 @@ def _create_dataset(data):
                 data['long_name'].update({'q': 'Quaternion Vector Components'})
 
             ds_dict[key] = {"dims": ("q", "time" + tg), "data": data['data_vars'][key]}
-            data['units'].update({key: data['units']['quaternions']})
-            data['long_name'].update({key: data['long_name']['quaternions']})
+            for md in ['units', 'long_name']:
+                data[md].update({key: data[md].get('quaternions',
+                                                   data[md].get(key))})
 
         else:
             shp = data['data_vars'][key].shape
-- 
2.43.0


From fe14f2b8e28ed7181fa50b0341d03bb4ac91d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:21 +0000
Subject: [PATCH 097/105] fix: a recorded ping whose status bits are all zero
 is no skipped ping

---
 dolfyn/io/nortek2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 4bee24c..0ab7a17 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -620,7 +620,8 @@ def _reduce(data):
     fields = ['c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt',
               'heading', 'pitch', 'roll']
     if 'status' in dv and 'status_b5' in dv:
-        skip, skip_b5 = dv['status'] == 0, dv['status_b5'] == 0
+        skip = (dv['status'] == 0) & (dv['c_sound'] == 0)
+        skip_b5 = (dv['status_b5'] == 0) & (dv['c_sound_b5'] == 0)
         for ky in fields:
             dv[ky][skip] = dv[ky + '_b5'][skip]
             dv[ky + '_b5'][skip_b5] = dv[ky][skip_b5]
-- 
2.43.0


From 588559c292d3f759997e70ed8ba5845378fcb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:59 +0000
Subject: [PATCH 098/105] fix: scripts name their output after the recording,
 not after what rstrip leaves of it

---
 scripts/binary2mat.py        | 5 ++---
 scripts/motcorrect_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/binary2mat.py b/scripts/binary2mat.py
index 1c66f3d..5fc2502 100644
--- a/scripts/binary2mat.py
+++ b/scripts/binary2mat.py
@@ -1,5 +1,6 @@
 #!/usr/bin/python
 import argparse
+import os
 from dolfyn import read, save_mat
 
 parser = argparse.ArgumentParser(
@@ -16,9 +17,7 @@ args = parser.parse_args()
 for fnm in args.files:
     dat = read(fnm)
 
-    if '.' in fnm:
-        ext = fnm[fnm.index('.'):]
-    outnm = fnm.rstrip(ext) + '.mat'
+    outnm = os.path.splitext(fnm)[0] + '.mat'
 
     print('Saving to %s.' % outnm)
     save_mat(dat, outnm, datenum=True)
diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 7ae2929..e3c36ce 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -175,13 +175,13 @@ for fnm in args.filename:
         dt = dolfyn.time.epoch2date(dat['time'])
         dat['datenum'] = dolfyn.time.date2matlab(dt)
 
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.mat'
+        outnm = os.path.splitext(fnm)[0] + '.mat'
         print('Saving to %s.' % outnm)
         # Save the data.
         dolfyn.io.api.save_mat(dat, outnm)
 
     if args.nc:
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.nc'
+        outnm = os.path.splitext(fnm)[0] + '.nc'
         print('Saving to %s.' % outnm)
         # Save the data.
         dolfyn.save(dat, outnm)
-- 
2.43.0


From 9877dc8cac769d439f5f9276d2dc3635d22d58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:59 +0000
Subject: [PATCH 099/105] fix: scripts accept the several files their help
 announces

---
 scripts/binary2mat.py        | 2 +-
 scripts/motcorrect_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/binary2mat.py b/scripts/binary2mat.py
index 5fc2502..6c57b75 100644
--- a/scripts/binary2mat.py
+++ b/scripts/binary2mat.py
@@ -9,7 +9,7 @@ parser = argparse.ArgumentParser(
 
 parser.add_argument('files',
                     help="The filename(s) to convert.",
-                    action='append',
+                    nargs='+',
                     )
 
 args = parser.parse_args()
diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index e3c36ce..31ad4eb 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -109,7 +109,7 @@ parser.add_argument(
     'filename',
     help="""The filename(s) of the the Nortek Vector file(s) to be
     processed(they probably end with '.vec').""",
-    action='append'
+    nargs='+'
 )
 
 args = parser.parse_args()
-- 
2.43.0


From 3ca7b4cc7f03a8abd0d3f20bf9bef646a5bb212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:59 +0000
Subject: [PATCH 100/105] fix: motcorrect_vector looks for, and sets, the head
 rotation where the library keeps it

---
 scripts/motcorrect_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 31ad4eb..3155023 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -145,12 +145,12 @@ for fnm in args.filename:
     dat = avm.read(fnm)
 
     if rmat is not None:
-        dat.attrs['inst2head_rotmat'] = rmat
+        dolfyn.set_inst2head_rotmat(dat, rmat)
     if vec is not None:
         dat.attrs['inst2head_vec'] = vec
     if declin is not None:
         dat.attrs['declination'] = declin
-    if ('inst2head_rotmat' not in dat.attrs or
+    if ('inst2head_rotmat' not in dat or
             'inst2head_vec' not in dat.attrs):
         raise Exception("inst2head_rotmat or inst2head_vec not found "
                         "in dat.attrs. These must be specified by either:\n"
-- 
2.43.0


From e505dc9624e5a634dff017dd384dd74c6488857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:59 +0000
Subject: [PATCH 101/105] fix: motcorrect_vector takes -f as a number

---
 scripts/motcorrect_vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 3155023..432348e 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -20,6 +20,7 @@ parser = argparse.ArgumentParser(
     """)
 parser.add_argument(
     '-f',
+    type=float,
     default=0.03333,
     help="""
     Specify the high-pass filter frequency that is applied to the
-- 
2.43.0


From b3ba20ff62499730fc9a99640c7c573899674b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:00 +0000
Subject: [PATCH 102/105] fix: motcorrect_vector assigns heading, pitch and
 roll in the order orient2euler returns them

---
 scripts/motcorrect_vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 432348e..6ccab92 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -163,8 +163,9 @@ for fnm in args.filename:
         print('Performing motion correction...')
         # Perform the motion correction.
         dat = avm.correct_motion(dat, accel_filtfreq=args.f)
-        # Compute pitch,roll,heading from orientmat.
-        dat['pitch'], dat['roll'], dat['heading'] = orient2euler(dat.orientmat)
+        # Compute heading,pitch,roll from orientmat.
+        dat['heading'].values, dat['pitch'].values, dat['roll'].values = \
+            orient2euler(dat.orientmat.values)
     else:
         print("""
         !!!--Warning--!!!: Orientation matrix('orientmat')
-- 
2.43.0


From 0225da270fabe550e12cb9be181b39055023347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:00 +0000
Subject: [PATCH 103/105] fix: motcorrect_vector computes datenums from
 datetime64 times

---
 scripts/motcorrect_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 6ccab92..b01a921 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -174,8 +174,8 @@ for fnm in args.filename:
 
     if args.mat:
         # Set matlab 'datenum' time.
-        dt = dolfyn.time.epoch2date(dat['time'])
-        dat['datenum'] = dolfyn.time.date2matlab(dt)
+        dt = dolfyn.time.dt642date(dat['time'])
+        dat['datenum'] = ('time', dolfyn.time.date2matlab(dt))
 
         outnm = os.path.splitext(fnm)[0] + '.mat'
         print('Saving to %s.' % outnm)
-- 
2.43.0


From 33a968a65850822512a6b9b7d8d109164bc314b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:04 +0000
Subject: [PATCH 104/105] fix: phase_angle (calc_phase_angle) of records of
 different length

---
 dolfyn/tools/psd.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index ab5ac22..bc4e094 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -418,8 +418,12 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     :func:`cpsd`
     """
 
-    l = len(a)
-    step, nens, nfft = stepsize(l, nfft, step=step)
+    l = [len(a), len(b)]
+    if l[0] > l[1]:
+        return np.conj(phase_angle(b, a, nfft, window=window, step=step))
+    step, nens, nfft = stepsize(l[0], nfft, step=step)
+    # The same number of ensembles from a longer `b`, as cpsd_quasisync does
+    step_b = step if l[0] == l[1] else stepsize(l[1], nfft, nens=nens)[0]
     window = _getwindow(window, nfft)
     fft_inds = slice(1, int(nfft / 2. + 1))
     s1 = fft(detrend(a[0:nfft]) * window)[fft_inds]
@@ -429,10 +433,11 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     ang = s2 / s1
     n_avg = 1
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i, j in zip(range(step, l[0] - nfft + 1, step),
+                        range(step_b, l[1] - nfft + 1, step_b)):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
-            s2 = fft(detrend(b[i:(i + nfft)]) * window)[fft_inds]
+            s2 = fft(detrend(b[j:(j + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
             n_avg += 1
-- 
2.43.0


From 23d991e4570c6da1d26d65476c407c38cfb6078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:00 +0000
Subject: [PATCH 105/105] fix: readers that index the same Signature file at
 once do not share a temporary file

---
 dolfyn/io/nortek2_lib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index e08c62a..21d10ee 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,6 +1,7 @@
 import struct
 import os.path as path
-from os import replace
+from os import replace, getpid
+from threading import get_ident
 import numpy as np
 from logging import getLogger
 import warnings
@@ -100,8 +101,9 @@ def _create_index(infile, outfile, N_ens, debug):
     print("Indexing {}...".format(infile), end='')
     fin = open(_abspath(infile), 'rb')
     # Not under its final name until it is complete: an index that an
-    # interruption cut short would be taken for that of the whole file
-    tmpfile = _abspath(outfile) + '.tmp'
+    # interruption cut short would be taken for that of the whole file.
+    # Nor under a name that another reader of this file is writing to.
+    tmpfile = '{}.{}-{}.tmp'.format(_abspath(outfile), getpid(), get_ident())
     fout = open(tmpfile, 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
-- 
2.43.0

