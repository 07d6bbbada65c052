From ab10bad7b9b2890f377818650c5e50274011d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 01/86] fix: label trimmed correlations with the lag of their
 first sample

corr_mat_trim selects the samples from the requested start rounded down to
the sampling grid but stored the requested start as start_lag, so every lag
label was off by a fraction of a sample when the request was off the grid.
---
 src/seismic/monitor/trim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..3951476 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -63,6 +63,7 @@ def corr_mat_trim(
         stats['npts'] = data.shape[1]
 
     # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    # the first sample kept is the one the requested start is rounded down to
+    stats['start_lag'] = stats['start_lag'] + start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From ed78974073a1470585fa3fe80bf72c002643bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 02/86] fix: taper the centre also when it is cut by the edge
 of the matrix

The weights have one sample more than 'length'; clipping them at either edge
left weights and data slice with different lengths and raised a ValueError
whenever zero lag was near (or at) the first or last sample.
---
 src/seismic/monitor/post_corr_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..75f09d1 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -578,12 +578,12 @@ def corr_mat_taper_center(
         taper = taper[np.absolute(start):]
         start = 0
 
-    end = start + length
+    end = start + len(taper)
     if end > stats['npts']:
         end = stats['npts']
-        taper = taper[0:end - start]
+        taper = taper[0:max(end - start, 0)]
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From 6c5d4c6ee29e6b23f9c6694b8bed2e97ffa744e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 03/86] fix: whiten all spectra even if some bins have no
 energy

A single bin without energy (e.g., one empty trace) raised a
FloatingPointError that was swallowed, and none of the traces was whitened.
---
 src/seismic/correlate/preprocessing_fd.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..8a470bf 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,14 +106,12 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
-    with np.errstate(invalid='raise'):
-        try:
-            B = np.true_divide(B, absB)
-        except FloatingPointError as e:
-            errargs = np.argwhere(absB == 0)
-            # Report error where there is zero divides for a non-zero freq
-            if not np.all(errargs[:, 0] == 0):
-                logging.debug(f'{e} {errargs}')
+    # Bins without energy cannot be normalized and remain zero. They must not
+    # keep the remaining bins (and traces) from being whitened
+    noenergy = absB == 0
+    if np.any(noenergy[:, 1:]):
+        logging.debug('Spectra with zero amplitude at non-zero frequencies.')
+    B = np.divide(B, absB, out=np.zeros_like(B), where=~noenergy)
     # Set zero frequency component to zero
     B[:, 0] = 0.j
 
-- 
2.43.0


From 1c6b41f2b7490591a36a44a9c69bf687f5e84fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 04/86] fix: do not mute whole traces because of rounding
 errors

With extend_gaps, sums of 1/ntap stayed below 1 for many taper lengths, so
that every sample was muted although none exceeded the threshold.
---
 src/seismic/correlate/preprocessing_td.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..836f01e 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -228,11 +228,13 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     mask[D > np.tile(thres, (D.shape[1], 1)).T] = 0
     # extend the muted segments to make sure the whole segment is zero after
     if args['extend_gaps']:
-        tap = np.ones(ntap)/ntap
+        # count the unmuted samples. Do not scale by 1/ntap here, rounding
+        # errors would bring the sum below 1 where nothing is muted
+        tap = np.ones(ntap)
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        nmask[mask < ntap] = 0
     else:
         nmask = mask
 
-- 
2.43.0


From 9c472f65fd83900d95a3611c8fa09050307c8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 05/86] fix: zero padding with float sampling rates and of
 single traces

avoidWrapAround handed a float as array size, and 1-D arrays were padded
with a 2-D array.
---
 src/seismic/correlate/preprocessing_td.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 836f01e..57d99f7 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -472,12 +472,10 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     npts = A.shape[axis]
     if A.ndim == 2:
         ntrc = A.shape[axis-1]
-    elif A.ndim == 1:
-        ntrc = 1
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = int(npts + params['sampling_rate'] * params['lengthToSave'])
     elif args['type'] == 'avoidWrapFastLen':
         N = next_fast_len(int(
             npts + params['sampling_rate'] * params['lengthToSave']))
@@ -485,10 +483,11 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
 
-    if axis == 0:
-        A = np.concatenate(
-            (A, np.zeros((N-npts, ntrc), dtype=np.float32)), axis=axis)
+    if A.ndim == 1:
+        padshape = (N-npts,)
+    elif axis == 0:
+        padshape = (N-npts, ntrc)
     else:
-        A = np.concatenate(
-            (A, np.zeros((ntrc, N-npts), dtype=np.float32)), axis=axis)
+        padshape = (ntrc, N-npts)
+    A = np.concatenate((A, np.zeros(padshape, dtype=np.float32)), axis=axis)
     return A
-- 
2.43.0


From 5862753011b833d9f02903bc1865b208c3942acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 06/86] fix: centre the taper that mutes loud segments

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 57d99f7..d80007d 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -241,6 +241,8 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     # apply taper
     tap = 2. - (np.cos(np.arange(ntap, dtype=float)/ntap*2.*np.pi) + 1.)
     tap /= ntap
+    # The first weight is 0. Without it, the taper is centred for any ntap
+    tap = tap[1:] if ntap > 1 else tap
     for ind in range(A.shape[0]):
         nmask[ind, :] = np.convolve(nmask[ind, :], tap, mode='same')
 
-- 
2.43.0


From 7442f06128dff2f28a44318eea4d68cf4b1e146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 07/86] fix: scipy detrending with method keyword or rows
 without data

---
 src/seismic/correlate/preprocessing_td.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index d80007d..35dc448 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -89,16 +89,15 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
 
     .. seealso:: :func:`scipy.signal.detrend` for input arguments
     """
-    if np.all(np.isnan(A)):
-        return A
+    # method is the keyword of the wrapper `detrend`
+    args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
-        try:
-            A[ii, ~np.isnan(A[ii])] = sp_detrend(
-                A[ii, ~np.isnan(A[ii])], axis=-1, overwrite_data=True,
-                **args)
-        except ZeroDivisionError:
+        valid = ~np.isnan(A[ii])
+        if not valid.any():
             # When the line is nothing but nans
-            pass
+            continue
+        A[ii, valid] = sp_detrend(
+            A[ii, valid], axis=-1, overwrite_data=True, **args)
     return A
 
 
-- 
2.43.0


From 811f4aa2714bb9fd2e5804e6b342592313f10827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 08/86] fix: cosine taper for integer data

---
 src/seismic/correlate/preprocessing_stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..fe03be1 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -101,7 +101,8 @@ def cos_taper(
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
             'Taper Length * 2 has to be smaller or equal to trace\'s length.')
-    taper = np.ones_like(tr.data)
+    # the weights have to be floats, even if the data are integers
+    taper = np.ones_like(tr.data, dtype=np.result_type(tr.data, np.float32))
     tap = np.sin(np.linspace(0, np.pi, tl_n*2))
     taper[:tl_n] = tap[:tl_n]
     taper[-tl_n:] = tap[-tl_n:]
-- 
2.43.0


From f730ec4ede144dd845b625409b0aa2d84399957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 09/86] fix: stacking of correlations with gaps or different
 lengths

---
 src/seismic/correlate/stream.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..5c0743c 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1625,14 +1625,14 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     :return: Single trace with stacked data
     :rtype: CorrTrace
     """
+    # only traces with the same length can be averaged
+    st = st.select(npts=max(tr.stats.npts for tr in st))
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
-    st.sort(keys=['npts'])
-    npts = st[-1].stats.npts
+    stats['corr_end'] = max(tr.stats.corr_end for tr in st)
     stack = []
     dur = []  # duration of each trace
-    for tr in st.select(npts=npts):
+    for tr in st:
         stack.append(tr.data)
         dur.append(tr.stats.corr_end-tr.stats.corr_start)
     A = np.array(stack)
@@ -1643,8 +1643,9 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
         return CorrTrace(data, _header=stats)
     elif weight == 'by_length':
-        # Weight by the length of each trace
-        data = np.nansum((A.T*np.array(dur)).T, axis=0)/np.nansum(dur)
+        # Weight by the length of each trace, samples without data do not count
+        w = np.where(np.isnan(A), 0, np.array(dur)[:, np.newaxis])
+        data = np.nansum(A*w, axis=0)/np.sum(w, axis=0)
         if norm:
             norm = np.nanmax(np.abs(data))
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
-- 
2.43.0


From 2f4247fc8ea74bc0a0a1dd4341e91ffd3a00a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 10/86] fix: similarity percentile keeps the traces at the
 threshold

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 75f09d1..4f09950 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -777,7 +777,7 @@ def corr_mat_extract_trace(
         tres = np.percentile(cor[~np.isnan(cor)], percentile)
         # find the traces that agree with the requested percentile and calc
         # their mean
-        ind = cor > tres
+        ind = cor >= tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From 83e42c44fdd17a46134bcc9d4bd9b73648580d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 11/86] fix: slice bulks that hold a single correlation

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 5c0743c..df0624c 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -818,7 +818,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From 1d4100512381619341e5f156c6eda08d78f0bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 12/86] fix: header of resampled bulks

---
 src/seismic/monitor/post_corr_process.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4f09950..ef480a0 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -283,6 +283,12 @@ def corr_mat_resample(
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
 
+    # codes that vary from correlation to correlation, each bin takes those of
+    # its first correlation
+    codes = [k for k in ('location', 'channel')
+             if isinstance(stats.get(k), list)]
+    ncodes = {k: [] for k in codes}
+
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
@@ -293,9 +299,16 @@ def corr_mat_resample(
         elif len(ind[0]) > 1:
             # more than one measurement in range
             nmat[ii, :] = np.mean(mm[ind[0], :], axis=0).filled(np.nan)
+        first = ind[0][0] if len(ind[0]) else 0
+        for k in codes:
+            ncodes[k].append(stats[k][first])
 
     # assign new data
     data = nmat
+    for k in codes:
+        stats[k] = ncodes[k]
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = len(nmat)
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
-- 
2.43.0


From 846694b9e1eed386263f024eccd58ca18ebdc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 13/86] fix: stack all correlations up to the latest end

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index df0624c..39eb3a2 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1226,7 +1226,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
-- 
2.43.0


From d823f5cec6ae060560b34586127cc6dd1bb83b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 14/86] fix: median trace regards only the available samples

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ef480a0..aa9100d 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -764,7 +764,8 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        # np.median does not regard the mask
+        out = np.ma.filled(np.ma.median(mm, 0), np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From 3fb9c247356ba5bddce88b2642ae8c43251ac4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 15/86] fix: stretch and shift estimates leave the header of
 the caller alone

---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index aa9100d..916f17a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -881,6 +881,7 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -983,6 +984,7 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From a280688216b5de149bc1ee5495eed5886e533b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 16/86] fix: first time window of multi-reference estimates

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..70226f5 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -933,7 +933,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = [tw[0]]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From 118487bf0e5f59f1ecdb6f2281ee263a93e599ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 17/86] fix: trim to lags on the sampling grid despite rounding
 errors

---
 src/seismic/monitor/trim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index 3951476..171fe4d 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -41,9 +41,11 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
-    start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+    # (rounding errors must not move lags on the sampling grid by a sample)
+    start = int(np.floor(np.around(
+        (starttime-stats['start_lag'])*stats['sampling_rate'], 6)))
+    end = int(np.floor(np.around(
+        (endtime-stats['start_lag'])*stats['sampling_rate'], 6)))
 
     # check range
     if start < 0:
-- 
2.43.0


From 010722d325d9bc78556987afe6977a496bebcc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 18/86] fix: end lag of correlations is the lag of the last
 sample

Pairs that are flipped into alphabetical order were labelled one sample
off.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..d577fdd 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -386,7 +386,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag + \
+                    (len(A[ii, :])-1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From 66c467430862ac46bc6cdadf2686a425182fe9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 19/86] fix: correlations with an odd padded length

The inverse transform assumed an even length: the correlation of spectra
of an odd number of samples was resampled and normalised wrongly.
---
 src/seismic/correlate/correlate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index d577fdd..119ffd8 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -706,7 +706,7 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -756,7 +756,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, n=irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From df92e86dc5f160059d2d1b73a85d161d3b8ffba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 20/86] fix: correlation windows after a gap keep their time

Windows without any data were skipped so that all following windows were
cut one increment too early, counted from the start of the first trace
instead of the earliest one.
---
 src/seismic/correlate/correlate.py | 37 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 119ffd8..1e88297 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1411,26 +1411,27 @@ def generate_corr_inc(
     :rtype: Generator[Stream]
     """
 
-    try:
-        # Second loop to return the time window in correlation length
-        for ii, win0 in enumerate(st.slide(
-            subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
-                include_partial_windows=True)):
-
-            # We use trim so the windows have the right time and
-            # are filled with masked arrays for places without values
-            starttrim = st[0].stats.starttime + ii*subdivision['corr_inc']
-            endtrim = st[0].stats.starttime + ii*subdivision['corr_inc'] +\
-                subdivision['corr_len']-st[0].stats.delta
-            win = win0.trim(starttrim, endtrim, pad=True)
-            mu.get_valid_traces(win)
-            yield win
-
-    except IndexError:
+    if not st.count():
         # processes with no data end up here
-        win = Stream()
         # A little dirty, but it has to go through an equally long loop
         # else this will cause a deadlock
         for _ in range(int(np.ceil(
                 read_len/subdivision['corr_inc']))):
-            yield win
+            yield Stream()
+        return
+
+    starttime = min(tr.stats.starttime for tr in st)
+    endtime = max(tr.stats.endtime for tr in st)
+    # Second loop to return the time window in correlation length
+    # There has to be a window for each increment, even if it falls into
+    # a gap. Else, all following windows would have the wrong time.
+    for ii in range(max(1, int(np.ceil(
+            (endtime-starttime)/subdivision['corr_inc'] - 0.001)))):
+        # We use trim so the windows have the right time and
+        # are filled with masked arrays for places without values
+        starttrim = starttime + ii*subdivision['corr_inc']
+        endtrim = starttrim + subdivision['corr_len'] - st[0].stats.delta
+        win = st.slice(starttrim, endtrim)
+        win.trim(starttrim, endtrim, pad=True)
+        mu.get_valid_traces(win)
+        yield win
-- 
2.43.0


From d0808c9fb86e3846074220b6a37740eeb6bf38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 21/86] fix: deadlock if processes hold different numbers of
 windows

All processes have to take part in the collective calls of every window,
also if a process has less data or its preprocessing failed.
---
 src/seismic/correlate/correlate.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 1e88297..58910f3 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -11,6 +11,7 @@ Created: Monday, 29th March 2021 07:58:18 am
 Last Modified: Monday, 4th March 2024 02:27:00 pm
 '''
 from copy import deepcopy
+from itertools import count
 from typing import Iterator, List, Tuple, Optional
 from warnings import warn
 import os
@@ -524,7 +525,8 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+                # Other processes might still have data for this time
+                st = Stream()
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
@@ -542,16 +544,24 @@ class Correlator(object):
                         'Stream preprocessing failed for '
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    # Other processes might still have data for this time
+                    st = Stream()
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-            for ii, win in enumerate(generate_corr_inc(st, **self.options)):
+            windows = generate_corr_inc(st, **self.options)
+            for ii in count():
                 winstart = startt + ii*self.options['subdivision']['corr_inc']
                 winend = winstart + self.options['subdivision']['corr_len']
 
                 # Gather time windows from all stations to all cores
-                winl = self.comm.allgather(win)
+                # They go through the loop together, no matter how many
+                # windows their own data has (else there is a deadlock)
+                winl = [
+                    winp for winp in self.comm.allgather(next(windows, None))
+                    if winp is not None]
+                if not len(winl):
+                    break
                 win = Stream()
                 for winp in winl:
                     win.extend(winp)
-- 
2.43.0


From df3ab5e24e8e97249a3e8e62c596f102ddf75202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 22/86] fix: windows of data that starts late when
 preprocessing subdivisions

Without the preprocessing of the full length, windows were counted from the
first sample and then trimmed to windows counted from the start of reading.
---
 src/seismic/correlate/correlate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 58910f3..37dd8d1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -546,6 +546,10 @@ class Correlator(object):
                         f' {t}.\nThe Original Error Message was {e}.')
                     # Other processes might still have data for this time
                     st = Stream()
+            else:
+                # windows count from startt also if the data starts later
+                # (the preprocessing does this for the full length)
+                st.trim(startt, endt, pad=True)
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-- 
2.43.0


From b901198cce6c3558755d6f49d1a840935f2007f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 23/86] fix: canonical order of station pairs compares code by
 code

Joined codes sorted pairs of stations whose codes are prefixes differently
with and without channel, so that existing correlations were not found.
---
 src/seismic/correlate/correlate.py | 5 +++--
 src/seismic/correlate/stream.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 37dd8d1..617af48 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1232,8 +1232,9 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    # Compare code by code, joined codes of different length are ambiguous
+    sort1 = (network1, station1, channel1)
+    sort2 = (network2, station2, channel2)
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 39eb3a2..995b81e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,9 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    # Compare code by code, joined codes of different length are ambiguous
+    sort1 = (header1.network, header1.station, header1.channel)
+    sort2 = (header2.network, header2.station, header2.channel)
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From ca59acec64c78474bd9e57d902d6da63a8dc0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 24/86] fix: looking up existing data next to stations with a
 longer code

The pattern for the files of A-B also matches those of A-BC, in which there
is no data for A-B.
---
 src/seismic/db/corr_hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..7ce6c3d 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -310,8 +310,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # as above, no data of this combination in the file
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From 0565f47a37c46717b2fc52b1c2fd7460a134d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 25/86] fix: xcombinations without channels selected stations
 with longer codes

---
 src/seismic/correlate/correlate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 617af48..3d9ca30 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -851,8 +851,10 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
+        # channels can be omitted, but the station codes have to be complete
+        if combi.count('.') < 2:
+            combi += '.*'
+        if fnmatch.fnmatch(tcombi, combi) or fnmatch.fnmatch(tcombi2, combi):
             return True
     return False
 
-- 
2.43.0


From a578f4a58c49a581006c44c68f76652c5fc871d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 26/86] fix: xcombinations with channels or in reverse order

The second station of combinations with channels was filtered out, and
existing data of such combinations was not found.
---
 src/seismic/correlate/correlate.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 3d9ca30..4337c98 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -225,15 +225,17 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
+        # Net0-Net1.Stat0-Stat1, the components do not matter here
+        rcombis = ['.'.join(c.split('.')[:2]) for c in self.rcombis]
         self.station = [
             [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
         # same check for avail_raw_data
         self.avail_raw_data = [
             [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
 
     def find_interstat_dist(self, dis: float):
         """
@@ -1286,10 +1288,10 @@ def compute_network_station_combinations(
                 if n != n2 or s != s2:
                     nc, sc, _ = sort_comb_name_alphabetically(n, s, n2, s2)
                     # Check requested combinations
-                    if (
-                        combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
-                    ):
+                    # (in either order and for any component)
+                    if combis is not None and not is_in_xcombis(
+                        f'{nc[0]}.{sc[0]}..', f'{nc[1]}.{sc[1]}..',
+                            ['.'.join(c.split('.')[:2]) for c in combis]):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
                     statcombs.append('%s-%s' % (sc[0], sc[1]))
-- 
2.43.0


From 145e2c89688b18ce337f5fcfe3c02ffa44467e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 27/86] fix: mirroring returns data and header if zero lag is
 no sample

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 916f17a..1abfea6 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -483,7 +483,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
         print('need to shift for mirroring')
-        return 0
+        return data, stats
 
     # estimate size of mirrored array
     acausal_samples = int(zero_sample + 1)
-- 
2.43.0


From 9471a1b45ac04de7c204fc44915a8bf0a0779450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 28/86] fix: mirror correlations whose start lag is rounded

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 1abfea6..c5d1df4 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -473,7 +473,8 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     :rtype: Tuple[np.ndarray, CorrStats]
     """
 
-    zero_sample = -(stats['start_lag']*stats['sampling_rate'])
+    zero_sample = -np.around(
+        stats['start_lag'] * stats['sampling_rate'], 3)
 
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
-- 
2.43.0


From 9803c7a08db1d26d0f6405c6d2bbaa3f45123244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 29/86] fix: sign bit normalisation of spectra of an odd number
 of samples

---
 src/seismic/correlate/preprocessing_fd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index 8a470bf..53c3704 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,18 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: ``params['freqs']`` and ``params['sampling_rate']`` give
+        the number of samples of the traces. If they are not provided, an even
+        number of samples is assumed.
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    npts = 2*(B.shape[1] - 1)
+    if 'freqs' in params and B.shape[1] > 1:
+        # The number of samples can be odd
+        npts = int(np.round(params['sampling_rate']/params['freqs'][1]))
+    B = np.fft.irfft(B, n=npts)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From 582cb105c5d051af90e3bebbd73c78df1a013758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 30/86] fix: smoothed dv takes its value from samples without
 data

---
 src/seismic/monitor/dv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..5248708 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -218,7 +218,9 @@ class DV(object):
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
         self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+            np.argmax(np.nan_to_num(self.sim_mat, nan=-np.inf), axis=1)]
+        self.avail = ~np.isnan(self.corr)
+        self.value[~self.avail] = np.nan
         return self
 
 
-- 
2.43.0


From 6d0df1ad65f267579e356f8efc0d4159d32f3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 31/86] fix: averaged dv takes its value from samples without
 data

---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..cacbb82 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -993,7 +993,7 @@ def average_components_mem_save(
     av_sim_mat = (sim_mat_sum.T/n_stat).T
     av_sim_mat[np.isinf(av_sim_mat)] = np.nan
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     dt = strvec[iimax]
     dt[np.isnan(corr)] = np.nan
@@ -1069,7 +1069,7 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
     dt = strvec[iimax]
-- 
2.43.0


From 038f4af1a62ece738d6dda3a3d337fa53f78baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 32/86] fix: missing similarities count as zero in
 average_components_mem_save

---
 src/seismic/monitor/monitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index cacbb82..87ae111 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -963,6 +963,7 @@ def average_components_mem_save(
         if ii == 0:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
+            n_samp = np.zeros_like(dv.sim_mat)
 
             stats = deepcopy(dv.stats)
             strvec = dv.second_axis
@@ -984,14 +985,15 @@ def average_components_mem_save(
             )
             continue
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
+        n_samp += ~np.isnan(dv.sim_mat)
         n_stat[~np.isnan(dv.value)] += 1
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    # nan where no dv has data
+    n_samp[n_samp == 0] = np.nan
+    av_sim_mat = sim_mat_sum/n_samp
     # Now we would have to recompute the dv value and corr value
     iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
-- 
2.43.0


From 81a6671195ca884412174840e719cfd620280d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 33/86] fix: shifted dv takes its value from samples without
 data

---
 src/seismic/monitor/monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 87ae111..0cf7c9b 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -883,8 +883,9 @@ def correct_dv_shift(
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    dv0.value = np.where(
+        np.all(np.isnan(dv0.sim_mat), axis=1), np.nan, dv0.second_axis[
+            np.argmax(np.nan_to_num(dv0.sim_mat, nan=-np.inf), axis=1)])
     return dv0, dv1
 
 
-- 
2.43.0


From f624b48c92bcf81650c404456ace924ba2dd63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 34/86] fix: station list ignored if the network list matches

---
 src/seismic/monitor/monitor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 0cf7c9b..0ecb480 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -790,6 +790,7 @@ def corr_find_filter(
             continue
         elif isinstance(net['station'], list):
             # account for the case of wildcards in the station list
+            matched = False
             for s in net['station']:
                 if fnmatch.filter(ssplit, s) == ssplit:
                     matched = True
-- 
2.43.0


From b6ba519c0919590c6a76f41ee8e1ca17d5d2cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 35/86] fix: component averages mix stations whose codes start
 alike

---
 src/seismic/monitor/monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 0ecb480..d0ec4e5 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -398,8 +398,8 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
+            code = infiles[0].split('.')[:-2]
+            filtfil = [f for f in infiles if f.split('.')[:-2] == code]
             fffil = []  # Second filter
             for f in filtfil:
                 if ch in f.split('.'):
@@ -416,7 +416,7 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif 'av' in os.path.basename(f):
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-- 
2.43.0


From 1beecf5f41de0593e91b8e64bfa2ca7984443d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 36/86] fix: velocity change with tw_len None or without travel
 times

---
 src/seismic/monitor/monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index d0ec4e5..93bbb3e 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -196,6 +196,7 @@ class Monitor(object):
             lts = cdb.get_corr_options()['corr_args']['lengthToSave']
 
         tw_start = self.options['dv']['tw_start']
+        d = 0
 
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
@@ -214,7 +215,8 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
+        if self.options['dv']['tw_len'] is not None \
+                and lts < tw_start + self.options['dv']['tw_len']:
             reqtw = tw_start + self.options[
                 'dv']['tw_len']
             raise ValueError(
-- 
2.43.0


From 8f0914635cd4e1f37147936bbd017464f07a0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 37/86] fix: correct_dv_shift keeps times without data missing

---
 src/seismic/monitor/monitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 93bbb3e..696e8a7 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -885,7 +885,10 @@ def correct_dv_shift(
     else:
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
+    missing = np.all(np.isnan(dv0.sim_mat), axis=1)
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
+    # the roll carries samples of the adjacent times over
+    dv0.sim_mat[missing] = np.nan
     dv0.value = np.where(
         np.all(np.isnan(dv0.sim_mat), axis=1), np.nan, dv0.second_axis[
             np.argmax(np.nan_to_num(dv0.sim_mat, nan=-np.inf), axis=1)])
-- 
2.43.0


From 8d5e0bcc5329b73551beb7349aa793883671139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 38/86] fix: correct_dv_shift uses the last common time

---
 src/seismic/monitor/monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 696e8a7..07a7303 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -838,7 +838,7 @@ def correct_dv_shift(
     if np.any(both_avail):
         # Unless one of them become less than 0 or more than length
         start = np.where(both_avail)[0].min() - n_overlap
-        stop = np.where(both_avail)[0].max() + n_overlap
+        stop = np.where(both_avail)[0].max() + 1 + n_overlap
         ii = jj = 0
     elif (
         np.array(dv0.stats.starttime)[dv0.avail][0]
@@ -868,8 +868,8 @@ def correct_dv_shift(
             'n_overlap, i.e., '
             f'{n_overlap*(dv0.stats.starttime[1]-dv0.stats.starttime[0])/3600}'
             'hours. The result would not make sense.')
-    if stop >= len(dv0.value):
-        stop = len(dv0.value) - 1
+    if stop > len(dv0.value):
+        stop = len(dv0.value)
     if start < 0:
         start = 0
     dv0c = dv0.corr[start:stop]
-- 
2.43.0


From 1ecc4b6bd51e3d972e4040d69f4e26b14c1db897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 39/86] fix: corr_find_filter finds pairs of different listed
 stations

---
 src/seismic/monitor/monitor.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 07a7303..a4ddcfc 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -769,7 +769,6 @@ def corr_find_filter(
     statlist = []
     infiles = []
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
@@ -781,23 +780,16 @@ def corr_find_filter(
             continue
         elif isinstance(net['network'], list):
             # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(fnmatch.fnmatch(ns, n) for n in net['network'])
+                       for ns in nsplit):
                 continue
         if isinstance(net['station'], str) and not fnmatch.filter(
                 ssplit, net['station']) == ssplit:
             continue
         elif isinstance(net['station'], list):
             # account for the case of wildcards in the station list
-            matched = False
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(fnmatch.fnmatch(ss, s) for s in net['station'])
+                       for ss in ssplit):
                 continue
 
         netlist.append(split[0])
-- 
2.43.0


From 844a05d9a079c8e7cb9b1d4d61e644cf29dc09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 40/86] fix: read_dv keeps the processing parameters if tw_len
 is None

---
 src/seismic/monitor/dv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 5248708..2e0f52c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -258,7 +258,8 @@ def read_dv(path: str) -> DV:
             freq_min=float(loaded['freq_min']),
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
-            tw_len=float(loaded['tw_len']))
+            # None if all of the correlation was used
+            tw_len=float(loaded['tw_len']) if 'tw_len' in loaded else None)
         dv_processing['sides'] = loaded.get('sides', 'unknown')
         dv_processing['aligned'] = loaded.get('aligned', False)
     except KeyError:
-- 
2.43.0


From 96fba9103caa6c6f76fd89e6e250a124fc03f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 41/86] fix: compute_velocity_change with tw_len None measures
 the data

---
 src/seismic/monitor/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index a4ddcfc..c582fe5 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -259,7 +259,8 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            # cb is corrected for the preliminary stretch below
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From 04870afc34ddc6dadf814221ab1b62f2647a7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 42/86] fix: ignore every masking step when comparing
 processing options

---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 7ce6c3d..e972719 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -528,8 +528,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From ea24ec5c1a46c4106218d8a9b041369a789ac309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 43/86] fix: partial wildcards in requests to the correlation
 database

---
 src/seismic/db/corr_hdf5.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index e972719..ad558fc 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -249,7 +249,8 @@ omitted." % path, category=UserWarning)
                 network.split('-'), station.split('-'), channel.split('-'))]
         sorted = sort.copy()
         sorted.sort()
-        if sorted != sort:
+        # the order of codes with wildcards is unknown, keep it as requested
+        if sorted != sort and not re.search(r'[*?]', ''.join(sort)):
             network, station, channel = ['-'.join([a, b]) for a, b in zip(
                 sorted[0].split('.'), sorted[1].split('.'))]
 
@@ -273,8 +274,16 @@ omitted." % path, category=UserWarning)
         # accessed path
         path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
-        return all_traces_recursive(self[path], CorrStream(), pattern)
+        path = path.split('*')[0].rsplit('/', 1)[0] + '/'
+        st = all_traces_recursive(self[path], CorrStream(), pattern)
+        if st:
+            # In the pattern, a wildcard may also extend over a '/'. Retain
+            # only the codes that were really requested
+            st.traces = [tr for tr in st if all(
+                fnmatch.fnmatch(tr.stats[key], code) for key, code in (
+                    ('network', network), ('station', station),
+                    ('channel', channel)))]
+        return st
 
     def get_available_starttimes(
         self, network: str, station: str, tag: str,
-- 
2.43.0


From 90a254b5a7b6a43f6bd915407f1264ee5136e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 44/86] fix: accept the wildcard ? when listing start times

---
 src/seismic/db/corr_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index ad558fc..109ae0b 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -310,7 +310,7 @@ omitted." % path, category=UserWarning)
             corr_st='*', corr_et='*')
         out = {}
         if isinstance(channel, str):
-            if '*' not in channel:
+            if '*' not in channel and '?' not in channel:
                 path = '/'.join(path.split('/')[:-2])
                 try:
                     out[channel] = list(self[path].keys())
-- 
2.43.0


From e1f85fff8fba75c2ee4d68d844fe2e7c99d2349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 45/86] fix: select_time selects only correlations that are
 inside of the time window

---
 src/seismic/correlate/stream.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 995b81e..341a909 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -16,7 +16,6 @@ from typing import Iterator, List, Tuple, Optional
 from copy import deepcopy
 import warnings
 from matplotlib import pyplot as plt
-import datetime
 
 
 import numpy as np
@@ -1096,16 +1095,15 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_select = CorrStream()
-        start = datetime.time(*start)
-        end = datetime.time(*end)
+        # in seconds after midnight
+        start, end = [h*3600 + m*60 + s for h, m, s in (start, end)]
         for tr in self:
-            if tr.stats.corr_start.time >= start \
-                    and tr.stats.corr_end.time <= end:
-                if not exclude:
-                    cst_select.append(tr)
-            else:
-                if exclude:
-                    cst_select.append(tr)
+            # midnight of the day, on which the correlation starts
+            day = UTCDateTime(tr.stats.corr_start.date)
+            inside = tr.stats.corr_start >= day + start \
+                and tr.stats.corr_end <= day + end
+            if inside != bool(exclude):
+                cst_select.append(tr)
         return cst_select
 
     def slide(
-- 
2.43.0


From 842d9936d3ed8b956f3d5c190830e1bb49e9c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:47 +0000
Subject: [PATCH 46/86] fix: keep the processing history when slicing a
 CorrBulk

---
 src/seismic/correlate/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 341a909..d353957 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -670,7 +670,8 @@ class CorrBulk(object):
         stats = deepcopy(self.stats)
         for key, value in stats.items():
             try:
-                if isinstance(value, list) and key != 'processing_bulk':
+                if isinstance(value, list) and key not in (
+                        'processing', 'processing_bulk'):
                     stats[key] = [v for jj, v in zip(ii, value) if jj]
                 elif isinstance(value, np.ndarray):
                     stats[key] = value[ii]
-- 
2.43.0


From 1e570ed548f652be06977c603b27096154f349ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:32 +0000
Subject: [PATCH 47/86] fix: create_corr_bulk without data and times raises the
 ValueError

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index d353957..9dbd424 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -923,9 +923,10 @@ class CorrStream(Stream):
         if times:
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
-            raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+            msg = 'CorrStream contains no data of the requested codes'
+            if times:
+                msg += f' between {times[0]} and {times[1]}'
+            raise ValueError(msg + '.')
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From e436c96b49d75667d02479709b011be043df542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 48/86] fix: mask a trace that lies completely inside a masked
 interval

---
 src/seismic/correlate/preprocessing_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index fe03be1..f2f1405 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -300,6 +300,10 @@ def trace_mask_at_utc(
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[:ne] = True
 
+    # masks that start before and end after the trace
+    if np.any((starts <= start) * (ends >= end)):
+        mask[:] = True
+
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From c1dd8ec91a7b029197f669a7217fa019b7393273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 49/86] fix: keep masked samples at the ends when detrending or
 tapering

---
 src/seismic/correlate/preprocessing_stream.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index f2f1405..be28271 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -91,9 +91,8 @@ def cos_taper(
                 'Tapering lossless at masked values is not supported')
         st = tr.split()
         st = cos_taper_st(st, taper_len, False, False)
-        st = st.merge()
         if st.count():
-            tr.data = st[0].data
+            tr.data = _merge_parts(tr, st)
             return tr
         else:
             raise ValueError('Taper length must be larger than 0 s')
@@ -129,11 +128,24 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     """
     for tr in st:
         sst = tr.split()
+        if not sst.count():
+            # only masked samples
+            continue
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        tr.data = _merge_parts(tr, sst)
     return st
 
 
+def _merge_parts(tr: Trace, parts: Stream) -> np.ndarray:
+    """
+    Merge the unmasked parts of a trace, so that masked samples at its start
+    and end are retained.
+    """
+    parts.merge()
+    parts.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+    return parts[0].data
+
+
 def stream_filter(st: Stream, ftype: str, filter_option: dict) -> Stream:
     """ Filter each trace of a Stream according to the given parameters
 
-- 
2.43.0


From 3c27629998e265c6d8a613a7e88456bb6d43df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 50/86] fix: keep the arrays of a dv out of its header when
 reading it

---
 src/seismic/utils/miic_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..d40dbf2 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -245,7 +245,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing', 'stretches',
+    'corrs', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
-- 
2.43.0


From ecae4124376d451977f5bb085f59642d7a936408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 51/86] fix: read the times of a matrix with a single row as a
 list

---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index d40dbf2..6fcfc6e 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -285,6 +285,9 @@ def load_header_from_np_array(array_dict: dict) -> dict:
             continue
         elif k in t_keys:
             d[k] = convert_timestamp_to_utcdt(array_dict[k])
+            if 'ntrcs' in array_dict and not isinstance(d[k], list):
+                # header of a matrix with a single row
+                d[k] = [d[k]]
         else:
             try:
                 d[k] = array_dict[k][0]
-- 
2.43.0


From 8c5f708894c836656b2492e28cc231e2e1256504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 52/86] fix: CorrBulk read from a file is usable and keeps its
 processing

---
 src/seismic/correlate/stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 9dbd424..fafebf7 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -59,13 +59,16 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
-            self.stats = stats
+            # a header that was read from a file is a dictionary
+            self.stats = stats if isinstance(stats, CorrStats) else CorrStats(
+                stats)
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
         else:
             self.stats = CorrStats()
             self.stats['ntrcs'], self.stats['npts'] = A.shape
-        self.stats['processing_bulk'] = []
+        self.stats['processing_bulk'] = list(
+            self.stats.get('processing_bulk', []))
         self.ref_trc = None
 
     def __getitem__(self, item):
-- 
2.43.0


From f5d2de22e2d995cc1a6fb2b8521415f3578a9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 53/86] fix: create the folder for the waveform coherence in
 every process

---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index c582fe5..f0e8975 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -606,8 +606,8 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        # a process may be faster than the one with rank 0
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From 204e1547032bc1975189c2b8f58fa543ac2856df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 54/86] fix: accept grids whose increment has no exact binary
 representation

---
 src/seismic/monitor/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..281a671 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,7 +146,9 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
+    # the increments of a grid are only equal up to rounding errors
+    if not (np.allclose(np.diff(x), x[1]-x[0], atol=0)
+            and np.allclose(np.diff(y), y[1]-y[0], atol=0)):
         raise ValueError('x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
-- 
2.43.0


From 9b0bef539cc82a3739c6f662b36b676811565bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 55/86] fix: sensitivity kernels for lapse times that are no
 multiple of dt

---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 281a671..641a45e 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -155,7 +155,8 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    # t - T must not become negative
+    T = np.arange(0, t + dt/2, dt)
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0


From c0be6a8b414c145bf3e75b4bb1789336d831dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 56/86] fix: recognise points north of the grid and single
 points outside

---
 src/seismic/monitor/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 641a45e..4d91e42 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -882,13 +882,13 @@ class DVGrid(object):
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        if np.any([np.all(abs(self.xf-xx) > self.res) for xx in x])\
+                or np.any([np.all(abs(self.yf-yy) > self.res) for yy in y]):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-- 
2.43.0


From d46a2b36d7dfe03514161c46f61c3908327bcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 57/86] fix: inversion of dvs without processing information

---
 src/seismic/monitor/spatial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 4d91e42..47567fd 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -776,8 +776,9 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
-            tw = (
+        if processing:
+            # the length is None if all of the correlation was used
+            tw = None if processing['tw_len'] is None else (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
             freq0 = processing['freq_min']
-- 
2.43.0


From 86bd4b030c3ca3ea67771257933fcdb63c43fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:42 +0000
Subject: [PATCH 58/86] fix: do not share the default dv_processing between
 objects

---
 src/seismic/monitor/dv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 2e0f52c..fca2af5 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -34,7 +34,7 @@ class DV(object):
         sim_mat: np.ndarray, second_axis: np.ndarray, method: str,
         stats: CorrStats, stretches: np.ndarray = None,
         corrs: np.ndarray = None, n_stat: np.ndarray = None,
-            dv_processing: dict = {}):
+            dv_processing: dict = None):
         """
         Creates an object designed to hold and process velocity changes.
 
@@ -77,7 +77,7 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        self.dv_processing = {} if dv_processing is None else dv_processing
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
-- 
2.43.0


From 6e46f38e174ffad301f63006365a3eea1a532a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 59/86] fix: read sides and aligned as plain values

---
 src/seismic/monitor/dv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index fca2af5..4a75476 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -260,8 +260,11 @@ def read_dv(path: str) -> DV:
             tw_start=float(loaded['tw_start']),
             # None if all of the correlation was used
             tw_len=float(loaded['tw_len']) if 'tw_len' in loaded else None)
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        # arrays without dimension, if loaded from a file
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
-- 
2.43.0


From 0621b447da4256df76d00b934f2bec988b7b9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 60/86] fix: data with gaps can be added to a local day file

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..626a8a2 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -371,6 +371,8 @@ class Store_Client(object):
             rst = read(filename)
             rst.append(tr)
             rst.merge()
+            # miniseed cannot hold masked arrays, gaps separate traces
+            rst = rst.split()
         else:
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
-- 
2.43.0


From 031617f5e01c61b14e353f9db59d7ad4131f4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 61/86] fix: wildcards in single channel requests are refused

---
 src/seismic/trace_data/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 626a8a2..eb9ea8e 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -125,9 +125,9 @@ class Store_Client(object):
         self, network: str, station: str, location: str, channel: str,
         starttime: UTCDateTime, endtime: UTCDateTime,
             attach_response: bool = True, _check_times: bool = True) -> Stream:
-        assert ~('?' in network+station+location+channel), \
+        assert '?' not in network+station+location+channel, \
             "Only single channel requests supported."
-        assert ~('*' in network+station+location+channel), \
+        assert '*' not in network+station+location+channel, \
             "Only single channel requests supported."
         # try to load from local disk
         st = self._load_local(network, station, location, channel, starttime,
-- 
2.43.0


From ef9833d6d724f1c0ead9566bb54eb5cd5084f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 62/86] fix: folders that are no year do not stop the listing
 of stations

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index eb9ea8e..d266ac2 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -158,7 +158,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From 6c9ce0f7b1d15e98d6fb11e62933f7e5b479605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 63/86] fix: neighbouring months and years of a file structure

---
 src/seismic/trace_data/waveform.py | 43 +++++++++++-------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index d266ac2..4befefc 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -11,6 +11,7 @@ Created: Thursday, 18th February 2021 02:30:02 pm
 Last Modified: Monday, 4th March 2024 11:44:40 am
 '''
 
+import calendar
 import fnmatch
 import os
 import datetime
@@ -698,39 +699,25 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                    thistime = _shift_months(starttime, inc)
                 elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                    thistime = _shift_months(starttime, 12*inc)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
 
+def _shift_months(
+        time: datetime.datetime, months: int) -> datetime.datetime:
+    """
+    Shift a time by a number of months. Days that do not exist in the
+    target month are replaced by its last day.
+    """
+    year, month = divmod(time.year*12 + time.month - 1 + months, 12)
+    month += 1
+    day = min(time.day, calendar.monthrange(year, month)[1])
+    return time.replace(year=year, month=month, day=day)
+
+
 def _current_filepattern(
         ID: str, starttime: datetime.datetime, fs: str) -> str:
     """Return the file name that contains the data sequence that contains
-- 
2.43.0


From 10827d99efb6f45eee5b1f48adc492c22dce8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 64/86] fix: replacement in braces of a file structure
 descriptor

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 4befefc..2e06fa2 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -739,7 +739,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*?\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From b044e83e26c9eaefa7888f4b63b8a5417ebaae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 65/86] fix: file structures without time

---
 src/seismic/trace_data/waveform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2e06fa2..e02f030 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -680,6 +680,7 @@ def _adjacent_filepattern(
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
     fname = ''
     flag = 0
+    thistime = starttime
     # find earlier time by turning back the time by one increment of the
     # last time indicator in the fs
     for part in fs[-1::-1]:
-- 
2.43.0


From ecdcdbcdaa49815f032dd425e1224193b07ced12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 66/86] fix: a station with empty folders counts as not in the
 database

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index e02f030..2f1e875 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -801,7 +801,7 @@ def get_day_in_folder(
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    while not julday and -len(dirlist) <= i0 < len(dirlist):
         # if the folder is empty julday will stay False
         year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
-- 
2.43.0


From 0d5996b6e147ea633fd9fa9911f3517787389c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 67/86] fix: the warning for a station without data is a text

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2f1e875..a8069ec 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -225,7 +225,7 @@ class Store_Client(object):
             endtime = get_day_in_folder(
                 self.sds_root, dirlist, network, station, '*', 'end')
         except FileNotFoundError as e:
-            warnings.warn(e, UserWarning)
+            warnings.warn(str(e), UserWarning)
             return (None, None)
         return (starttime, endtime)
 
-- 
2.43.0


From 1d05d801c7f8b03aed23366ef55f31bd6ff3b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 68/86] fix: remote data without matching response are returned

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index a8069ec..73fac41 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -279,6 +279,8 @@ class Store_Client(object):
                     network=network, station=station, channel=channel,
                     starttime=starttime, endtime=endtime, level='response')
                 if attach_response:
+                    # data without response are not lost
+                    warnings.simplefilter('default')
                     st.attach_response(ninv)
                 self._write_inventory(ninv)
         if ((len(st) > 0) and not self.read_only):
-- 
2.43.0


From 74035c319e98508bad28c1b9ee102f30b3b078cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 69/86] fix: inventory files keep the channels that were there

---
 src/seismic/trace_data/waveform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 73fac41..b7cd7a1 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -390,9 +390,12 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
-        fname = os.path.join(
-            self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
-        ninv.write(fname, format="STATIONXML", validate=True)
+        if self.read_only:
+            return
+        net, stat = ninv[0].code, ninv[0][0].code
+        fname = os.path.join(self.inv_dir, f'{net}.{stat}.xml')
+        self.inventory.select(network=net, station=stat).write(
+            fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
         self, network: str, station: str, channel: str, starttime: UTCDateTime,
-- 
2.43.0


From 17eff355b757618c5bc841802e6eed57384156db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 70/86] fix: samples at both ends of a request are read from
 every file

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index b7cd7a1..2ba6fbf 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -658,7 +658,7 @@ def _read_filepattern(
             print('%s from %s to %s\n' % (f, start, end))
     st = Stream()
     for ind, fname in enumerate(flist):
-        if (starttimes[ind] < endtime) and (endtimes[ind] > starttime):
+        if (starttimes[ind] <= endtime) and (endtimes[ind] >= starttime):
             if trim:
                 st += read(
                     fname, starttime=UTCDateTime(starttime),
-- 
2.43.0


From c59d082fb8729ea454ddeb10c6b0b87915edb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 71/86] fix: no value where no reference has one

---
 src/seismic/monitor/stretch_mod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 70226f5..5596042 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -826,6 +826,8 @@ def estimate_reftr_shifts_from_dt_corr(
         dt = np.argmax(bsimmat, axis=1)
 
         dt = stretch_vect[dt]
+        # no estimate without correlation
+        dt[np.ma.getmaskarray(corr)] = np.nan
 
         # Remove the mask
         bsimmat = bsimmat.filled(np.nan)
-- 
2.43.0


From d17640a69c4bd2cee42f4adf8cdce74125eaf29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 72/86] fix: several references for a single trace

---
 src/seismic/monitor/stretch_mod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 5596042..2fad2dd 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -799,7 +799,9 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        col = len(stretch_vect)
+        # a single trace is one row
+        row = np.size(multi_ref_panel['reftr_0']['sim_mat']) // col
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -807,7 +809,8 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
+                np.roll(np.reshape(
+                    multi_ref_panel[reftr]['sim_mat'], (row, col)),
                         m[i],
                         axis=1)
 
-- 
2.43.0


From 99f07efa7a6375b51f95f6d3ab7b3a4034ca6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 73/86] fix: similarities do not wrap around when references
 are aligned

---
 src/seismic/monitor/stretch_mod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 2fad2dd..bd26077 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -813,6 +813,11 @@ def estimate_reftr_shifts_from_dt_corr(
                     multi_ref_panel[reftr]['sim_mat'], (row, col)),
                         m[i],
                         axis=1)
+            # nothing is known about the stretches moved in at the end
+            if m[i] > 0:
+                stmp[:, :m[i], i] = np.nan
+            elif m[i] < 0:
+                stmp[:, m[i]:, i] = np.nan
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
-- 
2.43.0


From 3893e43a590d91e475c58cd2c4476f61d3062030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 74/86] fix: several references for a single trace without data

---
 src/seismic/monitor/stretch_mod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index bd26077..8f2f842 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -761,10 +761,10 @@ def estimate_reftr_shifts_from_dt_corr(
                        if reftr != reftr1]
             for reftr2 in ref_idx:
                 ccorr, sshift = est_shift_from_dt_corr(
-                    np.squeeze(multi_ref_panel[reftr1]['value']),
-                    np.squeeze(multi_ref_panel[reftr2]['value']),
-                    np.squeeze(multi_ref_panel[reftr1]['corr']),
-                    np.squeeze(multi_ref_panel[reftr2]['corr']))
+                    np.ravel(multi_ref_panel[reftr1]['value']),
+                    np.ravel(multi_ref_panel[reftr2]['value']),
+                    np.ravel(multi_ref_panel[reftr1]['corr']),
+                    np.ravel(multi_ref_panel[reftr2]['corr']))
                 corr.append(ccorr)
                 shift.append(sshift)
 
-- 
2.43.0


From f0957625b9b9d8332174a3e2093f44c975dd0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 75/86] fix: reflection at the ends of smoothed data

---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index c5d1df4..23de6f6 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -105,8 +105,9 @@ def _smooth(
             "Window is not one of 'flat', 'hanning', 'hamming', "
             "'bartlett', 'blackman'")
 
-    s = np.r_[2 * x[0] - x[window_len:1:-1], x,
-              2 * x[-1] - x[-1:-window_len:-1]]
+    # continued by window_len - 1 samples reflected at the ends
+    s = np.r_[2 * x[0] - x[window_len-1:0:-1], x,
+              2 * x[-1] - np.flip(x[-window_len:-1])]
 
     if window == 'flat':  # moving average
         w = np.ones(window_len, 'd')
-- 
2.43.0


From 0cbcb76d71f276aab96c8505989ba59a95d8be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 76/86] fix: numpy integers select a trace of a CorrBulk

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index fafebf7..41fe481 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -74,7 +74,7 @@ class CorrBulk(object):
     def __getitem__(self, item):
         list_keys = ['corr_start', 'corr_end', 'location', 'channel']
         stats_out = deepcopy(self.stats)
-        if isinstance(item, int):
+        if isinstance(item, (int, np.integer)):
             for key in list_keys:
                 value = stats_out[key]
                 if isinstance(value, list) or isinstance(value, np.ndarray):
-- 
2.43.0


From fe3d95334290375228270075fc1597d5990bfaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 77/86] fix: a CorrBulk with arrays in its header makes a
 stream

---
 src/seismic/correlate/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 41fe481..586d505 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -246,7 +246,7 @@ class CorrBulk(object):
             for ii, li in enumerate(self.data):
                 stats = deepcopy(self.stats)
                 for k in mutables:
-                    if not isinstance(stats[k], list):
+                    if not isinstance(stats[k], (list, np.ndarray)):
                         continue
                     stats[k] = self.stats[k][ii]
                 ctr = CorrTrace(li, _header=stats)
@@ -255,7 +255,7 @@ class CorrBulk(object):
             for ii in ind:
                 stats = deepcopy(self.stats)
                 for k in mutables:
-                    if not isinstance(stats[k], list):
+                    if not isinstance(stats[k], (list, np.ndarray)):
                         continue
                     stats[k] = self.stats[k][ii]
                 ctr = CorrTrace(self.data[ii], _header=stats)
-- 
2.43.0


From 882207eb8a9f228b93e21e64fbc39b0699e0cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 78/86] fix: no spectra of time windows with gaps

---
 src/seismic/utils/raw_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..6cd53e4 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -73,6 +73,12 @@ def spct_series_welch(
                 f'{e}')
             continue
         for wintr in tr.slide(window_length=window_length, step=window_length):
+            if np.ma.is_masked(wintr.data):
+                # the values in gaps are arbitrary
+                warnings.warn(
+                    'Gap in the data for time window: '
+                    f'{wintr.stats.starttime}. Skipping...')
+                continue
             try:
                 f, S = welch(wintr.data, fs=wintr.stats.sampling_rate)
                 # interpolate onto a logarithmic frequency space
-- 
2.43.0


From a8cc1ebd60137ef6496cb50aa4d687f09a2efd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 79/86] fix: spectra of other processes if the first has none

---
 src/seismic/utils/raw_analysis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 6cd53e4..44e8f10 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -53,6 +53,7 @@ def spct_series_welch(
     specl = []
     # List of actually available times
     t = []
+    f2 = None
     for ii, st in enumerate(streams):
         # Find out which stream to process
         if ii % psize != rank:
@@ -95,22 +96,25 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
         # Sort from values in t
-        specl = [x for _, x in sorted(zip(t, specl))]
+        specl = [specl[ii] for ii in np.argsort(
+            [x.timestamp for x in t], kind='stable')]
         t = sorted(t)
 
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
+        # the frequencies of any process that had data
+        f2 = [f for f in f2 if f is not None]
+        if not f2:
             raise ValueError(
                 'A spectrum could not be computed. Check earlier log messages')
+        return f2[0], t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From a553a2c651ddeba85dd3a52f04fb223ca149607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 80/86] fix: the station list of the options stays as it is

---
 src/seismic/correlate/correlate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 4337c98..4ef739b 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -174,8 +174,8 @@ class Correlator(object):
                     + 'station code.')
             station = list([n, s] for n, s in zip(network, station))
         elif isinstance(station, list) and isinstance(network, str):
-            for ii, stat in enumerate(station):
-                station[ii] = [network, stat]
+            # the list belongs to the options of the user
+            station = [[network, stat] for stat in station]
         else:
             raise ValueError(
                 'Stations has to be either: \n'
-- 
2.43.0


From 1de289c679459d9f37d76d367adeb9d1f600d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 81/86] fix: options without preProcessing

---
 src/seismic/correlate/correlate.py | 2 +-
 src/seismic/monitor/monitor.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 4ef739b..7ae841f 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -107,7 +107,7 @@ class Correlator(object):
         if self.rank == 0:
             opt_dump = deepcopy(options)
             # json cannot write the UTCDateTime objects that might be in here
-            for step in opt_dump['co']['preProcessing']:
+            for step in opt_dump['co'].get('preProcessing') or []:
                 if 'stream_mask_at_utc' in step['function']:
                     startsstr = [
                         t.format_fissures() for t in step['args']['starts']]
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f0e8975..7f2b126 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -106,7 +106,7 @@ class Monitor(object):
         if self.rank == 0:
             opt_dump = deepcopy(options)
             # json cannot write the UTCDateTime objects that might be in here
-            for step in opt_dump['co']['preProcessing']:
+            for step in opt_dump['co'].get('preProcessing') or []:
                 if 'stream_mask_at_utc' in step['function']:
                     startsstr = [
                         t.format_fissures() for t in step['args']['starts']]
-- 
2.43.0


From ea35bec9ef5cef866bc57deec3c3f5b6fa69b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 82/86] fix: each response is removed once and asked for its
 own station

---
 src/seismic/correlate/correlate.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 7ae841f..6baab85 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1372,16 +1372,24 @@ def preprocess_stream(
 
     inv = store_client.inventory
     if remove_response:
-        try:
-            st.remove_response(taper=False, inventory=inv)
-        except ValueError:
-            print('Station response not found ... loading from remote.')
-            # missing station response
-            ninv = store_client.rclient.get_stations(
-                network=st[0].stats.network, station=st[0].stats.station,
-                channel='*', level='response')
-            st.remove_response(taper=False, inventory=ninv)
-            store_client._write_inventory(ninv)
+        ninvs = {}
+        # one by one, so that no response is removed twice
+        for tr in st:
+            try:
+                tr.remove_response(taper=False, inventory=inv)
+            except ValueError:
+                # missing station response
+                net, stat = tr.stats.network, tr.stats.station
+                if (net, stat) not in ninvs:
+                    print(
+                        'Station response not found ... loading from remote.')
+                    ninvs[net, stat] = store_client.rclient.get_stations(
+                        network=net, station=stat,
+                        channel='*', level='response')
+                    store_client._write_inventory(ninvs[net, stat])
+                tr.remove_response(
+                    taper=False, inventory=ninvs[net, stat])
+        for ninv in ninvs.values():
             inv += ninv
 
     # Sometimes Z has reversed polarity
-- 
2.43.0


From 0eb03c539a2a1f4adfa323441cf88cb3a6080cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 83/86] fix: indentation of the previous change to the
 alignment of references

---
 src/seismic/monitor/stretch_mod.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 8f2f842..3e49cb5 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -808,11 +808,9 @@ def estimate_reftr_shifts_from_dt_corr(
         # Roll the sim_mat
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
-            stmp[:, :, i] = \
-                np.roll(np.reshape(
-                    multi_ref_panel[reftr]['sim_mat'], (row, col)),
-                        m[i],
-                        axis=1)
+            sim_mat = np.reshape(
+                multi_ref_panel[reftr]['sim_mat'], (row, col))
+            stmp[:, :, i] = np.roll(sim_mat, m[i], axis=1)
             # nothing is known about the stretches moved in at the end
             if m[i] > 0:
                 stmp[:, :m[i], i] = np.nan
-- 
2.43.0


From c1412d52d709966c9ad9458adceb0ee3add2f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 84/86] fix: options with times are written to the log

---
 src/seismic/correlate/correlate.py | 2 +-
 src/seismic/monitor/monitor.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 6baab85..ba4f5ba 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -118,7 +118,7 @@ class Correlator(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         self.options = options['co']
 
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 7f2b126..42a06e1 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -117,7 +117,7 @@ class Monitor(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         # Find available stations and network
         self.netlist, self.statlist, self.infiles = \
-- 
2.43.0


From 522dfb1b48a1e94629fe4ac9ba511ef85c49036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 85/86] fix: the sample right before the first file of a
 request

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2ba6fbf..c9f7085 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -609,7 +609,7 @@ def read_from_filesystem(
 
     # if trace starts too late have a look in the previous section
     if (len(st) == 0) or (
-            (st[0].stats.starttime-st[0].stats.delta).datetime > starttime):
+            (st[0].stats.starttime-st[0].stats.delta).datetime >= starttime):
         fpattern, _ = _adjacent_filepattern(ID, starttime, fs, -1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0


From abbbd961f40665824f06ad857febb85f929f529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 86/86] fix: weeks that begin with the year in a file structure

---
 src/seismic/trace_data/waveform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9f7085..7a27024 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -703,7 +703,10 @@ def _adjacent_filepattern(
                 elif tpart in ['%a', '%A', '%w', '%d', '%j', '%-j']:
                     thistime = starttime + inc * datetime.timedelta(days=1)
                 elif tpart in ['%U', '%W']:
-                    thistime = starttime + inc * datetime.timedelta(days=7)
+                    # the first and last week of a year are shorter
+                    while thistime.strftime('%Y' + tpart) \
+                            == starttime.strftime('%Y' + tpart):
+                        thistime += inc * datetime.timedelta(days=1)
                 elif tpart in ['%b', '%B', '%m']:
                     thistime = _shift_months(starttime, inc)
                 elif tpart in ['%y', '%Y']:
-- 
2.43.0

