From 778eaf56dcd86f61e0a467104d26a258625f10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 01/36] fix: threaded and play_threaded end without a None
 frame and re-raise errors of the source

---
 cddm/video.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..9c169c1 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -517,11 +517,14 @@ def play_threaded(video, fps = None):
     
     """
     q = Queue()
+    error = []
     
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            error.append(e)
         finally:
             q.put(None)
     
@@ -563,6 +566,8 @@ def play_threaded(video, fps = None):
         pause()
             
     _FIGURES.clear()
+    if error:
+        raise error[0]
     
 def threaded(video, queue_size = 0):
     """
@@ -581,11 +586,14 @@ def threaded(video, queue_size = 0):
         A multi-frame iterator
     """
     q = Queue(queue_size)
+    error = []
     
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            error.append(e)
         finally:
             q.put(None)
     
@@ -594,10 +602,12 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
         if out is None:
             break
+        yield out
+
+    if error:
+        raise error[0]
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From c3e6d0bf3b10111a5cd099e461f881957266e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 02/36] fix: k_select accepts a single wave number

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..1927bcc 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -668,7 +668,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 4d471c16109903a713c704a817683b3f61a48d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 03/36] fix: increasing filter writes the first element of its
 output

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..8ed7714 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From d28d955893ba7eb0aee98f628178c66269632fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 04/36] fix: iacorr has a valid default normalization

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..00b5c8c 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1392,7 +1392,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 73c43c8b8eaa49beb4e475bbd8877c434c63c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 05/36] fix: asmemmaps accepts any iterable

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 9c169c1..4a6b3a7 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From 262969b2f84f7297e5ffd85bd02449a362f74c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 06/36] fix: fold_data in negative mode returns the value of
 delay -i at index i

---
 cddm/norm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..b680e2c 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -855,10 +855,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #zero delay first, then all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From f62bb0bdc29d86657dc56b269ba6d69d3019fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 07/36] fix: outputs longer than the data are computed without
 reading out of bounds or wrapping around

---
 cddm/_core_nb.py | 25 +++++++++++++------------
 cddm/core.py     |  4 ++++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 8ed7714..e73ae3d 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2,x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0],x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2,x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2,x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -574,10 +574,11 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
     length = len(x)
-    tmp1 = np.empty((length*2), x.dtype)
+    size = max(length, out_length)*2 #long enough for all output delays
+    tmp1 = np.empty((size), x.dtype)
     tmp1[0:length] = x
     tmp1[length:] = 0.
-    tmp2 = np.empty((length*2), y.dtype)
+    tmp2 = np.empty((size), y.dtype)
     tmp2[0:length] = y
     tmp2[length:] = 0.  
     x = _fft(tmp1, overwrite_x = True)
@@ -597,7 +598,7 @@ def _cross_corr_fft_regular(x, y, dummy, out):
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
     length = len(x)
-    tmp = np.empty((length*2), x.dtype)
+    tmp = np.empty((max(length, out_length)*2), x.dtype) #long enough for all output delays
     tmp[0:length] = x
     tmp[length:] = 0.
  
diff --git a/cddm/core.py b/cddm/core.py
index 00b5c8c..97cc477 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -210,6 +210,7 @@ def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex
     dtype = CDTYPE if complex else FDTYPE
     
     out = _default_out(aout,f1.shape,n,-1, dtype = dtype, complex = complex)
+    length = max(length, out.shape[-1]) #long enough for all output delays
 
     if t1 is None: 
         return _cross_corr_fft_regular(f1,f2,out, out)
@@ -236,6 +237,7 @@ def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout =
     dtype = CDTYPE if complex else FDTYPE
     
     out = _default_out(aout,f.shape,n,-1, dtype = dtype)
+    length = max(length, out.shape[-1]) #long enough for all output delays
 
     if t is None: 
         #regular spaced data algorithm
@@ -842,6 +844,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
     f = np.moveaxis(f,axis, -1)
     
     out = _default_out(aout,f.shape,n,-1, dtype = f.dtype, complex = complex) 
+    length = max(length, out.shape[-1]) #long enough for all output delays
 
     if t is None: 
         raise ValueError("Not implemented for regular spaced data! Use cross_sum instead.")
@@ -939,6 +942,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
     f = np.moveaxis(f,axis, -1)
     
     out = _default_out(aout,f.shape,n,-1, dtype = f.dtype) 
+    length = max(length, out.shape[-1]) #long enough for all output delays
     out0 = np.zeros_like(out)
         
     if t is None: 
-- 
2.43.0


From e2a1b7c359a8bb0037d14fa44deac7fd2caf35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 08/36] fix: cropping to a zero wave vector limit keeps one row
 or column

---
 cddm/fft.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..4b99773 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -149,8 +149,9 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         shape, istop, jstop = _determine_cutoff_indices(shape, kimax, kjmax, mode = "rfft2")
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
+        ineg = shape[0] - istop #number of negative kis
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        out[...,istop:,:] = x[...,x.shape[-2]-ineg:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -179,10 +180,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         shape, istop, jstop = _determine_cutoff_indices(shape, kimax, kjmax, mode = "fft2")
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
+        ineg, jneg = shape[0] - istop, shape[1] - jstop #number of negative kis and kjs
+        istart, jstart = x.shape[-2] - ineg, x.shape[-1] - jneg
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        out[...,istop:,:jstop] = x[...,istart:,:jstop] 
+        out[...,:istop,jstop:] = x[...,:istop,jstart:] 
+        out[...,istop:,jstop:] = x[...,istart:,jstart:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From bda30c58e880284af713bb83ce16401c5c85433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 09/36] fix: weight of weighted normalization does not depend
 on the scale option

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index b680e2c..485bd44 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -574,11 +574,11 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         weighted_data = base_data
         
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From c59481b95759e1193c6ea1f182a8633dbd8bc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 10/36] fix: weighted normalization writes to the supplied
 output array

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 485bd44..9ccf4d3 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -619,9 +619,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out = out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out = out)
         
     count = data[1]
     
-- 
2.43.0


From 86b623adbabd8269000e104a106ace13b823fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 11/36] fix: random binning without a supplied random number

---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..0f8534e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -424,7 +424,7 @@ def _add_data1(i,x, out, binning = True, r = None):
                 x = _mean(x, out[j-1,...,index_top-1,:], out[j,...,index_low,:]) if OPTIMIZE_LAYOUT else _mean(x, out[j-1,index_top-1,...], out[j,index_low,...])
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x = x if r > 0.5 else out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
@@ -470,7 +470,7 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x1 = x1 if r > 0.5 else out1[j-1,...,index_top-1,:]
                     x2 = x2 if r > 0.5 else out2[j-1,...,index_top-1,:]
-- 
2.43.0


From 1ff72e5e4e45553b8c0372acf9d55ce5ec39e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 12/36] fix: slow data of complex multi-tau correlation has
 matching shapes of data and count

---
 cddm/multitau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 0f8534e..6f681d9 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -232,16 +232,16 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (_full_size(n_slow),) if complex and cross else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (_full_size(n_slow),) + k_shape[-1:] if complex and cross else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, _full_size(n_slow),),IDTYPE) if complex and cross else np.zeros((nlevel, n_slow,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From 5ec8b72862998a4ffed3cb77a62a8692d5b9280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 13/36] fix: in-memory random binning selects the same frames
 for both cameras and squares

---
 cddm/multitau.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 6f681d9..9139a8b 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -271,11 +271,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        r = np.random.rand()
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From 2edfb1b4187dec2488a4d4fd8e82ce3b68b5629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 14/36] fix: no stray print when the data iterator is too short

---
 cddm/multitau.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 9139a8b..77cf248 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1044,7 +1044,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                 yield tuple((reshape_output(o, original_shape,mask) for o in out))
     
     if i < nframes-1:
-        print (i)
         raise ValueError("Data iterator too short.") 
          
     verbosity = disable_prints()
-- 
2.43.0


From 524a4d5b6a306560d6804a15a49dda12a7ad526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 15/36] fix: all levels of iterative multi-tau are filled when
 nlevel is given

---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 77cf248..bcdcbd2 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -756,9 +756,9 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        if min(nlevel + 1, n_decades_max) < 1:
             raise ValueError("Invalid nlevel")
+        n_decades = min(int(nlevel) + 1, n_decades)
         nlevel = min(int(nlevel),n_decades_max -1)
               
     t_slow = np.arange(nframes)
-- 
2.43.0


From a91454fdb6505729fa4fedc0357ff4b6d328b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 16/36] fix: iterative auto-difference in full mode does not
 fail on the missing squared sum

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index bcdcbd2..464d3d5 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -809,6 +809,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From 34c381af183ba1376f99753327b5c1fc5b73826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 17/36] fix: iterative complex auto-correlation includes pairs
 of neighbouring chunks

---
 cddm/multitau.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 464d3d5..291a78f 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -713,6 +713,19 @@ def _add_sq2(i,x1,x2,sq1,sq2,binning, r = None):
 
 def _add_sq1(i,x1,sq1,binning, r = None):
     return _add_data1(i,_abs2(x1), sq1, binning,r)  
+
+def _sum_delays(data, n, complex = False):
+    """Takes first n delays of the cross-correlation data tuple. For complex data
+    the negative delays (conjugated in case of correlation) are added to the positive ones."""
+    def _sum(i, x):
+        if x is None:
+            return None
+        out = x[...,0:n]
+        if complex:
+            neg = x[...,-1:-n:-1]
+            out[...,1:] += np.conj(neg) if i == 0 else neg
+        return out
+    return tuple((_sum(i,x) for (i,x) in enumerate(data)))
                        
 def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16, 
                         chunk_size = None,  binning = None, method = "corr", count = None,
@@ -932,7 +945,9 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #the preceding chunk goes first
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    out = _sum_delays(out, n_fast, complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1006,7 +1021,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = _sum_delays(out, n_slow, complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 2538f9863bf325f3cdbe506359d642bda020c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 18/36] fix: iterative binning without averaging selects the
 first of two frames, as in memory

---
 cddm/multitau.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 291a78f..45ecdc2 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -435,8 +435,10 @@ def _add_data1(i,x, out, binning = True, r = None):
                     out[j,index_low,...] = x                    
             else:
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -486,9 +488,13 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out2[j,index_low,...] = x2                    
             else:
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From 02d12dba83c8ee14886c3dad38467e8edbfbcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 19/36] fix: enable_prints restores the given verbosity level

---
 cddm/print_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..567a8d1 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -48,9 +48,10 @@ def disable_prints():
     return value
     
 def enable_prints(level = None):
-    """Enable message printing. Returns previous verbosity level"""
-    #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    """Enable message printing. Returns previous verbosity level. If level is
+    given (as returned by disable_prints), this level is restored."""
+    value = cddm.conf.CDDMConfig.verbose
+    #set verbosity to positve value, or restore the given value
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From d798d4a184e298cb5d973df885a9a2e912559d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 20/36] fix: verbosity is restored when a computation fails

---
 cddm/multitau.py    |  6 +++++-
 cddm/norm.py        |  3 ++-
 cddm/print_tools.py | 31 ++++++++++++++++++++++++++++++-
 cddm/viewer.py      |  4 +++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 45ecdc2..57a6342 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -32,7 +32,8 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
 import numpy as np
 
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE
-from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints, \
+    restores_verbose, restores_verbose_iter
 from cddm.print_tools import print1, print2
 
 from cddm._core_nb import convolve, _calc_stats_vec,  _abs2
@@ -156,6 +157,7 @@ def _determine_lengths(length, n, period, nlevel):
     assert nlevel >= 0
     return n_fast, n_slow, nlevel
 
+@restores_verbose
 def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, level_size = 2**4, 
                          binning = None,  nlevel = None, norm = None, method = None, align = False, thread_divisor = None, mask = None, complex = False):
     """Implements multiple tau algorithm for cross(auto)-correlation(difference) calculation.
@@ -733,6 +735,7 @@ def _sum_delays(data, n, complex = False):
         return out
     return tuple((_sum(i,x) for (i,x) in enumerate(data)))
                        
+@restores_verbose_iter
 def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16, 
                         chunk_size = None,  binning = None, method = "corr", count = None,
                         auto_background = False, nlevel = None,  norm = None,
@@ -1676,6 +1679,7 @@ def t_multilevel(shape, period = 1):
         x *= 2
     return out
         
+@restores_verbose
 def normalize_multi(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None):
     """A multitau version of :func:`.core.normalize`.
diff --git a/cddm/norm.py b/cddm/norm.py
index 9ccf4d3..cac3c13 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE
-from cddm.print_tools import print1,print2, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, enable_prints, disable_prints, restores_verbose
 
 from cddm._core_nb import normalize_struct_compensated, normalize_corr_compensated,\
     normalize_corr_compensated_subtracted,\
@@ -486,6 +486,7 @@ def _inspect_scale(scale):
     except:
         raise ValueError("Invalid scale")
         
+@restores_verbose
 def normalize(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None, weight = None, ret_weight = False, out = None):
     """Normalizes correlation (difference) data. Data must be data as returned
diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 567a8d1..c0b8bb9 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -6,6 +6,7 @@ verbosity levels 1 and 2 enable printing, 0 disables printing messages.
 from __future__ import absolute_import, print_function, division
 
 import time
+from functools import wraps
 import cddm.conf
 
 def print1(*args, **kwargs):
@@ -54,4 +55,32 @@ def enable_prints(level = None):
     #set verbosity to positve value, or restore the given value
     cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
-                                        
\ No newline at end of file
+
+def restores_verbose(func):
+    """Decorator for functions that use disable_prints. Verbosity level is 
+    restored even if the function fails."""
+    @wraps(func)
+    def _func(*args, **kwargs):
+        level = cddm.conf.CDDMConfig.verbose
+        try:
+            return func(*args, **kwargs)
+        finally:
+            cddm.conf.CDDMConfig.verbose = level
+    return _func
+
+def restores_verbose_iter(func):
+    """Same as :func:`.restores_verbose`, but for generator functions. Verbosity
+    level is restored at each yield and when the generator ends or fails."""
+    @wraps(func)
+    def _func(*args, **kwargs):
+        iterator = func(*args, **kwargs)
+        while True:
+            level = cddm.conf.CDDMConfig.verbose
+            try:
+                out = next(iterator)
+            except StopIteration:
+                return
+            finally:
+                cddm.conf.CDDMConfig.verbose = level
+            yield out
+    return _func
diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..eceba74 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -7,7 +7,7 @@ from matplotlib.widgets import Slider, Button, RadioButtons, CheckButtons, AxesW
 from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_mask, as_rfft2_conj
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
-from cddm.print_tools import disable_prints, enable_prints
+from cddm.print_tools import disable_prints, enable_prints, restores_verbose
 from cddm.decorators import doc_inherit, skip_runtime_error
 
 
@@ -363,6 +363,7 @@ class DataArrayViewer(object):
         return self._get_avg_data()
             
 
+    @restores_verbose
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
@@ -764,6 +765,7 @@ class DataViewer(object):
         
         return self.mask.any()
         
+    @restores_verbose
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
-- 
2.43.0


From b7b015523422c020d86112f42ca8f6621fde70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 21/36] fix: thread settings: fall back to available threads at
 import, validate fft threads first

---
 cddm/conf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..10b755f 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -321,7 +321,10 @@ def set_rfft2lib(name = "numpy.fft"):
 def set_fft_threads(n):
     """Sets number of threads used in fft functions."""
     out = CDDMConfig.fft_threads
-    CDDMConfig.fft_threads = int(n)
+    n = int(n)
+    if n < 1:
+        raise ValueError("Number of threads must be a positive integer.")
+    CDDMConfig.fft_threads = n
     try:
         import mkl
         mkl.set_num_threads(n)
@@ -353,7 +356,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From d1da4a3e43f2104e7997caf4891dd9fc11217f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 22/36] fix: k_select rejects unknown modes

---
 cddm/map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 1927bcc..613b97e 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -654,8 +654,10 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
     if mode == "rfft2":
         kisize, kjsize = as_fft2_shape(kisize, kjsize, shape)
         _k_select = _k_select_real
-    else:
+    elif mode == "fft2":
         _k_select = _k_select_complex
+    else:
+        raise ValueError("Unknown mode.")
     
     kmap, anglemap = fft2_kangle(kisize, kjsize, shape)
     indexmap = fft2_sector_indexmap(kmap, anglemap, angle, sector, kstep)
-- 
2.43.0


From 2d87bd5f7115f6f32ebc98db336305c9f204e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 23/36] fix: acorr rejects complex calculation for the
 difference method, as ccorr does

---
 cddm/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/core.py b/cddm/core.py
index 97cc477..ff2c225 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1077,6 +1077,8 @@ def acorr(f, t = None, fs = None,  n = None,  norm = None,
     correlate = False if method == "diff" else True
     
     if method == "diff":
+        if complex == True:
+            raise ValueError("`complex` calculation not supported for method == 'diff'.")
         cor, count, _, _ = (None,)*4 if aout is None else aout 
     else:
         cor, count, sq, ds, _ = (None,)*5 if aout is None else aout 
-- 
2.43.0


From 5ae4c453b0add1f7c144ef39cc06adf00641d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 24/36] fix: mean wave number of half-plane selection does not
 include masked-out wave vectors

---
 cddm/map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/map.py b/cddm/map.py
index 613b97e..d3618f9 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,6 +309,9 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
+    if computed_mask is not None:
+        #half-plane mask defines which of the wave vectors are valid
+        mask = mask & from_rfft2_data(computed_mask, mask.shape)
     ks = kmap[mask]
     mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
-- 
2.43.0


From debfa5ed63f23a643b1b4249ae5058ed5daa232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 25/36] fix: callable velocity is given per unit time, as a
 constant one

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..64cae1c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From 12376069af599615b18f669ba7cb7c803fecc4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 26/36] fix: data_trigger accepts empty indices

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index 64cae1c..42f4910 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -292,6 +292,9 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if not t:
+        return
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From dce7e0c554c29cb1e0ab9c46547877d07dbd471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 27/36] fix: drawing wraps particles and large spots into the
 image

---
 cddm/_sim_nb.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..bc03b7f 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -58,8 +58,10 @@ def draw_points(im, points, intensity):
     nparticles = len(data)
     assert points.shape[1] == 2
     assert nparticles == len(intensity)
+    height, width = im.shape
     for j in range(nparticles):
-        im[int(data[j,0]),int(data[j,1])] = im[int(data[j,0]),int(data[j,1])] + intensity[j] 
+        h, w = int(data[j,0]) % height, int(data[j,1]) % width
+        im[h,w] = im[h,w] + intensity[j] 
     return im  
 
 @nb.jit([F(F,F,F)],nopython = True,cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -139,21 +141,8 @@ def draw_psf(im, points, intensity, sigma):
         for i0 in range(h-size,h+size+1):
             for j0 in range(w -size, w+size+1):
                 p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
-                #j = j0 % width
-                #i = i0 % height
-                
-                # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
-                else:
-                    j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
-                else:
-                    i = i0
+                #wrap around, spot can be larger than the image
+                j = j0 % width
+                i = i0 % height
                 im[i,j] = im[i,j] + p
     return im  
\ No newline at end of file
-- 
2.43.0


From 30432dfa4ada8c955f3d35f8cea0cfa40f8ad719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 28/36] fix: dual-camera simulated video yields every requested
 pair of frames

---
 cddm/sim.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 42f4910..1308225 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -231,8 +231,8 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -259,23 +259,23 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     
     for i,data in enumerate(particles):
     
-        if i in t1[:1]:
+        #the same frame can be requested several times
+        while i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
-        if t2 is not None and i in t2[:1]:
+        while t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            #one camera can be several frames ahead of the other
+            while out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            while out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From feb95539a9576a64dcd91fab7713f7e1e72843a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 29/36] fix: k_select of half-plane data: negative partners are
 taken from the full-plane mask

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index d3618f9..a4d343d 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -313,8 +313,8 @@ def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
         #half-plane mask defines which of the wave vectors are valid
         mask = mask & from_rfft2_data(computed_mask, mask.shape)
     ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
-- 
2.43.0


From 5d1be8213d53eb698b06d9dac53e4a154d725994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 30/36] fix: viewers do not fold data when fold is set to False

---
 cddm/viewer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index eceba74..e8e0b4d 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -501,7 +501,7 @@ class CorrArrayViewer(DataArrayViewer):
 
         if np.iscomplexobj(data) :
             if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data)
+                data = fold_data(data) if self.fold in (None, True) else data
             elif self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
@@ -564,7 +564,7 @@ class MultitauArrayViewer(CorrArrayViewer):
         
         if np.iscomplexobj(data[0]) :
             if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data[0],1), fold_data(data[1],1)
+                data = (fold_data(data[0],1), fold_data(data[1],1)) if self.fold in (None, True) else data
             elif self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
@@ -920,7 +920,7 @@ class CorrViewer(DataViewer):
 
         if np.iscomplexobj(data) :
             if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data)
+                data = fold_data(data) if self.fold in (None, True) else data
             elif self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
@@ -1004,7 +1004,7 @@ class MultitauViewer(CorrViewer):
         
         if np.iscomplexobj(data[0]) :
             if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data[0],1), fold_data(data[1],1)
+                data = (fold_data(data[0],1), fold_data(data[1],1)) if self.fold in (None, True) else data
             elif self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
-- 
2.43.0


From 8f730245c830b1bbad851935ea2b6cacc876c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 31/36] fix: half-plane size of the scipy rfft2 backend follows
 the size of the transform

---
 cddm/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 4b99773..69b4505 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -69,12 +69,12 @@ def _ifft2(a, overwrite_x = False, extra = {}):
     
 def _rfft2(a, overwrite_x = False, extra = {}):
     libname = CDDMConfig["rfft2lib"]
-    cutoff = a.shape[-1]//2 + 1
     if libname == "mkl_fft":
         out = mkl_fft.rfftn_numpy(a.real,axes =(-2, -1), **extra)
         #return mkl_fft.fft2(a, overwrite_x = overwrite_x)[...,0:cutoff]
     elif libname == "scipy":
-        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)[...,0:cutoff]
+        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)
+        out = out[...,0:out.shape[-1]//2 + 1]
     elif libname == "numpy":
         out = np.fft.rfft2(a.real, **extra) #force real in case input is complex
     elif libname == "pyfftw":
-- 
2.43.0


From 22224c7f017c4d4e6b2aa373b2bc46c007371963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 32/36] fix: scipy rfft2 backend takes the real part of complex
 frames, as all other backends

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 69b4505..79af1fb 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -73,7 +73,7 @@ def _rfft2(a, overwrite_x = False, extra = {}):
         out = mkl_fft.rfftn_numpy(a.real,axes =(-2, -1), **extra)
         #return mkl_fft.fft2(a, overwrite_x = overwrite_x)[...,0:cutoff]
     elif libname == "scipy":
-        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)
+        out = spfft.fft2(a.real, overwrite_x = overwrite_x, **extra) #force real in case input is complex
         out = out[...,0:out.shape[-1]//2 + 1]
     elif libname == "numpy":
         out = np.fft.rfft2(a.real, **extra) #force real in case input is complex
-- 
2.43.0


From daed9697824efd6df056a09181d11f48de503b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 33/36] fix: log_interpolate writes every element and hits the
 data points of a segment starting at zero

---
 cddm/_core_nb.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index e73ae3d..73fce90 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -102,15 +102,12 @@ def _log_interpolate(x_new, x,y, out):
     """Linear interpolation in semilogx space."""
     assert len(x) >= 2
     for i in range(len(x_new)):
-        xi = x_new[i]
-        log = False
-        if xi > 1:
-            xi = np.log(xi)
-            log = True
         for j in range(1,len(x)):
+            xi = x_new[i]
             x0 = x[j-1]
             x1 = x[j]            
-            if x0 >= 1 and log == True:
+            if x0 >= 1 and xi > 1:
+                xi = np.log(xi)
                 x0 = np.log(x0)
                 x1 = np.log(x1)
             if x_new[i] <= x[j]:
@@ -120,7 +117,7 @@ def _log_interpolate(x_new, x,y, out):
                 out[i] = (xi - x0) * deltay / deltax +  y[j-1]
                 break
         #extrapolate forward for data points outside of the domain
-        if xi > x1:            
+        if x_new[i] > x[-1]:            
             deltay = y[-1] - y[-2]
             deltax = x1 - x0
             out[i] = (xi - x0) * deltay/deltax +  y[-2]    
-- 
2.43.0


From 0143fdf4d1a4fe4a953c4d66f1a26dbbeed32a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 34/36] fix: reshape_output restores masked data computed with
 a thread divisor, and one- and three-dimensional frames

---
 cddm/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index ff2c225..e7c3013 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -366,7 +366,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(lead + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -377,11 +377,16 @@ def reshape_output(data, shape = None, mask = None):
     if shape is None:
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
-    else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        shape = (np.count_nonzero(mask),)
+    data_shape = data.shape if isinstance(data, np.ndarray) else data[0].shape
+    #data has frame axes of the input shape, or two of them, see thread_frame_shape
+    ndim = len(shape)
+    if data_shape[-ndim-1:-1] != tuple(shape):
+        ndim = 2
+    elif mask is None and data_shape[-3:-1] == (1,) + tuple(shape):
+        ndim = 2
+    lead = data_shape[0:-ndim-1]
+    shape = lead + tuple(shape) + (data_shape[-1],) 
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
-- 
2.43.0


From 8c565d050759276152af52a79e4fd9e94630f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 35/36] fix: reshape_input keeps each wave vector's time series
 together when the calculation axis is not the first one

---
 cddm/core.py     | 6 ++++--
 cddm/multitau.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index e7c3013..35b04c6 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -320,8 +320,10 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     n = shape.pop(axis)
     force_2d = True if mask is None else False
     new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    new_axis = min(axis, len(new_shape))
+    #frame axes must be adjacent when reshaping
+    f = np.moveaxis(f, axis, 0).reshape([n] + new_shape)
+    return np.moveaxis(f, 0, new_axis), tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
diff --git a/cddm/multitau.py b/cddm/multitau.py
index 57a6342..08445cb 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -179,10 +179,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     else:
         f1,t1,axis,level_size = _inspect_auto_arguments(f1,t1,axis,level_size, None)
     
+    axis = list(range(f1.ndim))[axis]#make it a positive integer
     #reshape input data for faster threaded execution.
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
+    axis = min(axis, f1.ndim - 1)
 
     new_axis = -2 if f1.ndim > 1 else -1    
 
-- 
2.43.0


From 0fa2c8c389212d2acfb20f3e31669f9d0e4c1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 36/36] fix: iterative correlation functions accept the default
 output length

---
 cddm/multitau.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 08445cb..058bf49 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -751,6 +751,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     t1,t2, count = _inspect_t1_t2_count(t1,t2,count,data)
     correlate = False if method == "diff" else True
         
+    if level_size is None:
+        level_size = count if chunk_size is None else chunk_size
     level_size = int(level_size)
    
     chunk_size = _default_chunk_size(chunk_size,count,level_size)
-- 
2.43.0

