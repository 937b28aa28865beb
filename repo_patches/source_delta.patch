From 826d6f4a64752bdaff383c9e357edd06c8d8af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 01/77] fix: keep target data in the same order as target ids
 when distributing work

distribute_work returns the ids sorted by decreasing weight, while the
target data stayed in input order, so that results were attributed to
the wrong target whenever targets have different numbers of spectra.
---
 py/redrock/targets.py | 4 +++-
 py/redrock/zscan.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..de2ce45 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -558,7 +558,9 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
-            self._my_data = targets
+            # same order as self._my_targets, which is sorted by weight
+            tbuf = { tg.id : tg for tg in targets }
+            self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
             for tg in targets:
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..43de2b6 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1054,7 +1054,9 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                # same order as target_ids, which is sorted by weight
+                local_data = { x.id : x for x in targets.local() }
+                target_data = [ local_data[tid] for tid in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From 717f89142fd0bd4ac5baabc06a61939b0dda8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/77] fix: DistTargetsCopy only needs the targets on the root
 process

As documented, the targets are located on one process; the other
processes no longer iterate over their own (missing) list.
---
 py/redrock/targets.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index de2ce45..a3f63c8 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -550,7 +550,12 @@ class DistTargetsCopy(DistTargets):
         # Distribute the targets among process weighted by the amount of work
         # to do for each target.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        self._proc_targets = None
+        if comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -563,7 +568,9 @@ class DistTargetsCopy(DistTargets):
             self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                # only the root process needs to have the targets
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From 72034bf86edc55505b8d3bb144b1490f8a385b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 03/77] fix: with MPI, restart from a chi2 scan file only with
 the local targets

Otherwise each rank sends the unfit scan of all targets to rank 0, where
it overwrites the fits made by the other ranks.
---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..869810d 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -290,6 +290,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
+        # the file has all targets, keep only those of this process
+        results = { tid : results[tid] for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 4883dd33904949a66377f1b0f489d8700b3bed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/77] fix: allow more MPI processes than template redshifts

A process without redshifts failed taking the max of an empty array.
---
 py/redrock/templates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..3704d6f 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -572,6 +572,13 @@ class DistTemplate(object):
                 self._comm_size)
             myz = self._distredshifts[self._comm_rank]
 
+        if len(myz) == 0:
+            # more processes than redshifts; this one has nothing to rebin
+            data = { k : np.zeros((0, len(w), self._template.nbasis))
+                     for k, w in self._dwave.items() }
+            self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+            return
+
         # In the case of not using MPI (comm == None), one process is rebinning
         # all the templates.  In that scenario, use multiprocessing
         # workers to do the rebinning.
-- 
2.43.0


From b8ee47f786884f7f3ffced518e39b37d6f9dc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 05/77] fix: raise an error instead of waiting forever when a
 multiprocessing worker fails

Workers printed the exception and exited normally without results while
the parent process waited for these results; a killed worker likewise.
---
 py/redrock/utils.py | 29 +++++++++++++++++++++++++++++
 py/redrock/zfind.py |  5 +++--
 py/redrock/zscan.py |  7 ++++---
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..f252b54 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -182,6 +182,35 @@ def mp_array(original):
     nd.shape = shape
     return nd
 
+def mp_queue_get(mpqueue, procs, timeout=1.0):
+    """Get one item from a queue that is filled by multiprocessing workers.
+
+    Args:
+        mpqueue (multiprocessing.Queue): the queue.
+        procs (list): the multiprocessing.Process workers that fill the queue.
+        timeout (float): number of seconds between checks of the workers.
+
+    Returns:
+        object: the next item in the queue.
+
+    Raises RuntimeError, after terminating the remaining workers, if the queue
+    is empty and a worker failed or all workers finished, i.e. the item that
+    the caller waits for will never arrive.
+    """
+    import queue
+
+    while True:
+        exitcodes = [ p.exitcode for p in procs ]
+        try:
+            return mpqueue.get(timeout=timeout)
+        except queue.Empty:
+            failed = [ x for x in exitcodes if x not in (None, 0) ]
+            if failed or (None not in exitcodes):
+                for p in procs:
+                    p.terminate()
+                raise RuntimeError("multiprocessing workers exited with codes "
+                    "{} before returning all results".format(exitcodes))
+
 def distribute_work(nproc, ids, weights=None, capacities=None):
     """Helper function to distribute work among processes with varying capacities.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 869810d..479e53d 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, extra_columns_in_archetype_mode, mp_queue_get
 
 from .targets import distribute_targets
 
@@ -99,6 +99,7 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        sys.exit(1)
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -393,7 +394,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for i in range(mp_procs):
                 if len(mpdist[i]) == 0:
                     continue
-                res = qout.get()
+                res = mp_queue_get(qout, procs)
                 for rs in res:
                     results[rs[0]][ft]['zfit'] = rs[1]
 
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 43de2b6..3bc2e21 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, mp_queue_get
 
 from .targets import distribute_targets
 
@@ -905,6 +905,7 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        sys.exit(1)
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1072,7 +1073,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             tot = 0
             proglast = 0
             while (tot < ntarget):
-                cnt = qprog.get()
+                cnt = mp_queue_get(qprog, procs)
                 tot += cnt
                 prg = int(100.0 * tot / ntarget)
                 if prg >= proglast + progincr:
@@ -1085,7 +1086,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             zcoeff = dict()
             penalty = dict()
             for _ in range(len(procs)):
-                res = qout.get()
+                res = mp_queue_get(qout, procs)
                 tids = mpdist[res[0]]
                 for j,tid in enumerate(tids):
                     zchi2[tid] = res[1][j]
-- 
2.43.0


From 5bc53eec621012e6b8f01d93c2af275aaf8d5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 06/77] fix: rebin_template range check for a mix of edge
 arrays and edge tuples

The minimum and maximum edge of a grid given as a tuple were used for the
range check of the following grids given as plain arrays, which could then
be outside of the template range without being refused.
---
 py/redrock/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..0730d06 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -503,9 +503,9 @@ def rebin_template(template, myz, dwave=None, dedges=None, use_gpu=False, xmin=N
                 result[hs] = trapz_rebin(template.wave, template.flux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
     elif dedges is not None:
         #Handle the case where dedges is passed because edges is already computed
-        minedge = None
-        maxedge = None
         for hs, edges in dedges.items():
+            minedge = None
+            maxedge = None
             #Check if edges is a 1-d array or a tuple also containing scalar min/max values
             if type(edges) is tuple:
                 (edges, minedge, maxedge) = edges
-- 
2.43.0


From d723c0b8a936cd56c7c2a40b8cc26af0b13d91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 07/77] fix: trapz_rebin raises ValueError if len(x) != len(y)
 as documented

---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index 0730d06..22b2f70 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -340,6 +340,9 @@ def trapz_rebin(x, y, xnew=None, edges=None, myz=None, use_gpu=False, xmin=None,
     if (edge_min < xmin or edge_max > xmax):
         raise ValueError('edges must be within input x range')
 
+    if len(x) != y.shape[-1]:
+        raise ValueError('x and y must have the same length')
+
     if (not use_gpu and scalar_z and len(y.shape) == 1):
         #Special case, call _trapz_rebin_1d directly
         result = np.zeros(nbins, dtype=np.float64)
-- 
2.43.0


From 73dd32753cbe724d7385cd42e9b469bddad72e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 08/77] fix: Inoue14 Lyman continuum LAF optical depth at z<1.2

The z<4.7 formula was also applied to z<1.2, overwriting the optical depth
of equation 25 of Inoue et al. (2014).
---
 py/redrock/igm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..7d000b0 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,7 +212,7 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
-- 
2.43.0


From d6cd25dd75b7308be174f005d6d672a26898c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 09/77] fix: Inoue14 optical depth at exactly 911.8*(1+4.7)
 Angstrom

That wavelength belonged to none of the pieces of the Lyman continuum formula.
---
 py/redrock/igm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 7d000b0..69f33c3 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -218,7 +218,7 @@ class Inoue14(object):
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
 
         y0 = x0 & (zS[:,None] >= z2LAF)
-        x1 = lobs > lamL*(1.+z2LAF)
+        x1 = lobs >= lamL*(1.+z2LAF)
         x2 = (lobs >= lamL*(1.+z1LAF)) & (lobs < lamL*(1.+z2LAF))
         x3 = lobs < lamL*(1.+z1LAF)
 
-- 
2.43.0


From 97cc0e3bc8085d44e320aa8b595407754ccbe701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 10/77] fix: Inoue14 transmission for integer wavelengths

The Lyman continuum optical depths were truncated to integers.
---
 py/redrock/igm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 69f33c3..3ddd943 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -177,7 +177,7 @@ class Inoue14(object):
         z1DLA = 2.0
         lamL = 911.8
 
-        tLCDLA_value = np.zeros_like(lobs)
+        tLCDLA_value = np.zeros_like(lobs, dtype=np.float64)
 
         x0 = lobs < lamL*(1.+zS)[:,None]
 
@@ -206,7 +206,7 @@ class Inoue14(object):
         z2LAF = 4.7
         lamL = 911.8
 
-        tLCLAF_value = np.zeros_like(lobs)
+        tLCLAF_value = np.zeros_like(lobs, dtype=np.float64)
 
         x0 = lobs < lamL*(1.+zS)[:,None]
         y0 = x0 & (zS[:,None] < z1LAF)
-- 
2.43.0


From 8d9c04ecc2d2864e4bb98c0881c55d7f62109389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 11/77] fix: NMF/NNLS/BVLS solutions minimize chi2 also when
 their bounds are active

---
 py/redrock/zscan.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 3bc2e21..098f563 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1107,6 +1107,28 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
 
     return results
 
+def _normal_to_lstsq(M, y):
+    """Return (A, b) with A.T@A = M and A.T@b = y.
+
+    The bounded solvers minimize |A*x - b|^2; passing them the normal
+    equations (M, y) themselves would minimize |M*x - y|^2, which is only
+    the minimum chi2 if none of the bounds are active.
+
+    Args:
+        M (array): 2d array (nbasis x nbasis), symmetric positive semi-definite
+        y (array): 1d array (nbasis)
+
+    Returns (A, b) tuple of arrays with same shapes as (M, y)
+
+    """
+    s, v = np.linalg.eigh(M)
+    good = s > len(s) * np.finfo(float).eps * np.max(np.abs(s))
+    root = np.sqrt(np.where(good, s, 0.0))
+    A = root[:,None] * v.T
+    b = np.zeros(len(s))
+    b[good] = v.T.dot(y)[good] / root[good]
+    return A, b
+
 def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False):
     """Solve the matrix equation y = M*x for the unknown x using the
     specified algorithm.  The default is to use PCA via numpy or cupy
@@ -1162,14 +1184,14 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
             #Copy to CPU, run scipy.optimize.nnls, copy back to GPU
             for j in range(nz):
                 try:
-                    res = nnls(Mcpu[j,:,:], ycpu[j,:])
+                    res = nnls(*_normal_to_lstsq(Mcpu[j,:,:], ycpu[j,:]))
                     zcoeff[j,:] = res[0]
                 except Exception:
                     zcoeff[j,:] = HUGE_CHI2
             return cp.asarray(zcoeff)
         else:
             try:
-                res = nnls(M, y)
+                res = nnls(*_normal_to_lstsq(M, y))
                 zcoeff = res[0]
             except Exception:
                 raise np.linalg.LinAlgError
@@ -1190,14 +1212,14 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
             #Copy to CPU, run scipy.optimize.lsq_linear, copy back to GPU
             for j in range(nz):
                 try:
-                    res = lsq_linear(Mcpu[j,:,:], ycpu[j,:], bounds=bounds, method='bvls')
+                    res = lsq_linear(*_normal_to_lstsq(Mcpu[j,:,:], ycpu[j,:]), bounds=bounds, method='bvls')
                     zcoeff[j,:] = res.x
                 except np.linalg.LinAlgError:
                     zcoeff[j,:] = HUGE_CHI2
             return cp.asarray(zcoeff)
         else:
             try:
-                res = lsq_linear(M, y, bounds=bounds, method='bvls')
+                res = lsq_linear(*_normal_to_lstsq(M, y), bounds=bounds, method='bvls')
                 zcoeff = res.x
             except np.linalg.LinAlgError:
                 raise
-- 
2.43.0


From 64fe7d20f219aba7bb2bdf6209eb2249e8f13c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 12/77] fix: coefficients match the reported redshift when the
 parabola minimum is outside the fit range

---
 py/redrock/fitz.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..af84e02 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -260,24 +260,34 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
         i = min(max(np.argmin(zzchi2),1), len(zz)-2)
         zmin, sigma, chi2min, zwarn = minfit(zz[i-1:i+2], zzchi2[i-1:i+2])
 
+        zbest = zmin
+        zerr = sigma
+
+        #- parabola minimum outside fit range; replace with min of scan
+        if zbest < zz[0] or zbest > zz[-1]:
+            zwarn |= ZW.BAD_MINFIT
+            imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
+            zbest = zz[imin]
+            chi2min = zzchi2[imin]
+
         #trans = dict()
         trans = { hs:None for hs, w in dwave.items() } #define trans with keys and None values
         try:
             #Calculate xmin and xmax from template and pass as scalars
-            xmin = template.minwave*(1+zmin)
-            xmax = template.maxwave*(1+zmin)
+            xmin = template.minwave*(1+zbest)
+            xmax = template.maxwave*(1+zbest)
             if (use_gpu):
                 #Use gpuedges already calculated and on GPU
-                binned = rebin_template(template, cp.array([zmin]), dedges=gpuedges, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
+                binned = rebin_template(template, cp.array([zbest]), dedges=gpuedges, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
             else:
-                binned = rebin_template(template, np.array([zmin]), dwave, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
+                binned = rebin_template(template, np.array([zbest]), dwave, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
             for k in list(dwave.keys()):
                 if (use_gpu):
                     #Copy binned[k] back to CPU to perform next steps on CPU
                     #because faster with only 1 redshift
                     binned[k] = binned[k].get()
                 #Use CPU always
-                T = transmission_Lyman(np.array([zmin]),dwave[k], use_gpu=False, always_return_array=False,
+                T = transmission_Lyman(np.array([zbest]),dwave[k], use_gpu=False, always_return_array=False,
                                        model=template.igm_model)
                 trans[k] = T
                 if (T is None):
@@ -303,16 +313,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 #- Unknown problem; re-raise error
                 raise err
 
-        zbest = zmin
-        zerr = sigma
-
-        #- parabola minimum outside fit range; replace with min of scan
-        if zbest < zz[0] or zbest > zz[-1]:
-            zwarn |= ZW.BAD_MINFIT
-            imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
-            zbest = zz[imin]
-            chi2min = zzchi2[imin]
-
         #- Initial minimum or best fit too close to edge of redshift range
         if zbest < redshifts[1] or zbest > redshifts[-2]:
             zwarn |= ZW.Z_FITLIMIT
-- 
2.43.0


From 689959f7e4fb3579b2b50726a446964286e66065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 13/77] fix: same number of coefficient columns for all targets
 if a template has no minima for some of them

---
 py/redrock/zfind.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 479e53d..26a8150 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -467,13 +467,19 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         # for t in templates:
         #     ft = t.template.full_type
 
+        # number of coefficient columns, which must be the same for all targets
+        # even if some templates have no minima for some of the targets
+        maxncoeff = max([allresults[tid][fulltype]['zfit']['coeff'].shape[1]
+            for tid in targets.all_target_ids
+            for fulltype in allresults[tid] if fulltype != 'meta'])
+
         allzfit = list()
         for tid in targets.all_target_ids:
             tzfit = list()
             for fulltype in allresults[tid]:
                 if fulltype == 'meta':
                     continue
-                tmp = allresults[tid][fulltype]['zfit']
+                tmp = allresults[tid][fulltype].pop('zfit')
 
                 if archetypes is None:
                     spectype, subtype = parse_fulltype(fulltype)
@@ -517,9 +523,6 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 tmp['max_velo_diff'] = np.full((nmin,1), max_velo_diff)
 
                 tzfit.append(tmp)
-                del allresults[tid][fulltype]['zfit']
-
-            maxncoeff = max([tmp['coeff'].shape[1] for tmp in tzfit])
 
             for tmp in tzfit:
                 if tmp['coeff'].shape[1] < maxncoeff:
-- 
2.43.0


From b2823a8e4271656c661c0688b3d2fcb21e22e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 14/77] fix: a prior which excludes all redshifts of all
 templates no longer crashes the run

---
 py/redrock/zfind.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 26a8150..baec929 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -321,8 +321,13 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
     # Apply redshift prior
     if not priors is None:
         for tg in results.keys():
+            zprior = { ft : priors.eval(tg, results[tg][ft]['redshifts']) for ft in results[tg].keys() }
+            if all([np.all(np.isnan(p)) for p in zprior.values()]):
+                print(f'WARNING: prior of targetid {tg} excludes all template redshifts; ignoring it')
+                continue
+
             for ft in results[tg].keys():
-                results[tg][ft]['zchi2'] += priors.eval(tg, results[tg][ft]['redshifts'])
+                results[tg][ft]['zchi2'] += zprior[ft]
 
     # For each of our local targets, refine the redshift fit close to the
     # minima in the coarse fit.
-- 
2.43.0


From dc729225ea9b33ae2cd906b0439eb4f4fd522b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 15/77] fix: cosmic rejection compares with the mean gradient
 of each pixel

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index a3f63c8..d6371c2 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -339,7 +339,7 @@ class Target(object):
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
                 nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
                 chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
 
-- 
2.43.0


From 0c8f2f0c5406c22856a0c04adbd99abb85cc5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 16/77] fix: coadded resolution uses the weights of the rows,
 after cosmic rejection

---
 py/redrock/targets.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index d6371c2..2869343 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -286,11 +286,11 @@ class Target(object):
             unweightedflux = None
             weightedflux = None
             weights = None
-            Rdiags = None
             offsets = None
             nspec = 0
             flux=[] # references
             ivar=[] # references
+            Rdata=[] # references
             grad=[] # gradients, copy
             gradvar=[]
             for s in self.spectra:
@@ -299,13 +299,12 @@ class Target(object):
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
                 flux.append(s.flux)
                 ivar.append(s.ivar)
+                Rdata.append(s.R.data)
 
                 if cosmics_nsig > 0 :
                     # interpolate over bad measurements
@@ -356,8 +355,16 @@ class Target(object):
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-            Rdiags /= (weights + isbad)
-            nwave = Rdiags.shape[1]
+
+            # dia_matrix stores R[i,j] in data[k,j] with i = j-offsets[k];
+            # each row i of R has the same weight as flux[i]
+            nwave = Rdata[0].shape[1]
+            row = np.arange(nwave)[None,:] - np.asarray(offsets)[:,None]
+            inside = (row>=0) & (row<nwave)
+            row[~inside] = 0
+            Rdiags = sum([d * iv[row] for d, iv in zip(Rdata, ivar)])
+            Rdiags /= (weights + isbad)[row]
+            Rdiags[~inside] = 0.
             R = scipy.sparse.dia_matrix((Rdiags, offsets),
                                             shape=(nwave, nwave))
             if cache_Rcsr:
-- 
2.43.0


From ddda027942d8b60e1ba3c21b3a1ab14b9b57ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 17/77] fix: cosmic rejection with an entirely masked spectrum

---
 py/redrock/targets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 2869343..7a16d04 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -315,6 +315,11 @@ class Target(object):
                     # next to a masked flux bin
                     good = (s.ivar>0)
                     bad  = (s.ivar==0)
+                    if not np.any(good):
+                        # nothing to compare with the other spectra
+                        grad.append(np.zeros(len(wave)))
+                        gradvar.append(np.full(len(wave), np.inf))
+                        continue
                     tflux = s.flux.copy()
                     tivar = s.ivar.copy()
                     tflux[bad] = np.interp(wave[bad],wave[good],s.flux[good])
@@ -333,14 +338,14 @@ class Target(object):
             flux=np.array(flux)
             ivar=np.array(ivar)
 
-            if len(grad)>1 and cosmics_nsig > 0 :
+            ngood = np.sum([np.all(np.isfinite(v)) for v in gradvar])
+            if ngood>1 and cosmics_nsig > 0 :
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngood-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
-- 
2.43.0


From 18c402910318382735c6d526af1d9d878974fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 18/77] fix: Target.bands match the coadded spectra

---
 py/redrock/targets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 7a16d04..7d48379 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -177,9 +177,7 @@ class Target(object):
         self._legendre = None
         self._gpulegendre = None
         self.nleg = 0
-        self.bands = []
-        for s in spectra:
-            self.bands.append(s.band)
+        self.bands = [ s.band for s in self.spectra ]
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
         """
@@ -382,6 +380,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self.bands = [ s.band for s in self.spectra ]
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From 31778601bcc77c6baa661b112d2a00ec009360c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 19/77] fix: shared memory round trip of resolution matrices
 with fewer data columns than pixels

---
 py/redrock/targets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 7d48379..0070eca 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -99,6 +99,7 @@ class Spectrum(object):
 
             self._ndiag = self.R.data.shape[0]
             self._splen = self.R.data.shape[1]
+            self._Rshape = self.R.shape
             self.R_offsets = mp_array(self.R.offsets)
             self.R_data = mp_array(self.R.data)
             del self.R
@@ -124,7 +125,7 @@ class Spectrum(object):
             self.ivar = np.array(self.ivar)
 
             self.R = scipy.sparse.dia_matrix((np.array(self.R_data),
-                np.array(self.R_offsets)), shape=(self._splen, self._splen))
+                np.array(self.R_offsets)), shape=self._Rshape)
             del self.R_data
             del self.R_offsets
 
@@ -361,8 +362,8 @@ class Target(object):
 
             # dia_matrix stores R[i,j] in data[k,j] with i = j-offsets[k];
             # each row i of R has the same weight as flux[i]
-            nwave = Rdata[0].shape[1]
-            row = np.arange(nwave)[None,:] - np.asarray(offsets)[:,None]
+            nwave = len(wave)
+            row = np.arange(Rdata[0].shape[1])[None,:] - np.asarray(offsets)[:,None]
             inside = (row>=0) & (row<nwave)
             row[~inside] = 0
             Rdiags = sum([d * iv[row] for d, iv in zip(Rdata, ivar)])
-- 
2.43.0


From 23a5e15f7eedfe526daeeaa99b3ac77dcfc979fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 20/77] fix: per-camera Legendre coefficients follow the
 cameras, also with several spectra per camera

Cameras are identified by their wavelength grid, so that archetype fits work with
spectra which are not coadded, and eval_model uses the Legendre coefficients
of the camera instead of those of the index of the spectrum.
---
 py/redrock/archetypes.py |  7 +++----
 py/redrock/targets.py    | 21 ++++++++++++++++++---
 py/redrock/zscan.py      | 20 ++++++++------------
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..c6091cc 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -281,7 +281,7 @@ class Archetype():
 
         if per_camera:
             #Use CPU mode since small tdata
-            (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
+            (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
             (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
@@ -319,7 +319,6 @@ class Archetype():
         spectra = target.spectra
         nleg = target.nleg
         legendre = target.legendre(nleg=nleg, use_gpu=use_gpu) #Get previously calculated legendre
-        bands = target.bands
 
         #Select np or cp for operations as arrtype
         if (use_gpu):
@@ -378,9 +377,9 @@ class Archetype():
 
         if per_camera:
             if (use_gpu):
-                (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, gpuweights, gpuflux, gpuwflux, nleg, self._narch, method=solve_method, n_nbh=1, prior=prior, use_gpu=use_gpu, bands=bands)
+                (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, gpuweights, gpuflux, gpuwflux, nleg, self._narch, method=solve_method, n_nbh=1, prior=prior, use_gpu=use_gpu)
             else:
-                (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, self._narch, method=solve_method, n_nbh=1, prior=prior, use_gpu=use_gpu, bands=bands)
+                (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, self._narch, method=solve_method, n_nbh=1, prior=prior, use_gpu=use_gpu)
         else:
             bounds = np.zeros((2, nbasis))
             bounds[0][1:] = -np.inf # first term is archetype, must have lower bound 0, the legendre term could have bounds from -inf to inf
diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 0070eca..c32efc1 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -219,11 +219,13 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            camera_index = self.camera_index()
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = [legcoeff for i in range(len(camera_index))]
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
-                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
+            for sp in self.spectra:
+                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr,
+                                                  legcoeff=legcoeff[camera_index[sp.wavehash]])
 
         else:
             tx = templates[(spectype, subtype)]
@@ -232,6 +234,19 @@ class Target(object):
 
         return self.model
 
+    def camera_index(self):
+        """
+        Return dict[wavehash] -> index of that camera in per-camera coefficients
+
+        Cameras (wavelength grids) are in alphabetical order of their bands,
+        e.g. b,r,z, or in the order of the spectra if those aren't known.
+        """
+        bands = { s.wavehash:s.band for s in self.spectra }
+        wavehashes = list(bands.keys())
+        if None not in bands.values() and len(set(bands.values())) == len(bands):
+            wavehashes.sort(key=lambda hs: bands[hs])
+
+        return { hs:i for i, hs in enumerate(wavehashes) }
 
     def legendre(self, nleg, use_gpu=False):
         if (use_gpu and self.nleg == nleg):
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 098f563..abc1eda 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -242,7 +242,7 @@ def calc_zchi2_one(spectra, weights, flux, wflux, tdata, solve_matrices_algorith
 
     return zchi2, zcoeff
 
-def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, narch, method=None, n_nbh=None, prior=None, use_gpu=False, bands=None):
+def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, narch, method=None, n_nbh=None, prior=None, use_gpu=False):
     
     """This function calculates coefficients for archetype mode in each camera using normal linear algebra matrix solver or BVLS (bounded value least square) method
 
@@ -262,26 +262,22 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
         n_nbh (int): number of nearest best archetypes
         prior (array): prior matrix added to the Legendre coefficients (1/sigma^2)
         use_gpu (bool): use GPU or not
-        bands (list): list of wavelength bands
     
     Returns:
-        coefficients and chi2
+        chi2 and coefficients, with the Legendre coefficients of the cameras
+        in the order of target.camera_index()
 
     """
 
     ### TODO - implement BVLS on GPU
     # number of cameras in DESI: b, r, z
     spectra = target.spectra
-    ncam = len(bands)
+    camera_index = target.camera_index() # camera of each wavelength grid
+    ncam = len(camera_index)
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
     ret_zcoeff = {}
     ret_zcoeff['alpha'] = []
-    if nleg>0:
-        for b in bands: # bands as save in targets object
-            ret_zcoeff[b] = []
-
-    new_bands = sorted(bands) # saves as correct order
 
     #Setup dict of solver args to pass bounds to solver
     method = method.upper()
@@ -339,10 +335,10 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
         split_coeff =  np.split(zzcoeff[:,n_nbh:], ncam, axis=1) # n_camera = 3
         # In target spectra redrock saves values as 'b', 'z', 'r'.
         # So just re-ordering them here to 'b', 'r', 'z' for easier reading
-        old_coeff = {band: split_coeff[i] for i, band in enumerate(bands)}
+        old_coeff = {hs: split_coeff[i] for i, hs in enumerate(tdata)}
 
-        for band in new_bands:# 3 cameras
-            ret_zcoeff[band] = old_coeff[band]
+        for hs in sorted(camera_index, key=camera_index.get):# 3 cameras
+            ret_zcoeff[hs] = old_coeff[hs]
     coeff = np.concatenate(list(ret_zcoeff.values()), axis=1)
     #print(f'{time.time()-start} [sec] took for per camera BVLS method\n')
     return zzchi2, coeff
-- 
2.43.0


From ac8d95e6a9331f93dbd48e481a8db859e17c203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 21/77] fix: archetype fits without a prior on the Legendre
 coefficients

---
 py/redrock/archetypes.py | 4 ++--
 py/redrock/fitz.py       | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index c6091cc..0831491 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -360,8 +360,8 @@ class Archetype():
         # because prior was defined based on n_nearest argument..
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
-        if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
+        nnearest_prior = prior # prior corresponding to nearest_nbh method
+        if n_nearest is not None and prior is not None:
             prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index af84e02..9ccf178 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From 64dcf0088751b82cf9dd64035fc194b1722de398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 22/77] fix: nearest neighbour archetypes without per-camera
 fits, or with few archetypes

---
 py/redrock/archetypes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 0831491..8cb1596 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -258,6 +258,11 @@ class Archetype():
 
         nleg = legendre[list(legendre.keys())[0]].shape[0]
         iBest = np.argsort(zzchi2)[0:n_nearest]
+        if len(iBest) < n_nearest:
+            #fewer archetypes than requested neighbors; use all of them
+            if prior is not None:
+                prior = prior[n_nearest-len(iBest):,][:,n_nearest-len(iBest):]
+            n_nearest = len(iBest)
         tdata = dict()
         if (binned is not None):
             if (use_gpu):
@@ -283,8 +288,12 @@ class Archetype():
             #Use CPU mode since small tdata
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False)
         else:
+            #Only the archetype terms must be positive, as in get_best_archetype
+            bounds = np.zeros((2, nbasis))
+            bounds[0][n_nearest:] = -np.inf
+            bounds[1] = np.inf
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds})
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
-- 
2.43.0


From 4316a9e6ffd3d745fb9e8e75056e65f60ac92ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 23/77] fix: complete archetype tables with a mix of types with
 and without archetypes

- all columns exist whatever the type of the first template
- rows without archetypes match the number of their own minima
- pca_coeff is not truncated to the size of the first template
- the Legendre coefficients of a single camera or degree are not flattened
---
 py/redrock/zfind.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index baec929..858d030 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -478,6 +478,20 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for tid in targets.all_target_ids
             for fulltype in allresults[tid] if fulltype != 'meta'])
 
+        # columns which only exist for templates with archetypes, and their
+        # largest shape per minimum
+        archshape = dict()
+        if archetypes:
+            for tid in targets.all_target_ids:
+                for fulltype in allresults[tid]:
+                    if fulltype == 'meta' or 'fulltype' not in allresults[tid][fulltype]['zfit']:
+                        continue
+                    for k, val in allresults[tid][fulltype]['zfit'].items():
+                        if k in pca_map or k in zero_like_keys:
+                            archshape[k] = max(archshape.get(k, ()), val.shape[1:])
+            if 'pca_coeff' in archshape:
+                archshape['pca_coeff'] = (max([t.template.nbasis for t in templates]),)
+
         allzfit = list()
         for tid in targets.all_target_ids:
             tzfit = list()
@@ -527,6 +541,15 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                     max_velo_diff = constants.max_velo_diff
                 tmp['max_velo_diff'] = np.full((nmin,1), max_velo_diff)
 
+                # same columns with and without archetypes
+                for k, shape in archshape.items():
+                    if k in pca_map:
+                        val = tmp[k] if k in tmp else tmp[pca_map[k]]
+                        npad = shape[0] - val.shape[1]
+                        tmp[k] = np.pad(val, ((0,0),(0,npad))) if npad > 0 else val.copy()
+                    elif k not in tmp:
+                        tmp[k] = np.zeros((nmin,)+shape)
+
                 tzfit.append(tmp)
 
             for tmp in tzfit:
@@ -540,25 +563,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
 
             tzfit2 = dict()
             for k in tzfit[0].keys():
-                tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
-                for i in range(len(tzfit)):
-                    if k in tzfit[i].keys():
-                        val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                    else:
-                        row = tzfit[i]
-                        if archetypes and k in pca_map and pca_map[k] in row:
-                            val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                        elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
-                    tzfit2[k].append(val)
-
-                tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                tzfit2[k] = np.vstack([tmp[k] for tmp in tzfit])
+                if (k not in ('coeff', 'legcoeff')) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From b8ebb7e9ca574e711923c6d32b73c4b75d949a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 24/77] fix: NEGATIVE_MODEL only for archetype fits if some
 archetypes are for other types

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 858d030..29d8089 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -574,7 +574,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             tzfit['targetid'] = np.array([tid]*l)
 
             if (archetypes):
-                if (len(archetype_spectype)==len(all_spectype)):
+                if set(all_spectype) <= set(archetype_spectype):
                     if n_nearest is None:
                         if tzfit["coeff"].ndim==1: ## this makes sure that code doesn't fail if --archetypes-no-legendre is provided
                             tzfit["coeff"] = tzfit["coeff"].reshape(-1, 1)
-- 
2.43.0


From f46f36c895cca1b3f4f4a4cf211a8a48dba1eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 25/77] fix: more nearest neighbour archetypes than template
 coefficients

---
 py/redrock/zfind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 29d8089..f754551 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -714,6 +714,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         else:
             ntarg, ncoeff = allzfit['coeff'].shape
 
+        maxcoeff = max(maxcoeff, ncoeff) # e.g. more nearest archetypes than template coefficients
         if ncoeff != maxcoeff:
             coeff = np.zeros((ntarg, maxcoeff), dtype=allzfit['coeff'].dtype)
             coeff[:,0:ncoeff] = allzfit['coeff']
-- 
2.43.0


From 5da4c377ca19c4f5359fbdc04f2239538e159912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 26/77] fix: archetypes are fit with their own IGM model

---
 py/redrock/fitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 9ccf178..928329d 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -342,6 +342,9 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
+            if template.igm_model != archetype.igm_model:
+                # the transmission of the template isn't that of the archetypes
+                trans = None
             chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
             del trans
             subtype = parse_fulltype(fulltype)[1]
-- 
2.43.0


From 3292307934000a287252cd232edd2ca31230bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 27/77] fix: model of archetype fits with only Legendre terms

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index c32efc1..a62744c 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -211,7 +211,7 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        if np.all(coeff == 0.0) and (fitmethod != 'ARCH' or np.all(bestfit['LEGCOEFF'] == 0.0)):
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
-- 
2.43.0


From ac4a8880dd0631cf0b367e2313baa6d4ce73cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 28/77] fix: bounded solutions with a camera without any data

---
 py/redrock/zscan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index abc1eda..1d1062a 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1121,6 +1121,7 @@ def _normal_to_lstsq(M, y):
     good = s > len(s) * np.finfo(float).eps * np.max(np.abs(s))
     root = np.sqrt(np.where(good, s, 0.0))
     A = root[:,None] * v.T
+    A[:, np.diag(M) == 0] = 0.0 # exactly, not just to rounding precision
     b = np.zeros(len(s))
     b[good] = v.T.dot(y)[good] / root[good]
     return A, b
-- 
2.43.0


From aa2da6e14c42b333735641cbdb21d6a7c0594a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 29/77] fix: Template.eval includes the IGM transmission used
 in the fit

---
 py/redrock/templates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 3704d6f..4ee6ae7 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,9 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+        T = transmission_Lyman(float(z), wave, model=self.igm_model, always_return_array=False)
+        if T is not None:
+            model *= T
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From b4e1477716bf77a5c9bd4e07682d143c802f48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 30/77] fix: eval_model without resolution matrix

---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 4ee6ae7..ae282b7 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -837,7 +837,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=None if R is None else R[i])
 
     return models
 
-- 
2.43.0


From b22bb749679a8b238712abcc901243c6e40367bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 31/77] fix: rrplot shows the fitted template without an extra
 factor of (1+z)

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..14f611c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -166,7 +166,7 @@ class PlotSpec(object):
             if self.archetypes:
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From 2a52f2a4a19aaf0f70748c51490689bd08d8e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 32/77] fix: rrplot of per-camera archetype fits, and of types
 without archetypes

---
 py/redrock/plotspec.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 14f611c..50a0861 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -106,8 +106,9 @@ class PlotSpec(object):
         coeff = zz['coeff']
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
-        if self.archetypes:
-            dwave = { s.wavehash:s.wave for s in target.spectra }
+        use_archetype = self.archetypes and zz['spectype'] in self.archetypes.archetypes
+        if use_archetype:
+            camera_index = target.camera_index()
             tp = self.archetypes.archetypes[zz['spectype']]
         else:
             tp = self.templates[fulltype]
@@ -163,8 +164,11 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+            if use_archetype:
+                legcoeff = zz['legcoeff']
+                if np.ndim(legcoeff) == 2:
+                    legcoeff = legcoeff[camera_index[spec.wavehash]]
+                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 85e9c3d63e281df4aba377f6d2c89a3fbb570c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 33/77] fix: requested DESI targets which are not in the input
 files are an error

---
 py/redrock/external/desi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..87331a8 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -450,6 +450,14 @@ class DistTargetsDESI(DistTargets):
             if comm_rank == 0:
                 hdus.close()
 
+        # every requested target must have spectra in at least one file
+
+        if targetids is not None:
+            for t in self._alltargetids:
+                if not any(self._target_specs[x].get(t) for x in spectrafiles):
+                    raise RuntimeError("target {} is not in any of the input "
+                        "files".format(t))
+
         # _alltargetids can have repeats from multiple files.  Trim to
         # unique set while retaining order in which they appeared
 
-- 
2.43.0


From ea4cc8bb67bbe6dc006a8a22fd9c1b1184257ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 34/77] fix: DESI masks are applied to their own spectra if
 other bands or files have no mask

---
 py/redrock/external/desi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 87331a8..8e82b41 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -599,6 +599,10 @@ class DistTargetsDESI(DistTargets):
                                     .ivar *= (hdata[trow] == 0)
                                 tspec_mask[t] += 1
                         toff += 1
+                else:
+                    # keep in step with the spectra of the other bands and files
+                    for t in self._my_targets:
+                        tspec_mask[t] += len(self._target_specs[sfile].get(t, []))
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From dd361827399f4a4c26ec477621ffacf7dcd8ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 35/77] fix: DESI target tables have one row per fitted target
 in the same order

---
 py/redrock/external/desi.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 8e82b41..ddcff52 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -662,14 +662,36 @@ class DistTargetsDESI(DistTargets):
             for t in self._my_data:
                 t.compute_coadd(cache_Rcsr,cosmics_nsig=self.cosmics_nsig)
 
-        self.fibermap = Table(np.hstack([ self._coadd_fmaps[x] \
-            for x in self._spectrafiles ]))
-
         self.exp_fibermap = Table(np.hstack([ self._exp_fmaps[x] \
             for x in self._spectrafiles ]))
 
-        self.tsnr2 = Table(np.hstack([ self._tsnr2[x] \
+        # One row per target, in the order of the targets.  Targets can be in
+        # several files and in another order than requested.
+
+        fibermap = Table(np.hstack([ self._coadd_fmaps[x] \
             for x in self._spectrafiles ]))
+        tsnr2 = Table(np.hstack([ self._tsnr2[x] \
+            for x in self._spectrafiles ]))
+
+        fmrows = [ np.where(fibermap['TARGETID'] == t)[0] \
+            for t in self._keep_targets ]
+        tsrows = [ np.where(tsnr2['TARGETID'] == t)[0] \
+            for t in self._keep_targets ]
+
+        self.fibermap = fibermap[[ x[0] for x in fmrows ]]
+        self.tsnr2 = tsnr2[[ x[0] for x in tsrows ]]
+
+        # As when coadding, status bits are those set in all of the files and
+        # the signal-to-noise adds up.
+
+        for i, (fm, ts) in enumerate(zip(fmrows, tsrows)):
+            if len(fm) > 1:
+                self.fibermap['COADD_FIBERSTATUS'][i] = np.bitwise_and.reduce(
+                    fibermap['COADD_FIBERSTATUS'][fm])
+            if len(ts) > 1:
+                for col in tsnr2.colnames:
+                    if col != 'TARGETID':
+                        self.tsnr2[col][i] = np.sum(tsnr2[col][ts])
 
         super(DistTargetsDESI, self).__init__(self._keep_targets, comm=comm)
 
-- 
2.43.0


From 5e6dee04771d3ea118cc9e411525be03fe833938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 36/77] fix: rrdesi --mintarget without --ntargets

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index ddcff52..0477c2b 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -360,7 +360,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From 0c05e2151df69fed314ec220b650a3c74d6b3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 37/77] fix: rrdesi --model without --outfile

---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 0477c2b..a3845a9 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1188,7 +1188,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model is not None:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1218,11 +1218,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From 691a001ebe02ae839fb9ba9ca97744f1df87041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 38/77] fix: details files of archetype fits without Legendre
 terms

---
 py/redrock/plotspec.py | 2 +-
 py/redrock/targets.py  | 8 ++++++--
 py/redrock/zfind.py    | 4 ++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 50a0861..5cb090c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -165,7 +165,7 @@ class PlotSpec(object):
         specs_to_read = target.spectra
         for spec in specs_to_read:
             if use_archetype:
-                legcoeff = zz['legcoeff']
+                legcoeff = zz['legcoeff'] if 'legcoeff' in zz.colnames else None
                 if np.ndim(legcoeff) == 2:
                     legcoeff = legcoeff[camera_index[spec.wavehash]]
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index a62744c..43a2425 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -209,16 +209,20 @@ class Target(object):
         coeff = bestfit['COEFF']
         z = bestfit['Z']
         fitmethod = bestfit['FITMETHOD']
+        try:
+            legcoeff = bestfit['LEGCOEFF']
+        except (KeyError, ValueError):
+            legcoeff = np.zeros(0) # archetypes without Legendre terms
 
         self.model = dict()
-        if np.all(coeff == 0.0) and (fitmethod != 'ARCH' or np.all(bestfit['LEGCOEFF'] == 0.0)):
+        if np.all(coeff == 0.0) and (fitmethod != 'ARCH' or np.all(legcoeff == 0.0)):
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
         elif fitmethod == 'ARCH':
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
-            archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            archcoeff = coeff[0:narchetypes]
             camera_index = self.camera_index()
             if legcoeff.ndim==1:
                 legcoeff = [legcoeff for i in range(len(camera_index))]
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index f754551..0d3dc09 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -727,6 +727,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             coeff = allzfit['coeff'][:,0:maxcoeff]
             allzfit.replace_column('coeff', coeff)
 
+        # archetypes without Legendre terms: files can't have empty columns
+        if 'legcoeff' in allzfit.colnames and 0 in allzfit['legcoeff'].shape[1:]:
+            allzfit.remove_column('legcoeff')
+
     elapsed(start_finalize, "Finalizing results", comm=targets.comm)
 
     return allresults, allzfit
-- 
2.43.0


From 89426025ae7e15241fe7b447f9f9350b186d5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 39/77] fix: read_zscan of archetype fits and of types without
 template; all type columns are strings

---
 py/redrock/results.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..7053976 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -157,21 +157,23 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
 
         #- Add zfit information too
         zfit = read_zfit(filename, select_targetids=select_targetids, upper=upper)
+        #- archetype fits have the template that they started from in extra columns
+        targetid_col, spectype_col, subtype_col = 'targetid', 'spectype', 'subtype'
+        if 'pca_spectype' in [ x.lower() for x in zfit.colnames ]:
+            spectype_col, subtype_col = 'pca_spectype', 'pca_subtype'
         if upper:
-            targetid_col = 'TARGETID'
-            spectype_col = 'SPECTYPE'
-            subtype_col = 'SUBTYPE'
-        else:
-            targetid_col = 'targetid'
-            spectype_col = 'spectype'
-            subtype_col = 'subtype'
+            targetid_col = targetid_col.upper()
+            spectype_col = spectype_col.upper()
+            subtype_col = subtype_col.upper()
 
         for zfit_tid in zfit.group_by( (targetid_col, spectype_col, subtype_col) ).groups:
             targetid = zfit_tid[targetid_col][0]
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            #- types can be reset, e.g. to GALAXY for bad DESI fibers
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
@@ -199,8 +201,9 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+        for colname in ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype'):
+            if colname in zfit.colnames:
+                zfit.replace_column(colname, encode_column(zfit[colname]))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From 164bfce6cd15478c29fdf41092969e4517d6cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 40/77] fix: restart from a saved scan keeps the order of the
 templates

---
 py/redrock/zfind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 0d3dc09..04fe7dc 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -291,8 +291,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
-        # the file has all targets, keep only those of this process
-        results = { tid : results[tid] for tid in targets.local_target_ids() }
+        # the file has all targets, keep only those of this process;
+        # templates in the same order as when calculating the scan
+        results = { tid : { t.template.full_type : results[tid][t.template.full_type]
+            for t in templates } for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 23b193f794446af8ffb53dd388e48acf59ba8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 41/77] fix: rrdesi --model for targets which do not have
 spectra in all bands

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index a3845a9..e05827f 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1264,7 +1264,9 @@ def rrdesi(options=None, comm=None):
                 all_models_dict = dict()
                 wave_dict = targets.wavegrids()
                 for band in wave_dict:
-                    all_models_dict[band] = np.vstack([m[band] for m in all_models])[sort_indices]
+                    #- targets without spectra in this band have no model there
+                    nomodel = np.zeros(len(wave_dict[band]))
+                    all_models_dict[band] = np.vstack([m.get(band, nomodel) for m in all_models])[sort_indices]
 
                 write_bestmodel(args.model, zbest, all_models_dict, wave_dict,
                                 templates, archetypes, spec_header=targets.header0)
-- 
2.43.0


From 71b2cbf6449afaf148e6d9e748e5e9c7be254078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 42/77] fix: order of models with MPI ranks which do not have
 targets

---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e05827f..185af70 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1250,7 +1250,8 @@ def rrdesi(options=None, comm=None):
                 all_models = list(itertools.chain.from_iterable(all_models))
 
                 #- find sort orrder to match zbest
-                all_targetids = np.concatenate(all_targetids)
+                #- (ranks without targets must not convert integers to floats)
+                all_targetids = np.array(list(itertools.chain.from_iterable(all_targetids)))
                 xsorted = np.argsort(all_targetids)
                 ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                 sort_indices = xsorted[ypos]
-- 
2.43.0


From e8b310656968a48c9cdf85c7588d8463d36b266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 43/77] fix: BOSS targetids do not overflow for 32-bit fiber
 numbers, and fiber selection with numpy 2

---
 py/redrock/external/boss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..f2524bc 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,7 +39,8 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
-    return plate*1000000000 + mjd*10000 + fiber
+    #- FIBERID columns are 32-bit integers, for which this would overflow
+    return np.int64(plate)*1000000000 + np.int64(mjd)*10000 + np.int64(fiber)
 
 
 def targetid2platemjdfiber(targetid):
@@ -166,7 +167,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From ba650bd6535a41cf0c6d8a84de695631d9645517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 44/77] fix: BOSS spectra are those of the rows with their
 FIBERID

---
 py/redrock/external/boss.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index f2524bc..e726626 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -166,9 +166,11 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         if not useThingid:
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
+        rows = np.arange(len(fs))
         if fiberid is not None:
             w = np.isin(fs,fiberid)
             fs = fs[w]
+            rows = rows[w]
 
         fl = h[0].read()
         iv = h[1].read()
@@ -207,11 +209,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         ndiag = int(4*np.ceil(wd.max())+1)
         nbins = wd.shape[1]
 
-        for f in fs:
-            i = (f-1)
-            if use_frames:
-                i = i%500
-
+        for i, f in zip(rows, fs):
             if useThingid:
                 t = fiberid2thingid[infile][f-1]
             else:
-- 
2.43.0


From 4206cc8df4fa44d5b56c94e2fc53eaecbca8705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 45/77] fix: BOSS plates without exposures in a camera

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index e726626..fe15424 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -129,7 +129,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (ValueError, KeyError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From d2f96fb208014c003a97518fac4512f8157830d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 46/77] fix: BRICKNAME of BOSS targets was truncated to 8
 characters

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index fe15424..3bd42b0 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -263,7 +263,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S16"
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -278,7 +278,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S16')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From d4f9ef3800b32113fe2c7d57059841328d4497de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 47/77] fix: rrboss exits if the options are not valid

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 3bd42b0..08d7e0e 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -387,6 +387,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
@@ -394,6 +396,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 9398a725fd9575ff1e29c6d43daf453d296355a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 48/77] fix: rrboss --mintarget without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 08d7e0e..edea662 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -452,9 +452,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From 88b8ef46fa36a7ccd14806d312b337df21672720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 49/77] fix: rrboss --archetypes

---
 py/redrock/external/boss.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index edea662..15fd9da 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -484,9 +484,19 @@ def rrboss(options=None, comm=None):
 
         start = elapsed(None, "", comm=comm)
 
+        # Archetypes are fit as by default in rrdesi for a single camera
+
+        archetypes = None
+        deg_legendre = 0
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes,
+                verbose=(comm_rank==0)).archetypes
+            deg_legendre = 2
+
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=deg_legendre, ncamera=len(dwave))
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -513,8 +523,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if archetypes is not None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From 4082b94627323395787819244051382e5cddd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 50/77] fix: rrboss creates the directory of the catalog as
 other outputs

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 15fd9da..49d05fe 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -73,6 +73,10 @@ def write_zbest(outfile, zbest, template_version, archetype_version):
     hx.append(fits.PrimaryHDU(header=header))
     hx.append(fits.convenience.table_to_hdu(zbest))
     outfile = os.path.expandvars(outfile)
+    outdir = os.path.dirname(os.path.abspath(outfile))
+    if not os.path.exists(outdir):
+        os.makedirs(outdir)
+
     tempfile = outfile + '.tmp'
     hx.writeto(tempfile, overwrite=True)
     os.rename(tempfile, outfile)
-- 
2.43.0


From f70008decb025a55288e925884da63b01d9b9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 51/77] fix: BOSS targetids can be an array

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 49d05fe..635d53f 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -255,7 +255,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         h.close()
         print("DEBUG: read {} ".format(infile))
 
-    if targetids == None:
+    if targetids is None:
         targetids = sorted(list(dic_spectra.keys()))
     else:
         targetids = sorted(targetids)
-- 
2.43.0


From f085c207fed411a4010336964cdfd114a833e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 52/77] fix: paths of templates can be pathlib paths

---
 py/redrock/templates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index ae282b7..a48b95e 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -325,11 +325,14 @@ def find_templates(template_path=None):
     Returns list of template files to use
     """
     template_path = get_template_dir(template_path)
-    if isinstance(template_path, (str, pathlib.PosixPath)) and not os.path.exists(template_path):
+    if isinstance(template_path, (str, pathlib.Path)) and not os.path.exists(template_path):
         raise ValueError("ERROR: can't find template_path, $RR_TEMPLATE_DIR, or (rrcode)/data/templates/")
     else:
         print(f'DEBUG: Reading templates from {template_path}')
 
+    if isinstance(template_path, pathlib.Path):
+        template_path = str(template_path)
+
     # for symmetry with load_templates(template_path), also
     # support list/tuple/etc of strings and just return that
     if isinstance(template_path, (list, tuple, set, np.ndarray)):
@@ -457,7 +460,7 @@ def load_templates(template_path=None, zscan_galaxy=None, zscan_star=None, zscan
     Note: this always returns a list/dict, even if template_path is a path to a
     single template file.
     """
-    if isinstance(template_path, (str, type(None))):
+    if isinstance(template_path, (str, pathlib.Path, type(None))):
         template_path = find_templates(template_path)
 
     print(f'Reading templates from {template_path}')
-- 
2.43.0


From 7c5e6b00afdff33a6f4249c21468dcb8bc2e3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 53/77] fix: two templates with the same type and subtype are
 an error

---
 py/redrock/templates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a48b95e..3998a46 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -474,7 +474,12 @@ def load_templates(template_path=None, zscan_galaxy=None, zscan_star=None, zscan
     if asdict:
         templates_dict = dict()
         for tx in templates:
-            templates_dict[(tx.template_type, tx.sub_type)] = tx
+            key = (tx.template_type, tx.sub_type)
+            #- one template would silently replace the other
+            if key in templates_dict:
+                raise ValueError(f'{tx.filename} and {templates_dict[key].filename} '
+                                 f'are both templates for {tx.full_type}')
+            templates_dict[key] = tx
 
         return templates_dict
     else:
-- 
2.43.0


From 9e7c3429d93759a4af6803d18b6a5ff16f28fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 54/77] fix: a directory or list without templates is an error

---
 py/redrock/templates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 3998a46..c69eff5 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -376,6 +376,9 @@ def find_templates(template_path=None):
         #- Old style: use all templates found in template directory
         template_files = sorted(glob(os.path.join(template_dir, 'rrtemplate-*.fits')))
 
+    if len(template_files) == 0:
+        raise ValueError(f'no templates found in {template_path}')
+
     return template_files
 
 
-- 
2.43.0


From b0ce81bec48256c4ac5c596837fd2a1b4735398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 55/77] fix: archetypes which do not exist are an error;
 environment variables in the name of an archetype file

---
 py/redrock/archetypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 8cb1596..cd1b27b 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -477,10 +477,12 @@ def find_archetypes(archetypes_dir=None):
                 raise IOError("ERROR: can't find archetypes_dir, $RR_ARCHETYPE_DIR, or {rrcode}/archetypes/")
         lstfilename = sorted(glob(os.path.join(archetypes_dir, 'rrarchetype-*.fits')))
     else:
-        if os.path.isfile(archetypes_dir):
+        archetypes_dir_expand = os.path.expandvars(archetypes_dir)
+        if os.path.isfile(archetypes_dir_expand):
             lstfilename = [archetypes_dir]
+        elif not os.path.exists(archetypes_dir_expand):
+            raise IOError("ERROR: can't find archetypes {}".format(archetypes_dir))
         else:
-            archetypes_dir_expand = os.path.expandvars(archetypes_dir)
             lstfilename = glob(os.path.join(archetypes_dir_expand, 'rrarchetype-*.fits'))
             lstfilename = sorted([ f.replace(archetypes_dir_expand,archetypes_dir) for f in lstfilename])
 
-- 
2.43.0


From daca5f151674d26581a55806de13c226bb18e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 56/77] fix: two archetype files for the same type are an error

---
 py/redrock/archetypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index cd1b27b..59df6ca 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -429,6 +429,10 @@ class All_archetypes():
             if verbose:
                 print('DEBUG: Found {} archetypes for SPECTYPE {} in file {}'.format(archetype._narch, archetype._rrtype, f) )
 
+            # one file would silently replace the other
+            if archetype._rrtype in self.archetypes:
+                raise ValueError('{} and {} are both archetypes for {}'.format(
+                    f, self.archetypes[archetype._rrtype].filename, archetype._rrtype))
             self.archetypes[archetype._rrtype] = archetype
 
         return
-- 
2.43.0


From 49f0fd78b1c6b8e9308ce2dfa6b0e8146408e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 57/77] fix: wrap-redrock commands have the options of rrdesi
 and rrboss

---
 bin/wrap-redrock | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..6426908 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,22 +319,23 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = ['rrdesi', '-i', specfiles[i]]
+            cmd += ['--outfile', rrfiles[i], '--details', detailsfiles[i]]
         elif args.datatype == 'boss':
-            cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            cmd = ['rrboss', '--spplate', specfiles[i]]
+            cmd += ['--zbest', rrfiles[i], '--output', detailsfiles[i]]
 
-        cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
+        cmd += ['--nminima', str(args.nminima)]
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
         if args.mp is not None:
-            cmd += ' --mp {}'.format(args.mp)
+            cmd += ['--mp', str(args.mp)]
 
         if args.archetypes is not None:
-            cmd += ' --archetypes {}'.format(args.archetypes)
+            cmd += ['--archetypes', args.archetypes]
 
-        print('Rank {} RUNNING {}'.format(rank, cmd))
+        print('Rank {} RUNNING {}'.format(rank, ' '.join(cmd)))
         print('LOGGING to {}'.format(logfile))
         sys.stdout.flush()
 
@@ -350,7 +351,7 @@ def run_redrock(args, comm=None):
                 #- memory leak?  Try making system call instead
                 ### desi.rrdesi(cmd.split()[1:])
                 with open(logfile, 'w') as log:
-                    err = subprocess.call(cmd.split(), stdout=log, stderr=log)
+                    err = subprocess.call(cmd, stdout=log, stderr=log)
                 dt1 = time.time() - t1
                 if err == 0:
                     print('FINISHED pix {} rank {} try {} in {:.1f} sec'.format(pixels[i], rank, retry, dt1))
-- 
2.43.0


From 71dd8c573a038f8cadcd77bf15e3297a76789ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 58/77] fix: wrap-redrock if all inputs were already processed

---
 bin/wrap-redrock | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 6426908..65d7856 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,9 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 4caef174e20d6b8b46b05590a89dd5ac3eb2ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 59/77] fix: wrap-redrock for inputs in directories which are
 not numbers

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 65d7856..6e02698 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -313,7 +313,7 @@ def run_redrock(args, comm=None):
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-    pixels = np.array([int(os.path.basename(os.path.dirname(x))) for x in specfiles])
+    pixels = [os.path.basename(os.path.dirname(x)) for x in specfiles]
     rrfiles = spectra2outfiles(specfiles, args.prefix, 'redrock', outdir=args.outdir)
     detailsfiles = spectra2outfiles(specfiles, args.prefix, 'rrdetails', outdir=args.outdir, ext='h5')
 
-- 
2.43.0


From 4d3dc0a14ae75c2a406a44c10fdcc5dc3ffac794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 60/77] fix: wrap-redrock log backups if some of the previous
 backups were removed

---
 bin/wrap-redrock | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 6e02698..f39acbf 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -179,11 +179,12 @@ def backup_logs(logfile):
     '''
     Move logfile -> logfile.0 or logfile.1 or logfile.n as needed
 
-    TODO: make robust against logfile.abc also existing
+    Uses the first number for which no file exists.
     '''
-    logfiles = glob.glob(logfile+'.*')
-    newlog = logfile+'.'+str(len(logfiles))
-    assert not os.path.exists(newlog)
+    n = 0
+    while os.path.lexists(logfile+'.'+str(n)):
+        n += 1
+    newlog = logfile+'.'+str(n)
     os.rename(logfile, newlog)
     return newlog
 
-- 
2.43.0


From 8492beb6eae119ed691548a383879d6350b059ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 61/77] fix: wrap-redrock --maxnodes less than the number of
 MPI ranks, or more than 256 ranks

---
 bin/wrap-redrock | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index f39acbf..b8b4fa1 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -292,7 +292,8 @@ def run_redrock(args, comm=None):
     else:
         rank, size = comm.rank, comm.size
 
-    args.maxnodes = min(args.maxnodes, size)
+    #- one group per rank
+    args.maxnodes = size
 
     t0 = time.time()
     if rank == 0:
-- 
2.43.0


From 004e9bfd57c81cdac41069b324c2fb1c5dc2e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 62/77] fix: wrap-redrock does not use inputs in the directory
 to avoid

---
 bin/wrap-redrock | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index b8b4fa1..059313f 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -98,16 +98,13 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
     # print("looking for spectra files under {}".format(reduxdir))
 
     if avoiddir is not None:
-        avoiddir = os.path.normpath(avoiddir)
+        avoiddir = os.path.abspath(avoiddir)
 
     specfiles = list()
     for dirpath, dirnames, filenames in os.walk(reduxdir, followlinks=True, topdown=True):
-        if os.path.normpath(dirpath) == avoiddir:
-            while True:
-                try:
-                    dirnames.pop()
-                except IndexError:
-                    break
+        if os.path.abspath(dirpath) == avoiddir:
+            dirnames.clear()
+            continue
 
         for filename in filenames:
             if filename.startswith(prefix) and filename.endswith('.fits'):
-- 
2.43.0


From 74c17344ec5fedf5c095e6663f59d794405edd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 63/77] fix: wrap-redrock input directories with several names
 are only used once

---
 bin/wrap-redrock | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 059313f..0597c29 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -101,11 +101,19 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
         avoiddir = os.path.abspath(avoiddir)
 
     specfiles = list()
+    visited = set()
     for dirpath, dirnames, filenames in os.walk(reduxdir, followlinks=True, topdown=True):
         if os.path.abspath(dirpath) == avoiddir:
             dirnames.clear()
             continue
 
+        #- other links to directories which were already used
+        realpath = os.path.realpath(dirpath)
+        if realpath in visited:
+            dirnames.clear()
+            continue
+        visited.add(realpath)
+
         for filename in filenames:
             if filename.startswith(prefix) and filename.endswith('.fits'):
                 specfiles.append(os.path.join(dirpath, filename))
-- 
2.43.0


From 26afcd950fbed1b985634a0ebc9ce1c6002bff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 64/77] fix: wrap-redrock inputs for which the outputs would
 have the same name are an error

---
 bin/wrap-redrock | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 0597c29..8b6be47 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -66,9 +66,9 @@ def spectra2outfiles(specfiles, inprefix, outprefix, ext=None, outdir=None):
     outfiles = list()
     for specfile in specfiles:
         dirname, basename = os.path.split(specfile)
-        outfile = basename.replace(inprefix, outprefix)
+        outfile = basename.replace(inprefix, outprefix, 1)
         if ext is not None:
-            outfile = outfile.replace('.fits', '.'+ext)
+            outfile = '.'.join([os.path.splitext(outfile)[0], ext])
 
         if outdir is None:
             outfiles.append(os.path.join(dirname, outfile))
@@ -126,6 +126,9 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
     rrfiles = spectra2outfiles(specfiles, prefix, 'redrock', outdir=outdir)
     detailsfiles = spectra2outfiles(specfiles, prefix, 'rrdetails', outdir=outdir, ext='h5')
 
+    if len(set(rrfiles)) < len(rrfiles):
+        raise ValueError('inputs with the same output name')
+
     npix = len(specfiles)
     todo = np.ones(npix, dtype=bool)
     for i in range(npix):
-- 
2.43.0


From ce3c60c2bb7c2de66db0653e1865ceac1ecb6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 65/77] fix: wrap-redrock --plan for BOSS with fewer processes

---
 bin/wrap-redrock | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 8b6be47..0ce2f65 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -227,8 +227,8 @@ def plan(args, comm=None):
     elif args.datatype == 'boss':
         #- BOSS files all have the same number of spectra, so no load balancing
         groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
-        ntargets = [1000*len(x) for x in groups]
-        grouptimes = [30 + 250*len(x) for x in groups]
+        ntargets = np.array([1000*len(x) for x in groups])
+        grouptimes = np.array([30.0 + 250*len(x) for x in groups])
     else:
         raise ValueError('Unknown --datatype {}'.format(args.datatype))
 
-- 
2.43.0


From 2dbe9f059d640b3d429fb4f1ae8d814cdc0f7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 66/77] fix: the command planned by wrap-redrock has the same
 options

---
 bin/wrap-redrock | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 0ce2f65..805fa47 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -287,9 +287,13 @@ def plan(args, comm=None):
         print()
         print('nodes=$SLURM_JOB_NUM_NODES')
         rrcmd = '{} --mp {} --reduxdir {}'.format(
-            os.path.abspath(__file__), args.mp, args.reduxdir)
+            os.path.abspath(__file__), args.mp, os.path.abspath(args.reduxdir))
+        rrcmd += ' --datatype {} --prefix {} --nminima {}'.format(
+            args.datatype, args.prefix, args.nminima)
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(os.path.abspath(args.archetypes))
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
 
     return specfiles, groups, grouptimes
-- 
2.43.0


From 6d833eebac18e0b233876397f45be69e015c8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 67/77] fix: wrap-redrock logs in directories with .fits in
 their name

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 805fa47..eab5fe9 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -343,7 +343,7 @@ def run_redrock(args, comm=None):
             cmd += ['--zbest', rrfiles[i], '--output', detailsfiles[i]]
 
         cmd += ['--nminima', str(args.nminima)]
-        logfile = rrfiles[i].replace('.fits', '.log')
+        logfile = os.path.splitext(rrfiles[i])[0] + '.log'
         assert logfile != rrfiles[i]
 
         if args.mp is not None:
-- 
2.43.0


From de7b1b291f2692ab14825f7c841c062d65ba6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 68/77] fix: write_zscan kept no file if it failed while
 replacing a previous one

With clobber=True the previous output was removed before the new one was
written; now it is replaced by the final rename only.
---
 py/redrock/results.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 7053976..a918fa0 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -32,14 +32,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         filename (str): the output file path.
         zscan (dict): the full set of fit results.
         zfit (Table): the best fit redshift results.
-        clobber (bool): if True, delete the file if it exists.
+        clobber (bool): if True, replace the file if it exists.
 
     """
     import h5py
     filename = os.path.expandvars(filename)
-    if clobber and os.path.exists(filename):
-        os.remove(filename)
-
     outdir = os.path.dirname(os.path.abspath(filename))
     if not os.path.exists(outdir):
         os.makedirs(outdir)
-- 
2.43.0


From 7b06339f84c4b7bbf0f5cb702443e258ba756f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 69/77] fix: write_zscan reported success although a write to
 disk had failed

h5py only prints an error which occurs while a dataset is closed; the
incomplete file was then renamed to its final name.
---
 py/redrock/results.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index a918fa0..3552560 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -68,8 +68,13 @@ def write_zscan(filename, zscan, zfit, clobber=False):
 
     tempfile = filename + '.tmp'
     fx = h5py.File(tempfile, mode='w')
-    fx['targetids'] = targetids
-    fx['zbest'] = zbest.as_array()
+
+    def write_dataset(name, data):
+        #- h5py ignores write errors while it closes a dataset, so flush before
+        fx.create_dataset(name, data=data).flush()
+
+    write_dataset('targetids', targetids)
+    write_dataset('zbest', zbest.as_array())
 
     for spectype in spectypes:
         zchi2 = np.vstack([zscan[t][spectype]['zchi2'].astype(np.float32) for t in targetids])
@@ -80,15 +85,15 @@ def write_zscan(filename, zscan, zfit, clobber=False):
             tmp = tmp.reshape((1,)+tmp.shape)
             zcoeff.append(tmp)
         zcoeff = np.vstack(zcoeff)
-        fx['zscan/{}/zchi2'.format(spectype)] = zchi2
-        fx['zscan/{}/penalty'.format(spectype)] = penalty
-        fx['zscan/{}/zcoeff'.format(spectype)] = zcoeff
-        fx['zscan/{}/redshifts'.format(spectype)] = \
-            zscan[targetids[0]][spectype]['redshifts']
+        write_dataset('zscan/{}/zchi2'.format(spectype), zchi2)
+        write_dataset('zscan/{}/penalty'.format(spectype), penalty)
+        write_dataset('zscan/{}/zcoeff'.format(spectype), zcoeff)
+        write_dataset('zscan/{}/redshifts'.format(spectype),
+                zscan[targetids[0]][spectype]['redshifts'])
 
     for targetid in targetids:
         ii = np.where(zfit['targetid'] == targetid)[0]
-        fx['zfit/{}/zfit'.format(targetid)] = zfit[ii].as_array()
+        write_dataset('zfit/{}/zfit'.format(targetid), zfit[ii].as_array())
 
     fx.close()
     os.rename(tempfile, filename)
-- 
2.43.0


From fc446a51afec5643b0289174c411d69b507d31bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 70/77] fix: FITS outputs could be incomplete although no error
 was reported

numpy.ndarray.tofile, which astropy uses to write to files, ignores an error
of the last write of an array, so that an incomplete file was renamed to its
final name.
---
 py/redrock/external/boss.py |  4 ++--
 py/redrock/external/desi.py |  6 +++---
 py/redrock/utils.py         | 22 ++++++++++++++++++++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 635d53f..7767e96 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -23,7 +23,7 @@ import fitsio
 import desispec.resolution
 from desispec.resolution import Resolution
 
-from ..utils import elapsed, get_mp, distribute_work
+from ..utils import elapsed, get_mp, distribute_work, write_hdulist
 
 from ..targets import Spectrum, Target, DistTargetsCopy
 
@@ -78,7 +78,7 @@ def write_zbest(outfile, zbest, template_version, archetype_version):
         os.makedirs(outdir)
 
     tempfile = outfile + '.tmp'
-    hx.writeto(tempfile, overwrite=True)
+    write_hdulist(hx, tempfile)
     os.rename(tempfile, outfile)
     return
 
diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 185af70..074ec0f 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -28,7 +28,7 @@ from desispec.maskbits import fibermask
 from desispec.io.util import get_tempfilename
 from desispec.io.fibermap import annotate_fibermap
 
-from ..utils import elapsed, get_mp, distribute_work, getGPUCountMPI
+from ..utils import elapsed, get_mp, distribute_work, getGPUCountMPI, write_hdulist
 
 from ..targets import (Spectrum, Target, DistTargets)
 
@@ -147,7 +147,7 @@ def write_zbest(outfile, zbest, fibermap, exp_fibermap, tsnr2,
         os.makedirs(outdir)
 
     tempfile = outfile + '.tmp'
-    hx.writeto(tempfile, overwrite=True)
+    write_hdulist(hx, tempfile)
     os.rename(tempfile, outfile)
 
     return
@@ -195,7 +195,7 @@ def write_bestmodel(outfile, zbest, modeldict, wavedict, templates,
         os.makedirs(outdir)
 
     tempfile = get_tempfilename(outfile)
-    hx.writeto(tempfile, overwrite=True)
+    write_hdulist(hx, tempfile)
     os.rename(tempfile, outfile)
 
     return
diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index f252b54..68c032b 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -7,6 +7,7 @@ Redrock utility functions.
 
 from __future__ import absolute_import, division, print_function
 
+import io
 import sys
 import os
 import time
@@ -39,6 +40,27 @@ def native_endian(data):
         return data.byteswap().view(data.dtype.newbyteorder('native'))  # works with numpy 1.x or 2.x
 
 
+def write_hdulist(hdulist, filename):
+    """Write an astropy HDUList to a file, replacing an existing one.
+
+    Unlike ``hdulist.writeto(filename)``, this raises an exception for every
+    write error: numpy.ndarray.tofile, which astropy uses to write to files,
+    ignores an error while it flushes the end of an array (e.g. disk full).
+
+    Args:
+        hdulist (astropy.io.fits.HDUList): the HDUs to write
+        filename (str): the output file path
+    """
+    if filename.endswith(('.gz', '.bz2', '.xz')):
+        #- compressed files are not written with tofile
+        hdulist.writeto(filename, overwrite=True)
+    else:
+        buffer = io.BytesIO()
+        hdulist.writeto(buffer)
+        with open(filename, 'wb') as fx:
+            fx.write(buffer.getbuffer())
+
+
 def encode_column(c):
     """Returns a bytes column encoded into a string column.
 
-- 
2.43.0


From 2d56e025943bc29907921c955e01ac720d9a8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 71/77] fix: GPU rebinning read out of bounds for edges at the
 ends of the input range

---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index 22b2f70..523009b 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -430,6 +430,9 @@ def _trapz_rebin_batch_gpu(x, y, edges, myz, result_shape):
     #use serachsorted to find index for each boundary
     e2d = edges/(1+myz[:,None])
     idx = cp.searchsorted(x, e2d, side='right')#.astype(cp.int32)
+    #An edge on (or by rounding beyond) either end of x uses the first or last
+    #interval; the kernel reads x[idx-1] and x[idx]
+    idx = cp.clip(idx, 1, len(x)-1)
 
     # Load CUDA kernel
     cp_module = cp.RawModule(code=cuda_source)
-- 
2.43.0


From 67c3ece6d75c3593f9523d336cbf00a26dc3a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 72/77] fix: GPU archetype fits without Legendre terms passed
 transposed data to the kernels

---
 py/redrock/archetypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 59df6ca..cb55573 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -381,7 +381,8 @@ class Archetype():
             if nleg > 0:
                 tdata[hs] = arrtype.append(binned[hs].transpose()[:,:,None], arrtype.tile(arrtype.asarray(legendre[hs]).transpose()[None,:,:], (self._narch, 1, 1)), axis=2)
             else:
-                tdata[hs] = binned[hs].transpose()[:,:,None]
+                #GPU kernels need contiguous arrays
+                tdata[hs] = arrtype.ascontiguousarray(binned[hs].transpose()[:,:,None])
             nbasis = tdata[hs].shape[2]
 
         if per_camera:
-- 
2.43.0


From 5fceea151fd9a5011de56f3f2ec6d0bbed18b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 73/77] fix: GPU archetype rebinning compared observed edges
 with the rest-frame range

---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index cb55573..0f2aebd 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,8 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            xmin = self.minwave*(1+z)
+            xmax = self.maxwave*(1+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From 4a76c70986c2a5ca6fed29c6950f06bf44f37d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 74/77] fix: GPU copy of Legendre terms outlived a change of
 their number

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 43a2425..1fbfc69 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -265,6 +265,7 @@ class Target(object):
         dwave = { s.wavehash:s.wave for s in self.spectra }
         self._legendre = { hs:np.array([scipy.special.legendre(i)(reduced_wavelength(w)) for i in range(nleg)]) for hs, w in dwave.items() }
         self.nleg = nleg
+        self._gpulegendre = None # recalculated for the new number of terms
         if (use_gpu):
             import cupy as cp
             self._gpulegendre = { hs:cp.asarray(self._legendre[hs]) for hs in self._legendre }
-- 
2.43.0


From 7d79745e2196cae99a2e25a55ad96bd06c94b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:59 +0000
Subject: [PATCH 75/77] fix: rrplot used only the first of several DESI input
 files

---
 bin/rrplot | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/rrplot b/bin/rrplot
index 692a525..1bf0eed 100755
--- a/bin/rrplot
+++ b/bin/rrplot
@@ -56,7 +56,7 @@ else:
 #- Data
 if args.datatype=='desi':
     from redrock.external import desi
-    targets = desi.DistTargetsDESI(args.specfile[0], targetids=targetids, coadd=(not args.allspec))._my_data
+    targets = desi.DistTargetsDESI(args.specfile, targetids=targetids, coadd=(not args.allspec))._my_data
 elif args.datatype=='boss':
     from redrock.external import boss
     targets, targetids = boss.read_spectra(args.specfile, targetids=targetids, coadd=(not args.allspec))
-- 
2.43.0


From 26dce0bc87cd24142ad611f7cd9829c2b4800c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:41 +0000
Subject: [PATCH 76/77] fix: stale FITS checksum of FIBERMAP in rrdesi output

annotate_fibermap adds CHECKSUM and DATASUM, after which header cards of the
input are appended, so that FITS readers report a corrupt HDU.
---
 py/redrock/external/desi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 074ec0f..133f514 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -139,6 +139,9 @@ def write_zbest(outfile, zbest, fibermap, exp_fibermap, tsnr2,
         if secondary_headers is not None and k in secondary_headers:
             # Append only new cards from the saved header; don't overwrite existing ones
             hdu.header.extend(secondary_headers[k].cards, update=False, strip=True, unique=True)
+            # these cards, or a checksum copied from the input, make CHECKSUM/DATASUM stale
+            if 'CHECKSUM' in hdu.header or 'DATASUM' in hdu.header:
+                hdu.add_checksum()
         hx.append(hdu)
 
     outfile = os.path.expandvars(outfile)
-- 
2.43.0


From a46e8e8c7fef9afe67f141e1067792b35d2dcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:15 +0000
Subject: [PATCH 77/77] fix: reading files with one and with several tiles
 together failed

The coadded fibermap has more columns (TILEID, FIBER...) for a file whose
spectra are all of one tile; combining it with others raised an exception.
---
 py/redrock/external/desi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 133f514..389520c 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -671,7 +671,10 @@ class DistTargetsDESI(DistTargets):
         # One row per target, in the order of the targets.  Targets can be in
         # several files and in another order than requested.
 
-        fibermap = Table(np.hstack([ self._coadd_fmaps[x] \
+        # only files with a single tile have columns like TILEID
+        fmcols = [ c for c in self._coadd_fmaps[self._spectrafiles[0]].dtype.names \
+            if all(c in self._coadd_fmaps[x].dtype.names for x in self._spectrafiles) ]
+        fibermap = Table(np.hstack([ self._coadd_fmaps[x][fmcols] \
             for x in self._spectrafiles ]))
         tsnr2 = Table(np.hstack([ self._tsnr2[x] \
             for x in self._spectrafiles ]))
-- 
2.43.0

