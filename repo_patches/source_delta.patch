From dcdb3cecff50f090f23628315a49b5c4c6cee465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 01/22] fix: distance to a zero-length segment is the distance
 to its point

---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..cb8bb68 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A segment of zero length is a point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 9db7863275c454cf5613cd78a180e2168a765390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 02/22] fix: grow the grid to the umbra of a track, so that no
 visited node is lost

---
 oneka/probabilityfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index cb8bb68..f8d6596 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -331,8 +331,8 @@ class ProbabilityField:
         -------
         None.
         """
-        # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        # Make certain that the grid is large enough to hold every node within the umbra.
+        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From eb62773cd308040c630c36d0b9443dc76d1567ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 03/22] fix: a field without an extent can register and reset,
 and keeps its total weight

---
 oneka/probabilityfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index f8d6596..5228c71 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -136,6 +136,11 @@ class ProbabilityField:
         if np.isnan(xo) or np.isnan(yo):
             self.nrows = 0
             self.ncols = 0
+
+            self.pgrid = np.zeros((0, 0), dtype=np.float)
+            self.rgrid = np.zeros((0, 0), dtype=np.bool)
+
+            self.total_weight = 0.0
         else:
             self.xmin = xo - deltax
             self.xmax = xo + deltax
@@ -215,8 +220,6 @@ class ProbabilityField:
             self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
             self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
 
-            self.total_weight = 0.0
-
             log.debug('grids expanded to ({self.nrows}, {self.ncols}).')
         else:
             # Determine the new grid geometry.
-- 
2.43.0


From 061526472d8b733336b6a6a2b1b6b1c70521dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 04/22] fix: accept smooth = 0, the documented default

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 3a9340850b286b3f20e90955df287da8a5cd11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 05/22] fix: sample and average list distributions, which
 isdistribution accepts

---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From 7c1225ad3123fcf6c5b315f09917afbc4ac41065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 06/22] fix: a degenerate triangular distribution yields its
 only value

---
 oneka/stochastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..2330dcf 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -298,6 +298,8 @@ def generate_random_variate(arg):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
+    elif len(arg) == 3 and arg[0] == arg[2]:
+        value = arg[0]
     elif len(arg) == 3:
         value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
-- 
2.43.0


From c78129963bf76b07ba4f71542884e3691ebb367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 07/22] fix: contour_head leaves dry locations blank rather
 than failing on an unknown name

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From f2ab1bd29b58258fe02544f27d87ccbedca0a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 08/22] fix: merge duplicate observations wherever they stand
 in the list

---
 oneka/utilities.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..de416f7 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -107,26 +107,29 @@ def filter_obs(observations, wellfield, buffer):
 
     # Replace any duplicate observations with their weighted average.
     # Assume that the duplicate errors are statistically independent.
-    retained_obs = []
-
-    i = 0
-    while i < len(obs):
-        j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
+    # The duplicates need not be adjacent in the list.
+    groups = []
+    for ob in obs:
+        for group in groups:
+            if np.hypot(group[0][0]-ob[0], group[0][1]-ob[1]) < TOO_CLOSE:
+                group.append(ob)
+                break
+        else:
+            groups.append([ob])
 
-        if j-i > 1:
+    retained_obs = []
+    for group in groups:
+        if len(group) > 1:
             num = 0
             den = 0
-            for k in range(i, j):
-                num += obs[k][2]/obs[k][3]**2
-                den += 1/obs[k][3]**2
-                log.info('    duplicate observation: {0}'.format(obs[k]))
-            retained_obs.append((obs[i][0], obs[i][1], num/den, np.sqrt(1/den)))
+            for ob in group:
+                num += ob[2]/ob[3]**2
+                den += 1/ob[3]**2
+                log.info('    duplicate observation: {0}'.format(ob))
+            retained_obs.append((group[0][0], group[0][1], num/den, np.sqrt(1/den)))
             log.info('averaged observation created: {0}'.format(retained_obs[-1]))
         else:
-            retained_obs.append(obs[i])
-        i = j
+            retained_obs.append(group[0])
 
     log.info('')
     log.info('active observations: {0}'.format(len(retained_obs)))
-- 
2.43.0


From 6e6fa31fde414d1f3a6b7688de3d7adb8aad0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 09/22] fix: a model keeps its own copy of its coefficients

---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..159930e 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.reshape(coef, [6, ]).copy()
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From 4b3904e099001661e539bc977362921fe43b00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 10/22] fix: a trace ends where the velocity is not finite,
 instead of looping for ever

---
 oneka/capturezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..080e9e8 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,9 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            if not (np.isfinite(est) and np.isfinite(ds)):
+                raise FloatingPointError('velocity is not finite')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 0c8e3900d6fab5677cd5ffc3409eab090451192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 11/22] fix: log the recharge of a realization with its sign

---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 2330dcf..56ca624 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From b9d4a1db3c3555ef8e41bede1c6cfa9d8e251272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 12/22] fix: a failing velocity ends the trace, but an
 interrupt is not swallowed

---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 080e9e8..9fed563 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -249,8 +249,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From fb0d09e36783c3f56457f1a2cd42a69e2fd0f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 13/22] fix: refuse observations with a zero standard
 deviation, which have no weight

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..19d3b5c 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 51f52dff377890c3bc4022c94dbe3aa338b95718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 14/22] fix: refuse aquifer properties that are identically
 zero

---
 oneka/oneka.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 19d3b5c..fca488b 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -59,7 +59,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from oneka.archive import dump_oneka
-from oneka.stochastic import create_stochastic_capturezone, isdistribution
+from oneka.stochastic import create_stochastic_capturezone, compute_variate_mean, isdistribution
 from oneka.deterministic import create_deterministic_capturezone
 from oneka.utilities import filter_obs, summary_statistics
 from oneka.visualize import create_probability_plot, create_impact_plot, create_deterministic_plot
@@ -215,6 +215,8 @@ def oneka(
     assert(isdistribution(c_dist, 0, np.inf))
     assert(isdistribution(p_dist, 0, 1))
     assert(isdistribution(t_dist, 0, np.inf))
+    for dist in (c_dist, p_dist, t_dist):
+        assert(0 < compute_variate_mean(dist))
 
     assert(isinstance(stochastic_wells, list) and len(stochastic_wells) >= 1)
     for we in stochastic_wells:
-- 
2.43.0


From c9b093e6c554c32a3689324ebb598b230487dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 15/22] fix: a run within the same second does not overwrite
 the earlier archive

---
 oneka/archive.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 3c8bbb5..2094010 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -39,6 +39,7 @@ Version
 """
 import bz2
 from datetime import datetime
+import os
 import pickle
 
 
@@ -55,6 +56,12 @@ def dump_oneka(
     # Create the dump file name.
     filename='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'
 
+    # Never overwrite the archive of an earlier run.
+    stem, n = filename[:-4], 0
+    while os.path.exists(filename):
+        n += 1
+        filename = '{0}-{1}.bz2'.format(stem, n)
+
     # Create a dictionary.
     oneka_dict = {
         'projectname' : projectname,
@@ -78,7 +85,7 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "w") as fp:
+    with bz2.BZ2File(filename, "x") as fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From f873acbbe40757025d70f21f603f10aad3fe53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 16/22] fix: warnings of the tracer go to the log of the run

---
 oneka/capturezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 9fed563..c761fd5 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -44,7 +44,7 @@ Version
 import logging
 import numpy as np
 
-log = logging.getLogger(__name__)
+log = logging.getLogger('Oneka')
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 8f07ea0e7fda9646c1bedd818d310027bb7f360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 17/22] fix: return the probability field, as documented

---
 oneka/oneka.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index fca488b..b8268df 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -318,6 +318,8 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From 39823cf6068218c8c21bb1486da047f88ae8a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 18/22] fix: every velocity evaluated for a trace must be
 finite

---
 oneka/capturezone.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index c761fd5..a422963 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -215,6 +215,8 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
     vertices = [(xs, ys)]
     xy = np.array([xs, ys])
 
+    feval = refuse_nonfinite(feval)
+
     try:
         k1 = feval(xy)
 
@@ -238,9 +240,6 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
-            if not (np.isfinite(est) and np.isfinite(ds)):
-                raise FloatingPointError('velocity is not finite')
-
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
@@ -253,3 +252,19 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
     return vertices
+
+
+# -------------------------------------
+def refuse_nonfinite(feval):
+    """
+    Wrap a velocity function: raise a FloatingPointError, rather than return,
+    a velocity that is not finite.
+    """
+
+    def checked(xy):
+        velocity = feval(xy)
+        if not np.all(np.isfinite(velocity)):
+            raise FloatingPointError('the velocity is not finite.')
+        return velocity
+
+    return checked
-- 
2.43.0


From 396735397124b541dad5964f770499b8f5da3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 19/22] fix: refuse ill-typed distributions, wells and
 observations with the assertion all others get

---
 oneka/oneka.py      | 3 +++
 oneka/stochastic.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index b8268df..c74f32b 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -207,6 +207,7 @@ def oneka(
     assert(isinstance(projectname, str))
     assert(isinstance(runtime, str))
 
+    assert(isinstance(stochastic_wells, list))
     assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))
     assert(isinstance(npaths, int) and 0 < npaths)
     assert((isinstance(duration, int) or isinstance(duration, float)) and 0 != duration)  ###_Forward_###
@@ -220,6 +221,7 @@ def oneka(
 
     assert(isinstance(stochastic_wells, list) and len(stochastic_wells) >= 1)
     for we in stochastic_wells:
+        assert(isinstance(we, (tuple, list)))
         assert(len(we) == 4 and
                (isinstance(we[0], int) or isinstance(we[0], float)) and
                (isinstance(we[1], int) or isinstance(we[1], float)) and
@@ -228,6 +230,7 @@ def oneka(
 
     assert(isinstance(observations, list) and len(observations) > 6)
     for ob in observations:
+        assert(isinstance(ob, (tuple, list)))
         assert(len(ob) == 4 and
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 56ca624..7a9fec1 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -52,6 +52,7 @@ Version
 
 """
 import logging
+from numbers import Real
 import numpy as np
 
 from oneka.capturezone import compute_capturezone
@@ -370,6 +371,9 @@ def isdistribution(arg, lb, ub):
         return lb <= arg <= ub
 
     if isinstance(arg, tuple) or isinstance(arg, list):
+        if not all(isinstance(value, Real) for value in arg):
+            return False
+
         if len(arg) == 2:
             return lb <= arg[0] <= arg[1] <= ub
         elif len(arg) == 3:
-- 
2.43.0


From 9fa7f670aa90f8d79d80ca444dc3eb4a77a1a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 20/22] fix: the log file of a run receives the messages of no
 later run

---
 runme.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/runme.py b/runme.py
index 94b4235..f9c4387 100644
--- a/runme.py
+++ b/runme.py
@@ -56,20 +56,26 @@ def main(module_name):
 
     log = logging.getLogger('Oneka')
 
-    # Call the working function.
-    oneka(
-        m.PROJECTNAME, RUNTIME,
-        m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
-        m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
-        m.WELLS, m.OBSERVATIONS,
-        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
-        m.CONFINED, m.TOL, m.MAXSTEP)
-
-    # Shutdown the run.
-    elapsedtime = time.time() - start_time
-    log.info('\n')
-    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
-    logging.shutdown()
+    try:
+        # Call the working function.
+        oneka(
+            m.PROJECTNAME, RUNTIME,
+            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
+            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
+            m.WELLS, m.OBSERVATIONS,
+            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
+            m.CONFINED, m.TOL, m.MAXSTEP)
+
+        # Shutdown the run.
+        elapsedtime = time.time() - start_time
+        log.info('\n')
+        log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+        logging.shutdown()
+
+    finally:
+        # The log file of this run receives the messages of no other run.
+        logger.removeHandler(fh)
+        fh.close()
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From f1d442584f732c2964434c2ee4264ed864941644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:47 +0000
Subject: [PATCH 21/22] fix: the levels of the decile table are the doubles
 nearest to 0.05 ... 0.95

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index c74f32b..0009f37 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -286,7 +286,7 @@ def oneka(
         log.info(' Pr(capture)         Area             Area ')
         log.info(' Exceeds            [m^2]          [acres] ')
         log.info('-------------------------------------------')
-        for p in np.linspace(0.05, 0.95, 19):
+        for p in np.arange(1, 20)/20:
             i = np.argmax(pr <= p)
             log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'
                      .format(pr[i], area[i], area[i] / 4046.86))  # 4046.86 m^2/acre
-- 
2.43.0


From bafd0b77d1ddd548e4590b0ef3cc4b8a20bf773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 22/22] fix: a run within the same second as an earlier one
 gets a log file of its own

---
 runme.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runme.py b/runme.py
index f9c4387..fc43821 100644
--- a/runme.py
+++ b/runme.py
@@ -18,6 +18,7 @@ Version
 """
 from datetime import datetime
 import logging
+import os
 import time
 
 import cProfile
@@ -48,6 +49,13 @@ def main(module_name):
 
     # Create file handler which logs all messages.
     fname='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log'
+
+    # Never append to the log file of an earlier run.
+    stem, n = fname[:-4], 0
+    while os.path.exists(fname):
+        n += 1
+        fname = '{0}-{1}.log'.format(stem, n)
+
     fh = logging.FileHandler(filename=fname)
     fh.setLevel(logging.INFO)
 
-- 
2.43.0

