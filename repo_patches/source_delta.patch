From 436703b8fb7456476cd93bc3508c2a5c089dc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 01/41] fix: Gauss forward elimination subtracts the outer
 product, not an elementwise one

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..0987776 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((n-j-1, 1)) * A[j, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From a1242a0f321004a2663da5bb94fb445a1a26047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 02/41] fix: interval endpoint arrays are always float64,
 whatever the type of the first element's endpoint

---
 intvalpy/kernel/real_intervals.py | 10 +++++-----
 intvalpy/kernel/utils.py          |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..308970e 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -26,19 +26,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.vectorize(lambda el: el.a, otypes=[np.float64])(self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.vectorize(lambda el: el.b, otypes=[np.float64])(self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.vectorize(lambda el: el.a, otypes=[np.float64])(self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.vectorize(lambda el: el.b, otypes=[np.float64])(self._data)
 
     @property
     def data(self):
@@ -69,7 +69,7 @@ class ArrayInterval:
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return np.vectorize(lambda el: el.wid, otypes=[np.float64])(self._data)
 
     @property
     def mig(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..8e9a607 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return np.vectorize(_wid, otypes=[np.float64])(x)
     else:
         return _wid(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return np.vectorize(_inf, otypes=[np.float64])(x)
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return np.vectorize(_sup, otypes=[np.float64])(x)
     else:
         return _sup(x)
     
-- 
2.43.0


From de87fbe77a51df641db2ebcdbc76df73c5ce67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 03/41] fix: ArrayInterval.to_float called a method scalar
 intervals do not have

---
 intvalpy/kernel/real_intervals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 308970e..eadf486 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -57,7 +57,9 @@ class ArrayInterval:
         return self._ranges
 
     def to_float(self):
-        return ArrayInterval(np.vectorize(lambda el: el.to_float())(self._data))
+        return ArrayInterval(np.vectorize(
+            lambda el: SingleInterval(float(el.a), float(el.b), sortQ=False), otypes=[object]
+        )(self._data))
 
     @property
     def rad(self):
-- 
2.43.0


From 548a1726a129f83fbee97ad9dfa549cf1ac02242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 04/41] fix: PSS swallowed KeyboardInterrupt and other
 cancellations with bare except clauses

---
 intvalpy/linear/PSS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..c577d5e 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -95,7 +95,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
     def Omega(bAr, _nu, Anu, index_classic_div, index_kahan_div, num_func):
         try:
             div = bAr[index_classic_div]/Anu[index_classic_div]
-        except:
+        except Exception:
             div = []
         pdiv = []
 
@@ -106,7 +106,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             result = intersection(div[0], V[_nu])
             for el in div[1:]:
                 result = intersection(result, el)
-        except:
+        except Exception:
             result = intersection(pdiv[0], V[_nu])
 
         for el in pdiv:
@@ -137,12 +137,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         if n > m:
             try:
                 V = Rohn(A, b)
-            except:
+            except Exception:
                 V = Interval([-10**14]*m, [10**14]*m, sortQ=False)
         else:
             try:
                 V = Gauss(A, b)
-            except:
+            except Exception:
                 V = Interval([-10**14]*m, [10**14]*m, sortQ=False)
 
         return V
@@ -303,7 +303,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     break
                 except IndexError:
                     return L[0][1]
-                except:
+                except Exception:
                     item += 1
 
             nit += 1
-- 
2.43.0


From 8a15dbe60fbfdddb3f68ce6a9c9754aede18d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 05/41] fix: PSS raised ZeroDivisionError / IndexError on zero
 entries and on an exhausted work list

---
 intvalpy/linear/PSS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index c577d5e..3b5c91a 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -7,7 +7,7 @@ cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 
 from ..kernel.real_intervals import Interval
 from ..kernel.preprocessing import intersection
-from ..kernel.utils import infinity
+from ..kernel.utils import infinity, nan
 from .Rohn import Rohn
 from .Gauss import Gauss
 
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            return Interval(nan, nan)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
@@ -302,13 +304,13 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except Exception:
                     item += 1
 
             nit += 1
 
-        return L[0][1]
+        return L[0][1] if L else omega
 
     inf = []
     sup = []
-- 
2.43.0


From 2080944a59e7d5c982effff7433a296d57ca0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 06/41] fix: PSS used the caller's x0 un-negated when bounding
 the upper endpoints

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 3b5c91a..48fed36 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -134,7 +134,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return endint * x0
 
         if n > m:
             try:
-- 
2.43.0


From 210b9ef74c474da68309f65fbbe88aa766b5befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 07/41] fix: PSS discarded a bar when the LP solver failed for
 a reason other than infeasibility

---
 intvalpy/linear/PSS.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 48fed36..1f1f50a 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -160,6 +160,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
 
         result = cvxopt.solvers.lp(*args, solver='glpk')
+        if result['status'] == 'primal infeasible':
+            return None
         if 'optimal' not in result['status']:
             raise Exception("LP optimum not found: %s" % result['status'])
         return np.array(result['x']).reshape(c.shape[0])
@@ -183,11 +185,14 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         b_ub[n:2*n] = -b.a
         b_ub[2*n:2*(n+m)] = p
 
+        # only a proof of infeasibility allows the bar to be discarded,
+        # in any other failure the known lower estimate remains valid
         try:
             result = solve_lp(c, A_ub, b_ub)
-            return result @ c
         except Exception:
-            pass
+            return V[_nu].a
+        if result is not None:
+            return result @ c
 
         S[_nu, _nu] = np.sign(V[_nu].b)
         midAS = midA @ S
@@ -200,9 +205,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         try:
             result = solve_lp(c, A_ub, b_ub)
-            return result @ c
         except Exception:
-            return 10**15
+            return V[_nu].a
+        return 10**15 if result is None else result @ c
 
     def algo(_nu):
         WorkListA = A.copy(); del(WorkListA[:, _nu])
-- 
2.43.0


From a45a5636f4fcf8018feacd03f566720069b05ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 08/41] fix: PPS inferred signs from identically zero
 derivatives and lost part of the solution set

---
 intvalpy/linear/PPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..6b18e58 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -204,12 +204,15 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
                 L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
             if index_lower_zero.any():
                 L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+            # an identically zero derivative carries no sign to infer other signs from
+            L[0].W[index_upper_zero & index_lower_zero] = 0
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
             if index_upper_zero.any():
                 L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
             if index_lower_zero.any():
                 L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+            L[0].s[index_upper_zero & index_lower_zero] = 0
 
 
             #############################################################################################
-- 
2.43.0


From 4248384e810c40691763a13d14f4fb1fc6fc7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 09/41] fix: PPS raised UnboundLocalError on systems with a
 point matrix

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index 6b18e58..ea919e7 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 844fa1a3c0cf943bbc3baf6f02edf91f01c90da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 10/41] fix: rendering bounds of unbounded solution sets leaked
 between calls through a module global

---
 intvalpy/linear/boundary_intervals.py | 31 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..ca8cc2f 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -108,7 +108,6 @@ def ChangeVariable(A, b, k):
     return xi, At, bt, y1, y2
 
 
-__center_rm = []
 def lineqs(
         A, 
         b, 
@@ -119,7 +118,8 @@ def lineqs(
         alpha=0.5, 
         s=10, 
         size=(15, 15), 
-        save=False
+        save=False,
+        _center_rm=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -195,7 +195,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
-            __center_rm.append([max(abs(center) + 5*rm)])
+            if _center_rm is not None:
+                _center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
 
@@ -295,6 +296,7 @@ def IntLinIncR2(
 
     ortant = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
     vertices = []
+    center_rm = []
     n, m = A.shape
 
     assert m <= 2, "There should be two columns in matrix A."
@@ -321,18 +323,16 @@ def IntLinIncR2(
                 msg = "Неверно указан тип согласования системы! Используйте 'uni' или 'tol'."
                 raise Exception(msg)
 
-            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
+            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds, _center_rm=center_rm))
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
-    if len(__center_rm) > 0:
+    if len(center_rm) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(center_rm))
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
@@ -357,7 +357,8 @@ def lineqs3D(
         alpha=0.5, 
         s=10, 
         size=(8, 8),
-        bounds=None
+        bounds=None,
+        _center_rm=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -472,7 +473,8 @@ def lineqs3D(
 
             if rm <= 1e-14:
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 1*rm)])
+            if _center_rm is not None:
+                _center_rm.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
             b = np.append(np.append(b, center-rm), -(center+rm))
         else:
@@ -598,6 +600,7 @@ def IntLinIncR3(
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
               (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]
     vertices = []
+    center_rm = []
     n, m = A.shape
 
     assert m <= 3, "There should be three columns in matrix A."
@@ -632,7 +635,7 @@ def IntLinIncR3(
                 else:
                     WorkListb[k] += 1e-15
 
-            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds))
+            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds, _center_rm=center_rm))
             for v in vertices[-1]:
                 gxmin = min(gxmin, np.min(v[:, 0]))
                 gymin = min(gymin, np.min(v[:, 1]))
@@ -647,13 +650,11 @@ def IntLinIncR3(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
-    if len(__center_rm) > 0:
+    if len(center_rm) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(center_rm))
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0


From 8d9bad21cce11861a6762922144cac5bbbac6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 11/41] fix: BaseRecFun.optimize cached the penalty weight in
 the caller's LinearConstraint

---
 intvalpy/kernel/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..d91b8d8 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import itertools
 
@@ -51,7 +52,9 @@ class BaseRecFun(object):
             calcfg = lambda x: recfunc.calcfg(x, infA, supA, Am, Ar, bm, br, weight)
         else:
             if linear_constraint.mu is None:
+                # the coefficient depends on A, so it is kept out of the caller's object
                 mag_value = mag(A)
+                linear_constraint = copy.copy(linear_constraint)
                 linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
-- 
2.43.0


From 32809b6e52d91bebdbe819f7cbca2f3d6775c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 12/41] fix: WILS.fit and ISPAE.fit smoothed the caller's
 weight array in place

---
 intvalpy/models/ISPAE.py | 3 +--
 intvalpy/models/WILS.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..18a0368 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -346,8 +346,7 @@ class ISPAE(object):
         beta0 = x0
 
         # Initialize weights
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0d1dee0 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -106,8 +106,7 @@ class WILS(object):
         else:
             x0 = np.copy(x0)
         
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From dcb92a6b7c5c836349ea9101c18eae55019bd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 13/41] fix: a failed ISPAE.fit left the model with the new
 columns and order but the old coefficients

---
 intvalpy/models/ISPAE.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 18a0368..e2f7787 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import pandas as pd
 
@@ -299,6 +300,13 @@ class ISPAE(object):
         **kwargs : dict
             Additional arguments for the optimizer ralgb5.
         """
+        # A fit that does not complete must leave the model as it was
+        model = copy.copy(self)
+        model._fit(X_train, y_train, order, x0, weight, objective, norm, bias, **kwargs)
+        self.__dict__.update(model.__dict__)
+
+
+    def _fit(self, X_train, y_train, order, x0, weight, objective, norm, bias, **kwargs):
         # Initialize training data
         X_train = pd.DataFrame(X_train)
         n, m = X_train.shape
-- 
2.43.0


From bc9be229f6b78029fba67b81793b7aa962fdbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 14/41] fix: LinearConstraint drew its unit weights from, and
 advanced, the global random stream

---
 intvalpy/kernel/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index d91b8d8..cc046cd 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -233,7 +233,7 @@ class LinearConstraint:
                 self.C.append(C[0])
                 self.b.append(ub[0])
             else:
-                w = np.random.uniform(1, 1, n) # TODO
+                w = np.ones(n)
                 # TODO
                 # переписать более оптимальным способом
                 W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-- 
2.43.0


From 06e3bead9186deb726d31e5d5c8d89e9dab2514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 15/41] fix: interval / number rounded the reciprocal to
 nearest and lost points of the exact quotient

---
 intvalpy/kernel/interval_arithmetics.pyx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..9262535 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -463,6 +463,16 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            with RoundingContext(FE_DOWNWARD):
+                inf = min(self.a / other, self.b / other)
+            with RoundingContext(FE_UPWARD):
+                sup = max(self.a / other, self.b / other)
+            return ClassicalArithmetic(inf, sup)
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
             return 1.0/other * self
     
@@ -614,6 +624,16 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            with RoundingContext(FE_DOWNWARD):
+                inf = (self.b if other < 0 else self.a) / other
+            with RoundingContext(FE_UPWARD):
+                sup = (self.a if other < 0 else self.b) / other
+            return KaucherArithmetic(inf, sup)
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
             return 1/other * self
     
-- 
2.43.0


From 56f013ab3d29e1e680fea478887c9f385860dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 16/41] fix: dividing a numpy scalar by an interval containing
 zero returned an inverted interval

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 9262535..e59bc96 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -363,6 +363,8 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
+            if 0.0 in self:
+                raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1/self.b
             with RoundingContext(FE_UPWARD):
-- 
2.43.0


From 8b29da9b4bf61fee917d2f573f97ae2813096171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 17/41] fix: in-place operators left the shape of an
 ArrayInterval stale when the operand broadcasts it

---
 intvalpy/kernel/real_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index eadf486..f8e1925 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -307,19 +307,19 @@ class ArrayInterval:
             return ArrayInterval(matmul)
 
     def __iadd__(self, other):
-        self._data = np.array(self._data + other)
+        self.__init__(np.array(self._data + other))
         return self
 
     def __isub__(self, other):
-        self._data = np.array(self._data - other)
+        self.__init__(np.array(self._data - other))
         return self
 
     def __imul__(self, other):
-        self._data = np.array(self._data * other)
+        self.__init__(np.array(self._data * other))
         return self
 
     def __itruediv__(self, other):
-        self._data = np.array(self._data / other)
+        self.__init__(np.array(self._data / other))
         return self
 
     def __array_ufunc__(self, *args):
-- 
2.43.0


From 058b9b96b5b4bf400a2539c90a0c9ecca5baebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 18/41] fix: quotients of integer endpoints were not rounded
 outward when the dividend is negative

---
 intvalpy/kernel/interval_arithmetics.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index e59bc96..a13196c 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -366,9 +366,9 @@ cdef class BaseTools:
             if 0.0 in self:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
+                inf = 1.0/self.b
             with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
+                sup = 1.0/self.a
             return type(self)(inf, sup).__rmul__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
@@ -451,9 +451,9 @@ cdef class ClassicalArithmetic(BaseTools):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                inf = min(float(self.a) / other.a, float(self.a) / other.b, float(self.b) / other.a, float(self.b) / other.b)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                sup = max(float(self.a) / other.a, float(self.a) / other.b, float(self.b) / other.a, float(self.b) / other.b)
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -467,9 +467,9 @@ cdef class ClassicalArithmetic(BaseTools):
         
         elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other, self.b / other)
+                inf = min(float(self.a) / other, float(self.b) / other)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other, self.b / other)
+                sup = max(float(self.a) / other, float(self.b) / other)
             return ClassicalArithmetic(inf, sup)
 
         elif isinstance(other, np.ndarray):
@@ -628,9 +628,9 @@ cdef class KaucherArithmetic(BaseTools):
         
         elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = (self.b if other < 0 else self.a) / other
+                inf = float(self.b if other < 0 else self.a) / other
             with RoundingContext(FE_UPWARD):
-                sup = (self.a if other < 0 else self.b) / other
+                sup = float(self.a if other < 0 else self.b) / other
             return KaucherArithmetic(inf, sup)
 
         elif isinstance(other, np.ndarray):
-- 
2.43.0


From e1cc13aae3a348e55584366a11c61e10f37604d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 19/41] fix: assigning an array to a single element of an
 ArrayInterval stored a raw array in it

---
 intvalpy/kernel/real_intervals.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index f8e1925..cd4346f 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -223,12 +223,18 @@ class ArrayInterval:
         if isinstance(value, ARITHMETICS):
             self._data[key] = value
         elif isinstance(value, ArrayInterval):
-            self._data[key] = value._data
+            data = value._data
+            if isinstance(self._data[key], INTERVAL_CLASSES):
+                # one element is addressed: numpy would store the array itself in it
+                if data.size != 1:
+                    raise ValueError('Setting an interval element with an array of intervals.')
+                data = data.item()
+            self._data[key] = data
         else:
             if isinstance(value, single_type):
                 self._data[key] = SingleInterval(value, value)
             else:
-                self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))._data
+                self[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))
 
     def __delitem__(self, key):
         if isinstance(key, int):
-- 
2.43.0


From 872717f5e902c15ae680859f8aefd508a197bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 20/41] fix: reversed() of an ArrayInterval read an attribute
 that does not exist

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index cd4346f..88cb7b1 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -148,7 +148,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 5af97b3897f57d571c4b6c0fd9254e3e5bec68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 21/41] fix: PSS handed badly scaled rows to GLPK, which
 reported them infeasible

---
 intvalpy/linear/PSS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 1f1f50a..d9ad2fb 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -156,6 +156,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
     p = np.zeros(2*m)
 
     def solve_lp(c, A_ub, b_ub):
+        # GLPK reports rows of very different size as infeasible, so each one
+        # is first scaled (exactly, by a power of two) to entries of order one
+        exponent = np.frexp(np.abs(A_ub).max(axis=1))[1]
+        A_ub = np.ldexp(A_ub, -exponent[:, None])
+        b_ub = np.ldexp(b_ub, -exponent)
+
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
         args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
 
-- 
2.43.0


From 97a65fc518020c8c0a336b343f6fe895fc2730ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 22/41] fix: Rohn handed badly scaled rows to GLPK, which
 misjudged them

---
 intvalpy/linear/Rohn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..44b9ab9 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -12,6 +12,12 @@ from .Tol import Tol
 def _Rohn_Tol(A, b, nu=None):
 
     def solve_lp(c, A_ub, b_ub):
+        # GLPK misjudges rows of very different size, so each one
+        # is first scaled (exactly, by a power of two) to entries of order one
+        exponent = np.frexp(np.abs(A_ub).max(axis=1))[1]
+        A_ub = np.ldexp(A_ub, -exponent[:, None])
+        b_ub = np.ldexp(b_ub, -exponent)
+
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
         args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
 
-- 
2.43.0


From 156fe7f6037fdcb35fb53f69428bee48d223b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 23/41] fix: PSS returned estimates reaching outside the box it
 was told to search

---
 intvalpy/linear/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index d9ad2fb..467efef 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -198,7 +198,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         except Exception:
             return V[_nu].a
         if result is not None:
-            return result @ c
+            return max(result @ c, V[_nu].a)
 
         S[_nu, _nu] = np.sign(V[_nu].b)
         midAS = midA @ S
@@ -213,7 +213,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             result = solve_lp(c, A_ub, b_ub)
         except Exception:
             return V[_nu].a
-        return 10**15 if result is None else result @ c
+        return 10**15 if result is None else max(result @ c, V[_nu].a)
 
     def algo(_nu):
         WorkListA = A.copy(); del(WorkListA[:, _nu])
-- 
2.43.0


From a86130f64160f66412b7169a559a4a8b13336252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 24/41] fix: exp of a large interval had an infinite lower end

---
 intvalpy/kernel/interval_arithmetics.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a13196c..17561a1 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -257,12 +257,16 @@ cdef class BaseTools:
 
     def exp(self):
         cdef double_t inf, sup
+        properQ = self.a <= self.b
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX if properQ else INF
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF if properQ else DBL_MAX
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From 36228f54d136cf1708c630b1ec87a548efbc0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 25/41] fix: round_down and round_up gave the wrong neighbour
 of an infinity

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 17561a1..bc82bec 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, -INFINITY)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INFINITY)    
 #######################################################################################
 
 
-- 
2.43.0


From 0d199484a8816ec734e0e7ef68613fb89a7eda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 26/41] fix: division by an improper interval with zero between
 its ends was answered

---
 intvalpy/kernel/interval_arithmetics.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index bc82bec..422beef 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -367,7 +367,7 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            if 0.0 in self:
+            if 0.0 in self.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/self.b
@@ -452,7 +452,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __truediv__(self, other):
         cdef double_t inf, sup
         if isinstance(other, ClassicalArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = min(float(self.a) / other.a, float(self.a) / other.b, float(self.b) / other.a, float(self.b) / other.b)
@@ -461,7 +461,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -533,7 +533,7 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
@@ -596,7 +596,7 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             
             with RoundingContext(FE_DOWNWARD):
@@ -622,7 +622,7 @@ cdef class KaucherArithmetic(BaseTools):
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -712,7 +712,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From 723781ffd4dee397c568f297d9c8ffb48255057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 27/41] fix: Kaucher products missed or over-stated the exact
 product

---
 intvalpy/kernel/interval_arithmetics.pyx | 48 ++++++++++++------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 422beef..3ba5adc 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -432,18 +432,18 @@ cdef class ClassicalArithmetic(BaseTools):
         elif isinstance(other, KaucherArithmetic):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = self.a - selfInfPlus
+            selfSupMinus = self.b - selfSupPlus
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = other.a - otherInfPlus
+            otherSupMinus = other.b - otherSupPlus
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -573,18 +573,18 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = self.a - selfInfPlus
+            selfSupMinus = self.b - selfSupPlus
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = other.a - otherInfPlus
+            otherSupMinus = other.b - otherSupPlus
             
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -607,18 +607,18 @@ cdef class KaucherArithmetic(BaseTools):
             
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = self.a - selfInfPlus
+            selfSupMinus = self.b - selfSupPlus
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = other.a - otherInfPlus
+            otherSupMinus = other.b - otherSupPlus
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -694,18 +694,18 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, Number):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = self.a - selfInfPlus
+            selfSupMinus = self.b - selfSupPlus
             
             otherInfPlus = max(other, 0.0)
             otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
+            otherInfMinus = other - otherInfPlus
+            otherSupMinus = other - otherSupPlus
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
-- 
2.43.0


From 4716b71181da341bc7e922d439d6d134af7928d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 28/41] fix: wid of a plain number returned the number

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 8e9a607..c81826d 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From ef0a406226223ccba40a1f9f8904396765035a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 29/41] fix: Interval(number) raised TypeError

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 88cb7b1..0ea9103 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -469,11 +469,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From 34db69dd7b029606196437e3818eed03dbb9cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 30/41] fix: khi of a list starting with an integer truncated
 the others

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index c81826d..ef7e6c8 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -181,7 +181,7 @@ def khi(x):
         if isinstance(x, ARITHMETICS):
             return x.khi
         else:
-            return 1
+            return 1.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From a22c6238a6deddaa8b9fadd15837f822faa332f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 31/41] fix: LinearConstraint failed when no row or no side is
 limited

---
 intvalpy/kernel/abstract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index cc046cd..65dad96 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -230,8 +230,8 @@ class LinearConstraint:
 
             n = len(self.C)
             if n == 0:
-                self.C.append(C[0])
-                self.b.append(ub[0])
+                # ни одна строка ничего не ограничивает
+                self.C, self.b = C[:1], np.array([np.inf])
             else:
                 w = np.ones(n)
                 # TODO
@@ -240,11 +240,11 @@ class LinearConstraint:
                 for k in range(W.shape[1]):
                     W[:, k] = w
 
-            self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
+                self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = C[:1], np.array([np.inf])
 
         self.mu = mu
 
-- 
2.43.0


From 4497e1f442f6b869180a2b073fd5fb3688bd51f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 32/41] fix: Neumaier's box was not inside the solution set

---
 intvalpy/linear/Neumaier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..e0547aa 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From 1a9181a2b9e90a5add239d86ebf523d032e2da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 33/41] fix: Rohn returned a box that does not enclose when
 iterations did not settle

---
 intvalpy/linear/Rohn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index 44b9ab9..46c7b71 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -92,6 +92,14 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+
+    if not error < tol:
+        # итерации не установились, а их предел при rho(G) < 1 находится и напрямую
+        result = np.full(m, infinity)
+        if np.amax(abs(np.linalg.eigvals(G))) < 1:
+            d = np.linalg.solve(np.eye(m) - G, g + tol)
+            if (d >= 0).all():
+                result = d
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From 593c46183c5a970aec5675347467a1b7ec03bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 34/41] fix: vertex enumeration ignored an unsatisfiable zero
 row

---
 intvalpy/linear/boundary_intervals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index ca8cc2f..07f9d5f 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,6 +182,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return []
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -410,6 +412,8 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
     A, b = non_repeat(A, b)
 
     n, m = A.shape
-- 
2.43.0


From c007246003a6266c2cebf3428e8ac9bd5a2b3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 35/41] fix: lineqs failed or drew nothing when the unlimited
 set missed its window

---
 intvalpy/linear/boundary_intervals.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 07f9d5f..c48a5c9 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -197,6 +197,13 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            # окно должно быть невырожденным и содержать все вершины
+            ends = S[:, :4].reshape(-1, 2)
+            ends = ends[np.isfinite(ends).all(axis=1)]
+            if len(ends) > 0:
+                rm = max(rm, np.max(abs(ends - center))/4)
+            if rm <= 1e-14:
+                rm = rm + 1
             if _center_rm is not None:
                 _center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
@@ -208,6 +215,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From 28444322a583e3531f5aa6323b0451a891c8c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 36/41] fix: lineqs3D failed on a single half-space

---
 intvalpy/linear/boundary_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index c48a5c9..ed2b2cb 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -99,7 +99,7 @@ def ChangeVariable(A, b, k):
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
 
-    index = np.array([l for l in range(len(A)) if l != k])
+    index = np.array([l for l in range(len(A)) if l != k], dtype=int)
     A, b = A[index], b[index]
 
     At = np.array([A @ y1, A @ y2]).T
@@ -441,7 +441,7 @@ def lineqs3D(
             continue
 
         if len(bt) == 0:
-            PP.append(xi)
+            PP.append([xi])
             cfinite = False
             continue
 
-- 
2.43.0


From 839947810cf6e3a008bacb8791b3f319a0d6d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 37/41] fix: boundary intervals lost an edge given by two equal
 rows

---
 intvalpy/linear/boundary_intervals.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index ed2b2cb..903391d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -24,6 +24,10 @@ def BoundaryIntervals(A, b):
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
 
+            # параллельные с точностью до округления прямые
+            if abs(c) <= 1e-11 * np.linalg.norm(A[k]) * np.linalg.norm(p):
+                c = 0
+
             if np.sign(c) == -1:
                 tmp = (b[k] - Akx) / c
                 q[1] = q[1] if q[1] <= tmp else tmp
@@ -31,7 +35,14 @@ def BoundaryIntervals(A, b):
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
+                gap = b[k] - Akx
+                tol = 1e-11 * (np.linalg.norm(A[k]) + abs(b[k]))
+                if abs(gap) <= tol:
+                    # одна и та же прямая: учитываем её только один раз
+                    if k < i and np.dot(A[k], A[i]) > 0:
+                        si = False
+                        break
+                elif gap > 0:
                     if np.dot(A[k], A[i]) > 0:
                         si = False
                         break
-- 
2.43.0


From 02312edb7a6f1212db8ab69d61a2449f5cf2f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 38/41] fix: lineqs3D merged different constraints with equal
 differences

---
 intvalpy/kernel/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..f639487 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,7 +26,7 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
+    a1 = np.column_stack((a, b))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
-- 
2.43.0


From 57496d17128b5cbaad11d797dec5e1d517abacde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 39/41] fix: lineqs3D's window could miss the unlimited set

---
 intvalpy/linear/boundary_intervals.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 903391d..48126af 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -442,6 +442,7 @@ def lineqs3D(
 
     V = []
     PP = []
+    far = []
     cfinite = True
 
     for k in range(n):
@@ -468,6 +469,10 @@ def lineqs3D(
 
         PP.append(PPtt)
 
+        ends = St[:, :4].reshape(-1, 2)
+        for end in ends[np.isfinite(ends).all(axis=1)]:
+            far.append((xi + y1*end[0]) + y2*end[1])
+
         if (np.asarray([binf]) == True).any():
             cfinite = False
         if not nV:
@@ -497,6 +502,9 @@ def lineqs3D(
 
             if rm <= 1e-14:
                 rm = rm + 1
+            # окно должно содержать все вершины и опорные точки
+            far = np.array(far + [el for pp in PP for el in pp])
+            rm = max(rm, 1.25*np.max(abs(far - center)))
             if _center_rm is not None:
                 _center_rm.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
-- 
2.43.0


From bb8e62a48bfe58c0a00cceade34667ad65e5e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 40/41] fix: IntLinIncR3 did not draw a system of inequalities
 it was asked to show

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 48126af..0fe2162 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -626,7 +626,7 @@ def IntLinIncR3(
     """
 
     if not (isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES)):
-        return lineqs3D(A, b, show=False, color=color,
+        return lineqs3D(A, b, show=show, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
-- 
2.43.0


From e50a253466e98a97d0d102b2b237010d34188812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 41/41] fix: intersection refused numbers and numpy arrays its
 documentation accepts

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index f639487..d52a0f7 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0

