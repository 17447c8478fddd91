From 45ee7083e928007ee068ca33d50a4b6bdbb5d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:12 +0000
Subject: [PATCH 01/67] fix: runpf reactive limit enforcement raised
 IndexError/TypeError

With ENFORCE_Q_LIMS on, any violated limit failed: float bus numbers used as
indices, unparenthesised mask comparison, off-by-one in the one-at-a-time
choice, array truth tests, and PV types overwritten by bus indices.
---
 pypower/runpf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..82e0ba1 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, setdiff1d, array_equal
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -208,10 +208,10 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
+                    gbtype = bus[gen[:, GEN_BUS].astype(int), BUS_TYPE]
                     remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                                     ((gbtype == PV) | (gbtype == REF)) )
+                    if len(setdiff1d(remaining, infeas)) == 0:
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +222,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +249,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,9 +263,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if not array_equal(ref, ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
                             print('Bus %d is new slack bus\n' % ref)
 
@@ -279,11 +279,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = gen[limited[i], GEN_BUS].astype(int)   ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if not array_equal(ref, ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From 336fe09df0041f23d4948c1f21d8030741b5abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 02/67] fix: e2i_data/i2e_data lose or reject sparse data with
 several sets

---
 pypower/e2i_data.py |  4 ++--
 pypower/i2e_data.py | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..13fed76 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -53,8 +55,6 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
 
     @see: L{e2i_data}, L{i2e_field}, L{int2ext}.
     """
-    from pypower.int2ext import int2ext
-
     if 'order' not in ppc:
         sys.stderr.write('i2e_data: ppc does not have the \'order\' field '
                 'required for conversion back to external numbering.\n')
@@ -81,13 +81,22 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
             ni = ppc[ordr].shape[0]
             v = get_reorder(val, bi + arange(ni), dim)
             oldv = get_reorder(oldval, be + arange(ne), dim)
-            new_v.append( int2ext(ppc, v, oldv, ordr, dim) )
+            new_v.append( i2e_data(ppc, v, oldv, ordr, dim) )
             be = be + ne
             bi = bi + ni
         ni = val.shape[dim]
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From 6ebc138be359447a38d3fe110cc4d043b71b6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 03/67] fix: e2i_field/i2e_field misplace the saved copies of
 nested fields

---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 71be2bb78260ba059572c810f59c3f5de1965891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 04/67] fix: set_reorder truncates the kept entries when the
 new ones are integers

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..6f37ca5 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, promote_types
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(promote_types(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 441bf0dce5e8ca48edc413dfc68b5e3728ee9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 05/67] fix: int2ext1 raises for any areas table

---
 pypower/int2ext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..a13334e 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 5dfd018fda8857356f06342266f8452b18c63b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 06/67] fix: ppc_1to2 drops flow and multiplier columns of
 version 1 cases

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..278e0d7 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -237,8 +237,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] > mu_Qmin:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -251,10 +251,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] > mu_St:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] > Qt:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From b342df70c275fa58372dd11c5b21fd886ac87937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 07/67] fix: loadcase raises instead of returning codes 1 and 5
 for case data

---
 pypower/loadcase.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 278e0d7..0315ee3 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -58,6 +58,7 @@ def loadcase(casefile,
         expect_areas = False
 
     info = 0
+    lasterr = ''
 
     # read data into case object
     if isinstance(casefile, basestring):
@@ -76,8 +77,6 @@ def loadcase(casefile,
                 info = 2
             fname = basename(rootname)
 
-        lasterr = ''
-
         ## attempt to read file
         if info == 0:
             if extension == '.mat':       ## from MAT file
@@ -167,10 +166,10 @@ def loadcase(casefile,
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        if (s.get('baseMVA') is None or s.get('bus') is None \
+            or s.get('gen') is None or s.get('branch') is None) or \
+            (expect_gencost and s.get('gencost') is None) or \
+            (expect_areas and s.get('areas') is None):
             info = 5  ## missing some expected fields
             err5 = 'missing data'
         else:
-- 
2.43.0


From 8fff96f578133167d8b2d2b86523c75534abbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 08/67] fix: poly2pwl never worked (slices, ranges, in-place
 table)

---
 pypower/poly2pwl.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..b26333d 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import ones, zeros, r_, linspace
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,23 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
     ## size of piece being changed
     m, n = polycost.shape
+    ## new table, wide enough for npts points, without the old data
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :COST] = polycost[:, :COST]
     ## change cost model
     pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
-    ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
     ## change number of data points
     pwlcost[:, NCOST]  = npts * ones(m)
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:        ## includes Pmin < 0, when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = totcost(polycost[[i] * npts, :], xx)
+        pwlcost[i,      COST:COST + 2 * npts:2] = xx
+        pwlcost[i,  COST + 1:COST + 2 * npts:2] = yy
 
     return pwlcost
-- 
2.43.0


From bb37ab0c5b1eff6d5d33a34a2d3fdb374d248173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 09/67] fix: makeAy puts the first reactive cost on an active
 power variable

---
 pypower/makeAy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
-- 
2.43.0


From 158364e7917ac97ea27f7881557b5590b5606c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 10/67] fix: OPF raises after solving when only upper or only
 lower capability curves are sloped

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From daa22b15e66c229aff5965c4af4a692e3debba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:02 +0000
Subject: [PATCH 11/67] fix: opf_model.add_costs files dd, rh, kk and mm under
 a literal key "name"

---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..6e33e83 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From f1bc5ada3e2367537691dfb0388de22175e9a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 12/67] fix: opf_model sets over all variables change when
 variables are added later

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 6e33e83..f971ae2 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From c02128419fdf39307186e4815761fe3884d01b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 13/67] fix: opf_model.get_cost_params(name) truncates the
 stored cost parameters

---
 pypower/opf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index f971ae2..4437db8 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -584,7 +584,7 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = self.cost["params"].copy()
 
         if name is not None:
             if self.getN('cost', name):
-- 
2.43.0


From d676ddefeaa7f829f2c8ed1f6557995698d1278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 14/67] fix: opf_model.add_costs fails for a cost set without
 rows

---
 pypower/opf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 4437db8..acf51fa 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp["N"] = sparse((nw, nv))
             else:
                 stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
 
-- 
2.43.0


From 42e9b2e3b638a73d11d1355658b0b68f67f1d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 15/67] fix: opf_costfcn drops the cost of the first generator
 when it alone is polynomial

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..5f2feac 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
-- 
2.43.0


From bd61091c104d39886a3d1829e0c786eadc2443a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 16/67] fix: opf_costfcn Hessian fails with reactive costs

---
 pypower/opf_costfcn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 5f2feac..264ba07 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
-- 
2.43.0


From 1cea5eb1c54bee46e31b521c7c969239587a1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 17/67] fix: opf_hessfcn fails with reactive costs

---
 pypower/opf_hessfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..23683c0 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From 40e84613f9ee7d2974a54bcd6ce28c2e2592323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 18/67] fix: AC OPF with only piecewise linear costs raises
 TypeError

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From d2f19ab0c07cdea03be5f37589c300e31957f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:03 +0000
Subject: [PATCH 19/67] fix: AC OPF fails when no branch has a flow limit

---
 pypower/opf_consfcn.py | 2 +-
 pypower/opf_hessfcn.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 23683c0..28db8e3 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -164,7 +164,10 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
     muT = lmbda["ineqnonlin"][nmu:nmu + nmu]
-    if ppopt['OPF_FLOW_LIM'] == 2:       ## current
+    if nl2 == 0:                         ## no constrained branches
+        Hfaa = Hfav = Hfva = Hfvv = Htaa = Htav = Htva = Htvv = \
+                sparse((nb, nb))
+    elif ppopt['OPF_FLOW_LIM'] == 2:     ## current
         dIf_dVa, dIf_dVm, dIt_dVa, dIt_dVm, If, It = dIbr_dV(branch, Yf, Yt, V)
         Hfaa, Hfav, Hfva, Hfvv = d2AIbr_dV2(dIf_dVa, dIf_dVm, If, Yf, V, muF)
         Htaa, Htav, Htva, Htvv = d2AIbr_dV2(dIt_dVa, dIt_dVm, It, Yt, V, muT)
-- 
2.43.0


From d503a9eb0abdb1c55589e374295eb2dac5ff7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 20/67] fix: opf_setup ties reactive piecewise linear costs to
 the wrong variables

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..5269822 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1+ng         ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From c6bf96e263218809165036635b4d86da7fae4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 21/67] fix: OPF with user costs but without the optional H
 raises AttributeError

---
 pypower/opf_args.py  | 2 +-
 pypower/opf_setup.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..8292712 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if (H is not None) and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 5269822..4ab829d 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From 552c34760d4618b92751bb61824ae73bde65dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 22/67] fix: DC OPF objective omits the constant of shifted
 linear user costs

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..845d3ad 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -179,7 +179,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From cdb62d7af74c5db73e0d512fdd93a03070f11ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 23/67] fix: DC OPF objective omits constant generation costs

---
 pypower/dcopf_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 845d3ad..b37d55a 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -138,11 +138,13 @@ def dcopf_solver(om, ppopt, out_opt=None):
                      'than quadratic order.\n')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icon = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icon, 2] = gencost[ipol[icon], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From 42da72deefdc2b50487f51936d6f1e88fae759a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 24/67] fix: qps_pips adds keys to the caller's problem dict

---
 pypower/qps_pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..8c83d65 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = H.copy()
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
-- 
2.43.0


From 9f463cc61279021f53b27021cf07565725db48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 25/67] fix: qps_pips rejects LPs that have variable bounds
 only

---
 pypower/qps_pips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 8c83d65..5716c5f 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -135,7 +135,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if opt is not None: p['opt'] = opt
 
     if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
+        if (p['A'] is None or p['A'].nnz == 0) and \
            'xmin' not in p and \
            'xmax' not in p:
 #           'xmin' not in p or len(p['xmin']) == 0 and \
@@ -143,7 +143,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
             print('qps_pips: LP problem must include constraints or variable bounds')
             return
         else:
-            if p['A'] is not None and p['A'].nnz >= 0:
+            if p['A'] is not None:
                 nx = p['A'].shape[1]
             elif 'xmin' in p and len(p['xmin']) > 0:
                 nx = p['xmin'].shape[0]
-- 
2.43.0


From 033f42976324e0b96e1137e3f4e21c7cef754ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 26/67] fix: qps_pips problem dict without c or A raises
 KeyError

---
 pypower/qps_pips.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 5716c5f..8ad506d 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -134,6 +134,9 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
+    for k in ('c', 'A'):
+        p.setdefault(k, None)
+
     if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
         if (p['A'] is None or p['A'].nnz == 0) and \
            'xmin' not in p and \
-- 
2.43.0


From e650236b1cddd8b958d20d53a4273dc36a19a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 27/67] fix: QP solver cannot handle a dense quadratic cost
 matrix

---
 pypower/qps_pips.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 8ad506d..1bb3bc9 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -137,7 +137,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     for k in ('c', 'A'):
         p.setdefault(k, None)
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
+    if 'H' not in p or p['H'] is None:#p['H'].nnz == 0:
         if (p['A'] is None or p['A'].nnz == 0) and \
            'xmin' not in p and \
            'xmax' not in p:
@@ -154,6 +154,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
                 nx = p['xmax'].shape[0]
         p['H'] = sparse((nx, nx))
     else:
+        p['H'] = sparse(p['H'])
         nx = p['H'].shape[0]
 
     p['xmin'] = -inf * ones(nx) if 'xmin' not in p else p['xmin']
-- 
2.43.0


From ba6ffd4a13fe1e88b2326ead396cb52774554bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 28/67] fix: qps_pypower problem dict without H bypasses its
 options

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..311125f 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -127,7 +127,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p['H'] if 'H' in p else None
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
-- 
2.43.0


From 311c8c2e0974505fd1154b9d209f6fb3da329f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 29/67] fix: qps_pypower max_it of 0 should mean the algorithm
 default

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 311125f..3b28f1c 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -172,7 +172,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         else:
             pips_opt = {}
 
-        if 'max_it' in opt:
+        if 'max_it' in opt and opt['max_it']:
             pips_opt['max_it'] = opt['max_it']
 
         if alg == 200:
-- 
2.43.0


From bf33c383a776e911d8971d09e2dfbb8960cfeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 30/67] fix: qps_pypower changes the caller's pips_opt

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 3b28f1c..1bd3c3b 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -168,7 +168,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = opt['pips_opt'].copy()
         else:
             pips_opt = {}
 
-- 
2.43.0


From 07ee3e3b36555f3ca7143c0c377ff7a710c0cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:32 +0000
Subject: [PATCH 31/67] fix: opf_execute builds no usable Jacobian for
 RETURN_RAW_DER

---
 pypower/opf_execute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..9251974 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -9,6 +9,8 @@ from sys import stdout, stderr
 
 from numpy import array, arange, pi, zeros, r_
 
+from scipy.sparse import vstack
+
 from pypower.ppver import ppver
 from pypower.dcopf_solver import dcopf_solver
 from pypower.pipsopf_solver import pipsopf_solver
@@ -119,7 +121,7 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    raw['dg'] = vstack([dgeq.T, dg.T], 'csr')   ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From b9510bafa3be62e74dbdb334c47d6a2e10dd86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:44 +0000
Subject: [PATCH 32/67] fix: opf leaves old reactive limit prices on units that
 are off

---
 pypower/opf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf.py b/pypower/opf.py
index e4685e4..814b89f 100644
--- a/pypower/opf.py
+++ b/pypower/opf.py
@@ -10,7 +10,7 @@ from time import time
 from numpy import zeros, c_, shape, ix_
 
 from pypower.idx_bus import MU_VMIN
-from pypower.idx_gen import PG, QG, MU_QMIN, MU_PMAX, MU_PMIN
+from pypower.idx_gen import PG, QG, MU_QMAX, MU_QMIN, MU_PMAX, MU_PMIN
 from pypower.idx_brch import PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX
 
 from pypower.ext2int import ext2int
@@ -176,7 +176,7 @@ def opf(*args):
 
     ## zero out result fields of out-of-service gens & branches
     if len(results['order']['gen']['status']['off']) > 0:
-        results['gen'][ ix_(results['order']['gen']['status']['off'], [PG, QG, MU_PMAX, MU_PMIN]) ] = 0
+        results['gen'][ ix_(results['order']['gen']['status']['off'], [PG, QG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]) ] = 0
 
     if len(results['order']['branch']['status']['off']) > 0:
         results['branch'][ ix_(results['order']['branch']['status']['off'], [PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]) ] = 0
-- 
2.43.0


From 2cca528a8e1432e3390bef1226c711b8a531e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:04 +0000
Subject: [PATCH 33/67] fix: interfaces lose branch 0 and change the caller's
 branch map

---
 pypower/toggle_iflims.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..4bc59af 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import zeros, ones, arange, unique, where, c_, delete, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -93,13 +93,14 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    ## (branch indices start at 0, so directions go in a column of their own)
+    e2i = -ones(nl0, int)            ## -1 for branches that are out
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    d = where(ifmap[:, 1] < 0, -1, 1)
+    br = e2i[abs(ifmap[:, 1]).astype(int)]
+    ifmap = c_[ifmap[:, 0], br, d].astype(int)
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
+    ifmap = delete(ifmap, find(br < 0), 0)  ## delete branches that are out
 
     ppc['if']['map'] = ifmap
 
@@ -130,12 +131,12 @@ def userfcn_iflims_formulation(om, *args):
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        ik = find(ifmap[:, 0] == ifidx[k])
+        br = ifmap[ik, 1]
         if len(br) == 0:
             stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
 
-        d = sign(br)
-        br = abs(br)
+        d = ifmap[ik, 2]
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -173,9 +174,9 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        ik = find(ifmap[:, 0] == ifidx[k])
+        br = ifmap[ik, 1]
+        d = ifmap[ik, 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
-- 
2.43.0


From 527f39300f5c320800cf6a7c6abe8300a6599a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:06 +0000
Subject: [PATCH 34/67] fix: interface limits not listed in ascending order go
 to the wrong interface

---
 pypower/toggle_iflims.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 4bc59af..e329f93 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, ones, arange, unique, where, c_, delete, flatnonzero as find
+from numpy import zeros, ones, arange, where, c_, delete, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -124,7 +124,7 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list, as in lims
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
@@ -169,7 +169,7 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list, as in lims
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
@@ -205,7 +205,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
+        ifidx = iflims[:, 0]           ## interface number list, as in lims
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
             fd.write('\n%6d ', iflims(k, 1))
-- 
2.43.0


From e6bdc9cbf61256a9bf9952ae65374fb97662eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 35/67] fix: printing interface limits calls an array

---
 pypower/toggle_iflims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index e329f93..a39b62b 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -208,7 +208,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         ifidx = iflims[:, 0]           ## interface number list, as in lims
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From 540a00167d7da461b9732b92069e0b47483b0fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 36/67] fix: toggle_dcline indexes buses with floats and loses
 the model

---
 pypower/toggle_dcline.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..612b24b 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -110,7 +110,7 @@ def userfcn_dcline_ext2int(ppc, args):
         havecost = False
 
     ## save version with external indexing
-    ppc['order']['ext']['dcline'] = ppc['dcline']              ## external indexing
+    ppc['order']['ext']['dcline'] = ppc['dcline'].copy()       ## external indexing
     if havecost:
         ppc['order']['ext']['dclinecost'] = ppc['dclinecost']  ## external indexing
 
@@ -129,8 +129,8 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -181,8 +181,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -272,7 +272,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From e659027f621abffe871d370e8eb54bc106d010b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 37/67] fix: toggle_dcline fails to return results with lines
 out of service

---
 pypower/toggle_dcline.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 612b24b..344224b 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -293,7 +293,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = find(o['ext']['dcline'][:, c['BR_STATUS']] > 0)
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -305,7 +305,10 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:ng, :]
+    if 'dclinecost' in results:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -314,8 +317,9 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] >= MU_QMIN + 1:
+        if results['dcline'].shape[1] < c['MU_QMAXT'] + 1:
+            results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -323,13 +327,16 @@ def userfcn_dcline_int2ext(results, args):
         results['dcline'][:, c['MU_QMINT']] = tg[:, MU_QMIN]
         results['dcline'][:, c['MU_QMAXT']] = tg[:, MU_QMAX]
 
-    results['order']['int'] = {}
+    if 'int' not in results['order']:
+        results['order']['int'] = {}
     ##-----  convert stuff back to external indexing  -----
     results['order']['int']['dcline'] = results['dcline']  ## save internal version
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        if o['ext']['dcline'].shape[1] < c['MU_QMAXT'] + 1:
+            o['ext']['dcline'] = c_[o['ext']['dcline'],
+                                    zeros((o['ext']['dcline'].shape[0], 6))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
-- 
2.43.0


From e43b57b4562fb7f4dc9f2f671d3d24e401be2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 38/67] fix: toggle_dcline cannot handle costs of DC lines

---
 pypower/toggle_dcline.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 344224b..6f42600 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import arange, array, ones, zeros, r_, c_, concatenate, shape
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -195,37 +195,37 @@ def userfcn_dcline_ext2int(ppc, args):
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc-ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + nc + 1].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
 #                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    odd = arange(nc - 2, -1, -2)
+                    temp[odd] = -temp[odd]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + 2*nc + 1].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -temp[0:2*nc:2]
+                    yy =  temp[1:2*nc:2].copy()
+                    temp[0:2*nc:2] = xx[::-1]
+                    temp[1:2*nc:2] = yy[::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
+                padding = zeros(ccc - NCOST - 1 - len(temp))
+                gck = r_[dcc[k, :NCOST + 1], temp, padding].reshape((1, ccc))
 
                 ## append to gencost
                 ppc['gencost'] = r_[ppc['gencost'], gck]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ccc-4)])
+            ppc['gencost'] = r_[ppc['gencost'], tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
-- 
2.43.0


From 30c8da838d1a9eb4c0a683f0b7fdf12ddb182170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 39/67] fix: printing and warning about DC lines fail on
 formatting

---
 pypower/printpf.py       | 2 +-
 pypower/toggle_dcline.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 6f42600..14d6ab2 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -66,10 +66,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  (ppc['dcline'][i, c['F_BUS']], ppc['dcline'][i, c['T_BUS']]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -391,7 +391,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -428,7 +428,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From 95106f83bdab064d48045cc1327682eb2e04a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:22 +0000
Subject: [PATCH 40/67] fix: add_userfcn adds a callback twice and rejects
 plain numbers as arguments

---
 pypower/add_userfcn.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..a4da659 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
 
@@ -101,13 +98,14 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From c03160065a03f5ed7e3816c73d8d3a6749b9d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:22 +0000
Subject: [PATCH 41/67] fix: opf_setup ignores the model returned by
 formulation callbacks

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 4ab829d..f355e2f 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -260,6 +260,6 @@ def opf_setup(ppc, ppopt):
         om.add_costs('usr', user_cost, user_vars)
 
     ## execute userfcn callbacks for 'formulation' stage
-    run_userfcn(userfcn, 'formulation', om)
+    om = run_userfcn(userfcn, 'formulation', om)
 
     return om
-- 
2.43.0


From 1c8b7e2dca91cdcc91413c9051040b05e6249eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:02 +0000
Subject: [PATCH 42/67] fix: printing DC results erases reactive data in the
 results

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8556465..839cad2 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From 753406b35d00c4b018de3ea91281bc4ba68a2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 43/67] fix: opf replaces the tables of the caller's case

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 8292712..1769659 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,7 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    ppc = args[0].copy() if isinstance(args[0], dict) else {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From ee7d9dccf4d6d75250305fdc612fed55e1eb7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 44/67] fix: total_load fails on dispatchable loads

---
 pypower/total_load.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..100845e 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -80,7 +80,7 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
     elif len(load_zone) == 0:
         load_zone = bus[:, BUS_AREA].astype(int)   ## use areas defined in bus data as zones
 
-    nz = max(load_zone)    ## number of load zones
+    nz = int(max(load_zone))    ## number of load zones
 
     ## fixed load at each bus, & initialize dispatchable
     if want_fixed:
@@ -100,11 +100,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From 0dd63eb37f74b60c21cbba65cfd403be78220a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 45/67] fix: scale_load fails on dispatchable loads scaled to a
 quantity

---
 pypower/scale_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..f909fd8 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -110,7 +110,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
-- 
2.43.0


From 990ae6fce44ef3bbdc09436adb247ee97c4d947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 46/67] fix: scale_load fails for a single factor, truncates
 integer factors and changes opt

---
 pypower/scale_load.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index f909fd8..17e1921 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -79,6 +79,8 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         load_zone = array([], int)
     if opt is None:
         opt = {}
+    opt = opt.copy()
+    load = array(load, float, ndmin=1)
 
     ## fill out and check opt
     if len(gen) == 0:
@@ -118,7 +120,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
-- 
2.43.0


From 75dace53c9a0555b9c30aeca4a0e4cacfb24bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 47/67] fix: fairmax always fails

---
 pypower/fairmax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..4a8792b 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import flatnonzero, nanmax
 
 
 def fairmax(x):
@@ -22,9 +22,9 @@ def fairmax(x):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    val = nanmax(x)                   ## find max value
+    i   = flatnonzero(x == val)       ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 37afa99698d4d05ab9f3efad0079a52f237982ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:50 +0000
Subject: [PATCH 48/67] fix: continuation power flow fails assembling its
 Jacobian

---
 pypower/cpf_corrector.py | 2 +-
 pypower/cpf_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..bd4110e 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            r_[dP_dV, dP_dlam].reshape((1, -1))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..a60bbb9 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        r_[dP_dV, dP_dlam].reshape((1, -1))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From 9593674954aac5adc6b016972582c5260252bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 49/67] fix: continuation power flow fails when base and target
 cases are identical

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..2e3e026 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": c_[V_p],
+            "lam_p": r_[lam_p],
+            "V_c": c_[V_c],
+            "lam_c": r_[lam_c],
             "iterations": 0
         }
 
-- 
2.43.0


From 69e754cd4d3bcf33973991a521b86c697935f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:00 +0000
Subject: [PATCH 50/67] fix: continuation power flow starts from a base case
 that was not solved

---
 pypower/runcpf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..731c0ee 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -144,7 +144,8 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
 
     lamprv = lam    # lam at previous step
     Vprv = V    # V at previous step
-    continuation = 1
+    continuation = success      # nothing to trace without a base case solution
+    i = iterations
     cont_steps = 0
 
     # input args for callbacks
-- 
2.43.0


From 9aa4d8e61e9b3c0cbb0f5fc0f20117fe9757cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:32 +0000
Subject: [PATCH 51/67] fix: opf adds an entry to the options of the caller

---
 pypower/opf_execute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 9251974..6aebe86 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -76,7 +76,7 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
+        ppopt = dict(ppopt, OPF_ALG_POLY=alg)
 
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
-- 
2.43.0


From 6554dad7a1d850577ff37da192ae6a7880184cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:04 +0000
Subject: [PATCH 52/67] fix: gausspf overwrites the injections of the caller

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..dce586d 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From 04267ca0c8be5a4db831f6c8f0c6e43dd4e672a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 53/67] fix: runuopf passes the caller's options to printpf

With a results dict printpf takes the options as its third argument and
ignores the ppopt keyword, so runuopf always printed with the default
options.
---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From d06178a0a58465012c77c26afa4b87358ff25dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:09 +0000
Subject: [PATCH 54/67] fix: printpf area summary: list each area once,
 starting with the first

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 839cad2..d31ba1c 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -152,7 +152,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From 09c9d6d75d87016ba336ef806b7be34fc58cb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:21 +0000
Subject: [PATCH 55/67] fix: printpf voltage constraints: honour OUT_V_LIM = 1
 (operator precedence)

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d31ba1c..4a13ec4 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -466,7 +466,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From 8ad58aa05fe89412162b1cda02238ed510aea741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:21 +0000
Subject: [PATCH 56/67] fix: printpf dispatchable load constraints: format the
 limits of the load (raised TypeError)

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 4a13ec4..7f79415 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -595,9 +595,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -621,16 +621,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From b38de37d1f3eef3b9d0be669f4e315c4e0ca11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:09 +0000
Subject: [PATCH 57/67] fix: savecase: saved Python cases define array and the
 infinite limits they use

---
 pypower/savecase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..c6a72e2 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -158,6 +158,7 @@ def savecase(fname, ppc, comment=None, version='2'):
 #            prefix = ''
         else:
             fd.write('def %s():\n' % basename(rootname))
+            fd.write('%sfrom numpy import array, inf, nan\n' % indent)
             prefix = 'ppc'
         if comment:
             if isinstance(comment, basestring):
-- 
2.43.0


From 68579480bbf910cb7f7640286e6b1045b1f31992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:09 +0000
Subject: [PATCH 58/67] fix: savecase: cost tables with spare columns (raised
 TypeError)

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index c6a72e2..ff70533 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -284,7 +284,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From 2b890335386d8d0c7d13168ea2903abe4ac7b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:41 +0000
Subject: [PATCH 59/67] fix: savecase: user constraints, costs and variables
 can be saved and loaded again

---
 pypower/savecase.py | 123 ++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 74 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index ff70533..c5fb1bd 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix, issparse
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -109,19 +110,14 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
-            if "l" in ppc and len(ppc["l"]) > 0:
-                ppc_mat["l"] = array(ppc["l"])
-            if "u" in ppc and len(ppc["u"]) > 0:
-                ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
-            if "fparm" in ppc and len(ppc["fparm"]) > 0:
-                ppc_mat["fparm"] = array(ppc["fparm"])
-            ppc_mat["Cw"] = array(ppc["Cw"])
+        for key in ["A", "N", "H"]:
+            if _given(ppc, key):
+                ppc_mat[key] = ppc[key] if issparse(ppc[key]) else array(ppc[key])
+
+        for key in ["l", "u", "fparm", "Cw"]:
+            if _given(ppc, key):
+                ppc_mat[key] = array(ppc[key])
+
         if 'z0' in ppc or 'zl' in ppc or 'zu' in ppc:
             if 'z0' in ppc and len(ppc['z0']) > 0:
                 ppc_mat['z0'] = array(ppc['z0'])
@@ -288,69 +284,33 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        if _given(ppc, "A") or _given(ppc, "N"):
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
-            ## A
+        if _given(ppc, "A"):
             fd.write('\n%s## user constraints\n' % indent)
             print_sparse(fd, prefix + "['A']", ppc["A"])
-            if ("l" in ppc) and (len(ppc["l"]) > 0) and ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write('%slu = array([\n' % indent)
-                for i in range(len(ppc["l"])):
-                    fd.write('%s[%.9g, %.9g],\n' % (indent2, ppc["l"][i], ppc["u"][i]))
-                fd.write('%s])\n' % indent)
-                fd.write("%s%s['l'] = lu[:, 0]\n" % (indent, prefix))
-                fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
-            elif ("l" in ppc) and (len(ppc["l"]) > 0):
-                fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
-                fd.write('%s])\n\n' % indent)
-            elif ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
-                fd.write('%s])\n\n' % indent)
+            for key in ["l", "u"]:
+                if _given(ppc, key):
+                    print_array(fd, "%s['%s']" % (prefix, key), ppc[key])
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if _given(ppc, "N"):
             fd.write('\n%s## user costs\n' % indent)
             print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
+            if _given(ppc, "H"):
                 print_sparse(fd, prefix + "['H']", ppc["H"])
-            if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
-                fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
-                fd.write('%s])\n' % indent)
-                fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
-                fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
-            else:
-                fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
-                for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
-                fd.write('%s])\n' % indent)
+            for key in ["Cw", "fparm"]:
+                if _given(ppc, key):
+                    print_array(fd, "%s['%s']" % (prefix, key), ppc[key])
 
         ## user vars
         if ('z0' in ppc) or ('zl' in ppc) or ('zu' in ppc):
             fd.write('\n%s## user vars\n' % indent)
-            if ('z0' in ppc) and (len(ppc['z0']) > 0):
-                fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
-                fd.write('%s])\n' % indent)
-            if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
-                for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
-                fd.write('%s])\n' % indent)
-            if ('zu' in ppc) and (len(ppc['zu']) > 0):
-                fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
-                fd.write('%s])\n' % indent)
+            for key in ["z0", "zl", "zu"]:
+                if _given(ppc, key):
+                    print_array(fd, "%s['%s']" % (prefix, key), ppc[key])
 
         ## execute userfcn callbacks for 'savecase' stage
         if 'userfcn' in ppc:
@@ -364,17 +324,32 @@ def savecase(fname, ppc, comment=None, version='2'):
     return fname
 
 
-def print_sparse(fd, varname, A):
-    A = A.tocoo()
-    i, j, s = A.row, A.col, A.data
-    m, n = A.shape
+def _given(ppc, key):
+    """Checks whether a (dense or sparse) field is present and not empty."""
+    return ppc.get(key) is not None and \
+        (ppc[key].shape[0] if issparse(ppc[key]) else len(ppc[key])) > 0
 
-    if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
-    else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
 
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+def print_array(fd, varname, A, indent='    '):
+    """Writes a vector or matrix as a statement of a Python case."""
+    A = array(A)
+    fd.write('%s%s = array([\n' % (indent, varname))
+    for row in A:
+        if A.ndim > 1:
+            row = '[%s]' % ', '.join(['%.9g' % a for a in row])
+        else:
+            row = '%.9g' % row
+        fd.write('%s%s,\n' % (2 * indent, row))
+    fd.write('%s])\n' % indent)
+
+
+def print_sparse(fd, varname, A, indent='    '):
+    """Writes a matrix as a statement of a Python case that defines it as
+    a sparse matrix."""
+    A = coo_matrix(A)
+    m, n = A.shape
+
+    fd.write('%sfrom scipy.sparse import csr_matrix\n' % indent)
+    for name, v, fmt in [('i', A.row, '%d'), ('j', A.col, '%d'), ('s', A.data, '%.9g')]:
+        fd.write('%s%s = [%s]\n' % (indent, name, ', '.join([fmt % a for a in v])))
+    fd.write('%s%s = csr_matrix((s, (i, j)), (%d, %d))\n' % (indent, varname, m, n))
-- 
2.43.0


From c91edbf3cc89a35ab3f40f41424973a7ed7eeaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 60/67] fix: loadcase: tables of integers truncated the results
 written into them

---
 pypower/loadcase.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 0315ee3..b7ea78a 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -179,6 +179,13 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+
+            ## results are written into these tables, integer ones would
+            ## truncate them
+            for key in ['bus', 'gen', 'branch', 'gencost', 'dcline']:
+                if ppc.get(key) is not None:
+                    ppc[key] = array(ppc[key], dtype=float)
+
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From 0cd565a4a707278b08daa9ebac6cfb869f3104bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 61/67] fix: modcost: tables of integers truncated the modified
 costs

---
 pypower/modcost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/modcost.py b/pypower/modcost.py
index e9aabbc..cef16d3 100644
--- a/pypower/modcost.py
+++ b/pypower/modcost.py
@@ -7,7 +7,7 @@
 
 import sys
 
-from numpy import zeros, ones, arange, dot, cumsum, flatnonzero as find
+from numpy import array, zeros, ones, arange, dot, cumsum, flatnonzero as find
 
 from pypower.idx_cost import MODEL, NCOST, PW_LINEAR, POLYNOMIAL, COST
 
@@ -30,7 +30,7 @@ def modcost(gencost, alpha, modtype='SCALE_F'):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    gencost = gencost.copy()
+    gencost = array(gencost, dtype=float)
 
     ng, m = gencost.shape
     if ng != 0:
-- 
2.43.0


From 05ce26063dfad74bbfa88e2788b4f0c2b22a6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 62/67] fix: scale_load: tables of integers truncated the
 scaled loads

---
 pypower/scale_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 17e1921..4239148 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -70,11 +70,11 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     nb = bus.shape[0]   ## number of buses
 
     ##-----  process inputs  -----
-    bus = bus.copy()
+    bus = array(bus, dtype=float)
     if gen is None:
         gen = array([])
     else:
-        gen = gen.copy()
+        gen = array(gen, dtype=float)
     if load_zone is None:
         load_zone = array([], int)
     if opt is None:
-- 
2.43.0


From 16f061a879b2ea7a906b888a5fe4a4ad5cfac027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 63/67] fix: loadcase: system base of a MAT file is a number,
 not an array

---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index b7ea78a..bb4f5b1 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -99,7 +99,7 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = float(s['baseMVA'].flat[0])  # convert array to float
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From 0916024d7e17fdabfb5149a1dc91b327deacb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:42 +0000
Subject: [PATCH 64/67] fix: toggle_reserves, toggle_iflims, toggle_dcline:
 saving a case writes Python (raised TypeError or wrote MATLAB text)

---
 pypower/toggle_dcline.py   | 24 ++++-----------
 pypower/toggle_iflims.py   | 37 +++++++++++------------
 pypower/toggle_reserves.py | 61 +++++++++++++++-----------------------
 3 files changed, 46 insertions(+), 76 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 14d6ab2..d7395c3 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -13,6 +13,7 @@ from warnings import warn
 
 from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
+from pypower.savecase import print_array
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
 
@@ -442,24 +443,9 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     PYPOWER case dict (ppc), a file descriptor and variable prefix
     (usually 'ppc.'). The optional args are not currently used.
     """
-    ## define named indices into data matrices
-    c = idx_dcline.c
-
-    ## save it
-    ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
-
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    fd.write('\n    ##-----  DC Line Data  -----##\n')
+    print_array(fd, "%s['dcline']" % prefix, ppc['dcline'])
+    if 'dclinecost' in ppc:
+        print_array(fd, "%s['dclinecost']" % prefix, ppc['dclinecost'])
 
     return ppc
diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index a39b62b..71acc34 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,13 +7,13 @@
 
 from sys import stderr
 
-from pprint import pprint
 
 from numpy import zeros, ones, arange, where, c_, delete, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
 from pypower.add_userfcn import add_userfcn
+from pypower.savecase import print_array
 from pypower.remove_userfcn import remove_userfcn
 from pypower.makeBdc import makeBdc
 from pypower.idx_brch import PF
@@ -231,28 +231,25 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     PYPOWER case dict (ppc), a file descriptor and variable prefix
     (usually 'ppc'). The optional args are not currently used.
     """
-    ifmap = ppc['if']['map']
-    iflims = ppc['if']['lims']
+    name = "%s['if']" % prefix
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
+    fd.write('\n    ##-----  Interface Flow Limit Data  -----##\n')
+    fd.write("    %s = {}\n" % name)
+    fd.write('    ## interface<->branch map data\n')
+    fd.write('    ##  ifnum  branchidx (negative defines opposite direction)\n')
+    print_array(fd, "%s['map']" % name, ppc['if']['map'])
 
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    fd.write('\n    ## interface flow limit data (based on DC model)\n')
+    fd.write('    ## (lower limit should be negative for opposite direction)\n')
+    fd.write('    ##  ifnum  lower  upper\n')
+    print_array(fd, "%s['lims']" % name, ppc['if']['lims'])
 
     ## save output fields for solved case
-    if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+    if 'P' in ppc['if']:
+        fd.write('\n    ## solved values\n')
+        print_array(fd, "%s['P']" % name, ppc['if']['P'])
+        fd.write("    %s['mu'] = {}\n" % name)
+        for key in ['l', 'u']:
+            print_array(fd, "%s['mu']['%s']" % (name, key), ppc['if']['mu'][key])
 
     return ppc
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..406df44 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,7 +10,6 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
 
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
@@ -19,6 +18,7 @@ from scipy.sparse import csr_matrix as sparse
 from scipy.sparse import hstack
 
 from pypower.add_userfcn import add_userfcn
+from pypower.savecase import print_array
 from pypower.remove_userfcn import remove_userfcn
 from pypower.ext2int import ext2int
 from pypower.int2ext import int2ext
@@ -364,47 +364,34 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     (usually 'ppc'). The optional args are not currently used.
     """
     r = ppc['reserves']
+    name = "%s['reserves']" % prefix
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    fd.write('\n    ##-----  Reserve Data  -----##\n')
+    fd.write("    %s = {}\n" % name)
+    fd.write('    ## reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
+    print_array(fd, "%s['zones']" % name, r['zones'])
+
+    fd.write('\n    ## reserve requirements for each zone in MW\n')
+    print_array(fd, "%s['req']" % name, r['req'])
+
+    fd.write('\n    ## reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
+    fd.write('    ## (same order as gens, but skipping any gen that does not belong to any zone)\n')
+    print_array(fd, "%s['cost']" % name, r['cost'])
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n    ## OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
+        fd.write('    ## (same order as gens, but skipping any gen that does not belong to any zone)\n')
+        print_array(fd, "%s['qty']" % name, r['qty'])
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n    ## solved values\n')
+        for key in ['R', 'Rmin', 'Rmax', 'prc']:
+            print_array(fd, "%s['%s']" % (name, key), r[key])
+        fd.write("    %s['mu'] = {}\n" % name)
+        for key in ['l', 'u', 'Pmax']:
+            if key in r['mu']:
+                print_array(fd, "%s['mu']['%s']" % (name, key), r['mu'][key])
+        fd.write("    %s['totalcost'] = %.9g\n" % (name, r['totalcost']))
 
     return ppc
-- 
2.43.0


From edd7f5502aadd37c585d014e87155b86b30b8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:07 +0000
Subject: [PATCH 65/67] fix: command line: options that take a string (raised
 TypeError)

---
 pypower/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/main.py b/pypower/main.py
index b4c5252..ae5fd83 100644
--- a/pypower/main.py
+++ b/pypower/main.py
@@ -36,7 +36,7 @@ CASES = {'case4gs': case4gs, 'case6ww': case6ww, 'case9': case9,
 
 
 def option_callback(option, opt, value, parser, *args, **kw_args):
-    if isinstance(value, str):
+    if option.type == 'choice':
         if value in AFFIRMATIVE:
             value = True
         elif value in NEGATIVE:
-- 
2.43.0


From a3aadd59c33e97c37650bfd99836452510d70a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:07 +0000
Subject: [PATCH 66/67] fix: command line: pdipm_feastol is a real number (only
 integers were accepted)

---
 pypower/ppoption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..5e799d4 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -160,7 +160,7 @@ in results['raw'] (in keys g, dg, df, d2f))''')
 ]
 
 PDIPM_OPTIONS = [
-    ('pdipm_feastol', 0, '''feasibility (equality) tolerance
+    ('pdipm_feastol', 0.0, '''feasibility (equality) tolerance
 for Primal-Dual Interior Points Methods, set
 to value of OPF_VIOLATION by default'''),
     ('pdipm_gradtol', 1e-6, '''gradient tolerance for
-- 
2.43.0


From f9a3683bec4591f42f50f50265de53d0c1309943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:31 +0000
Subject: [PATCH 67/67] fix: DC line report: no constraint section after a
 simple power flow (IndexError with OUT_ALL=1)

---
 pypower/toggle_dcline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index d7395c3..06cc181 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -369,6 +369,8 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
         OUT_LINE_LIM    = ppopt['OUT_LINE_LIM']
     else:
         OUT_LINE_LIM    = OUT_ALL_LIM
+    if results.get('f') is None:    ## simple power flow: no constraints to show
+        OUT_LINE_LIM    = 0
 
     ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
     ptol = 1e-4        ## tolerance for displaying shadow prices
-- 
2.43.0

