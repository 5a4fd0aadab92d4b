From 3436da5f2edbc00768a4c49783b1a354888cd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 01/72] fix: OPF objective drops the polynomial cost when only
 the first unit has one

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..5f2feac 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
-- 
2.43.0


From 3ee50f3a301351228c37166ea82d1e5633353519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 02/72] fix: reactive power costs in the OPF cost Hessian

---
 pypower/opf_costfcn.py | 4 ++--
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 5f2feac..dc90e6e 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if qcost.size > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..5b53e36 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if qcost.size > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From f24d9e73dd01940659033460fe5293683191810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 03/72] fix: polycost returns an empty array when there is no
 polynomial cost

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From a807e57d23718d102c47c677ed6c3759284f1186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 04/72] fix: OPF cost Hessian with an empty generalized cost
 matrix

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index dc90e6e..ab40253 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
-- 
2.43.0


From 3e43cc35163ed4edb58ed0ab87d4029888b23235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:36 +0000
Subject: [PATCH 05/72] fix: opf_model.add_costs stores dd, rh, kk, mm under
 the name of the cost set

---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..6e33e83 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 03fe52a9014d0c9f0da078bf2dbe3f534575a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 06/72] fix: poly2pwl evaluates the polynomial at evenly spaced
 points (always raised)

---
 pypower/poly2pwl.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..98cc007 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import ones, zeros, r_, linspace
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,22 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
     ## size of piece being changed
     m, n = polycost.shape
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :COST] = polycost[:, :COST]
     ## change cost model
-    pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
-    ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
+    pwlcost[:, MODEL] = PW_LINEAR
     ## change number of data points
-    pwlcost[:, NCOST]  = npts * ones(m)
+    pwlcost[:, NCOST] = npts
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:        ## also when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = totcost(polycost[i * ones(npts, int), :], xx)
+        pwlcost[i, COST:COST + 2 * npts:2] = xx
+        pwlcost[i, COST + 1:COST + 2 * npts:2] = yy
 
     return pwlcost
-- 
2.43.0


From f5d4c7248cbe62c8c52302eb73f93dfbb063f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 07/72] fix: get_cost_params for a named set truncated the
 stored cost parameters

---
 pypower/opf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 6e33e83..187b3c3 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -588,6 +588,7 @@ class opf_model(object):
 
         if name is not None:
             if self.getN('cost', name):
+                cp = cp.copy()
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 73cec2ac6157b7093547c7b4ce3e90301ac30b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 08/72] fix: constraints and costs on all variables refer to
 the variables present when they are added

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 187b3c3..5d0ac9b 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From 9a51eb97cc4206aaa42e790d9e47e9f7d4e3e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 09/72] fix: piecewise linear reactive costs constrain the
 reactive output of the wrong unit

---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..07e945b 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From 1d65ddb0e856e5efa73f35e535b16dabc9a14139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 10/72] fix: opf_args dimension check of H and warning when H
 is omitted

---
 pypower/opf_args.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..a001b26 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -305,7 +305,7 @@ def opf_args(*args):
         if len(fparm) > 0 and fparm.shape[0] != nw:
             stderr.write('opf_args.m: dimension mismatch between N and fparm '
                          'in generalized cost parameters\n')
-        if (H is not None) and (H.shape[0] != nw | H.shape[0] != nw):
+        if (H is not None) and (H.shape[0] != nw or H.shape[1] != nw):
             stderr.write('opf_args.m: dimension mismatch between N and H in '
                          'generalized cost parameters\n')
         if Au is not None:
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if (H is not None) and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
-- 
2.43.0


From f0391904b33f7676f12e7504a711f38da6e1c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 11/72] fix: opf_args2 stored arguments of one OPF call in the
 caller's case dict

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index a001b26..7f7eb00 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,7 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    ppc = args[0].copy() if isinstance(args[0], dict) else {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 1a3ef7858452673d5dad55a42f90460d12188707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 12/72] fix: user constraints and costs (A, N) kept their
 external column order after ext2int

---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From a799d8734d47f578a1d3d00e1d2568b45b112826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 13/72] fix: i2e_data with several blocks of a sparse matrix

---
 pypower/i2e_data.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..c51e476 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -53,8 +55,6 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
 
     @see: L{e2i_data}, L{i2e_field}, L{int2ext}.
     """
-    from pypower.int2ext import int2ext
-
     if 'order' not in ppc:
         sys.stderr.write('i2e_data: ppc does not have the \'order\' field '
                 'required for conversion back to external numbering.\n')
@@ -81,13 +81,21 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
             ni = ppc[ordr].shape[0]
             v = get_reorder(val, bi + arange(ni), dim)
             oldv = get_reorder(oldval, be + arange(ne), dim)
-            new_v.append( int2ext(ppc, v, oldv, ordr, dim) )
+            new_v.append( i2e_data(ppc, v, oldv, ordr, dim) )
             be = be + ne
             bi = bi + ni
         ni = val.shape[dim]
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From 8cfe223467ed91a08cfb0321b7da48126cfa3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 14/72] fix: e2i_field, i2e_field descend into nested fields
 that were converted before

---
 pypower/e2i_field.py | 4 ++--
 pypower/i2e_field.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..5dbdfbd 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -52,10 +52,10 @@ def e2i_field(ppc, field, ordering, dim=0):
         key = '["%s"]' % '"]["'.join(field)
 
         v_ext = ppc["order"]["ext"]
-        for fld in field:
+        for fld in field[:-1]:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..ac756cf 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -44,10 +44,10 @@ def i2e_field(ppc, field, ordering, dim=0):
         key = '["%s"]' % '"]["'.join(field)
 
         v_int = ppc["order"]["int"]
-        for fld in field:
+        for fld in field[:-1]:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 735df40e0f2b933c63a492d2554ccace02aff19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 15/72] fix: int2ext1 with areas

---
 pypower/int2ext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..630bee1 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -125,7 +125,7 @@ def int2ext(ppc, val_or_field=None, oldval=None, ordering=None, dim=0):
     return ppc
 
 
-def int2ext1(i2e, bus, gen, branch, areas):
+def int2ext1(i2e, bus, gen, branch, areas=None):
     """Converts from the consecutive internal bus numbers back to the originals
     using the mapping provided by the I2E vector returned from C{ext2int}.
 
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 1671904763700b9684fc227b2597dee8c9e6223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 16/72] fix: set_reorder kept fractions of the old values when
 the new ones are integers

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..5942435 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 57737e1dacb876c605536664971515d6e3874b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 17/72] fix: constant polynomial costs missing from the dc OPF
 objective

---
 pypower/dcopf_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..9762967 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -138,11 +138,13 @@ def dcopf_solver(om, ppopt, out_opt=None):
                      'than quadratic order.\n')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icst = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icst, 2] = gencost[ipol[icst], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From 4d62e91f8b85196ba3302147e0cf5dc99d277b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 18/72] fix: dc OPF warning about cubic costs when only the
 first unit has one

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 9762967..cf0376a 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -133,7 +133,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
+    if any(gencost[ipol, NCOST] > 3):
         stderr.write('DC opf cannot handle polynomial costs with higher '
                      'than quadratic order.\n')
     iqdr = find(gencost[ipol, NCOST] == 3)
-- 
2.43.0


From 98d40c2fcbf9af0cdf7bda2daa27ca4db2af376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 19/72] fix: dc OPF objective value with shifted user costs
 (linear part of the shift)

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index cf0376a..412be1a 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -181,7 +181,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From f1660cf75298710fe964b571bed7428266289d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 20/72] fix: gausspf overwrote the reactive injections in the
 caller's Sbus

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..7589c36 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()  ## reactive injections at PV buses are updated below
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From 03f38edac7034bec51bfd778949434fdb833bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 21/72] fix: runpf enforcement of generator reactive limits
 (always raised on the first violation)

---
 pypower/runpf.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..9f69066 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, array_equal
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -208,10 +208,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
-                    remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                    gen_bus_type = bus[gen[:, GEN_BUS].astype(int), BUS_TYPE]
+                    remaining = find( gen_status &
+                                     ((gen_bus_type == PV) |
+                                      (gen_bus_type == REF)) )
+                    if array_equal(infeas, remaining):
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +223,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +250,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,9 +264,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if not array_equal(ref, ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
                             print('Bus %d is new slack bus\n' % ref)
 
@@ -279,11 +280,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = gen[limited[i], GEN_BUS].astype(int)  ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if not array_equal(ref, ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From 0f517a894be453045b6f84216846306e2434f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 22/72] fix: flow columns for branch matrices with 16 columns
 in runpf and runcpf

---
 pypower/runcpf.py | 4 ++--
 pypower/runpf.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..a427882 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -65,7 +65,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     nb = ppcbase["bus"].shape[0]
 
     # add zero columns to branch for flows if needed
-    if ppcbase["branch"].shape[1] < QT:
+    if ppcbase["branch"].shape[1] <= QT:
         ppcbase["branch"] = c_[ppcbase["branch"],
                                zeros((ppcbase["branch"].shape[0],
                                       QT - ppcbase["branch"].shape[1] + 1))]
@@ -86,7 +86,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     ppctarget = loadcase(targetcasedata)
 
     # add zero columns to branch for flows if needed
-    if ppctarget["branch"].shape[1] < QT:
+    if ppctarget["branch"].shape[1] <= QT:
         ppctarget["branch"] = c_[ppctarget["branch"],
                                  zeros((ppctarget["branch"].shape[0],
                                         QT - ppctarget["branch"].shape[1] + 1))]
diff --git a/pypower/runpf.py b/pypower/runpf.py
index 9f69066..0d21be6 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -85,7 +85,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ppc = loadcase(casedata)
 
     ## add zero columns to branch for flows if needed
-    if ppc["branch"].shape[1] < QT:
+    if ppc["branch"].shape[1] <= QT:
         ppc["branch"] = c_[ppc["branch"],
                            zeros((ppc["branch"].shape[0],
                                   QT - ppc["branch"].shape[1] + 1))]
-- 
2.43.0


From 5e3140aa866e330c7aad1472000b5fd6f9024621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 23/72] fix: integer case tables truncated all results written
 into them (runpf, runopf of case9)

---
 pypower/loadcase.py | 4 ++++
 pypower/opf_args.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..37c8da5 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -180,6 +180,10 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+            ## results are written into the tables, so they must not be integer
+            for k in ['bus', 'gen', 'branch', 'areas', 'gencost']:
+                if ppc.get(k) is not None:
+                    ppc[k] = array(ppc[k], dtype=float)
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 7f7eb00..ea77e11 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -293,6 +293,10 @@ def opf_args(*args):
         else:
             stderr.write('opf_args: Incorrect input arg order, number or type\n')
 
+        ## results are written into the tables, so they must not be integer
+        bus, gen, branch = array(bus, float), array(gen, float), array(branch, float)
+        gencost = array(gencost, float)
+
     if N is not None:
         nw = N.shape[0]
     else:
-- 
2.43.0


From dd7af6f272a2cfcbd247639f9606789b7c345474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 24/72] fix: pips wrote its default options into the caller's
 dictionary

---
 pypower/pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..693eb80 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else dict(opt)
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
-- 
2.43.0


From 75f4c8b823a56b44aa984e07af4e4f0c8f38dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:54 +0000
Subject: [PATCH 25/72] fix: qps_pips refused linear programs with only
 variable bounds

---
 pypower/qps_pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..f2db909 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -135,7 +135,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if opt is not None: p['opt'] = opt
 
     if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
+        if (p['A'] is None or p['A'].nnz == 0) and \
            'xmin' not in p and \
            'xmax' not in p:
 #           'xmin' not in p or len(p['xmin']) == 0 and \
-- 
2.43.0


From 97ef1639ff7811448f0502577cf8c5eeb83c6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:54 +0000
Subject: [PATCH 26/72] fix: qps_pips wrote into the caller's problem
 dictionary

---
 pypower/qps_pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index f2db909..e978f3a 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = dict(H)
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
-- 
2.43.0


From c26aea02b505772aad0377327d03abb554df1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:54 +0000
Subject: [PATCH 27/72] fix: qps_pypower wrote into the caller's pips_opt

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..7c79f68 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -168,7 +168,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = dict(opt['pips_opt'])
         else:
             pips_opt = {}
 
-- 
2.43.0


From 021e02f944b12106b2abd3691811d0ae9031ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 28/72] fix: qps_pypower ran Gurobi for unknown algorithm codes

---
 pypower/qps_pypower.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 7c79f68..1aac426 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -5,7 +5,6 @@
 """Quadratic Program Solver for PYPOWER.
 """
 
-import sys
 
 from pypower.qps_pips import qps_pips
 from pypower.qps_ipopt import qps_ipopt
@@ -194,11 +193,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     elif alg == 600:                    ## use MOSEK
         x, f, eflag, output, lmbda = \
             qps_mosek(H, c, A, l, u, xmin, xmax, x0, opt)
-    elif 700:                           ## use Gurobi
+    elif alg == 700:                    ## use Gurobi
         x, f, eflag, output, lmbda = \
             qps_gurobi(H, c, A, l, u, xmin, xmax, x0, opt)
     else:
-        sys.stderr.write('qps_pypower: %d is not a valid algorithm code\n', alg)
+        raise ValueError('qps_pypower: %d is not a valid algorithm code' % alg)
 
     if 'alg' not in output:
         output['alg'] = alg
-- 
2.43.0


From a57f8be7e374cbccad54c7754aa5752d63c4d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 29/72] fix: total_load failed on dispatchable loads (negated a
 boolean matrix)

---
 pypower/total_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..2e3012f 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -100,11 +100,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From e7a37d08ea0886aaf2602c9b618f807a470fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 30/72] fix: scale_load failed to meet a target quantity with
 dispatchable loads (negated a boolean matrix)

---
 pypower/scale_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..f909fd8 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -110,7 +110,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
-- 
2.43.0


From c933a29e53738442e3ee423ef311d6c84cee6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 31/72] fix: scale_load failed with a single factor for the
 whole system

---
 pypower/scale_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index f909fd8..ab3d86d 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -118,7 +118,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
-- 
2.43.0


From 88f25d744db991647dbac4bf5b1b6f0d57a3ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 32/72] fix: scale_load wrote into the options of the caller

---
 pypower/scale_load.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index ab3d86d..fb12cca 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -79,6 +79,8 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         load_zone = array([], int)
     if opt is None:
         opt = {}
+    else:
+        opt = opt.copy()
 
     ## fill out and check opt
     if len(gen) == 0:
-- 
2.43.0


From c475603f4d69af76c09082b54052b0334f4a14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 33/72] fix: scale_load rounded the factors of integer target
 quantities and refused a scalar

---
 pypower/scale_load.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index fb12cca..ae29ff9 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -68,6 +68,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     nb = bus.shape[0]   ## number of buses
+    load = array(load, float).flatten()
 
     ##-----  process inputs  -----
     bus = bus.copy()
-- 
2.43.0


From 0c51c654245af2d9a9fcf70f475a3cdaca7b7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 34/72] fix: continuation power flow: build the augmented
 Jacobian with current scipy (hstack rejects scalars)

---
 pypower/cpf_corrector.py | 2 +-
 pypower/cpf_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..bd4110e 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            r_[dP_dV, dP_dlam].reshape((1, -1))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..a60bbb9 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        r_[dP_dV, dP_dlam].reshape((1, -1))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From f4fdde3dfc3b4b43e821681b06ad73cf7d43cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 35/72] fix: cpf_default_callback: keep the curve
 two-dimensional from the first point (identical cases crashed runcpf)

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..2e3e026 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": c_[V_p],
+            "lam_p": r_[lam_p],
+            "V_c": c_[V_c],
+            "lam_c": r_[lam_c],
             "iterations": 0
         }
 
-- 
2.43.0


From 9f96f796d743d93a78b8b514189deb2e58ad8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:01 +0000
Subject: [PATCH 36/72] fix: interface flow limits: branches with internal or
 external index 0 were dropped, others addressed with float indices

---
 pypower/toggle_iflims.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..03ba33d 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import zeros, ones, arange, unique, where, c_, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -93,15 +93,14 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    e2i = -ones(nl0)
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    d = where(ifmap[:, 1] < 0, -1, 1)   ## direction (branch 0 included)
+    br = e2i[abs(ifmap[:, 1]).astype(int)]
+    on = find(br >= 0)                  ## without branches that are out
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
-
-    ppc['if']['map'] = ifmap
+    ## internal version: interface, branch index, direction
+    ppc['if']['map'] = c_[ifmap[on, 0], br[on], d[on]]
 
     return ppc
 
@@ -130,12 +129,11 @@ def userfcn_iflims_formulation(om, *args):
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        br = ifmap[ifmap[:, 0] == ifidx[k], 1].astype(int)
         if len(br) == 0:
             stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
 
-        d = sign(br)
-        br = abs(br)
+        d = ifmap[ifmap[:, 0] == ifidx[k], 2]
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -173,9 +171,8 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        br = ifmap[ifmap[:, 0] == ifidx[k], 1].astype(int)
+        d = ifmap[ifmap[:, 0] == ifidx[k], 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
-- 
2.43.0


From 86889935fb189b431065ed1695512cf1b47ec590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:01 +0000
Subject: [PATCH 37/72] fix: interface flow limits: limits not given in
 ascending interface order were applied to the wrong interface

---
 pypower/toggle_iflims.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 03ba33d..465b8e6 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, ones, arange, unique, where, c_, flatnonzero as find
+from numpy import zeros, ones, arange, where, c_, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -122,7 +122,7 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
@@ -166,7 +166,7 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
@@ -201,7 +201,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
+        ifidx = iflims[:, 0]           ## interface number list
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
             fd.write('\n%6d ', iflims(k, 1))
-- 
2.43.0


From 16bc458bff512f8aab9910a6e4fdcfd142d763f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 38/72] fix: printing of interface flow limits called the table
 of limits

---
 pypower/toggle_iflims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 465b8e6..c9e4fcf 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -204,7 +204,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         ifidx = iflims[:, 0]           ## interface number list
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d    ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From 9458ecb7d40466068e8d561512f388f918e9da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 39/72] fix: dc lines: bus numbers used as float indices

---
 pypower/toggle_dcline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..3dfd531 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -129,8 +129,8 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -181,8 +181,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
-- 
2.43.0


From 81dab37fde7f4ff301787910a3714bf13873bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 40/72] fix: dc lines: the formulation callback returned None,
 not the model

---
 pypower/toggle_dcline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 3dfd531..6f5ffe6 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -272,7 +272,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From 147ca425239d60a5731a467a845fe685f1969c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 41/72] fix: dc lines: results failed with lines out of service
 or on solved cases, columns of multipliers

---
 pypower/toggle_dcline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 6f5ffe6..43c6bd2 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -314,8 +314,8 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] > MU_QMIN:
+        results['dcline'] = c_[results['dcline'][:, :c['LOSS1'] + 1], zeros((ndc, 6))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -329,7 +329,8 @@ def userfcn_dcline_int2ext(results, args):
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        ndc0 = o['ext']['dcline'].shape[0]   ## number of DC lines, in service or not
+        o['ext']['dcline'] = c_[o['ext']['dcline'][:, :c['LOSS1'] + 1], zeros((ndc0, 6))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
-- 
2.43.0


From d55f0e4aee444d4e512274bd56a286b201ec2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 42/72] fix: dc lines: power flow of a case without generator
 costs failed

---
 pypower/toggle_dcline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 43c6bd2..441dd90 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -305,7 +305,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
-- 
2.43.0


From f5df802d1f17f8c4c6017f6975bcf349f11ae0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 43/72] fix: dc lines: cost of the lines was not appended to
 the generator costs

---
 pypower/toggle_dcline.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 441dd90..0ddb4e8 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import array, arange, ones, zeros, r_, c_, concatenate, shape
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -195,37 +195,37 @@ def userfcn_dcline_ext2int(ppc, args):
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc-ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    nc = int(dcc[k, NCOST])
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + nc].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
 #                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    temp[arange(nc - 2, -1, -2)] = -temp[arange(nc - 2, -1, -2)]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    nc = int(dcc[k, NCOST])
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + 2 * nc].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -temp[0::2]
+                    yy =  temp[1::2].copy()
+                    temp[0::2] = xx[-1::-1]
+                    temp[1::2] = yy[-1::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
+                padding = zeros(ccc - (NCOST + 1) - len(temp))
+                gck = r_[dcc[k, :NCOST + 1], temp, padding]
 
                 ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
+                ppc['gencost'] = r_[ppc['gencost'], [gck]]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * r_[2, 0, 0, 2, zeros(ccc-4)]
+            ppc['gencost'] = r_[ppc['gencost'], tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
-- 
2.43.0


From 4b583e6443af1b1ec395333a6abef02ba3383f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:44 +0000
Subject: [PATCH 44/72] fix: toggle_dcline failed on lines with a negative loss
 term instead of warning

---
 pypower/toggle_dcline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 0ddb4e8..5c5ab99 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -58,7 +58,7 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
@@ -67,9 +67,10 @@ def toggle_dcline(ppc, on_off):
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
         if len(k) > 0:
-            warn('toggle_dcline: linear loss term is negative for DC line '
-                   'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+            for i in k:
+                warn('toggle_dcline: linear loss term is negative for DC line '
+                       'from bus %d to %d\n' %
+                      tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
-- 
2.43.0


From fa686c71c574bceaea52248795a5d1d6c020014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:57 +0000
Subject: [PATCH 45/72] fix: printpf failed before the callbacks when printing
 a power flow

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From 6693f3a815835000d746b5aec1c65e233f277e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 46/72] fix: printing of dc lines out of service failed, and of
 dc lines without multipliers

---
 pypower/toggle_dcline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 5c5ab99..446a793 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -371,6 +371,8 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
     ##-----  print results  -----
     dc = results['dcline']
     ndc = dc.shape[0]
+    if dc.shape[1] <= c['MU_PMAX']:     ## no multipliers (power flow)
+        dc = c_[dc, zeros((ndc, c['MU_QMAXT'] + 1 - dc.shape[1]))]
     kk = find(dc[:, c['BR_STATUS']] != 0)
     if OUT_BRANCH:
         fd.write('\n================================================================================')
@@ -387,7 +389,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -424,7 +426,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From c5f00d82f97d3d67e875bf7d9f48c24c0c50daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:52 +0000
Subject: [PATCH 47/72] fix: add_userfcn failed when the argument for the
 callback is a number

---
 pypower/add_userfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..5ae3ceb 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -107,7 +107,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if not hasattr(args, '__len__') or len(args) > 0:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From c12e80eee3670d998fdcd84aa981be3ef30a576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:52 +0000
Subject: [PATCH 48/72] fix: add_userfcn added a callback a second time after
 refusing to

---
 pypower/add_userfcn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 5ae3ceb..24837c0 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -101,6 +101,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
-- 
2.43.0


From 0fe5d660c1d54d97634e9eca16cb20dc9b956631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 49/72] fix: loadcase raised KeyError or NameError instead of
 reporting missing data or a wrong argument

---
 pypower/loadcase.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 37c8da5..b039ac3 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -58,6 +58,7 @@ def loadcase(casefile,
         expect_areas = False
 
     info = 0
+    lasterr = ''
 
     # read data into case object
     if isinstance(casefile, basestring):
@@ -76,8 +77,6 @@ def loadcase(casefile,
                 info = 2
             fname = basename(rootname)
 
-        lasterr = ''
-
         ## attempt to read file
         if info == 0:
             if extension == '.mat':       ## from MAT file
@@ -167,12 +166,12 @@ def loadcase(casefile,
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        if (s.get('baseMVA') is None or s.get('bus') is None \
+            or s.get('gen') is None or s.get('branch') is None) or \
+            (expect_gencost and s.get('gencost') is None) or \
+            (expect_areas and s.get('areas') is None):
             info = 5  ## missing some expected fields
-            err5 = 'missing data'
+            lasterr = 'missing data'
         else:
             ## remove empty areas if not needed
             if hasattr(s, 'areas') and (len(s['areas']) == 0) and (not expect_areas):
-- 
2.43.0


From f24c8bf21ba333689dc26712b38bbba11ab6a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 50/72] fix: loadcase kept empty areas although they are not
 needed

---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index b039ac3..46ae39d 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -174,7 +174,7 @@ def loadcase(casefile,
             lasterr = 'missing data'
         else:
             ## remove empty areas if not needed
-            if hasattr(s, 'areas') and (len(s['areas']) == 0) and (not expect_areas):
+            if s.get('areas') is not None and (len(s['areas']) == 0) and (not expect_areas):
                 del s['areas']
 
             ## all fields present, copy to ppc
-- 
2.43.0


From 5788970454ce907de15cb429e5072097509c0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 51/72] fix: loadcase dropped or shifted solved columns of
 version 1 tables

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 46ae39d..b372cdb 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -240,8 +240,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] > mu_Qmin:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -254,10 +254,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] > mu_St:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] > Qt:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From 99047e1ad876c5eebd9f976bbfbdbc7920a1d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 52/72] fix: savecase overwrote the version of the case of the
 caller

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..3f13cd0 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -45,7 +45,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     Autonoma de Manizales)
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    ppc_ver = ppc["version"] = version
+    ppc_ver = version
     baseMVA, bus, gen, branch = \
         ppc["baseMVA"], ppc["bus"], ppc["gen"], ppc["branch"]
     areas = ppc["areas"] if "areas" in ppc else None
-- 
2.43.0


From 512608e4c7c683fe2decfa2787ce833660e025a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 53/72] fix: savecase failed on sparse user constraints and
 costs, or wrote a file that cannot be loaded

---
 pypower/savecase.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 3f13cd0..1ee5412 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -287,14 +288,15 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
-            fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0) or ("N" in ppc) and (ppc["N"].shape[0] > 0):
+            fd.write('\n%s##-----  Generalized OPF User Data  -----##\n' % indent)
+            fd.write('%sfrom scipy.sparse import csr_matrix as sparse\n' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0):
             ## A
             fd.write('\n%s## user constraints\n' % indent)
-            print_sparse(fd, prefix + "['A']", ppc["A"])
+            print_sparse(fd, prefix + "['A']", ppc["A"], indent)
             if ("l" in ppc) and (len(ppc["l"]) > 0) and ("u" in ppc) and (len(ppc["u"]) > 0):
                 fd.write('%slu = array([\n' % indent)
                 for i in range(len(ppc["l"])):
@@ -314,11 +316,11 @@ def savecase(fname, ppc, comment=None, version='2'):
                 fd.write('%s])\n\n' % indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if ("N" in ppc) and (ppc["N"].shape[0] > 0):
             fd.write('\n%s## user costs\n' % indent)
-            print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
-                print_sparse(fd, prefix + "['H']", ppc["H"])
+            print_sparse(fd, prefix + "['N']", ppc["N"], indent)
+            if ("H" in ppc) and (ppc["H"].shape[0] > 0):
+                print_sparse(fd, prefix + "['H']", ppc["H"], indent)
             if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
                 fd.write("%sCw_fparm = array([\n" % indent)
                 for i in range(ppc["Cw"]):
@@ -363,17 +365,18 @@ def savecase(fname, ppc, comment=None, version='2'):
     return fname
 
 
-def print_sparse(fd, varname, A):
-    A = A.tocoo()
+def print_sparse(fd, varname, A, indent=''):
+    A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
     m, n = A.shape
 
     if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
+        fd.write('%s%s = sparse((%d, %d))\n' % (indent, varname, m, n))
     else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
+        fd.write('%sijs = array([\n' % indent)
+        for k in range(len(i)):
+            fd.write('%s[%d, %d, %.9g],\n' % (2 * indent, i[k], j[k], s[k]))
 
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+        fd.write('%s])\n' % indent)
+        fd.write('%s%s = sparse((ijs[:, 2], (ijs[:, 0].astype(int), ijs[:, 1].astype(int))), (%d, %d))\n' %
+                 (indent, varname, m, n))
-- 
2.43.0


From b2a64cc1e444ee9760dda72b69399e0c32025d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 54/72] fix: savecase wrote user bounds, cost weights and
 variables that cannot be loaded, or failed

---
 pypower/savecase.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 1ee5412..d0863d3 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -306,13 +306,13 @@ def savecase(fname, ppc, comment=None, version='2'):
                 fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
             elif ("l" in ppc) and (len(ppc["l"]) > 0):
                 fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
+                for i in range(len(ppc["l"])):
+                    fd.write('%s%.9g,\n' % (indent2, ppc["l"][i]))
                 fd.write('%s])\n\n' % indent)
             elif ("u" in ppc) and (len(ppc["u"]) > 0):
                 fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
+                for i in range(len(ppc["u"])):
+                    fd.write('%s%.9g,\n' % (indent2, ppc["u"][i]))
                 fd.write('%s])\n\n' % indent)
 
         ## user costs
@@ -323,15 +323,15 @@ def savecase(fname, ppc, comment=None, version='2'):
                 print_sparse(fd, prefix + "['H']", ppc["H"], indent)
             if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
                 fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
+                for i in range(len(ppc["Cw"])):
+                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2, ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
                 fd.write('%s])\n' % indent)
                 fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
                 fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
             else:
                 fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
                 for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["Cw"][i]))
                 fd.write('%s])\n' % indent)
 
         ## user vars
@@ -340,17 +340,17 @@ def savecase(fname, ppc, comment=None, version='2'):
             if ('z0' in ppc) and (len(ppc['z0']) > 0):
                 fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["z0"][i]))
                 fd.write('%s])\n' % indent)
             if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
+                fd.write('%s%s["zl"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["zl"][i]))
                 fd.write('%s])\n' % indent)
             if ('zu' in ppc) and (len(ppc['zu']) > 0):
                 fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["zu"][i]))
                 fd.write('%s])\n' % indent)
 
         ## execute userfcn callbacks for 'savecase' stage
-- 
2.43.0


From 3685018295112bb22f5a7e1417b487837d9cb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 55/72] fix: savecase failed when the cost table has more
 columns than the longest cost

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index d0863d3..03c051f 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -284,7 +284,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From 3471e3cf33884b97e73e29c5f05a0e8da338158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:20 +0000
Subject: [PATCH 56/72] fix: savecase wrote files that cannot be loaded when a
 value is infinite or undefined

---
 pypower/savecase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 03c051f..97cfcbc 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -160,6 +160,7 @@ def savecase(fname, ppc, comment=None, version='2'):
         else:
             fd.write('def %s():\n' % basename(rootname))
             prefix = 'ppc'
+        fd.write('%sfrom numpy import array, inf, nan\n' % indent)
         if comment:
             if isinstance(comment, basestring):
                 fd.write('#%s\n' % comment)
-- 
2.43.0


From 0a09b49ae328bea0a94fbe3a7207e4f7137f3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:21 +0000
Subject: [PATCH 57/72] fix: savecase failed on sparse user constraints in MAT
 files

---
 pypower/savecase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 97cfcbc..4ce3fb3 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -110,16 +110,16 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
+        if "A" in ppc and ppc["A"].shape[0] > 0:
+            ppc_mat["A"] = ppc["A"]
             if "l" in ppc and len(ppc["l"]) > 0:
                 ppc_mat["l"] = array(ppc["l"])
             if "u" in ppc and len(ppc["u"]) > 0:
                 ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
+        if "N" in ppc and ppc["N"].shape[0] > 0:
+            ppc_mat["N"] = ppc["N"]
+            if "H" in ppc and ppc["H"].shape[0] > 0:
+                ppc_mat["H"] = ppc["H"]
             if "fparm" in ppc and len(ppc["fparm"]) > 0:
                 ppc_mat["fparm"] = array(ppc["fparm"])
             ppc_mat["Cw"] = array(ppc["Cw"])
-- 
2.43.0


From 43aeb1034c67e6394c0f84d6bf65937e218e4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:28 +0000
Subject: [PATCH 58/72] fix: cases with toggle_reserves on could not be saved,
 or not loaded again

---
 pypower/toggle_reserves.py | 71 ++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..aa43535 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,8 +10,6 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
 from scipy.sparse import eye as speye
@@ -364,47 +362,44 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     (usually 'ppc'). The optional args are not currently used.
     """
     r = ppc['reserves']
+    indent = '    '
+
+    def print_vec(name, x):
+        fd.write("%s%s['reserves']%s = array([%s])\n" %
+                 (indent, prefix, name, ', '.join(['%.9g' % v for v in x])))
+
+    fd.write('\n%s####-----  Reserve Data  -----####\n' % indent)
+    fd.write("%s%s['reserves'] = {}\n" % (indent, prefix))
+    fd.write('\n%s#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n' % indent)
+    fd.write("%s%s['reserves']['zones'] = array([\n" % (indent, prefix))
+    for zone in r['zones']:
+        fd.write('%s[%s],\n' % (2 * indent, ', '.join(['%d' % v for v in zone])))
+    fd.write('%s])\n' % indent)
+
+    fd.write('\n%s#### reserve requirements for each zone in MW\n' % indent)
+    print_vec("['req']", r['req'])
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    fd.write('\n%s#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n' % indent)
+    fd.write('%s#### (same order as gens, but skipping any gen that does not belong to any zone)\n' % indent)
+    print_vec("['cost']", r['cost'])
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n%s#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n' % indent)
+        fd.write('%s#### (same order as gens, but skipping any gen that does not belong to any zone)\n' % indent)
+        print_vec("['qty']", r['qty'])
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n%s#### solved values\n' % indent)
+        print_vec("['R']", r['R'])
+        print_vec("['Rmin']", r['Rmin'])
+        print_vec("['Rmax']", r['Rmax'])
+        fd.write("%s%s['reserves']['mu'] = {}\n" % (indent, prefix))
+        for mu in ['l', 'u', 'Pmax']:
+            if mu in r['mu']:
+                print_vec("['mu']['%s']" % mu, r['mu'][mu])
+        print_vec("['prc']", r['prc'])
+        fd.write("%s%s['reserves']['totalcost'] = %.9g\n" %
+                 (indent, prefix, r['totalcost']))
 
     return ppc
-- 
2.43.0


From 68c1cef1f06917c02c8ac5960aa37cd8a59c2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:28 +0000
Subject: [PATCH 59/72] fix: cases with toggle_iflims on could not be saved, or
 not loaded again

---
 pypower/toggle_iflims.py | 46 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index c9e4fcf..2413034 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,8 +7,6 @@
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import zeros, ones, arange, where, c_, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
@@ -230,25 +228,35 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     ifmap = ppc['if']['map']
     iflims = ppc['if']['lims']
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
-
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    indent = '    '
+
+    fd.write('\n%s####-----  Interface Flow Limit Data  -----####\n' % indent)
+    fd.write("%s%s['if'] = {}\n" % (indent, prefix))
+    fd.write('\n%s#### interface<->branch map data\n' % indent)
+    fd.write('%s## ifnum branchidx (negative defines opposite direction)\n' % indent)
+    fd.write("%s%s['if']['map'] = array([\n" % (indent, prefix))
+    for row in ifmap:
+        fd.write('%s[%d, %d],\n' % ((2 * indent,) + tuple(row)))
+    fd.write('%s])\n' % indent)
+
+    fd.write('\n%s#### interface flow limit data (based on DC model)\n' % indent)
+    fd.write('%s#### (lower limit should be negative for opposite direction)\n' % indent)
+    fd.write('%s## ifnum lower upper\n' % indent)
+    fd.write("%s%s['if']['lims'] = array([\n" % (indent, prefix))
+    for row in iflims:
+        fd.write('%s[%d, %.9g, %.9g],\n' % ((2 * indent,) + tuple(row)))
+    fd.write('%s])\n' % indent)
 
     ## save output fields for solved case
     if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+        def print_vec(name, x):
+            fd.write("%s%s['if']%s = array([%s])\n" %
+                     (indent, prefix, name, ', '.join(['%.9g' % v for v in x])))
+
+        fd.write('\n%s#### solved values\n' % indent)
+        print_vec("['P']", ppc['if']['P'])
+        fd.write("%s%s['if']['mu'] = {}\n" % (indent, prefix))
+        print_vec("['mu']['l']", ppc['if']['mu']['l'])
+        print_vec("['mu']['u']", ppc['if']['mu']['u'])
 
     return ppc
-- 
2.43.0


From c008927986b803f170da5edcad878b9a8973833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:28 +0000
Subject: [PATCH 60/72] fix: cases with toggle_dcline on could not be saved, or
 not loaded again

---
 pypower/toggle_dcline.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 446a793..343a082 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -443,21 +443,31 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     ## define named indices into data matrices
     c = idx_dcline.c
 
+    indent = '    '
+
     ## save it
     ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
+    fd.write('\n%s####-----  DC Line Data  -----####\n' % indent)
+    fd.write('%s## fbus tbus status Pf Pt Qf Qt Vf Vt Pmin Pmax QminF QmaxF QminT QmaxT loss0 loss1' % indent)
+    template = '%s[%d, %d, %d' + ', %.9g' * 14
     if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
+        fd.write(' muPmin muPmax muQminF muQmaxF muQminT muQmaxT')
+        template = template + ', %.4f' * 6
+    template = template + '],\n'
+    fd.write("\n%s%s['dcline'] = array([\n" % (indent, prefix))
+    for row in ppc['dcline']:
+        fd.write(template % ((2 * indent,) + tuple(row)))
+    fd.write('%s])\n' % indent)
 
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    if 'dclinecost' in ppc:
+        dcc = ppc['dclinecost']
+        fd.write('\n%s####-----  DC Line Cost Data  -----####\n' % indent)
+        fd.write('%s# 1 startup shutdown n x1 y1 ... xn yn\n' % indent)
+        fd.write('%s# 2 startup shutdown n c(n-1) ... c0\n' % indent)
+        fd.write("%s%s['dclinecost'] = array([\n" % (indent, prefix))
+        template = '%s[%d, %.9g, %.9g, %d' + ', %.9g' * (dcc.shape[1] - 4) + '],\n'
+        for row in dcc:
+            fd.write(template % ((2 * indent,) + tuple(row)))
+        fd.write('%s])\n' % indent)
 
     return ppc
-- 
2.43.0


From b39f366578050f775746ac1a66f8e636116db837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:56 +0000
Subject: [PATCH 61/72] fix: loadcase returned 2-D arrays for the scalars and
 vectors of MAT files

---
 pypower/loadcase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index b372cdb..69b1fed 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -99,7 +99,11 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    if 'baseMVA' in s:
+                        s['baseMVA'] = float(s['baseMVA'].item())  # convert array to float
+                    for k in ['l', 'u', 'Cw', 'z0', 'zl', 'zu']:
+                        if k in s:          # vectors are 2-D in MAT files
+                            s[k] = s[k].flatten()
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From b19d0064e242e530bdfc05d23dac700845d2aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:56 +0000
Subject: [PATCH 62/72] fix: loadcase raised the syntax error of a case file
 instead of reporting it

---
 pypower/loadcase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 69b1fed..dc6c2b1 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -156,6 +156,9 @@ def loadcase(casefile,
                 except IOError as e:
                     info = 4
                     lasterr = str(e)
+                except (SyntaxError, NameError) as e:
+                    info = 5
+                    lasterr = str(e)
 
 
                 if info == 4 and exists(rootname + '.py'):
-- 
2.43.0


From 4c88d79506b209f465cdae79e5690cd3e8ce8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 63/72] fix: printpf leaves the results it prints unchanged

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8556465..839cad2 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From 6c84637018dadcf936f219115d1bd61a0d81b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 64/72] fix: printpf lists every area once

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 839cad2..d31ba1c 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -152,7 +152,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From 3ee94328bf2cae6d388024ededc5e612b999a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 65/72] fix: printpf prints the constraints of dispatchable
 loads

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d31ba1c..d395808 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -595,9 +595,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -621,16 +621,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From e9990cc791469150066f1d54295ffe7ea6b4917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 66/72] fix: printpf prints binding voltage constraints

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d395808..7f79415 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -466,7 +466,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From 91db762195b5ca701bf73b08cfa1e29cbdb7c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 67/72] fix: printpf writes to stdout when no file is given

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 7f79415..2155c60 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -82,8 +82,8 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         have_results_struct = 0
         if ppopt is None:
             ppopt = ppoption()   ## use default options
-            if fd is None:
-                fd = stdout         ## print to stdout by default
+        if fd is None:
+            fd = stdout         ## print to stdout by default
         if ppopt['OUT_ALL'] == 0:
             return     ## nothin' to see here, bail out now
 
-- 
2.43.0


From 48914a3088732154bff51e2d3cd7fe46a2c621ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:38 +0000
Subject: [PATCH 68/72] fix: fairmax called its index array, so uopf could not
 decommit units

---
 pypower/fairmax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..f5284aa 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import nanmax, flatnonzero as find
 
 
 def fairmax(x):
@@ -22,9 +22,9 @@ def fairmax(x):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    val = nanmax(x)                   ## find max value
+    i   = find(x == val)              ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From cf7a55bad4b7be11a5e1349bca04c306b1df4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:38 +0000
Subject: [PATCH 69/72] fix: runuopf printed with default options whatever
 options it was given

---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From b5000b6ff2dab009f0e4e34358dc744ed0b36de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:15 +0000
Subject: [PATCH 70/72] fix: opf added an entry to the options dict of its
 caller

---
 pypower/opf_execute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..a74fc8e 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -74,7 +74,7 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
+        ppopt = dict(ppopt, OPF_ALG_POLY=alg)
 
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
-- 
2.43.0


From 742a71594744b8551fa41abbd33f29b685b1e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:21 +0000
Subject: [PATCH 71/72] fix: pfsoln reported nan reactive output for units with
 infinite limits

---
 pypower/pfsoln.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..b7aca8f 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -5,7 +5,8 @@
 """Updates bus, gen, branch data structures to match power flow soln.
 """
 
-from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_, \
+    where, isinf, sign
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -58,9 +59,19 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ngg = asarray(ngg).flatten()  # 1D array
         gen[on, QG] = gen[on, QG] / ngg
 
+        ## replace infinite limits by finite proxies +/- M, where M is the sum
+        ## over all gens at the bus of abs(Qg) plus any finite Q limits
+        Qmin = gen[on, QMIN]
+        Qmax = gen[on, QMAX]
+        M = abs(gen[on, QG]) + where(isinf(Qmin), 0, abs(Qmin)) + \
+            where(isinf(Qmax), 0, abs(Qmax))
+        M = Cg * (Cg.T * M)
+        Qmin = where(isinf(Qmin), sign(Qmin) * M, Qmin)
+        Qmax = where(isinf(Qmax), sign(Qmax) * M, Qmax)
+
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
@@ -69,9 +80,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)                      ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From bdad8b3714426ac2c84398a151cb59d04a038f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:47 +0000
Subject: [PATCH 72/72] fix: user-defined costs without H failed although H is
 optional

---
 pypower/opf_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 07e945b..fdb4601 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None and H.shape[0] > 0:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0

