From b2c424a7c0fed95f5124bceda16260d460749183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 01/14] fix: int_e_IEZ_poly reuses indices shifted by the
 previous integral term

---
 src/ajdmom/ito_cond_mom.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..150f474 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -454,18 +454,13 @@ def int_e_IEZ_poly(coef, m, poly):
             # key1
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
+            # note: k6, k7, k8, k9 must stay the same for every kk
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                key2 = (k6, k7,
+                        k8[:-1] + (k8[-1] + kk[3],),
+                        k9[:-1] + (k9[-1] + kk[4],))
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From 0b7ac8475a5ef3898d49e13d9352764c10104a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 02/14] fix: recursive_IEI_IEII skips every contribution after
 the first applicable one

---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From 714def606d4d0c821e648f486ddb7abe8230293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 03/14] fix: int_et treats n1*k1+n2*k2 as zero whenever n1+n2
 is zero

---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..47465a6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From 591679821f0048c45bc0d1f844cde915782b2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 04/14] fix: moment_IEII returns keys longer than keyfor for
 orders 0 and 1

---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..6aa8e23 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly()
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From ecf7c0656ca13c8ca2007e58bbc504c15cfc6850 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 05/14] fix: second moment of IE in the SRJD model has no
 keyfor

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From 5f1c7c61fead1c2b093519bdb15511b5ff1739a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 06/14] fix: mdl_srjd.iez_cmom.cm drops its parameters and
 always raises

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From 6665dd31633f1d33ed770629d6e415fb064bf375 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 07/14] fix: 0-th conditional moment of the SVCJ model has a
 key shorter than its keyfor

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..d9e905d 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0,
+                0, 0, 0, tuple(0 for j in J)): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From 48ec7e585bab579e63bb77f58dc9c8945fd805ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 08/14] fix: conditional central moment of order 0 returns the
 first-order one

---
 src/ajdmom/mdl_1fsv/cond_cmom.py  | 2 +-
 src/ajdmom/mdl_svcj/cond2_cmom.py | 4 ++--
 src/ajdmom/mdl_svij/cond2_cmom.py | 2 +-
 src/ajdmom/mdl_svvj/cond2_cmom.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..0efcf8f 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -323,7 +323,7 @@ def cond_cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     cmoment = simplify(cmoment, tp=2)
     # ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
     value = poly2num(cmoment, par)
diff --git a/src/ajdmom/mdl_svcj/cond2_cmom.py b/src/ajdmom/mdl_svcj/cond2_cmom.py
index a6f21b7..61f1faa 100644
--- a/src/ajdmom/mdl_svcj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svcj/cond2_cmom.py
@@ -138,7 +138,7 @@ def cmoments_y_to(l, J):
 
 def cmoment_y(l, J):
     cmoms = cmoments_y_to(l, J)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
@@ -196,7 +196,7 @@ def cm(l, par):
     """
     J = par['jumpsize']  # list of jump sizes
     cmoments = cmoments_y_to(l, J)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     value = poly2num(cmoment, par)
     return value
 
diff --git a/src/ajdmom/mdl_svij/cond2_cmom.py b/src/ajdmom/mdl_svij/cond2_cmom.py
index 69cde99..cc04d68 100644
--- a/src/ajdmom/mdl_svij/cond2_cmom.py
+++ b/src/ajdmom/mdl_svij/cond2_cmom.py
@@ -59,7 +59,7 @@ def cmoments_y_to(l):
 
 def cmoment_y(l):
     cmoms = cmoments_y_to(l)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..24f4b22 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -186,7 +186,7 @@ def cmoment_y(l):
     :rtype: Poly
     """
     cmoments = cmoments_y_to(l)
-    return cmoments[-1]
+    return cmoments[l]
 
 
 def classify(poly):
@@ -292,7 +292,7 @@ def cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]  # need only the last one
+    cmoment = cmoments[l]  # need only the last one
     value = poly2num(cmoment, par)
     return value
 
-- 
2.43.0


From afb9fac269930db923fedd7c3ca15285cb4996aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 09/14] fix: moment_IEI_IEII raises NameError instead of
 ValueError on a negative order

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 47465a6..f03e6b6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From cee2db87e648412a61e31a765b81c5da2a31b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/14] fix: write_to_csv writes a title and rows with
 different columns

---
 src/ajdmom/poly.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..4ecb704 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -55,6 +55,7 @@ Note that :py:meth:`~ajdmom.poly.Poly.merge` (in-place) is different from
 the magic method :code:`__add__()` (not-in-place). The former changes the
 original poly, while the latter does not.
 """
+import csv
 from collections import UserDict
 
 
@@ -282,13 +283,11 @@ class Poly(UserDict):
         # for cases without 'l_{1:n}',...: mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj
         #
         if 'l_{1:n}' not in self.keyfor:
-            title = ','.join(self.keyfor) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')  # quotes the cells with commas
+                writer.writerow(self.keyfor + ('num', 'den'))
                 for k, v in self.items():
-                    num, den = v.numerator, v.denominator
-                    row = ','.join([str(s) for s in k]) + f',{str(num)},{str(den)}\n'
-                    f.write(row)
+                    writer.writerow(k + (v.numerator, v.denominator))
             print(f"complete the writing of {filename}.")
             return
         #
@@ -301,6 +300,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()
         for k in self.keys():
             l = k[i]
             break
@@ -320,14 +320,13 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = self.keyfor[:i] + tuple(sub1 + sub2) + self.keyfor[i + 2:]
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title + ('num', 'den'))
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         #
         # for cases 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}': mdl_svvj, mdl_svij, mdl_svcj
         #
@@ -336,14 +335,13 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = self.keyfor[:i] + tuple(sub1 + sub2 + sub3 + sub4) + self.keyfor[i + 4:]
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title + ('num', 'den'))
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         print(f"complete the writing of {filename}.")
 
 
-- 
2.43.0


From ba8cd18a959749444477f21f39649f90604b2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 11/14] fix: multilevel_comb returns an integer instead of a
 list of indexes for one part

---
 src/ajdmom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..86482d6 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,7 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        return [[m]]
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From f6275a1260cf196546d0dc36cd2693b7f9e5ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 12/14] fix: split formulas without terms of every level of
 summation (mdl_svvj classify)

---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index 24f4b22..ead29f7 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -210,13 +210,13 @@ def classify(poly):
     kf0 = poly.keyfor[:6] + poly.keyfor[10:]
     subpolys = [Poly() for n in N_sum]
     #
-    subpolys[0].set_keyfor(kf0 if N_sum[0] == 0 else poly.keyfor)
     # exclude the sub-keyfor if the sub-key corresponding to 'l_{1:n}' is empty
-    for i in range(1, len(N_sum)): subpolys[i].set_keyfor(poly.keyfor)
+    for i in range(len(N_sum)):
+        subpolys[i].set_keyfor(kf0 if N_sum[i] == 0 else poly.keyfor)
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From d0d5147058dbe0e140e1f7155346992a2f2367e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 13/14] fix: rSRJD with a jump at time 0 or with simultaneous
 jumps

---
 src/ajdmom/mdl_srjd/euler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/mdl_srjd/euler.py b/src/ajdmom/mdl_srjd/euler.py
index c9d4837..6c4e141 100644
--- a/src/ajdmom/mdl_srjd/euler.py
+++ b/src/ajdmom/mdl_srjd/euler.py
@@ -21,6 +21,7 @@ def rSRD(v0, tau, k, theta, sigma):
     :return: next sample
     :rtype: float
     """
+    if tau == 0: return v0  # e.g., a jump at time 0, or simultaneous jumps
     d = 4 * theta * k / (sigma ** 2)  # degrees of freedom
     c = (sigma ** 2) * (1 - math.exp(-k * tau)) / (4 * k)  # leading constant
     lmbd = v0 * math.exp(-k * tau) / c  # non-centrality parameter
-- 
2.43.0


From e4d817e814d17e53d7f8637cfe54042a75218c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:06 +0000
Subject: [PATCH 14/14] fix: the programs of mdl_1fsvj announce the column
 sigma_j as sigma_j^2

---
 src/ajdmom/mdl_1fsvj/cmom.py | 2 +-
 src/ajdmom/mdl_1fsvj/mom.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/mdl_1fsvj/cmom.py b/src/ajdmom/mdl_1fsvj/cmom.py
index 545853a..66d6e38 100644
--- a/src/ajdmom/mdl_1fsvj/cmom.py
+++ b/src/ajdmom/mdl_1fsvj/cmom.py
@@ -179,7 +179,7 @@ if __name__ == "__main__":
     print('\nExample usage of the module function\n')
     #
     kf = ('e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)',
-          'lambda', 'mu_j', 'sigma_j^2')
+          'lambda', 'mu_j', 'sigma_j')
     print(f"cmoment_y(l) returns a poly with keyfor = \n{kf}")
     args = sys.argv[1:]
     n = 2 if len(args) == 0 else int(args[0])
diff --git a/src/ajdmom/mdl_1fsvj/mom.py b/src/ajdmom/mdl_1fsvj/mom.py
index 6d38440..61ecc9a 100644
--- a/src/ajdmom/mdl_1fsvj/mom.py
+++ b/src/ajdmom/mdl_1fsvj/mom.py
@@ -170,7 +170,7 @@ if __name__ == "__main__":
 
     print('\nExample usage of the module function\n')
     kf = ('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)',
-          'lambda', 'mu_j', 'sigma_j^2')
+          'lambda', 'mu_j', 'sigma_j')
     print(f"moment_y(l) returns a poly with keyfor = \n{kf}")
     args = sys.argv[1:]
     n = 1 if len(args) == 0 else int(args[0])
-- 
2.43.0

