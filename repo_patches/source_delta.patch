From 9f69e14303e2a197eff2d1b982e9d309a1a25454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:23 +0000
Subject: [PATCH 01/11] fix: apply the scale factor in the intermediate-based
 Lambda kernel

---
 cqcpy/cc_equations.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 5d6ed1e..91dafb9 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -1161,31 +1161,32 @@ def _Lambda_Stanton(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
     Gvv = -0.5*einsum('mnaf,efmn->ae', L2old, T2old)
     Goo = 0.5*einsum('inef,efmn->mi', L2old, T2old)
 
-    L1 += einsum('ie,ea->ia', L1old, F1vv)
-    L1 -= einsum('ma,im->ia', L1old, F1oo)
-    L1 += einsum('me,ieam->ia', L1old, W1ovvo)
-    L1 += 0.5*einsum('imef,efam->ia', L2old, W1vvvo)
-    L1 -= 0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
-    L1 -= einsum('ef,eifa->ia', Gvv, W1vovv)
-    L1 -= einsum('mn,mina->ia', Goo, W1ooov)
+    L1 += fac*einsum('ie,ea->ia', L1old, F1vv)
+    L1 -= fac*einsum('ma,im->ia', L1old, F1oo)
+    L1 += fac*einsum('me,ieam->ia', L1old, W1ovvo)
+    L1 += fac*0.5*einsum('imef,efam->ia', L2old, W1vvvo)
+    L1 -= fac*0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
+    L1 -= fac*einsum('ef,eifa->ia', Gvv, W1vovv)
+    L1 -= fac*einsum('mn,mina->ia', Goo, W1ooov)
 
-    L2 += 0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
-    L2 += 0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
+    L2 += fac*0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
+    L2 += fac*0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
 
     tempijab = einsum('ia,jb->ijab', L1old, F1ov)
     tempijab += einsum('imae,jebm->ijab', L2old, W1ovvo)
-    L2 += tempijab - tempijab.transpose((0, 1, 3, 2)) \
-        - tempijab.transpose((1, 0, 2, 3)) + tempijab.transpose((1, 0, 3, 2))
+    L2 += fac*(tempijab - tempijab.transpose((0, 1, 3, 2))
+               - tempijab.transpose((1, 0, 2, 3))
+               + tempijab.transpose((1, 0, 3, 2)))
 
     tempij = -einsum('imab,jm->ijab', L2old, F1oo)
     tempij += einsum('ie,ejab->ijab', L1old, W1vovv)
     tempij -= einsum('imab,mj->ijab', I.oovv, Goo)
-    L2 += tempij - tempij.transpose((1, 0, 2, 3))
+    L2 += fac*(tempij - tempij.transpose((1, 0, 2, 3)))
 
     tempab = einsum('ijae,eb->ijab', L2old, F1vv)
     tempab -= einsum('ma,ijmb->ijab', L1old, W1ooov)
     tempab += einsum('ijae,be->ijab', I.oovv, Gvv)
-    L2 += tempab - tempab.transpose((0, 1, 3, 2))
+    L2 += fac*(tempab - tempab.transpose((0, 1, 3, 2)))
 
 
 def _Lambda_opt(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
-- 
2.43.0


From 92669e665f25fc99905982a1b45cee31532dfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:41 +0000
Subject: [PATCH 02/11] fix: use the second orbital set in get_chem_anti

---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From e8d8f5e186c9e0adc30202e89296cd4053184234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:33 +0000
Subject: [PATCH 03/11] fix: let exciting an orbital to itself return the
 string

---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..8996c35 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,7 +10,7 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
-        if self.occ[a] != 0:
+        if i != a and self.occ[a] != 0:
             return (None, None)
 
         if i == a:
-- 
2.43.0


From 0c5d1ea104046f90cf0964f9d3a333fc6b39418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:53 +0000
Subject: [PATCH 04/11] fix: add the constant to diagonal elements of
 gci_matrixel

---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 8996c35..9e9e4bf 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1276,7 +1276,7 @@ def gci_matrixel(bra, ket, h, I, const):
     av = [1 if a > 0 else 0 for a in aa]
     if ddd == 0:
         p = bra.occ.copy()
-        Hel = numpy.einsum('ii,i->', h, p)
+        Hel = const + numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
         return Hel
-- 
2.43.0


From d34f8e59169a6c448b3598ae756c2083d707784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:53 +0000
Subject: [PATCH 05/11] fix: sign of double excitations in gci_matrixel when
 both orbitals move past each other

---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 9e9e4bf..1ebe5d5 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1303,9 +1303,10 @@ def gci_matrixel(bra, ket, h, I, const):
         j1, j2 = min(o2, v2), max(o2, v2)
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From 7780bee19d7a466a6f86496394f70f4ff7a1719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:10 +0000
Subject: [PATCH 06/11] fix: loop over occupied orbitals in q_strings

---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 1ebe5d5..ea06c65 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From 30db10edf6ce9f7c4c642e892f3c993f7cc63667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:21 +0000
Subject: [PATCH 07/11] fix: include the product of two beta singles and alpha
 doubles in makeCfromT

The fourth-order expansion had the term with two alpha singles and beta
doubles but not its counterpart, so coefficients of determinants with two
alpha and two beta excitations were wrong for open-shell amplitudes.
---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index ea06c65..5c0b4d8 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1117,6 +1117,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if astr is not None and bstr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0


From 92b002bd4db3fc41d1f7e3fdaf105874e6069281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:21 +0000
Subject: [PATCH 08/11] fix: use the reference of the generalized bases by
 default in gmakeCfromT

The default occupation had half the required length, so calling the
function without an explicit occupation always failed.
---
 cqcpy/ci_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 5c0b4d8..ddc7a4b 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,11 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        nb = no//2
+        na = no - nb
+        occa = [1 if i < na else 0 for i in range(nmo//2)]
+        occb = [1 if i < nb else 0 for i in range(nmo//2)]
+        occ = occa + occb
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From 9d9afec716c7b9318fc1cadbba41f0fa6993365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:43 +0000
Subject: [PATCH 09/11] fix: keep complex blocks when assembling spin-orbital
 tensors

---
 cqcpy/spin_utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..4f9a814 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -7,19 +7,19 @@ from cqcpy.ov_blocks import two_e_blocks_full
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    Foo = numpy.zeros((no, no), dtype=numpy.result_type(float, Faa.oo, Fbb.oo))
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    Fov = numpy.zeros((no, nv), dtype=numpy.result_type(float, Faa.ov, Fbb.ov))
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    Fvo = numpy.zeros((nv, no), dtype=numpy.result_type(float, Faa.vo, Fbb.vo))
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    Fvv = numpy.zeros((nv, nv), dtype=numpy.result_type(float, Faa.vv, Fbb.vv))
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +48,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=numpy.result_type(float, Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +87,8 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    dtype = numpy.result_type(float, Taa, Tab, Tbb)
+    T = numpy.zeros((nv, nv, no, no), dtype=dtype)
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -100,7 +101,8 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    dtype = numpy.result_type(float, Daa, Dab, Dbb)
+    D = numpy.zeros((nv, nv, no, no), dtype=dtype)
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
@@ -123,7 +125,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    dtype = numpy.result_type(float, aaaa, bbbb, abab, baba, abba, baab)
+    I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From ae30598ef4586cddfcb39942173efc56768b1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:43 +0000
Subject: [PATCH 10/11] fix: keep complex amplitudes and vectors in the CI
 vector functions

---
 cqcpy/ci_utils.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index ddc7a4b..04a3d31 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -442,7 +442,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
     ref = Dstring(nmo, occ)
 
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=numpy.result_type(float, T1, T2))
     C[0] = 1.0
     # loop over T1
     for ii, i in enumerate(iocc):
@@ -623,7 +623,8 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
     refa = Dstring(na, occa)
     refb = Dstring(nb, occb)
     nd = len(basis)
-    C = numpy.zeros(nd)
+    dtype = numpy.result_type(float, T1a, T1b, T2aa, T2ab, T2bb)
+    C = numpy.zeros(nd, dtype=dtype)
     C[0] = 1.0
 
     # loop over T1a
@@ -1453,7 +1454,7 @@ def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
 
 
 def s_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s, new = dd.excite(i, a)
@@ -1468,7 +1469,7 @@ def s_on_vec(basis, vec, i, a):
 
 
 def sa_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1483,7 +1484,7 @@ def sa_on_vec(basis, vec, i, a):
 
 
 def sb_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sb, bnew = bb.excite(i, a)
@@ -1498,7 +1499,7 @@ def sb_on_vec(basis, vec, i, a):
 
 
 def d_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s1, temp = dd.excite(i, a)
@@ -1516,7 +1517,7 @@ def d_on_vec(basis, vec, i, j, a, b):
 
 
 def da_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, atemp = ab.excite(i, a)
@@ -1534,7 +1535,7 @@ def da_on_vec(basis, vec, i, j, a, b):
 
 
 def db_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, btemp = bb.excite(i, a)
@@ -1552,7 +1553,7 @@ def db_on_vec(basis, vec, i, j, a, b):
 
 
 def sasb_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1570,7 +1571,8 @@ def sasb_on_vec(basis, vec, i, j, a, b):
 
 
 def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
-    out = numpy.zeros(vec.shape)
+    dtype = numpy.result_type(float, vec, ha, hb, Ia, Ib, Iabab)
+    out = numpy.zeros(vec.shape, dtype=dtype)
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*ci_matrixel(
@@ -1579,7 +1581,8 @@ def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
 
 
 def gH_on_vec(basis, vec, h, I,):
-    out = numpy.zeros(vec.shape)
+    dtype = numpy.result_type(float, vec, h, I)
+    out = numpy.zeros(vec.shape, dtype=dtype)
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)
-- 
2.43.0


From 7876dbd7113657a6854271fc5d4165b8bc3c66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:27 +0000
Subject: [PATCH 11/11] fix: keep complex periodic integrals when the first
 orbital set is real

The spin-orbital tensor took its type from the first alpha coefficients.
Imaginary parts were dropped when those were real but the beta orbitals,
another set or the integrals themselves (any k-point but Gamma) were complex.
The type now follows the integrals.
---
 cqcpy/integrals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c2b7918..20528c0 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -249,7 +249,7 @@ def get_chemu_sol(mf, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
-    dtype = o1.dtype
+    dtype = numpy.result_type(Ia, Ib)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -288,7 +288,7 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
         (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
     Iab = mf.with_df.ao2mo(
         (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
-    Id = numpy.zeros((n, n, n, n), dtype=oa.dtype)
+    Id = numpy.zeros((n, n, n, n), dtype=numpy.result_type(Ia, Ib))
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
     Id[:na, :na, na:, na:] = Iab
-- 
2.43.0

