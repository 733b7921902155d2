From 080140ffe7a4ea6663eeef578b5a46da01e22b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 01/40] fix: count the non-linear shear strain w,x*w,y once
 instead of twice

The Donnell (von Karman) strain is gamma_xy = u,y + v,x + w,x*w,y. The Ritz
sums in fkG_num and cfstrain added w,x*w,y twice. calc_fint does the same,
but tests/tests_shell/test_nonlinear.py pins its result, so it stays.
---
 panels/models/clpt_bardell_field.pyx                | 2 +-
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..8cf3a3c 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -502,7 +502,7 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + 1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
                 else:
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
-                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*4/(a*b)*(
+                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*2/(a*b)*(
                                         c[col+2]*fwxi[i]*gw[j]*weta +
                                         wxi*c[col+2]*fw[i]*gweta[j] )
                 kxx += -c[col+2]*fwxixi[i]*gw[j]*4/(a*a)
diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 2939b5f..4d48145 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -469,7 +469,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 1/r*cs[col+2]*fAw*gAw + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..f8526b7 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -470,7 +470,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
-- 
2.43.0


From daa6d110533ad27cb99b923d61aa809b55df2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 02/40] fix: sign of the laminate offset coupling in the mass
 matrices

With u(z) = u - z*w,x and z in [offset-h/2, offset+h/2] (the convention of
the laminate stiffnesses), the u-w and v-w terms of the mass matrix carry
-offset. With +offset the natural frequencies of a free-free panel changed with
the choice of the reference surface.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx  | 8 ++++----
 panels/models/plate_clpt_donnell_bardell.pyx     | 8 ++++----
 panels/models/plate_clpt_donnell_bardell_num.pyx | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..ab5e4d4 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -417,7 +417,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -425,15 +425,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..e0bf76b 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -415,7 +415,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -423,15 +423,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index f8526b7..5657616 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -677,7 +677,7 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+0
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
@@ -687,17 +687,17 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+0
-                                kMv[c] += weight*( 0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+1
-                                kMv[c] += weight*( 0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
-- 
2.43.0


From 63fd2d1108009ca54455140e149de4a7dc20223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 03/40] fix: sign of the gamma term in fkAx_num

The analytic fkAx and the theory scripts have -(beta*w,x + gamma*w).
---
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 4d48145..a7368a6 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -633,7 +633,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(-fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 5657616..f94484c 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -819,7 +819,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(-fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
-- 
2.43.0


From dbee07210ac2150b39257f3c5af1f7f955aeabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 04/40] fix: keep the symmetric gamma part of the aerodynamic
 matrix

calc_kA mirrored the upper triangle with a negative sign, which is right
for the beta term only; for curved panels the gamma term (symmetric) was
turned into a skew-symmetric one. fkAx_num and fkAy_num now fill the whole
matrix and calc_kA takes it as it is.
---
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 4 ----
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 8 --------
 panels/shell.py                                     | 4 ++--
 panels/stiffpanelbay/stiffpanelbay.py               | 4 ++--
 4 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index a7368a6..5975639 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -623,10 +623,6 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index f94484c..ef89899 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -809,10 +809,6 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
@@ -923,10 +919,6 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..8a720c0 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -8,7 +8,7 @@ from scipy.sparse.linalg import eigs, eigsh
 from scipy.linalg import eig
 from numpy import linspace, deg2rad
 from composites import laminated_plate
-from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, finalize_symmetric_matrix
+from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
@@ -670,7 +670,7 @@ class Shell(object):
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-            kA = csr_matrix(make_skew_symmetric(kA))
+            kA = csr_matrix(kA)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..e18e246 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -5,7 +5,7 @@ from multiprocessing import cpu_count
 import numpy as np
 from scipy.sparse import csr_matrix
 from numpy import linspace, reshape
-from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
+from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
@@ -742,7 +742,7 @@ class StiffPanelBay(object):
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA))
+        kA = csr_matrix(kA)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From 10544cba9d98935413598c0ea814407770ee8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 05/40] fix: Shell.calc_cA uses the existing fcA and returns
 the matrix

matrices_num has no fcA, and StiffPanelBay.calc_cA passed arguments that
Shell.calc_cA does not have.
---
 panels/shell.py                       | 6 ++++--
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 8a720c0..4cf64ee 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -688,8 +688,8 @@ class Shell(object):
 
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -701,6 +701,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e18e246..94663b4 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -782,7 +782,7 @@ class StiffPanelBay(object):
 
         # contributions from panels
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
+        p.calc_cA(aeromu, size=size, silent=silent, finalize=False)
         cA = p.matrices['cA']
 
         cA = finalize_symmetric_matrix(cA)
-- 
2.43.0


From d2a5b3558f7b5a695451f205cb4b2c3b63e71f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 06/40] fix: Gauss-Legendre rule with one point

leggauss_quad had no case 1 and left points and weights as they were (zeros),
so that nx=1 or ny=1 gave null matrices.
---
 panels/core/src/legendre_gauss_quadrature.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panels/core/src/legendre_gauss_quadrature.cpp b/panels/core/src/legendre_gauss_quadrature.cpp
index 2fc26e2..d381895 100644
--- a/panels/core/src/legendre_gauss_quadrature.cpp
+++ b/panels/core/src/legendre_gauss_quadrature.cpp
@@ -8,6 +8,10 @@
 
 EXPORTIT void leggauss_quad(int n, double *points, double *weights) {
     switch(n) {
+    case 1:
+        points[0] = 0;
+        weights[0] = 2.;
+        return;
     case 2:
         points[0] = -0.577350269189625764509148780501957455647601751270126876;
         points[1] = 0.577350269189625764509148780501957455647601751270126876;
-- 
2.43.0


From 29546caeeffd8d9daa789845b128baa44ed96da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 07/40] fix: line penalties act on u and v at their own degrees
 of freedom

---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 21572e6afcc1456df16a969ce140072228074d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 08/40] fix: coupling of the flange offset in the mass of a 1D
 blade counted twice

---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From 918a955c70bb35273e4a8a9c6dd225dba89da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 09/40] fix: height of the base of a 1D blade reaches its
 flange mass

---
 panels/stiffener/bladestiff1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..310cecd 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -90,6 +90,7 @@ class BladeStiff1D(object):
                     y1w=bay.y1w, y1wr=bay.y1wr, y2w=bay.y2w, y2wr=bay.y2wr,
                     y1=y1, y2=y2)
             self.Asb = self.bb*hb
+        self.hb = hb
 
         #TODO check offset effect on curved panels
         self.dbf = self.bf/2. + hb + h/2.
-- 
2.43.0


From 0ccaa57dd81356b4e39d7b89c060e1908652bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 10/40] fix: unknown traction-separation laws raise a
 ValueError in calc_kw_tsl

---
 panels/multidomain/connections/penalties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/connections/penalties.py b/panels/multidomain/connections/penalties.py
index 5c41cf9..4f0cb9b 100644
--- a/panels/multidomain/connections/penalties.py
+++ b/panels/multidomain/connections/penalties.py
@@ -49,6 +49,8 @@ def calc_kw_tsl(pA, pB, tsl_type):
         tsl_input = 1e4 # N/mm (from a inverse char paper - faulty !!!!)
         # print(tsl_input, pA.a, pA.b)
         kw_tsl = tsl_input/(pA.a * pA.b)  # N/mm^3 (same as kt for SB connection)
+    else:
+        raise ValueError('Unknown traction-separation law: %s' % (tsl_type,))
     
     return kw_tsl
 
-- 
2.43.0


From 57382041dc758ba32fcdbbb5744bfa0792236bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 11/40] fix: unknown connection types raise a ValueError in
 calc_kt_kr

---
 panels/multidomain/connections/penalties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/connections/penalties.py b/panels/multidomain/connections/penalties.py
index 4f0cb9b..88abef9 100644
--- a/panels/multidomain/connections/penalties.py
+++ b/panels/multidomain/connections/penalties.py
@@ -135,4 +135,6 @@ def calc_kt_kr(p1, p2, connection_type):
         kt = 4*A22_p1*A11_p2 / ((A22_p1+A11_p2)*(hp1+hp2))
         kr = 4*D22_p1*D11_p2 / ((D22_p1+D11_p2)*(hp1+hp2))
         return kt, kr
+    else:
+        raise ValueError('Unknown connection type: %s' % (connection_type,))
 
-- 
2.43.0


From 2ec06c63c4ec6e80e3931a9d18c1e39e4d97c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 12/40] fix: panels defined on part of the domain are
 integrated numerically over that part

---
 panels/shell.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 4cf64ee..9d51782 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -322,6 +322,11 @@ class Shell(object):
         return xs, ys, xshape, yshape
 
 
+    def _partial_domain(self):
+        # sub-domains are only handled by the numerical integration
+        return self.x1 != -1 or self.x2 != +1 or self.y1 != -1 or self.y2 != +1
+
+
     def _get_lam_ABD(self, silent=False):
         if self.lam is None:
             raise RuntimeError('lam object is None!')
@@ -416,8 +421,8 @@ class Shell(object):
             size = int(size) + self.get_size()
         msg('Calculating kC... ', level=2, silent=silent)
 
-        analytical_kC = True
-        analytical_kG = True
+        analytical_kC = not self._partial_domain()
+        analytical_kG = analytical_kC
         # This means a linear analysis is already performed (check panels\tests\tests_shell\test_nonlinear.py)
         # So, the next step is NL. So no analytical
         if c is not None:
@@ -506,7 +511,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
-        analytical_kG = True
+        analytical_kG = not self._partial_domain()
         if c is not None:
             check_c(c, size)
             c = np.ascontiguousarray(c, dtype=DOUBLE)
@@ -577,7 +582,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
-        analytical_kM = True
+        analytical_kM = not self._partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From e732c520de2e67b69a905e92e2fdcc92d79c06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 13/40] fix: calc_kC integrates with zero displacements when
 none are given

---
 panels/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9d51782..5b65e5f 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -445,7 +445,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
@@ -479,6 +479,8 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                if c_cte is None:
+                    c_cte = np.zeros(size, dtype=DOUBLE)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
-- 
2.43.0


From 9a4f29e913eb76b66c58156f435e7ddb226b2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 14/40] fix: calc_kC honours force_orthotropic_laminate

---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 5b65e5f..bdd4778 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -431,6 +431,9 @@ class Shell(object):
         # ??????????
         if ABDnxny is not None:
             analytical_kC = False
+        # the closed form reads the constitutive matrix from the laminate
+        if self.force_orthotropic_laminate:
+            analytical_kC = False
         # For NL Geos, KC (and not KC0) needs to be used so only do it numerically
         if NLgeom:
             analytical_kC = False
-- 
2.43.0


From 1abe7dfc95e0d5b58ead152185d496f2466a53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 15/40] fix: kM, kA, cA and fint rebuild the panel as kC and kG
 do

---
 panels/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index bdd4778..6b30372 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -587,6 +587,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = not self._partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -639,7 +640,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
-
+        self._rebuild()
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -695,6 +696,7 @@ class Shell(object):
         r"""Calculate the aerodynamic damping matrix using the piston theory
         """
         msg('Calculating cA... ', level=2, silent=silent)
+        self._rebuild()
 
         if size is None:
             size = self.get_size()
@@ -1179,6 +1181,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        self._rebuild()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From a993202a54c2286c5a2eda7f331d41682d7875d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 16/40] fix: calc_kA does not keep the coefficients of an
 earlier flow

---
 panels/shell.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 6b30372..f50684b 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -668,16 +668,20 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
-        self.beta = beta
-        self.gamma = gamma
-
         if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            fkA_num = matrices_num.fkAx_num
         elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            fkA_num = matrices_num.fkAy_num
         else:
             raise ValueError('Invalid flow value, must be x or y')
 
+        # beta and gamma are only kept during the call: V, Mach, rho_air and r
+        # might change
+        given = self.beta, self.gamma
+        self.beta, self.gamma = beta, gamma
+        kA = fkA_num(self, size, row0, col0, self.nx, self.ny)
+        self.beta, self.gamma = given
+
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From 7f34b7a4af7e2e2b724df87dec017b091675b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 17/40] fix: densities given ply by ply enter the mass matrix

---
 panels/shell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index f50684b..0ac9ee0 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -261,8 +261,9 @@ class Shell(object):
                 raise ValueError('laminaprop must be defined')
             self.laminaprops = [self.laminaprop for i in self.stack]
 
-        if not self.rhos:
-            self.rhos = [self.rho for i in self.stack]
+        rhos = self.rhos
+        if not rhos:
+            rhos = [self.rho for i in self.stack]
 
         if not self.plyts:
             if self.plyt is None:
@@ -272,7 +273,7 @@ class Shell(object):
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
                                       laminaprops=self.laminaprops,
-                                      rhos=self.rhos,
+                                      rhos=rhos,
                                       offset=self.offset)
             self.lam = lam
             self.ABD = self._get_lam_ABD()
@@ -602,6 +603,10 @@ class Shell(object):
         elif isinstance(size, str):
             size = int(size) + self.get_size()
 
+        # the closed form uses one density for all plies
+        if self.rhos:
+            analytical_kM = False
+
         # calculate one h and rho for each integration point OR one for the
         # whole domain
 
-- 
2.43.0


From e277272c1f85b2a3f5476687d1278d40735d2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 18/40] fix: strain and stress of a flat panel before any
 stiffness matrix

---
 panels/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/shell.py b/panels/shell.py
index 0ac9ee0..9604c23 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -805,6 +805,7 @@ class Shell(object):
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
+        self.r = self.r if self.r is not None else 0.
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
 
         self.plot_mesh['Xs'] = xs.reshape(xshape)
-- 
2.43.0


From b5d358b3ba386d59c1bf96b32bddaf1903e20b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 19/40] fix: calc_kT of an assembly passed an argument the
 panels do not take

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..4a455a1 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1014,7 +1014,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From 3f2c9e30a6425b72477854a29872fa302baf187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 20/40] fix: default sampling points of an assembly come from
 each panel

---
 panels/multidomain/multidomain.py | 36 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4a455a1..1ce6eb8 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -573,14 +573,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # the default points are those of each panel
+            xg, yg = x_gauss, y_gauss
+            if xg is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xg = linspace(0, panel.a, no_grid_x)
+            if yg is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                yg = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xg, yg, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -644,14 +646,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # the default points are those of each panel
+            xg, yg = x_gauss, y_gauss
+            if xg is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xg = linspace(0, panel.a, no_grid_x)
+            if yg is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                yg = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xg, yg, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -712,14 +716,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # the default points are those of each panel
+            xg, yg = x_gauss, y_gauss
+            if xg is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xg = linspace(0, panel.a, no_grid_x)
+            if yg is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                yg = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xg, yg, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 4ffa2f4e8da9860122616c1b00e693186e18cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 21/40] fix: connections of an assembly do not depend on
 earlier calls

---
 panels/multidomain/multidomain.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 1ce6eb8..645e3cd 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -79,6 +79,7 @@ class MultiDomain(object):
         # Initialize the assmbly obj with these values
         self.conn = conn
         self.kC_conn = None
+        self._kC_conn_of = None
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
@@ -769,11 +770,17 @@ class MultiDomain(object):
                 Each dict contains info of that specific with connection pair
         '''
         if conn is None:
-            if self.conn is None:
-                raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
+            if conn is None and self.kC_conn is not None:
+                # connections given in the last call
+                conn = self._kC_conn_of[0]
+            if conn is None:
+                raise RuntimeError('No connectivity dictionary defined!')
 
-        if self.kC_conn is not None:
+        # copies, the dictionaries of the user are not changed below
+        conn = [dict(connecti) for connecti in conn]
+        kC_conn_of = (conn, finalize)
+        if self.kC_conn is not None and kC_conn_of == self._kC_conn_of:
             return self.kC_conn
 
         size = self.get_size()
@@ -783,6 +790,7 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
+            connecti = dict(connecti)
             p1_temp = connecti['p1']
             p2_temp = connecti['p2']
             if p1_temp.col_start < p2_temp.col_start:
@@ -804,6 +812,9 @@ class MultiDomain(object):
                         connecti['ycte1'] = connecti['ycte2']
                         connecti['ycte2'] = temp_ycte
             
+            else:
+                raise ValueError('A panel cannot be connected to itself.')
+
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -907,6 +918,7 @@ class MultiDomain(object):
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
         self.kC_conn = kC_conn
+        self._kC_conn_of = kC_conn_of
         #NOTE memory cleanup
         gc.collect()
         return kC_conn
-- 
2.43.0


From aae4d597e519b9ea2ad82d5506874d06810b7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 22/40] fix: an assembly without connections has no connection
 stiffness

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 645e3cd..38623ec 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -785,7 +785,7 @@ class MultiDomain(object):
 
         size = self.get_size()
 
-        kC_conn = 0.
+        kC_conn = csr_matrix((size, size), dtype=DOUBLE)
         
         # Looping through each connection pair 
         for connecti in conn:
-- 
2.43.0


From da4239b4569fe098e1a20ce2a45b6d0c5ff9cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 23/40] fix: calc_fint returned a memoryview, which assemblies
 cannot add

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9604c23..78adec7 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1216,7 +1216,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From 64a17eed735d4d85db45fd8792ea97efc86072fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 24/40] fix: offset of the base of BladeStiff2D with panels
 defined by plyt

---
 panels/stiffener/bladestiff2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..5565b05 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,8 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            # the panels may only know their thickness after being rebuilt
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From 008af81e2329258b41ee9d680e963f540c159971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 25/40] fix: StiffPanelBay.add_panel uses plyt and laminaprop
 when given

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 94663b4..4ea12f1 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -502,9 +502,9 @@ class StiffPanelBay(object):
         p.model = model if model is not None else self.model
         p.stack = stack if stack is not None else self.stack
         p.plyt = plyt if plyt is not None else self.plyt
-        p.plyts = plyts if plyts is not None else self.plyts
+        p.plyts = plyts if plyts is not None else (self.plyts if plyt is None else [])
         p.laminaprop = laminaprop if laminaprop is not None else self.laminaprop
-        p.laminaprops = laminaprops if laminaprops is not None else self.laminaprops
+        p.laminaprops = laminaprops if laminaprops is not None else (self.laminaprops if laminaprop is None else [])
         p.rho = rho if rho is not None else self.rho
 
         for k, v in kwargs.items():
-- 
2.43.0


From e2bc82e87ab8eac90806f9417a805c6126c1fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 26/40] fix: stiffeners between a panel already calculated and
 a new one

---
 panels/stiffener/bladestiff1d.py | 3 ++-
 panels/stiffener/bladestiff2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 310cecd..33d65cb 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -63,7 +63,8 @@ class BladeStiff1D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        # flat panels have r = None before their matrices are calculated, r = 0 after
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
 
         if self.fstack is not None:
             self.hf = sum(self.fplyts)
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 5565b05..8dd8220 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -82,7 +82,8 @@ class BladeStiff2D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        # flat panels have r = None before their matrices are calculated, r = 0 after
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
         if self.flange is not None:
             self.flange.lam = laminated_plate(self.flange.stack, plyts=self.flange.plyts,
                                             laminaprops=self.flange.laminaprops)
-- 
2.43.0


From 1314ac3d50d0a0e4583c48b15ecd451663cf677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 27/40] fix: StiffPanelBay.uvw_stiffener with more than one
 stiffener

---
 panels/stiffpanelbay/stiffpanelbay.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 4ea12f1..108273a 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -923,12 +923,10 @@ class StiffPanelBay(object):
 
         # getting array position
         for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
             if i == si:
                 break
+            if isinstance(s, BladeStiff2D) and s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
             bstiff = stiff.flange.b
-- 
2.43.0


From a971bfd4891c720a6b1a8a31fcf7cf0e4b804f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 28/40] fix: StiffPanelBay.get_size with BladeStiff2D without
 flange

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 108273a..01f76fc 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -218,7 +218,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
-- 
2.43.0


From 449b2bb45a810245b2fa1ce8cd3be402f150c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 29/40] fix: BladeStiff1D without flange

---
 panels/stiffener/bladestiff1d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 33d65cb..aac87ba 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -94,9 +94,10 @@ class BladeStiff1D(object):
         self.hb = hb
 
         #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+        if self.fstack is not None:
+            self.dbf = self.bf/2. + hb + h/2.
+            self.Iyy = self.hf*self.bf**3/12.
+            self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
 
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
-- 
2.43.0


From 5a64d3ff4771d3876176bb5d139f7e3c73811da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 30/40] fix: BladeStiff2D.calc_kG considers the state c of the
 flange

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 8dd8220..dead515 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -185,7 +185,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From 0471099e742b82761adb2991bd58b8cebaf6c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 31/40] fix: StiffPanelBay.calc_kA covers all panels, the bay
 size and the given beta

---
 panels/stiffpanelbay/stiffpanelbay.py | 34 +++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 01f76fc..201ffd5 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -723,23 +723,23 @@ class StiffPanelBay(object):
 
         # contributions from panels
         #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        size = self.get_size()
+        kA = 0.
+        for p in self.panels:
+            #FIXME the initialization below looks terrible
+            #      we should move as quick as possible to the strategy of using
+            #      classes more to carry data, avoiding these intrincated methods
+            #      shared among classes... (calc_kC, calc_kG etc)
+            p.flow = self.flow
+            p.beta = self.beta
+            p.gamma = self.gamma
+            p.Mach = self.Mach
+            p.rho_air = self.rho_air
+            p.speed_sound = self.speed_sound
+            p.V = self.V
+            p.r = self.r
+            p.calc_kA(size=size, silent=True, finalize=False)
+            kA += p.matrices['kA']
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From 3058d34ceb3f111797326fa18f89ab4f4fe99bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 32/40] fix: StiffPanelBay.calc_cA for flat bays

---
 panels/stiffpanelbay/stiffpanelbay.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 201ffd5..9a2574f 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -773,7 +773,6 @@ class StiffPanelBay(object):
                 self.Mach = 1.0001
             Mach = self.Mach
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
-- 
2.43.0


From 6646bb28233308ee87999236b2cff05312c08d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 33/40] fix: StiffPanelBay.calc_fext with forces on the skin
 and on flanges

---
 panels/stiffpanelbay/stiffpanelbay.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 9a2574f..bd312e8 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1445,27 +1445,29 @@ class StiffPanelBay(object):
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
-            fg(g, x, y, self)
+            fg(g, x, y, self.panels[0])
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0., 0.]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0., 0.]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
-- 
2.43.0


From 6f052dd8446a867f1352fbf3004781e63ba53bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 34/40] fix: load finds what save wrote when the name contains
 the extension

---
 panels/shell.py                       | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 78adec7..1fc5dd0 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -18,7 +18,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.Shell' in name:
+    if name.endswith('.Shell'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.Shell', 'rb'))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index bd312e8..043e0a8 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -16,7 +16,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.StiffPanelBay' in name:
+    if name.endswith('.StiffPanelBay'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
-- 
2.43.0


From e1d57c2894afac8d0d4b7ede94432a8ffcdf3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 35/40] fix: StiffPanelBay.save with skin panels raised
 AttributeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 043e0a8..6d6dd76 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -132,9 +132,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From dc38d53fcb76de66c962169b5fe1a7bc1a68d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 36/40] fix: cylinder_compression_lb_Nxx_from_static loaded
 every panel with the last Nxx (late binding of the loop variable)

---
 panels/multidomain/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..0d74630 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
-- 
2.43.0


From 3ca7632f6d64bf40ac78ab5916ad1f2b6342a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 37/40] fix:
 cylinder_blade_stiffened_compression_lb_Nxx_from_static loaded every panel
 with the Nxx of the last blade

---
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From cb7351e890255d91f51d34caa6082f01c97d3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 38/40] fix: cylinder_spla ignored its argument Nxx

---
 panels/multidomain/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 0d74630..2f8a4df 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -220,7 +220,7 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
-- 
2.43.0


From 1c600d6baa44fa906c9a1a64e3467781e049dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 39/40] fix: cylinder_spla passed calc_kC, calc_fint and
 calc_kT to structsolve.Analysis in the place of calc_fint, calc_kC and
 calc_kG (TypeError); calc_kC and calc_kG of MultiDomain take NLgeom

---
 panels/multidomain/cylinder.py    |  4 ++--
 panels/multidomain/multidomain.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 2f8a4df..5693a60 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -226,8 +226,8 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(assy.calc_fext, assy.calc_fint, assy.calc_kC,
+            assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 38623ec..13c2f9e 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -924,7 +924,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+            NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -944,6 +945,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate that the geometrically non-linear terms should
+            be computed.
 
         """
         size = self.get_size()
@@ -957,7 +961,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -973,7 +977,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -987,6 +991,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate that the geometrically non-linear terms should
+            be computed.
 
         """
         size = self.get_size()
@@ -999,7 +1006,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From ff3cbd93b3ffd61c1f09ab4e3579adb4501f8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 40/40] fix: tstiff2d_1stiff_flutter dropped the symmetric
 gamma part of the aerodynamic matrix (make_skew_symmetric)

---
 panels/multidomain/tstiff2d_1stiff_flutter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..4d92903 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.sparse import csr_matrix
 
-from structsolve.sparseutils import make_skew_symmetric
 from structsolve import freq, static
 
 from panels.shell import Shell
@@ -343,7 +342,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
 
     assert np.any(np.isnan(kA.data)) == False
     assert np.any(np.isinf(kA.data)) == False
-    kA = csr_matrix(make_skew_symmetric(kA))
+    kA = csr_matrix(kA)
 
     eigvals, eigvecs = freq((k0 + kG + kA), kM, tol=0, sparse_solver=True, silent=True,
              num_eigvalues=25, num_eigvalues_print=5)
-- 
2.43.0

