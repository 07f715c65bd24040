From 245fea84978dd3cb61dc10fdb3961f951110fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:36 +0000
Subject: [PATCH 001/157] fix: ParametricSplineMap.deriv for normal='x', the
 top spline in 3D and models not transformed before

---
 simpeg/maps/_parametric.py | 62 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 4837b7c..877756f 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -950,11 +950,14 @@ class ParametricSplineMap(IdentityMap):
         if self.mesh.dim == 2:
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
+            spl = UnivariateSpline(self.pts, c, k=self.order, s=0)
 
             if self.normal == "x":
-                f = self.spl(Y) - X
+                x_spl = Y
+                f = spl(Y) - X
             elif self.normal == "y":
-                f = self.spl(X) - Y
+                x_spl = X
+                f = spl(X) - Y
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
         # 3D
@@ -966,9 +969,9 @@ class ParametricSplineMap(IdentityMap):
             if self.normal == "x":
                 zb = self.ptsv[0]
                 zt = self.ptsv[1]
-                flines = (self.spl["splt"](Y) - self.spl["splb"](Y)) * (Z - zb) / (
-                    zt - zb
-                ) + self.spl["splb"](Y)
+                splb = UnivariateSpline(self.pts, c[: self.npts], k=self.order, s=0)
+                splt = UnivariateSpline(self.pts, c[self.npts :], k=self.order, s=0)
+                flines = (splt(Y) - splb(Y)) * (Z - zb) / (zt - zb) + splb(Y)
                 f = flines - X
             # elif self.normal =='Y':
             # elif self.normal =='Z':
@@ -984,25 +987,22 @@ class ParametricSplineMap(IdentityMap):
 
         if self.mesh.dim == 2:
             g3 = np.zeros((self.mesh.nC, self.npts))
-            if self.normal == "y":
-                # Here we use perturbation to compute sensitivity
-                # TODO: bit more generalization of this ...
-                # Modfications for X and Z directions ...
-                for i in range(np.size(self.pts)):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-                    spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
-                    splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
-                    fderiv = (spla(X) - splb(X)) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
+            # Here we use perturbation to compute sensitivity
+            for i in range(np.size(self.pts)):
+                ctemp = c[i]
+                ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
+                ca = c.copy()
+                cb = c.copy()
+                dy = self.mesh.h[1][ind] * 1.5
+                ca[i] = ctemp + dy
+                cb[i] = ctemp - dy
+                spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
+                splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
+                fderiv = (spla(x_spl) - splb(x_spl)) / (2 * dy)
+                g3[:, i] = (
+                    sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
+                    * fderiv
+                )
 
         elif self.mesh.dim == 3:
             g3 = np.zeros((self.mesh.nC, self.npts * 2))
@@ -1026,12 +1026,12 @@ class ParametricSplineMap(IdentityMap):
                             self.pts, cb[: self.npts], k=self.order, s=0
                         )
                         flinesa = (
-                            (self.spl["splt"](Y) - splba(Y)) * (Z - zb) / (zt - zb)
+                            (splt(Y) - splba(Y)) * (Z - zb) / (zt - zb)
                             + splba(Y)
                             - X
                         )
                         flinesb = (
-                            (self.spl["splt"](Y) - splbb(Y)) * (Z - zb) / (zt - zb)
+                            (splt(Y) - splbb(Y)) * (Z - zb) / (zt - zb)
                             + splbb(Y)
                             - X
                         )
@@ -1042,17 +1042,13 @@ class ParametricSplineMap(IdentityMap):
                             self.pts, ca[self.npts :], k=self.order, s=0
                         )
                         spltb = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
+                            self.pts, cb[self.npts :], k=self.order, s=0
                         )
                         flinesa = (
-                            (self.spl["splt"](Y) - splta(Y)) * (Z - zb) / (zt - zb)
-                            + splta(Y)
-                            - X
+                            (splta(Y) - splb(Y)) * (Z - zb) / (zt - zb) + splb(Y) - X
                         )
                         flinesb = (
-                            (self.spl["splt"](Y) - spltb(Y)) * (Z - zb) / (zt - zb)
-                            + spltb(Y)
-                            - X
+                            (spltb(Y) - splb(Y)) * (Z - zb) / (zt - zb) + splb(Y) - X
                         )
                     fderiv = (flinesa - flinesb) / (2 * dy)
                     g3[:, i] = (
-- 
2.43.0


From 2743fbff18921311270c8b38f0e6da605dade11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 002/157] fix: ParametricPolyMap.deriv in 3D uses the
 coefficient ordering of the transform

---
 simpeg/maps/_parametric.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 877756f..b4c2bf2 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -646,27 +646,33 @@ class ParametricPolyMap(IdentityMap):
             if self.normal == "x":
                 f = (
                     polynomial.polyval2d(
-                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        Y,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - X
                 )
-                V = polynomial.polyvander2d(Y, Z, self.order)
+                V = polynomial.polyvander2d(Z, Y, self.order[::-1])
             elif self.normal == "y":
                 f = (
                     polynomial.polyval2d(
-                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Y
                 )
-                V = polynomial.polyvander2d(X, Z, self.order)
+                V = polynomial.polyvander2d(Z, X, self.order[::-1])
             elif self.normal == "z":
                 f = (
                     polynomial.polyval2d(
-                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Y,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Z
                 )
-                V = polynomial.polyvander2d(X, Y, self.order)
+                V = polynomial.polyvander2d(Y, X, self.order[::-1])
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
 
-- 
2.43.0


From 8174bdc6d2d245c101659d43ab500b8fc7739557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 003/157] fix: SumMap.deriv(m, v) no longer accumulates into
 the vector it was given

---
 simpeg/maps/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 9369f1f..239838e 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -856,7 +856,7 @@ class SumMap(ComboMap):
             if ii == 0:
                 sumDeriv = deriv
             else:
-                sumDeriv += deriv
+                sumDeriv = sumDeriv + deriv
 
         return sumDeriv
 
-- 
2.43.0


From 37ba74568ceaae34a5c11c628faf9f0f9244d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 004/157] fix: LogisticSigmoidMap and Weighting deriv(m, v) for
 a matrix v (used by SumMap.deriv)

---
 simpeg/maps/_property_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index 44c3eb1..c2e756d 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -451,7 +451,7 @@ class LogisticSigmoidMap(IdentityMap):
         sigmoid = expit(mkvc(m))
         deriv = (self.upper_bound - self.lower_bound) * sigmoid * (1.0 - sigmoid)
         if v is not None:
-            return deriv * v
+            return sdiag(deriv) * v
         return sdiag(deriv)
 
     @property
@@ -832,7 +832,7 @@ class Weighting(IdentityMap):
             the vector *v*.
         """
         if v is not None:
-            return self.weights * v
+            return self.P * v
         return self.P
 
 
-- 
2.43.0


From aa37056c98c7d84ca67ed06e99b468c8473438b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 005/157] fix: SurjectVertical1D on a 1D mesh

---
 simpeg/maps/_surjection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index edcfa1f..889f5ab 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -174,7 +174,7 @@ class SurjectVertical1D(IdentityMap):
         return int(self.mesh.vnC[self.mesh.dim - 1])
 
     def _transform(self, m):
-        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1])
+        repNum = int(np.prod(self.mesh.vnC[: self.mesh.dim - 1]))
         return mkvc(m).repeat(repNum)
 
     def deriv(self, m, v=None):
@@ -210,7 +210,7 @@ class SurjectVertical1D(IdentityMap):
             input argument *v* is not ``None``, the method returns the derivative times
             the vector *v*.
         """
-        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1])
+        repNum = int(np.prod(self.mesh.vnC[: self.mesh.dim - 1]))
         repVec = sp.csr_matrix(
             (np.ones(repNum), (range(repNum), np.zeros(repNum))), shape=(repNum, 1)
         )
-- 
2.43.0


From 9c19867c38c309363789b337d6c688450c7542ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:45 +0000
Subject: [PATCH 006/157] fix: ComboMap.deriv takes matrix products, also for
 the dense matrix of a LinearMap

---
 simpeg/maps/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 239838e..62250f6 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -522,14 +522,11 @@ class ComboMap(IdentityMap):
             \frac{\partial \mathbf{f_1}}{\partial \mathbf{m}}
         """
 
-        if v is not None:
-            deriv = v
-        else:
-            deriv = 1
-
+        deriv = v
         mi = m
         for map_i in reversed(self.maps):
-            deriv = map_i.deriv(mi) * deriv
+            deriv_i = map_i.deriv(mi)
+            deriv = deriv_i if deriv is None else deriv_i @ deriv
             mi = map_i * mi
         return deriv
 
-- 
2.43.0


From 4fe40a3fdefacfc0b42e72233ae4490125317549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:45 +0000
Subject: [PATCH 007/157] fix: SphericalSystem keeps a copy of the model its
 cached derivative belongs to

---
 simpeg/maps/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 62250f6..402e234 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -928,7 +928,7 @@ class SphericalSystem(IdentityMap):
         if getattr(self, "_sphericalDeriv", None) is None or not all(
             self.model == model
         ):
-            self.model = model
+            self.model = model.copy()
 
             # Do a double projection to make sure the parameters are bounded
             m_xyz = mat_utils.spherical2cartesian(model.reshape((-1, 3), order="F"))
-- 
2.43.0


From 4116776b1c51d8fb0075876f350efa7f142bfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:19 +0000
Subject: [PATCH 008/157] fix: TileMap.nP is the number of columns of the map

---
 simpeg/maps/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 402e234..8731a7f 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -1220,7 +1220,7 @@ class TileMap(IdentityMap):
         self._components = validate_integer("components", components, min_val=1)
 
         # trigger creation of P
-        self.P
+        self._nP = self.P.shape[1]
 
     @property
     def global_mesh(self):
-- 
2.43.0


From 05b1938a02dca557dd0d04a06c6ae1d8531e2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 009/157] fix: getJtJdiag of the DC, IP, FDEM, NSEM 1D and
 layered EM simulations no longer returns the diagonal of an earlier W (or
 model)

---
 simpeg/electromagnetics/base_1d.py            | 40 +++++++++----------
 .../frequency_domain/simulation.py            | 17 +++-----
 .../natural_source/simulation_1d.py           | 30 +++++++-------
 .../static/induced_polarization/simulation.py | 15 +++----
 .../static/resistivity/simulation.py          | 20 +++++-----
 5 files changed, 54 insertions(+), 68 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 41ae772..500b90b 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -637,24 +637,22 @@ class BaseEM1DSimulation(BaseSimulation):
         return delta
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self._getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-            out = 0.0
-            if self.hMap is not None:
-                J = Js["dh"] @ self.hDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.sigmaMap is not None:
-                J = Js["ds"] @ self.sigmaDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.muMap is not None:
-                J = Js["dmu"] @ self.muDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["dthick"] @ self.thicknessesDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = out
-        return self._gtgdiag
+        Js = self._getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+        out = 0.0
+        if self.hMap is not None:
+            J = Js["dh"] @ self.hDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.sigmaMap is not None:
+            J = Js["ds"] @ self.sigmaDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.muMap is not None:
+            J = Js["dmu"] @ self.muDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.thicknessesMap is not None:
+            J = Js["dthick"] @ self.thicknessesDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        return out
diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 179a32c..75c4f36 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -424,19 +424,14 @@ class BaseFDEMSimulation(BaseEMSimulation):
         """
         self.model = m
 
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
-
-            diag = np.einsum("i,ij,ij->j", W, J, J)
-
-            self._gtgdiag = diag
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     # @profile
     def getSourceTerm(self, freq):
diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index ef03577..2b9a8ad 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -315,22 +315,20 @@ class Simulation1DRecursive(BaseSimulation):
         return self._Jmatrix
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self.getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-
-            gtgdiag = 0
-            if self.sigmaMap is not None:
-                J = Js["sigma"] @ self.sigmaDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["thick"] @ self.thicknessesDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = gtgdiag
-        return self._gtgdiag
+        Js = self.getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+
+        gtgdiag = 0
+        if self.sigmaMap is not None:
+            J = Js["sigma"] @ self.sigmaDeriv
+            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
+        if self.thicknessesMap is not None:
+            J = Js["thick"] @ self.thicknessesDeriv
+            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
+        return gtgdiag
 
     def Jvec(self, m, v, f=None):
         J = self.getJ(m, f=None)
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 30c7dae..e36b418 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -113,16 +113,13 @@ class BaseIPSimulation(BasePDESimulation):
         return self._pred
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
-            if W is None:
-                W = self._scale**2
-            else:
-                W = (self._scale * W.diagonal()) ** 2
+        J = self.getJ(m, f=f)
+        if W is None:
+            W = self._scale**2
+        else:
+            W = (self._scale * W.diagonal()) ** 2
 
-            self._gtgdiag = np.einsum("i,ij,ij->j", W, J, J)
-
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         return self._scale * super().Jvec(m, v, f)
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index c84939a..5e429fc 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -138,20 +138,18 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         """
         Return the diagonal of JtJ
         """
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-            diag = np.zeros(J.shape[1])
-            for i in range(J.shape[0]):
-                diag += (W[i]) * (J[i] * J[i])
+        diag = np.zeros(J.shape[1])
+        for i in range(J.shape[0]):
+            diag += (W[i]) * (J[i] * J[i])
 
-            self._gtgdiag = diag
-        return self._gtgdiag
+        return diag
 
     def Jvec(self, m, v, f=None):
         """
-- 
2.43.0


From 239ab6527956bd8d4ea2e49d82f04b73ccb059c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 010/157] fix: getJ of the self potential simulation for
 receivers with a single location

---
 simpeg/electromagnetics/static/resistivity/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 5e429fc..a696855 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -249,10 +249,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
                     Jtv += (df_dmT + du_dmT).astype(float)
                 else:
                     iend = istrt + rx.nD
-                    if rx.nD == 1:
-                        Jtv[:, istrt] = df_dmT + du_dmT
-                    else:
-                        Jtv[:, istrt:iend] = df_dmT + du_dmT
+                    Jtv[:, istrt:iend] = np.reshape(df_dmT + du_dmT, (-1, rx.nD))
                     istrt += rx.nD
 
         if v is not None:
-- 
2.43.0


From 9172f8b7f01e20901ed8490a0f63f2ebc1e4f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 011/157] fix: 1D DC simulation of a survey with a single
 electrode offset

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 85d72bd..fdd94a2 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -255,7 +255,7 @@ class Simulation1DLayers(BaseSimulation):
         for i in range(n_r):
             e = np.zeros(n_r)
             e[i] = 1.0
-            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=5)
+            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=min(5, n_r - 1))
             splines.append(sp)
         # As will go from wavenumber to space domain
         As = []
-- 
2.43.0


From a91deb904cd43b1adf0f87a153cee013b348ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 012/157] fix: spectral IP Data (and so Jtvec) uses the data
 ordering of the predicted data

---
 .../spectral_induced_polarization/data.py      | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
index f84e018..807e191 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
@@ -41,14 +41,18 @@ class Data(BaseData):
                 for rx in src.receiver_list:
                     self._index_dictionary[src][rx] = {}
 
-            # loop over sources and find the associated data indices
+            # loop over times and sources and find the associated data indices
+            # (the simulations predict the data of all sources time by time)
             indBot, indTop = 0, 0
-            for src in self.survey.source_list:
-                for rx in src.receiver_list:
-                    for t in rx.times:
-                        indTop += rx.nD
-                        self._index_dictionary[src][rx][t] = np.arange(indBot, indTop)
-                        indBot += rx.nD
+            for t in self.survey.unique_times:
+                for src in self.survey.source_list:
+                    for rx in src.receiver_list:
+                        if t in rx.times:
+                            indTop += rx.nD
+                            self._index_dictionary[src][rx][t] = np.arange(
+                                indBot, indTop
+                            )
+                            indBot += rx.nD
 
         return self._index_dictionary
 
-- 
2.43.0


From a64cc41831a7edaa81dd142f1aad95eda3757bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 013/157] fix: spectral IP Jvec and Jtvec use the properties of
 the model they are given

---
 .../spectral_induced_polarization/simulation.py       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index b0b3344..501613d 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -425,15 +425,18 @@ class BaseSIPSimulation(BaseIPSimulation):
         return JtJdiag
 
     # @profile
+    def _store_properties(self):
+        self._eta_store = self.eta
+        self._taui_store = self.taui
+        self._c_store = self.c
+
     def forward(self, m, f=None):
         if self.verbose:
             print(">> Compute predicted data")
 
         self.model = m
 
-        self._eta_store = self.eta
-        self._taui_store = self.taui
-        self._c_store = self.c
+        self._store_properties()
 
         Jv = []
 
@@ -492,6 +495,7 @@ class BaseSIPSimulation(BaseIPSimulation):
 
     def Jvec(self, m, v, f=None):
         self.model = m
+        self._store_properties()
 
         Jv = []
 
@@ -538,6 +542,7 @@ class BaseSIPSimulation(BaseIPSimulation):
 
     def Jtvec(self, m, v, f=None):
         self.model = m
+        self._store_properties()
 
         # When sensitivity matrix is stored
         if self.storeJ:
-- 
2.43.0


From 10c6ce5a5633be357a2a0c9291ed0c307269e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 014/157] fix: derivative of the DC current density (receivers
 of j) with respect to the model

---
 simpeg/electromagnetics/static/resistivity/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/fields.py b/simpeg/electromagnetics/static/resistivity/fields.py
index 0ef0813..1da3ef4 100644
--- a/simpeg/electromagnetics/static/resistivity/fields.py
+++ b/simpeg/electromagnetics/static/resistivity/fields.py
@@ -141,9 +141,10 @@ class Fields3DCellCentered(FieldsDC):
         return self._MfRhoI * (self._Grad * v)
 
     def _jDeriv_m(self, src, v, adjoint=False):
+        grad_phi = self._Grad * self[src, "phiSolution"]
         if adjoint:
-            return self._Grad.T * self._MfRhoIDeriv(v, adjoint=True)
-        return self._MfRhoIDeriv(self._Grad * v)
+            return self._MfRhoIDeriv(grad_phi, v, adjoint=True)
+        return self._MfRhoIDeriv(grad_phi, v)
 
     def _e(self, phiSolution, source_list):
         r"""
-- 
2.43.0


From 43ac68f0fcfc39ed36fc6266b7773a7d47b5cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 015/157] fix: self potential getJ with a non-linear qMap is
 recomputed for a new model also when storeJ is False

---
 simpeg/electromagnetics/static/self_potential/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/self_potential/simulation.py b/simpeg/electromagnetics/static/self_potential/simulation.py
index 05a657a..8457c65 100644
--- a/simpeg/electromagnetics/static/self_potential/simulation.py
+++ b/simpeg/electromagnetics/static/self_potential/simulation.py
@@ -82,7 +82,7 @@ class Simulation3DCellCentered(dc.Simulation3DCellCentered):
         # When enabling resistivity derivatives, uncomment these lines
         # if self.rhoMap is not None:
         #     return super()._delete_on_model_update
-        if self.storeJ and self.qMap is not None and not self.qMap.is_linear:
+        if self.qMap is not None and not self.qMap.is_linear:
             return ["_Jmatrix", "_gtgdiag"]
         return []
 
-- 
2.43.0


From b1c39e6b86a87bc6a6fd127c6135171329962d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:50 +0000
Subject: [PATCH 016/157] fix: getJtJdiag of the spectral IP simulations

---
 .../spectral_induced_polarization/simulation.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index 501613d..525e238 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -413,15 +413,19 @@ class BaseSIPSimulation(BaseIPSimulation):
         ntime = len(self.survey.unique_times)
         JtJdiag = np.zeros_like(m)
         J = self.getJ(m, f=f)
-        wd = Wd.diagonal().reshape((self.survey.locations_n, ntime), order="F")
+        wd = Wd.diagonal().reshape((self.survey.n_locations, ntime), order="F")
+        self._store_properties()
         for tind in range(ntime):
             t = self.survey.unique_times[tind]
             Jtv = self._P * J.T * sdiag(wd[:, tind])
             JtJdiag += (
-                (self.PetaEtaDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-                + (self.PetaTauiDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-                + (self.PetaCDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-            )
+                (
+                    self.PetaEtaDeriv(t, Jtv, adjoint=True)
+                    + self.PetaTauiDeriv(t, Jtv, adjoint=True)
+                    + self.PetaCDeriv(t, Jtv, adjoint=True)
+                )
+                ** 2
+            ).sum(axis=1)
         return JtJdiag
 
     # @profile
-- 
2.43.0


From 65ca9314027daaf070f55a97a90599074282c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:50 +0000
Subject: [PATCH 017/157] fix: from_dc_to_sip_survey reads the locations and
 currents of the DC sources

---
 .../static/spectral_induced_polarization/survey.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py b/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
index 0fdc0c5..ada405b 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
@@ -128,9 +128,16 @@ def from_dc_to_sip_survey(survey_dc, times):
             receiver_list_sip.append(rx_sip)
 
         if isinstance(src, dc.sources.Pole):
-            src_sip = sources.Pole(receiver_list_sip, src.loc)
+            src_sip = sources.Pole(
+                receiver_list_sip, src.location_a, current=src.current[0]
+            )
         elif isinstance(src, dc.sources.Dipole):
-            src_sip = sources.Dipole(receiver_list_sip, src.loc[0], src.loc[1])
+            src_sip = sources.Dipole(
+                receiver_list_sip,
+                src.location_a,
+                src.location_b,
+                current=src.current[0],
+            )
         else:
             print(src)
             raise NotImplementedError()
-- 
2.43.0


From 1a34682c3cf7b353d6778f448f13215392050c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:50 +0000
Subject: [PATCH 018/157] fix: induced_polarization.Simulation3DCellCentred is
 the 3D simulation

---
 simpeg/electromagnetics/static/induced_polarization/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/__init__.py b/simpeg/electromagnetics/static/induced_polarization/__init__.py
index d185ffd..6e61f8f 100644
--- a/simpeg/electromagnetics/static/induced_polarization/__init__.py
+++ b/simpeg/electromagnetics/static/induced_polarization/__init__.py
@@ -35,4 +35,4 @@ from ..resistivity import sources
 from ..resistivity import utils
 
 Simulation2DCellCentred = Simulation2DCellCentered
-Simulation3DCellCentred = Simulation2DCellCentered
+Simulation3DCellCentred = Simulation3DCellCentered
-- 
2.43.0


From 0274c902f627b8e5028458939112953e9e8e75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:12 +0000
Subject: [PATCH 019/157] fix: miniaturize keeps the source currents and the
 apparent resistivity data type

---
 .../static/resistivity/simulation.py               |  5 ++++-
 .../static/resistivity/simulation_2d.py            |  5 ++++-
 .../electromagnetics/static/resistivity/utils.py   | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index a696855..4ad10e4 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -13,7 +13,7 @@ from ....base import BaseElectricalPDESimulation
 from ....base.pde_simulation import _inner_mat_mul_op
 from .survey import Survey
 from .fields import Fields3DCellCentered, Fields3DNodal
-from .utils import _mini_pole_pole
+from .utils import _mini_data_scale, _mini_pole_pole
 from discretize.utils import make_boundary_bool
 
 
@@ -294,12 +294,15 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             out[self._dipoles[0]] -= d_mini[self._invs[1]]  # AN
             out[self._dipoles[1]] -= d_mini[self._invs[2]]  # BM
             out[self._dipoles[0] & self._dipoles[1]] += d_mini[self._invs[3]]  # BN
+            scale = _mini_data_scale(self.survey)
+            out *= scale.reshape((-1,) + (1,) * (out.ndim - 1))
         else:
             out = d_mini
         return out
 
     def _mini_survey_dataT(self, v):
         if self._mini_survey is not None:
+            v = v * _mini_data_scale(self.survey)
             out = np.zeros(self._mini_survey.nD)
             # Need to use ufunc.at because there could be repeated indices
             # That need to be properly handled.
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 16b591f..ae973db 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -19,7 +19,7 @@ from ....data import Data
 from .survey import Survey
 from .fields_2d import Fields2D, Fields2DCellCentered, Fields2DNodal
 from .fields import FieldsDC, Fields3DCellCentered, Fields3DNodal
-from .utils import _mini_pole_pole
+from .utils import _mini_data_scale, _mini_pole_pole
 from scipy.special import k0e, k1e, k0
 from discretize.utils import make_boundary_bool
 import discretize.base
@@ -460,12 +460,15 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             out[self._dipoles[0]] -= d_mini[self._invs[1]]  # AN
             out[self._dipoles[1]] -= d_mini[self._invs[2]]  # BM
             out[self._dipoles[0] & self._dipoles[1]] += d_mini[self._invs[3]]  # BN
+            scale = _mini_data_scale(self.survey)
+            out *= scale.reshape((-1,) + (1,) * (out.ndim - 1))
         else:
             out = d_mini
         return out
 
     def _mini_survey_dataT(self, v):
         if self._mini_survey is not None:
+            v = v * _mini_data_scale(self.survey)
             out = np.zeros(self._mini_survey.nD)
             # Need to use ufunc.at because there could be repeated indices
             # That need to be properly handled.
diff --git a/simpeg/electromagnetics/static/resistivity/utils.py b/simpeg/electromagnetics/static/resistivity/utils.py
index 3bdec53..ee824da 100644
--- a/simpeg/electromagnetics/static/resistivity/utils.py
+++ b/simpeg/electromagnetics/static/resistivity/utils.py
@@ -126,3 +126,17 @@ def _mini_pole_pole(survey, verbose=False):
     invs = [inv_AM, inv_AN, inv_BM, inv_BN]
     mini_survey = Survey(unique_sources)
     return dipoles, invs, mini_survey
+
+
+def _mini_data_scale(survey):
+    """
+    Factor between the unit current voltages and the data of a survey.
+    """
+    scale = []
+    for source in survey.source_list:
+        for rx in source.receiver_list:
+            factor = np.full(rx.nD, source.current[0])
+            if rx.data_type == "apparent_resistivity":
+                factor = factor / rx.geometric_factor[source]
+            scale.append(factor)
+    return np.hstack(scale)
-- 
2.43.0


From f5d1f57f885273ae514d4d285740cb76af8270e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 020/157] fix: 2D nodal DC sensitivities clear the boundary
 term of an earlier model

---
 .../electromagnetics/static/resistivity/simulation_2d.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index ae973db..a2f3149 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -804,5 +804,13 @@ class Simulation2DNodal(BaseDCSimulation2D):
             AvgCC2Fb = sdiag(alpha * (P_bf @ self.mesh.face_areas)) @ AvgCC2Fb
             self._AvgBC[ky] = AvgN2Fb.T @ AvgCC2Fb
 
+    @property
+    def _clear_on_sigma_update(self):
+        """
+        These matrices are deleted if there is an update to the conductivity
+        model
+        """
+        return super()._clear_on_sigma_update + ["_MBC_sigma"]
+
 
 Simulation2DCellCentred = Simulation2DCellCentered  # UK and US
-- 
2.43.0


From 8389a655cdcb26ccf8ecfdefbedfd553d9c9b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 021/157] fix: 1D DC apparent resistivities of receivers with
 several locations

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index fdd94a2..ec5fa29 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -279,7 +279,7 @@ class Simulation1DLayers(BaseSimulation):
                         if n_off is not None:
                             A[:, i] -= current * splines[i](np.log(n_off)) / n_off
                 if rx.data_type == "apparent_resistivity":
-                    A /= rx.geometric_factor[src]
+                    A /= rx.geometric_factor[src][:, None]
                 As.append(A @ A_dht / (2 * np.pi))
         self._coefficients_set = True
         self._As = np.vstack(As)
-- 
2.43.0


From ca544f3d3f0298cda62334ff5d0ab20106da1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 022/157] fix: spectral IP simulations with storeJ=True

---
 .../static/spectral_induced_polarization/simulation.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index 525e238..df0cb9e 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -382,7 +382,10 @@ class BaseSIPSimulation(BaseIPSimulation):
                     sys.stdout.flush()
                 u_src = f[src, self._solutionType]
                 for rx in src.receiver_list:
-                    P = rx.getP(self.mesh, rx.projGLoc(f)).toarray()
+                    projected_grid = f._GLoc(rx.projField)
+                    if rx.orientation is not None:
+                        projected_grid += rx.orientation
+                    P = rx.getP(self.mesh, projected_grid).toarray()
                     ATinvdf_duT = self.Ainv * (P.T)
                     dA_dmT = self.getADeriv(u_src, ATinvdf_duT, adjoint=True)
                     iend = istrt + rx.nD
-- 
2.43.0


From 24db39ada6c59ce7bbe4895d32fef028e2df91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 023/157] fix: FDEM getJ of receivers whose field depends on
 the model, and source derivatives of one source when several share a
 frequency

---
 .../frequency_domain/simulation.py              | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 75c4f36..928724d 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -378,14 +378,13 @@ class BaseFDEMSimulation(BaseEMSimulation):
                         dRHS_dmT = self.getRHSDeriv(
                             freq, src, ATinvdf_duT, adjoint=True
                         )
-                        du_dmT = -dA_dmT
+                        # one column per datum of the receiver
+                        du_dmT = np.zeros((m_size, rx.nD), dtype=complex)
+                        for term in (-dA_dmT, dRHS_dmT, df_dmT):
+                            if not isinstance(term, Zero):
+                                du_dmT += np.reshape(term, (m_size, -1))
 
-                        if not isinstance(dRHS_dmT, Zero):
-                            du_dmT += dRHS_dmT
-                        if not isinstance(df_dmT[0], Zero):
-                            du_dmT += np.hstack(df_dmT)
-
-                        block = np.array(du_dmT, dtype=complex).real.T
+                        block = du_dmT.real.T
 
                         src_rx_slice = survey_slices[src, rx]
                         Jmatrix[src_rx_slice] = block
@@ -881,7 +880,7 @@ class Simulation3DElectricField(BaseFDEMSimulation):
 
         C = self.mesh.edge_curl
         MfMui = self.MfMui
-        s_m, s_e = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
         MfMuiDeriv = self.MfMuiDeriv(s_m)
 
@@ -1759,7 +1758,7 @@ class Simulation3DCurrentDensity(BaseFDEMSimulation):
         MeMuI = self.MeMuI
         MeMuIDeriv = self.MeMuIDeriv
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
-        s_m, _ = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
 
         if adjoint:
             if self._makeASymmetric:
-- 
2.43.0


From e43d51c7fb5cd089d473934ccabcf39bfff57b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 024/157] fix: line current source terms for wires in the last
 cells of a tensor mesh, and the outside-mesh check on tree meshes

---
 simpeg/electromagnetics/utils/current_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index 698c7a4..e1ec5a4 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -183,9 +183,9 @@ def _poly_line_source_tens(mesh, locs):
         ax = px[ip]
         ay = py[ip]
         az = pz[ip]
-        ix = _findlast(np.logical_and(ax >= x[: nx - 1], ax <= x[1:nx]))
-        iy = _findlast(np.logical_and(ay >= y[: ny - 1], ay <= y[1:ny]))
-        iz = _findlast(np.logical_and(az >= z[: nz - 1], az <= z[1:nz]))
+        ix = _findlast(np.logical_and(ax >= x[:-1], ax <= x[1:]))
+        iy = _findlast(np.logical_and(ay >= y[:-1], ay <= y[1:]))
+        iz = _findlast(np.logical_and(az >= z[:-1], az <= z[1:]))
 
         if (ix < 0) or (iy < 0) or (iz < 0):
             msg = "Polygon vertex (%.1f, %.1f, %.1f) is outside the mesh"
@@ -238,9 +238,9 @@ def _poly_line_source_tens(mesh, locs):
 
             # locate cell id
 
-            ix = _findlast(np.logical_and(cx >= x[: nx - 1], cx <= x[1:nx]))
-            iy = _findlast(np.logical_and(cy >= y[: ny - 1], cy <= y[1:ny]))
-            iz = _findlast(np.logical_and(cz >= z[: nz - 1], cz <= z[1:nz]))
+            ix = _findlast(np.logical_and(cx >= x[:-1], cx <= x[1:]))
+            iy = _findlast(np.logical_and(cy >= y[:-1], cy <= y[1:]))
+            iz = _findlast(np.logical_and(cz >= z[:-1], cz <= z[1:]))
 
             # local coordinates
             hxloc = hx[ix]
@@ -298,11 +298,10 @@ def _poly_line_source_tree(mesh, locs):
     nP = len(points) - 1
     x0 = mesh.x0
     dim = mesh.dim
-    for _ in range(nP + 1):
-        A = points[0]
+    for A in points:
         xF = np.array([mesh.nodes_x[-1], mesh.nodes_y[-1], mesh.nodes_z[-1]])
         if np.any(A < x0) or np.any(A > xF):
-            msg = "Polygon vertex ({.1f}, {.1f}, {.1f}) is outside the mesh".format(*A)
+            msg = "Polygon vertex ({:.1f}, {:.1f}, {:.1f}) is outside the mesh".format(*A)
             raise ValueError(msg)
 
     # Loop over each line segment
-- 
2.43.0


From bb5ac78665ebe2b16d658fd5fdb2068bcd31d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:05 +0000
Subject: [PATCH 025/157] fix: magnetic dipole sources in the HJ formulation
 when the permeability differs from that of the source

---
 .../frequency_domain/sources.py               | 88 ++++++++++---------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index dc66248..854a5be 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -621,55 +621,44 @@ class MagDipole(BaseFDEMSrc):
             Electric source term on mesh.
         """
 
-        if all(np.r_[self.mu] == np.r_[simulation.mu]):
+        if simulation._formulation == "HJ" or all(
+            np.r_[self.mu] == np.r_[simulation.mu]
+        ):
+            # hPrimary is curl free away from the dipole whatever the permeability
+            # is; the permeability contrast is in s_m for the HJ formulation.
             return Zero()
-        else:
-            formulation = simulation._formulation
-
-            if formulation == "EB":
-                mui_s = simulation.mui - 1.0 / self.mu
-                MMui_s = simulation.mesh.get_face_inner_product(mui_s)
-                C = simulation.mesh.edge_curl
-            elif formulation == "HJ":
-                mu_s = simulation.mu - self.mu
-                MMui_s = simulation.mesh.get_edge_inner_product(
-                    mu_s, invert_matrix=True
-                )
-                C = simulation.mesh.edge_curl.T
 
-            return -C.T * (MMui_s * self.bPrimary(simulation))
+        mui_s = simulation.mui - 1.0 / self.mu
+        MMui_s = simulation.mesh.get_face_inner_product(mui_s)
+        C = simulation.mesh.edge_curl
 
-    def s_eDeriv(self, simulation, v, adjoint=False):
-        if not hasattr(simulation, "muMap") or not hasattr(simulation, "muiMap"):
-            return Zero()
-        else:
-            formulation = simulation._formulation
+        return -C.T * (MMui_s * self.bPrimary(simulation))
 
-            if formulation == "EB":
-                mui_s = simulation.mui - 1.0 / self.mu
-                MMui_sDeriv = (
-                    simulation.mesh.get_face_inner_product_deriv(mui_s)(
-                        self.bPrimary(simulation)
-                    )
-                    * simulation.muiDeriv
-                )
-                C = simulation.mesh.edge_curl
+    def s_mDeriv(self, simulation, v, adjoint=False):
+        if simulation._formulation == "HJ":
+            h_p = self.hPrimary(simulation)
+            return (
+                -1j * omega(self.frequency) * simulation.MeMuDeriv(h_p, v, adjoint)
+            )
+        return Zero()
 
-                if adjoint:
-                    return -MMui_sDeriv.T * (C * v)
+    def s_eDeriv(self, simulation, v, adjoint=False):
+        if simulation._formulation == "HJ":
+            return Zero()
 
-                return -C.T * (MMui_sDeriv * v)
+        mui_s = simulation.mui - 1.0 / self.mu
+        MMui_sDeriv = (
+            simulation.mesh.get_face_inner_product_deriv(mui_s)(
+                self.bPrimary(simulation)
+            )
+            * simulation.muiDeriv
+        )
+        C = simulation.mesh.edge_curl
 
-            elif formulation == "HJ":
-                return Zero()
-                # raise NotImplementedError
-                mu_s = simulation.mu - self.mu
-                MMui_s = simulation.mesh.get_edge_inner_product(
-                    mu_s, invert_matrix=True
-                )
-                C = simulation.mesh.edge_curl.T
+        if adjoint:
+            return -MMui_sDeriv.T * (C * v)
 
-                return -C.T * (MMui_s * self.bPrimary(simulation))
+        return -C.T * (MMui_sDeriv * v)
 
 
 class MagDipole_Bfield(MagDipole):
@@ -754,6 +743,23 @@ class MagDipole_Bfield(MagDipole):
 
         return mkvc(b)
 
+    def hPrimary(self, simulation):
+        """Primary magnetic field.
+
+        Parameters
+        ----------
+        simulation : BaseFDEMSimulation
+            SimPEG FDEM simulation
+
+        Returns
+        -------
+        numpy.ndarray
+            The primary magnetic field
+        """
+        if simulation._formulation == "1D":
+            return super().hPrimary(simulation)
+        return 1.0 / self.mu * self.bPrimary(simulation)
+
 
 class CircularLoop(MagDipole):
     """
-- 
2.43.0


From c526953997e6df1765d6a7707decabe9dbb817ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:05 +0000
Subject: [PATCH 026/157] fix: derivatives of secondary magnetic field
 receivers, and fields[:, 'b'] of several sources in the E formulation

---
 simpeg/electromagnetics/frequency_domain/fields.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index d23392e..ef5c947 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -255,6 +255,15 @@ class FieldsFDEM(Fields):
 
         return self._bDeriv(src, du_dm_v, v, adjoint=adjoint)
 
+    def _hSecondaryDeriv(self, src, du_dm_v, v, adjoint=False):
+        r"""
+        Total derivative of the secondary h with respect to the inversion model,
+        see :meth:`_hDeriv`.
+        """
+        # TODO: modify when primary field is dependent on m
+
+        return self._hDeriv(src, du_dm_v, v, adjoint=adjoint)
+
     def _hDeriv(self, src, du_dm_v, v, adjoint=False):
         r"""
         Total derivative of h with respect to the inversion model. Returns
@@ -512,6 +521,7 @@ class Fields3DElectricField(FieldsFDEM):
             if not isinstance(s_m, Zero) and s_m.ndim == 1:
                 s_m = s_m[:, None]
             b[:, i:ii] = b[:, i:ii] + 1.0 / (1j * omega(src.frequency)) * s_m
+            i = ii
         return b
 
     def _bDeriv_u(self, src, du_dm_v, adjoint=False):
-- 
2.43.0


From b9454937d6ea86d41797832fc29cb42cd161474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:22 +0000
Subject: [PATCH 027/157] fix: FDEM getJ of receivers with one datum

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 928724d..d5df4f6 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -367,6 +367,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
 
                     for rx in src.receiver_list:
                         v = np.eye(rx.nD, dtype=float)
+                        if rx.nD == 1:
+                            v = v[:, 0]
 
                         df_duT, df_dmT = rx.evalDeriv(
                             src, self.mesh, f, v=v, adjoint=True
-- 
2.43.0


From ae4ba8873decfd4de450cc4af62bf2a16201e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:22 +0000
Subject: [PATCH 028/157] fix: PrimSecSigma can be constructed

---
 simpeg/electromagnetics/frequency_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 854a5be..5bf1803 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -918,9 +918,9 @@ class PrimSecSigma(BaseFDEMSrc):
             self,
             receiver_list=receiver_list,
             frequency=frequency,
-            _ePrimary=ePrimary,
             **kwargs,
         )
+        self._ePrimary = ePrimary
 
     def s_e(self, simulation):
         return (
-- 
2.43.0


From 485fcb507372bf7292c8ee3037ac4ee809ba0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 029/157] fix: permeability derivative of b in the J
 formulation includes the primary field

---
 simpeg/electromagnetics/frequency_domain/fields.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index ef5c947..d916f1c 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -1465,14 +1465,20 @@ class Fields3DCurrentDensity(FieldsFDEM):
         def s_mDeriv(v):
             return src.s_mDeriv(self.simulation, v, adjoint=adjoint)
 
+        def primaryDeriv(v):
+            # b = Me^{-1} MeMu (hPrimary + hSecondary)
+            return self.simulation.MeMuDeriv(
+                src.hPrimary(self.simulation), v, adjoint
+            )
+
         if adjoint:
             v = self._MeI.T * v
             return 1.0 / (1j * omega(src.frequency)) * (
                 s_mDeriv(v) - self._MfRhoDeriv(jSolution, self._edgeCurl * v, adjoint)
-            ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
+            ) + primaryDeriv(v) + src.bPrimaryDeriv(self.simulation, v, adjoint)
         return 1.0 / (1j * omega(src.frequency)) * self._MeI * (
             s_mDeriv(v) - self._edgeCurl.T * self._MfRhoDeriv(jSolution, v, adjoint)
-        ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
+        ) + self._MeI * primaryDeriv(v) + src.bPrimaryDeriv(self.simulation, v, adjoint)
 
     def _charge(self, jSolution, source_list):
         r"""
-- 
2.43.0


From e5707c1cea5e123d88f6ecfa48939a15dd69008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 030/157] fix: current density of the B formulation for
 primary-secondary sources, and its derivative

---
 .../frequency_domain/fields.py                | 43 +++++++++----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index d916f1c..42d0630 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -610,12 +610,14 @@ class Fields3DElectricField(FieldsFDEM):
         if adjoint:
             return (
                 self._MeSigmaDeriv(e, (self._MeI.T * v), adjoint=adjoint)
-                + self._eDeriv_m(src, (self._MeI.T * v), adjoint=adjoint)
+                + self._eDeriv_m(
+                    src, self._MeSigma.T * (self._MeI.T * v), adjoint=adjoint
+                )
             ) + src.jPrimaryDeriv(self.simulation, v, adjoint)
         return (
             self._MeI
             * (
-                self._eDeriv_m(src, v, adjoint=adjoint)
+                self._MeSigma * self._eDeriv_m(src, v, adjoint=adjoint)
                 + self._MeSigmaDeriv(e, v, adjoint=adjoint)
             )
         ) + src.jPrimaryDeriv(self.simulation, v, adjoint)
@@ -949,16 +951,7 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
         :return: primary current density
         """
 
-        if self.simulation.permittivity is None:
-            j = self._edgeCurl.T * (self._MfMui * bSolution)
-
-            for i, src in enumerate(source_list):
-                s_e = src.s_e(self.simulation)
-                j[:, i] = j[:, i] - s_e
-
-            return self._MeI * j
-        else:
-            return self._MeI * (self._MeSigma * self._e(bSolution, source_list))
+        return self._MeI * (self._MeSigma * self._e(bSolution, source_list))
 
     def _jDeriv_u(self, src, du_dm_v, adjoint=False):
         """
@@ -973,17 +966,12 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
             to the field we solved for with a vector
         """
         if adjoint:
-            return self._MfMui.T * (self._edgeCurl * (self._MeI.T * du_dm_v))
-        return self._MeI * (self._edgeCurl.T * (self._MfMui * du_dm_v))
-        # forgetting the source term here
-
-    def _jDeriv_mui(self, src, v, adjoint=False):
-        if adjoint:
-            return self._MfMuiDeriv(
-                self[src, "b"], (self._edgeCurl * (self._MeI.T * v)), adjoint
+            return self._eDeriv_u(
+                src, self._MeSigma.T * (self._MeI.T * du_dm_v), adjoint=adjoint
             )
-
-        return self._MeI * (self._edgeCurl.T * self._MfMuiDeriv(self[src, "b"], v))
+        return self._MeI * (
+            self._MeSigma * self._eDeriv_u(src, du_dm_v, adjoint=adjoint)
+        )
 
     def _jDeriv_m(self, src, v, adjoint=False):
         """
@@ -996,8 +984,17 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
         :return: product of the derivative of the current density with respect
             to the model with a vector
         """
+        e = self[src, "e"]
 
-        return self._jDeriv_mui(src, v, adjoint)
+        if adjoint:
+            w = self._MeI.T * v
+            return self._MeSigmaDeriv(e, w, adjoint=adjoint) + self._eDeriv_m(
+                src, self._MeSigma.T * w, adjoint=adjoint
+            )
+        return self._MeI * (
+            self._MeSigma * self._eDeriv_m(src, v, adjoint=adjoint)
+            + self._MeSigmaDeriv(e, v, adjoint=adjoint)
+        )
 
     def _h(self, bSolution, source_list):
         """
-- 
2.43.0


From d907f8e00113809b7336a411a2c816b232f30653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 031/157] fix: TDEM Jvec includes the derivative of the fields
 at the last time step

---
 simpeg/electromagnetics/time_domain/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index efd986e..a54d286 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -263,8 +263,15 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JRHS = dRHS_dm_v - dAsubdiag_dm_v - dA_dm_v
 
                 # step in time and overwrite
-                if tInd != len(self.time_steps + 1):
-                    dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
+                dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
+
+        # fields at the last time
+        for i, src in enumerate(self.survey.source_list):
+            for projField in set([rx.projField for rx in src.receiver_list]):
+                df_dmFun = getattr(f, "_%sDeriv" % projField, None)
+                df_dm_v[src, "{}Deriv".format(projField), self.nT] = df_dmFun(
+                    self.nT, src, dun_dm_v[:, i], v
+                )
 
         Jv = []
         for src in self.survey.source_list:
-- 
2.43.0


From a2ff846f4f9fe8d01cbce858e4eed09de1dc47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:36 +0000
Subject: [PATCH 032/157] fix: TDEM Jtvec includes the dependence of the
 initial fields on the model (and clears the DC factorization for a rhoMap)

---
 simpeg/electromagnetics/time_domain/simulation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index a54d286..ad59d14 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -441,6 +441,13 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JTv = JTv + mkvc(-dAT_dm_v - dAsubdiagT_dm_v + dRHST_dm_v)
 
         # Treat the initial condition
+        Asubdiag = self.getAsubdiag(0)
+        for isrc, src in enumerate(self.survey.source_list):
+            df_duT_0 = mkvc(
+                df_duT_v[src, "{}Deriv".format(self._fieldType), 0]
+            ) - Asubdiag.T * mkvc(ATinv_df_duT_v[isrc, :])
+            initialDeriv = getattr(src, "{}InitialDeriv".format(self._fieldType))
+            JTv = JTv + mkvc(initialDeriv(self, df_duT_0, adjoint=True, f=f))
 
         # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
         if AdiagTinv is not None:
@@ -633,9 +640,9 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
             List of the model-dependent attributes to clean upon model update.
         """
         items = super()._delete_on_model_update
-        if self.sigmaMap is not None:
+        if self.sigmaMap is not None or self.rhoMap is not None:
             items = items + ["_Adcinv"]  #: clear DC matrix factors on any model updates
-            # if there is a sigmaMap
+            # if there is a sigmaMap or a rhoMap
         return items
 
 
@@ -1339,9 +1346,10 @@ class Simulation3DElectricField(BaseTDEMSimulation):
         # Treating initial condition when a galvanic source is included
         tInd = -1
         Grad = self.mesh.nodal_gradient
+        Asubdiag = self.getAsubdiag(0)
 
         for isrc, src in enumerate(self.survey.source_list):
-            if src.srcType == "galvanic":
+            if src.srcType == "galvanic" and src.waveform.has_initial_fields:
                 ATinv_df_duT_v[isrc, :] = Grad * (
                     self.Adcinv
                     * (
-- 
2.43.0


From d8db695518cad2fc6c531da2b4a93a6cf976691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:36 +0000
Subject: [PATCH 033/157] fix: TDEM magnetic dipole sources are on at the
 initial time only, also if the second time step is longer than the first

---
 simpeg/electromagnetics/time_domain/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c0d7473..4f6818c 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1536,7 +1536,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C.T * (MfMui * b)
             else:
@@ -1547,7 +1547,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C * h
             else:
@@ -2173,7 +2173,7 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray
             Derivative of initial magnetic flux density times a vector
         """
-        if self.waveform.has_initial_fields is False:
+        if self.waveform.has_initial_fields is False or self.srcType == "inductive":
             return Zero()
 
         if adjoint is True:
-- 
2.43.0


From 435687fc392bd4938742ad2537126986a1aa577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:32 +0000
Subject: [PATCH 034/157] fix: natural source electric field formulations
 accept a cell-by-cell permeability that is not a map

---
 simpeg/electromagnetics/natural_source/fields.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/fields.py b/simpeg/electromagnetics/natural_source/fields.py
index 3ba8507..82da2c0 100644
--- a/simpeg/electromagnetics/natural_source/fields.py
+++ b/simpeg/electromagnetics/natural_source/fields.py
@@ -58,10 +58,9 @@ class _EField(_1DField):
     def _h(self, eSolution, source_list):
         omegas = np.array([omega(src.frequency) for src in source_list])
         e = self._e(eSolution, source_list)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = self.simulation.mui
+        if np.ndim(mui) > 0:
+            mui = mui[:, None]
         v = mui * (self._C * e)
         return v / (1j * omegas)
 
@@ -69,10 +68,9 @@ class _EField(_1DField):
         if du_dm_v.ndim == 1:
             du_dm_v = du_dm_v[:, None]
         om = omega(src.frequency)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = self.simulation.mui
+        if np.ndim(mui) > 0:
+            mui = mui[:, None]
         if adjoint:
             y = self._eDeriv_u(src, self._C.T * (mui * du_dm_v), adjoint=adjoint)
             return np.squeeze(y) / (1j * om)
-- 
2.43.0


From 0fe1fc2a0325bcd50efeee762c2a6ec0d78e5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:39 +0000
Subject: [PATCH 035/157] fix: getJ works for natural source admittance and
 apparent conductivity receivers with several locations

---
 .../natural_source/receivers.py               | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 86cbe0b..def7cb2 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -7,7 +7,6 @@ from ...utils.code_utils import (
 import numpy as np
 from scipy.constants import mu_0
 from ...survey import BaseRx
-from simpeg.utils import mkvc
 
 
 def _alpha(src):
@@ -1068,13 +1067,20 @@ class Admittance(_ElectricAndMagneticReceiver):
 
             else:
 
-                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[:, None]  # terms dex in bot
-                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[:, None]  # terms dey in bot
-                ex_v[:, p_ind] -= h[:, 1] * a_v  # add terms dex in top
-                ey_v[:, p_ind] += h[:, 0] * a_v  # add terms dey in top
-                e_v = Pex.T @ ex_v + Pey.T @ ey_v
+                # a 2D v holds one (diagonal) column per datum
+                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[..., None]  # terms dex in bot
+                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[..., None]  # terms dey in bot
+                ex_v[..., p_ind] -= h[:, 1] * a_v  # add terms dex in top
+                ey_v[..., p_ind] += h[:, 0] * a_v  # add terms dey in top
+
+                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[..., None]  # h in top
+
+                if v.ndim == 2:
+                    ex_v = ex_v.reshape((self.nD, -1))
+                    ey_v = ey_v.reshape((self.nD, -1))
+                    h_v = h_v.reshape((self.nD, -1))
 
-                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[:, None]  # h in top
+                e_v = Pex.T @ ex_v + Pey.T @ ey_v
                 h_v = Ph.T @ h_v
 
             fu_e_v, fm_e_v = f._eDeriv(src, None, e_v, adjoint=True)
@@ -1232,14 +1238,16 @@ class ApparentConductivity(_ElectricAndMagneticReceiver):
             a_v = fact * v / bot  # term 1
             b_v = -fact * top * v / bot**2  # term 2
 
-            a_v = np.repeat(mkvc(a_v, n_dims=2), 2, axis=-1)
-            b_v = np.repeat(mkvc(b_v, n_dims=2), 2, axis=-1)
-
-            hx *= a_v
-            hy *= a_v
-            hz *= a_v
-            ex *= b_v
-            ey *= b_v
+            # a 2D v holds one (diagonal) column per datum
+            hx = hx * a_v[..., None]
+            hy = hy * a_v[..., None]
+            hz = hz * a_v[..., None]
+            ex = ex * b_v[..., None]
+            ey = ey * b_v[..., None]
+            if v.ndim == 2:
+                hx, hy, hz, ex, ey = (
+                    x.reshape((self.nD, -1)) for x in (hx, hy, hz, ex, ey)
+                )
 
             e_v = 2 * (Pex.T @ ex + Pey.T @ ey).conjugate()
             h_v = 2 * (Phx.T @ hx + Phy.T @ hy + Phz.T @ hz).conjugate()
-- 
2.43.0


From e301c4527f67bb31b469715c21d55ef18bbea0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:39 +0000
Subject: [PATCH 036/157] fix: 1D recursive natural source sensitivities for
 dense map derivatives and parameters shared by conductivity and thickness

---
 .../natural_source/simulation_1d.py               | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index 2b9a8ad..01af682 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -321,22 +321,21 @@ class Simulation1DRecursive(BaseSimulation):
         else:
             W = W.diagonal() ** 2
 
-        gtgdiag = 0
+        # a parameter can act on the conductivities as well as on the thicknesses
+        J = 0
         if self.sigmaMap is not None:
-            J = Js["sigma"] @ self.sigmaDeriv
-            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
+            J = J + Js["sigma"] @ self.sigmaDeriv
         if self.thicknessesMap is not None:
-            J = Js["thick"] @ self.thicknessesDeriv
-            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-        return gtgdiag
+            J = J + Js["thick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         J = self.getJ(m, f=None)
         Jvec = 0
         if self.sigmaMap is not None:
-            Jvec += J["sigma"] @ (self.sigmaDeriv * v)
+            Jvec += J["sigma"] @ (self.sigmaDeriv @ v)
         if self.thicknessesMap is not None:
-            Jvec += J["thick"] @ (self.thicknessesDeriv * v)
+            Jvec += J["thick"] @ (self.thicknessesDeriv @ v)
         return Jvec
 
     def Jtvec(self, m, v, f=None):
-- 
2.43.0


From dc4782fee75d7d310fe0723738ad60ad7a59cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:39 +0000
Subject: [PATCH 037/157] fix: layered EM response of a y dipole in an oblique
 receiver is linear in the receiver orientation

---
 simpeg/electromagnetics/base_1d.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 500b90b..b1917ee 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -528,7 +528,6 @@ class BaseEM1DSimulation(BaseSimulation):
                             C0 += (
                                 src_y
                                 * rx_x
-                                * rx_x
                                 * (dxyz[:, 0] * dxyz[:, 1] / offsets**2)[:, None]
                                 * lambd**2
                             )
-- 
2.43.0


From 155272e91f95ec36946c5823c9fff9e736cd2b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:39 +0000
Subject: [PATCH 038/157] fix: layered EM getJtJdiag for parameters shared by
 several properties

---
 simpeg/electromagnetics/base_1d.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index b1917ee..12c6346 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -641,17 +641,14 @@ class BaseEM1DSimulation(BaseSimulation):
             W = np.ones(self.survey.nD)
         else:
             W = W.diagonal() ** 2
-        out = 0.0
+        # a parameter can act on several properties
+        J = 0.0
         if self.hMap is not None:
-            J = Js["dh"] @ self.hDeriv
-            out = out + np.einsum("i,ij,ij->j", W, J, J)
+            J = J + Js["dh"] @ self.hDeriv
         if self.sigmaMap is not None:
-            J = Js["ds"] @ self.sigmaDeriv
-            out = out + np.einsum("i,ij,ij->j", W, J, J)
+            J = J + Js["ds"] @ self.sigmaDeriv
         if self.muMap is not None:
-            J = Js["dmu"] @ self.muDeriv
-            out = out + np.einsum("i,ij,ij->j", W, J, J)
+            J = J + Js["dmu"] @ self.muDeriv
         if self.thicknessesMap is not None:
-            J = Js["dthick"] @ self.thicknessesDeriv
-            out = out + np.einsum("i,ij,ij->j", W, J, J)
-        return out
+            J = J + Js["dthick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
-- 
2.43.0


From 3e0d2f2671d92a3ec079effde5eeed58820762bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:39 +0000
Subject: [PATCH 039/157] fix: layered EM with magnetic viscosity given as
 scalars and a permeability per layer

---
 simpeg/electromagnetics/base_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 12c6346..d515e55 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -352,9 +352,9 @@ class BaseEM1DSimulation(BaseSimulation):
         # Magnetic viscosity
         else:
             if np.isscalar(self.dchi):
-                dchi = self.dchi * np.ones_like(self.mu)
-                tau1 = self.tau1 * np.ones_like(self.mu)
-                tau2 = self.tau2 * np.ones_like(self.mu)
+                dchi = self.dchi
+                tau1 = self.tau1
+                tau2 = self.tau2
             else:
                 dchi = np.tile(self.dchi.reshape([-1, 1]), (1, n_frequency))
                 tau1 = np.tile(self.tau1.reshape([-1, 1]), (1, n_frequency))
-- 
2.43.0


From 3a0e016937db03570184522e0649c417d2ec3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:39 +0000
Subject: [PATCH 040/157] fix: layered EM conductivity sensitivities include
 the chargeability

---
 simpeg/electromagnetics/frequency_domain/simulation_1d.py | 2 ++
 simpeg/electromagnetics/time_domain/simulation_1d.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index c51e8e3..2c433b0 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -230,6 +230,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    # chain rule: complex conductivity is proportional to sigma
+                    rTE_ds = rTE_ds * (sig / self.sigma[:, None])[:, :, None]
                     rTE_ds = rTE_ds[:, i_freq]
                     rTE_ds = np.take_along_axis(rTE_ds, inv_lambs[None, ...], axis=-1)
                     v_ds = (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index d5e7a3b..8ff9fc0 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -335,6 +335,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    # chain rule: complex conductivity is proportional to sigma
+                    rTE_ds = rTE_ds * (sig / self.sigma[:, None])[:, :, None]
                     rTE_ds = rTE_ds[..., inv_lambs]
                     v_ds = (
                         (
-- 
2.43.0


From 9df8881c1ea1b817493a198ac4393dbe64cbdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:39 +0000
Subject: [PATCH 041/157] fix: layered EM simulations with a height map use the
 heights, and their sensitivities

---
 simpeg/electromagnetics/base_1d.py            | 26 +++++++-
 .../frequency_domain/simulation_1d.py         | 65 +++----------------
 .../time_domain/simulation_1d.py              | 43 +++---------
 3 files changed, 44 insertions(+), 90 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index d515e55..f68fc97 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -463,7 +463,8 @@ class BaseEM1DSimulation(BaseSimulation):
 
                 if is_wire_loop:
                     dxy = rx.locations[:, :2] - xyks
-                    h = src.location.mean(axis=0)[2] - self.topo[-1]
+                    if self.hMap is None:
+                        h = src.location.mean(axis=0)[2] - self.topo[-1]
                     z = h + rx.locations[:, 2] - src.location.mean(axis=0)[2]
                     offsets = np.linalg.norm(dxy, axis=-1)
                 else:
@@ -612,6 +613,29 @@ class BaseEM1DSimulation(BaseSimulation):
         self._W = sp.coo_matrix((data, (Is, Js)), shape=(n_col, n_row))
         self._W = self._W.tocsr()
 
+    def _rows_per_source(self, quadrature=False):
+        """Number of rows of each source: receiver locations (or quadrature points)."""
+        n_rows = []
+        for src in self.survey.source_list:
+            n = sum(rx.locations.shape[0] for rx in src.receiver_list)
+            if quadrature and type(src).__name__ == "LineCurrent":
+                n *= src.n_segments * self.n_points_per_path
+            n_rows.append(n)
+        return n_rows
+
+    def _get_hankel_coefficients(self):
+        """Hankel coefficients for the current heights, and their height derivatives.
+
+        If the heights are part of the model (one per source), the stored
+        coefficients are those at zero height.
+        """
+        if self.hMap is None:
+            return self._C0s, self._C1s, None, None
+        h = np.repeat(self.h, self._rows_per_source(quadrature=True))[:, None]
+        scale = np.exp(-2 * self._lambs * h)
+        C0s, C1s = self._C0s * scale, self._C1s * scale
+        return C0s, C1s, -2 * self._lambs * C0s, -2 * self._lambs * C1s
+
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index 2c433b0..1cc824b 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -108,8 +108,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s, _, _ = self._get_hankel_coefficients()
         W = self._W
 
         frequencies = np.array(self.survey.frequencies)
@@ -153,9 +152,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
-            lambs = self._lambs
+            C0s, C1s, C0s_dh, C1s_dh = self._get_hankel_coefficients()
             frequencies = np.array(self.survey.frequencies)
             unique_lambs = self._unique_lambs
             i_freq = self._i_freq
@@ -166,59 +163,17 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-
-                    h = h_vec[i_src]
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
-
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[i_freq]
                 rTE = np.take_along_axis(rTE, inv_lambs, axis=1)
-                v_dh_temp = ((C0s_dh * rTE) @ self._fhtfilt.j0).real + (
-                    (C1s_dh * rTE) @ self._fhtfilt.j1
-                ).real
-                v_dh_temp += W @ v_dh_temp
-                # need to re-arange v_dh as it's currently (n_data x 1)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, v_dh_temp.shape[0]))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = v_dh.T
+                v_dh_temp = W @ (
+                    (C0s_dh * rTE) @ self._fhtfilt.j0 + (C1s_dh * rTE) @ self._fhtfilt.j1
+                )
+                # each source has its own h: v_dh is (n_rx x n_src)
+                n_rows = self._rows_per_source()
+                v_dh = np.zeros((v_dh_temp.size, len(n_rows)), dtype=complex)
+                i_src = np.repeat(np.arange(len(n_rows)), n_rows)
+                v_dh[np.arange(v_dh_temp.size), i_src] = v_dh_temp
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index 8ff9fc0..f70f0a5 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -232,8 +232,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s, _, _ = self._get_hankel_coefficients()
 
         frequencies = self._frequencies
         unique_lambs = self._unique_lambs
@@ -275,9 +274,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
-            lambs = self._lambs
+            C0s, C1s, C0s_dh, C1s_dh = self._get_hankel_coefficients()
             frequencies = self._frequencies
             unique_lambs = self._unique_lambs
             inv_lambs = self._inv_lambs
@@ -288,42 +285,20 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    h = h_vec[i_src]
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
-
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[:, inv_lambs]
                 v_dh_temp = (
                     W
                     @ (
-                        ((C0s_dh * rTE) @ self._fhtfilt.j0).real
-                        + ((C1s_dh * rTE) @ self._fhtfilt.j1).real
+                        (C0s_dh * rTE) @ self._fhtfilt.j0
+                        + (C1s_dh * rTE) @ self._fhtfilt.j1
                     ).T
                 )
-                # need to re-arange v_dh as it's currently (n_data x n_freqs)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, *v_dh_temp.shape))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = np.transpose(v_dh, (1, 2, 0))
+                # each source has its own h: v_dh is (n_rx x n_freqs x n_src)
+                n_rows = self._rows_per_source()
+                v_dh = np.zeros((*v_dh_temp.shape, len(n_rows)), dtype=complex)
+                i_src = np.repeat(np.arange(len(n_rows)), n_rows)
+                v_dh[np.arange(v_dh_temp.shape[0]), :, i_src] = v_dh_temp
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
-- 
2.43.0


From 5671f1805add38d45301e7401198ac11828cd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 042/157] fix: layered TDEM simulation works for a single time
 channel (or a narrow range of times)

---
 simpeg/electromagnetics/time_domain/simulation_1d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index f70f0a5..ac6b176 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -134,6 +134,12 @@ class Simulation1DLayered(BaseEM1DSimulation):
                         )
 
         omegas, t_spline_points = get_splined_dlf_points(self._fftfilt, t_min, t_max)
+        # the quintic splines below need at least 6 points
+        while len(t_spline_points) < 6:
+            t_min *= self._fftfilt.base[0] / self._fftfilt.base[1]
+            omegas, t_spline_points = get_splined_dlf_points(
+                self._fftfilt, t_min, t_max
+            )
 
         n_omega = len(omegas)
         n_t = len(t_spline_points)
-- 
2.43.0


From 23683086a36d6c1fb4d0cdaf12aaac1f87f7fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 043/157] fix: layered FDEM primary field of a circular loop is
 that of the loop, not of a dipole at its centre (nan)

---
 .../frequency_domain/sources.py               | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 5bf1803..c21d17d 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -907,6 +907,25 @@ class CircularLoop(MagDipole):
         out[np.isnan(out)] = 0
         return self.n_turns * out
 
+    def hPrimary(self, simulation):
+        if simulation._formulation == "1D":
+            # the field of the loop, rather than that of a dipole at its centre
+            loop = CircularLoopWholeSpace(
+                mu=self.mu,
+                location=self.location,
+                orientation=self.orientation,
+                radius=self.radius,
+                current=self.current,
+            )
+            out = []
+            for rx in self.receiver_list:
+                locs = rx.locations
+                if rx.use_source_receiver_offset:
+                    locs = locs + self.location
+                out.append(self.n_turns * loop.magnetic_field(locs) @ rx.orientation)
+            return out
+        return super().hPrimary(simulation)
+
 
 class PrimSecSigma(BaseFDEMSrc):
     def __init__(
-- 
2.43.0


From e1c11290719ba7fe6406ae9ccdc76e0aeb607d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 044/157] fix: layered EM response of a circular loop has the
 sign of its current

---
 simpeg/electromagnetics/base_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index f68fc97..8ce5dc2 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -422,7 +422,9 @@ class BaseEM1DSimulation(BaseSimulation):
 
             if is_circular_loop or is_mag_dipole:
                 src_x, src_y, src_z = src.orientation * src.moment / (4 * np.pi)
-                # src.moment is pi * radius**2 * I for circular loop
+                # src.moment is pi * radius**2 * abs(I) for circular loop
+                if is_circular_loop and src.current < 0:
+                    src_x, src_y, src_z = -src_x, -src_y, -src_z
             if is_wire_loop:
                 x, w = roots_legendre(self.n_points_per_path)
                 xy_src_path = src.location[:, :2]
-- 
2.43.0


From fb5d0ae8d0cc2ea34e5985a2ce1a279f152cee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:53 +0000
Subject: [PATCH 045/157] fix: matrix-free getJtJdiag of gravity and magnetics
 pairs each datum with its own weight

---
 simpeg/potential_fields/gravity/simulation.py | 22 +++++++++++---
 .../potential_fields/magnetics/simulation.py  | 30 ++++++++++++++-----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 434ba52..28125fb 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -708,8 +708,14 @@ class Simulation3DIntegral(BasePFSimulation):
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                weights_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 kernel_func = CHOCLO_KERNELS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -718,9 +724,10 @@ class Simulation3DIntegral(BasePFSimulation):
                     active_cell_nodes,
                     kernel_func,
                     constants.G * conversion_factor,
-                    weights,
+                    weights[weights_slice],
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
@@ -922,8 +929,14 @@ class SimulationEquivalentSourceLayer(
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                weights_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 choclo_forward_func = CHOCLO_FORWARD_FUNCS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -933,9 +946,10 @@ class SimulationEquivalentSourceLayer(
                     self.cell_z_bottom,
                     choclo_forward_func,
                     conversion_factor,
-                    weights,
+                    weights[weights_slice],
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 6b403dd..331058a 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1167,13 +1167,19 @@ class Simulation3DIntegral(BasePFSimulation):
         diagonal = np.zeros(n_columns, dtype=np.float64)
 
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                weights_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_3D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1185,7 +1191,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1208,7 +1214,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
                 else:
@@ -1226,9 +1232,10 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
@@ -1585,13 +1592,19 @@ class SimulationEquivalentSourceLayer(
         n_columns = self.nC if scalar_model else 3 * self.nC
         diagonal = np.zeros(n_columns, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                weights_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_2D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1604,7 +1617,7 @@ class SimulationEquivalentSourceLayer(
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1628,7 +1641,7 @@ class SimulationEquivalentSourceLayer(
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
                 else:
@@ -1647,9 +1660,10 @@ class SimulationEquivalentSourceLayer(
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[weights_slice],
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
-- 
2.43.0


From 15bb864c2eabe43a7075d48f8f5a2ca2ed4682ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 046/157] fix: getJtJdiag of gravity and magnetics for
 parameters that act on several cells

---
 simpeg/potential_fields/base.py               | 24 +++++++++++++++++++
 simpeg/potential_fields/gravity/simulation.py |  9 ++++++-
 .../potential_fields/magnetics/simulation.py  |  8 ++++++-
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/simpeg/potential_fields/base.py b/simpeg/potential_fields/base.py
index 2781c26..e9146d7 100644
--- a/simpeg/potential_fields/base.py
+++ b/simpeg/potential_fields/base.py
@@ -352,6 +352,30 @@ class BasePFSimulation(LinearSimulation):
             np.save(sens_name, kernel)
         return kernel
 
+    def _get_jtj_diagonal(self, m, weights):
+        """
+        Compute the diagonal of ``J.T @ W.T @ W @ J`` column by column.
+
+        Parameters
+        ----------
+        m : (n_param,) numpy.ndarray
+            The model parameters.
+        weights : (nD,) numpy.ndarray
+            Diagonal of ``W.T @ W``.
+
+        Returns
+        -------
+        (n_param,) numpy.ndarray
+        """
+        n_param = m.size
+        diagonal = np.empty(n_param)
+        column = np.zeros(n_param)
+        for i in range(n_param):
+            column[i] = 1.0
+            diagonal[i] = weights @ (np.asarray(self.Jvec(m, column)) ** 2)
+            column[i] = 0.0
+        return diagonal
+
     def _check_engine_and_sensitivity_path(self):
         """
         Check if sensitivity_path is a file if engine is set to "choclo"
diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 28125fb..41d3b53 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -4,6 +4,7 @@ import warnings
 import numpy as np
 from numpy.typing import NDArray
 import scipy.constants as constants
+import scipy.sparse as sp
 from geoana.kernels import prism_fz, prism_fzx, prism_fzy, prism_fzz
 from scipy.constants import G as NewtG
 from scipy.sparse.linalg import LinearOperator, aslinearoperator
@@ -276,9 +277,15 @@ class Simulation3DIntegral(BasePFSimulation):
             self._gtg_diagonal = self._get_gtg_diagonal(weights)
             self._weights_sha256 = weights_sha256
 
+        # When parameters of the model act on several cells, the diagonal of
+        # J.T @ J is not determined by the diagonal of G.T @ G alone.
+        deriv = sp.csc_matrix(self.rhoDeriv)
+        if np.any(np.diff(deriv.indptr) > 1):
+            return self._get_jtj_diagonal(m, weights)
+
         # Multiply the gtg_diagonal by the derivative of the mapping
         diagonal = mkvc(
-            (sdiag(np.sqrt(self._gtg_diagonal)) @ self.rhoDeriv).power(2).sum(axis=0)
+            (sdiag(np.sqrt(self._gtg_diagonal)) @ deriv).power(2).sum(axis=0)
         )
         return diagonal
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 331058a..fa7df04 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -399,9 +399,15 @@ class Simulation3DIntegral(BasePFSimulation):
             self._gtg_diagonal = self._get_gtg_diagonal(weights)
             self._weights_sha256 = weights_sha256
 
+        # When parameters of the model act on several cells, the diagonal of
+        # J.T @ J is not determined by the diagonal of G.T @ G alone.
+        deriv = sp.csc_matrix(self.chiDeriv)
+        if np.any(np.diff(deriv.indptr) > 1):
+            return self._get_jtj_diagonal(m, weights)
+
         # Multiply the gtg_diagonal by the derivative of the mapping
         diagonal = mkvc(
-            (sdiag(np.sqrt(self._gtg_diagonal)) @ self.chiDeriv).power(2).sum(axis=0)
+            (sdiag(np.sqrt(self._gtg_diagonal)) @ deriv).power(2).sum(axis=0)
         )
         return diagonal
 
-- 
2.43.0


From 9f084ad58581c125228ab7efd305dfcedf3b94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 047/157] fix: getJtJdiag of magnetic amplitude data without
 weights

---
 simpeg/potential_fields/magnetics/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index fa7df04..09836d6 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -384,7 +384,7 @@ class Simulation3DIntegral(BasePFSimulation):
         weights = (
             W.diagonal() ** 2
             if W is not None
-            else np.ones(self.survey.nD, dtype=np.float64)
+            else np.ones(self.nD, dtype=np.float64)
         )
 
         # Compute gtg (G.T @ W.T @ W @ G) if it's not cached, or if the
-- 
2.43.0


From 1c26e644128760078883b6e494deca3701cdd284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:29 +0000
Subject: [PATCH 048/157] fix: stored sensitivities of the finite-volume
 magnetic simulation

---
 simpeg/potential_fields/magnetics/simulation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 09836d6..f7bd2c4 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1720,6 +1720,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
     """
 
     _Ainv = None
+    _Jmatrix = None
 
     rem, remMap, remDeriv = props.Invertible(
         "Magnetic Polarization (nT)", optional=True
@@ -1759,7 +1760,6 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         self.solver_opts = {"is_symmetric": True, "is_positive_definite": True}
 
-        self._Jmatrix = None
         self._stored_fields = None
 
     @property
@@ -1988,14 +1988,17 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
     def getJ(self, m, f=None):
         self.model = m
-        if self._Jmatrix:
+        if self._Jmatrix is not None:
             return self._Jmatrix
         if f is None:
             f = self.fields(m)
         if m.size < self.survey.nD:
-            J = self._Jvec(m, v=None, f=f)
+            v = np.ones(1) if m.size == 1 else None
+            J = self._Jvec(m, v=v, f=f)
         else:
-            J = self._Jtvec(m, v=None, f=f).T
+            v = np.ones(1) if self.survey.nD == 1 else None
+            J = self._Jtvec(m, v=v, f=f).T
+        J = np.reshape(J, (self.survey.nD, m.size))
 
         if self.storeJ:
             self._Jmatrix = J
@@ -2215,6 +2218,6 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         if self.muMap is not None:
             if self._Ainv is not None:
                 toDelete = toDelete + ["_Ainv"]
-            if self._Jmatrix is not None:
-                toDelete = toDelete + ["_Jmatrix"]
+        if self._Jmatrix is not None:
+            toDelete = toDelete + ["_Jmatrix"]
         return toDelete
-- 
2.43.0


From 43905675724730b1e059ba7367dea47ac51a11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:39 +0000
Subject: [PATCH 049/157] fix: Richards Jtvec without fields

---
 simpeg/flow/richards/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index 97c2e58..b959189 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -414,7 +414,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     @utils.timeIt
     def Jtvec(self, m, v, f=None):
         if f is None:
-            f = self.field(m)
+            f = self.fields(m)
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
-- 
2.43.0


From 0a28cef7c6f65642719bf0697502209c160bfda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:58 +0000
Subject: [PATCH 050/157] fix: Richards data and transpose products from given
 fields use the given model

---
 simpeg/flow/richards/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index b959189..a7b4edd 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -228,6 +228,8 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
         """
         if f is None:
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
 
         Ds = list(range(len(self.survey.receiver_list)))
 
@@ -415,6 +417,8 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     def Jtvec(self, m, v, f=None):
         if f is None:
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
-- 
2.43.0


From 22de45967a34cfb526ae1d469cec3ae6144e9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:40 +0000
Subject: [PATCH 051/157] fix: linear simulation sensitivities with a dense map
 derivative

---
 simpeg/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index bbde7df..cc36f3f 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -746,12 +746,12 @@ class LinearSimulation(BaseSimulation):
     def Jvec(self, m, v, f=None):
         # Docstring inherited from BaseSimulation
         self.model = m
-        return self.G.dot(self.model_deriv * v)
+        return self.G.dot(self.model_deriv @ v)
 
     def Jtvec(self, m, v, f=None):
         # Docstring inherited from BaseSimulation
         self.model = m
-        return self.model_deriv.T * self.G.T.dot(v)
+        return self.model_deriv.T @ self.G.T.dot(v)
 
 
 class ExponentialSinusoidSimulation(LinearSimulation):
-- 
2.43.0


From f00c0072e07ad4382014387be4ff02b300177fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:40 +0000
Subject: [PATCH 052/157] fix: Richards Jfull with a single time step

---
 simpeg/flow/richards/simulation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index a7b4edd..180e23c 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -368,10 +368,14 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
                 m, f[ii], f[ii + 1], dt, bc
             )
         Ad = sp.block_diag(Adiags)
-        zRight = utils.spzeros((len(Asubs) - 1) * Asubs[0].shape[0], Adiags[0].shape[1])
-        zTop = utils.spzeros(Adiags[0].shape[0], len(Adiags) * Adiags[0].shape[1])
-        As = sp.vstack((zTop, sp.hstack((sp.block_diag(Asubs[1:]), zRight))))
-        A = As + Ad
+        A = Ad
+        if nn > 1:
+            zRight = utils.spzeros(
+                (len(Asubs) - 1) * Asubs[0].shape[0], Adiags[0].shape[1]
+            )
+            zTop = utils.spzeros(Adiags[0].shape[0], len(Adiags) * Adiags[0].shape[1])
+            As = sp.vstack((zTop, sp.hstack((sp.block_diag(Asubs[1:]), zRight))))
+            A = As + Ad
         B = np.array(sp.vstack(Bs).todense())
 
         Ainv = self.solver(A, **self.solver_opts)
-- 
2.43.0


From c30cc24a43eef7c037b361b3e11bfb158d551d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:40 +0000
Subject: [PATCH 053/157] fix: straight rays along cell boundaries and outside
 of the mesh

---
 simpeg/seismic/straight_ray_tomography/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/seismic/straight_ray_tomography/simulation.py b/simpeg/seismic/straight_ray_tomography/simulation.py
index 1070f1d..2ad0878 100644
--- a/simpeg/seismic/straight_ray_tomography/simulation.py
+++ b/simpeg/seismic/straight_ray_tomography/simulation.py
@@ -71,7 +71,12 @@ def _lineintegral(M, Tx, Rx):
                 I += [i]
                 J += [j]
                 V += [v]
-    inds = sub2ind(M.vnC, np.array([I, J]).T)
+    # a ray along the boundary between two cells is shared by them
+    V = np.array(V, dtype=float)
+    for k, nodes in enumerate([M.nodes_x, M.nodes_y]):
+        if D[k] == 0 and O[k] in nodes[1:-1]:
+            V /= 2.0
+    inds = sub2ind(M.vnC, np.array([I, J], dtype=int).T)
     return inds, V
 
 
-- 
2.43.0


From 99404c2f6262059789f549938358c8d877df29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 054/157] fix: explicit Jacobian of a linear simulation with
 sparse kernels and a dense map derivative

---
 simpeg/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index cc36f3f..8fe05f2 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -741,7 +741,7 @@ class LinearSimulation(BaseSimulation):
         self.model = m
         # self.model_deriv is likely a sparse matrix
         # and G is possibly dense, thus we need to do..
-        return (self.model_deriv.T.dot(self.G.T)).T
+        return (self.model_deriv.T @ self.G.T).T
 
     def Jvec(self, m, v, f=None):
         # Docstring inherited from BaseSimulation
-- 
2.43.0


From aae718ebc4e3077779bb1fa1f9bbdca53edaebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 055/157] fix: Hessian product of a data misfit with a full
 weighting matrix

---
 simpeg/data_misfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index 740e803..c83d72b 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -339,5 +339,5 @@ class L2DataMisfit(BaseDataMisfit):
             f = self.simulation.fields(m)
 
         return 2 * self.simulation.Jtvec_approx(
-            m, self.W * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
+            m, self.W.T * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
         )
-- 
2.43.0


From 32b18b440914180b1ffc6bd0bd6d2996b843cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:46 +0000
Subject: [PATCH 056/157] fix: numpy scalars times a combination of objective
 functions

---
 simpeg/objective_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 9188168..6d103ce 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -270,7 +270,8 @@ class BaseObjectiveFunction(BaseSimPEG):
         )
         return deriv & deriv2
 
-    __numpy_ufunc__ = True
+    # Let numpy scalars defer to ``__rmul__`` and ``__radd__``
+    __array_ufunc__ = None
 
     def __add__(self, other):
         if isinstance(other, Zero):
-- 
2.43.0


From e314d85f03746126103335576b607c4a334d515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:46 +0000
Subject: [PATCH 057/157] fix: the counter of a data misfit is kept

---
 simpeg/data_misfit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index c83d72b..c5eccf7 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -104,6 +104,7 @@ class BaseDataMisfit(L2ObjectiveFunction):
     def counter(self, value):
         if value is not None:
             value = validate_type("counter", value, Counter, cast=False)
+        self._counter = value
 
     @property
     def nP(self):
-- 
2.43.0


From ab58aeaff43c5b3a5f31e1164627537ab10221aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 058/157] fix: second order smoothness of angles

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 54d939c..92e71fa 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1432,7 +1432,7 @@ class SmoothnessSecondOrder(SmoothnessFirstOrder):
         if self.units is not None and self.units.lower() == "radian":
             return self.cell_gradient.T @ (
                 utils.mat_utils.coterminal(self.cell_gradient.sign() @ dfm_dl)
-                / self.length_scales
+                / self._cell_distances
             )
 
         dfm_dl2 = self.cell_gradient @ dfm_dl
-- 
2.43.0


From cdf9cd77ba0d7dc1d481f3355e8967fa38d431ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 059/157] fix: sparse smoothness along an axis without
 neighbouring cells

---
 simpeg/regularization/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/sparse.py b/simpeg/regularization/sparse.py
index 14c6aa9..329a66d 100644
--- a/simpeg/regularization/sparse.py
+++ b/simpeg/regularization/sparse.py
@@ -192,7 +192,7 @@ class BaseSparse(BaseRegularization):
         lp_scale = np.ones_like(f_m)
         if self.irls_scaled:
             # Scale on l2-norm gradient: f_m.max()
-            l2_max = np.ones_like(f_m) * np.abs(f_m).max()
+            l2_max = np.ones_like(f_m) * np.abs(f_m).max(initial=0.0)
             # Compute theoretical maximum gradients for p < 1
             l2_max[self.norm < 1] = self.irls_threshold / np.sqrt(
                 1.0 - self.norm[self.norm < 1]
@@ -200,7 +200,7 @@ class BaseSparse(BaseRegularization):
             lp_values = l2_max / (l2_max**2.0 + self.irls_threshold**2.0) ** (
                 1.0 - self.norm / 2.0
             )
-            lp_scale[lp_values != 0] = np.abs(f_m).max() / lp_values[lp_values != 0]
+            lp_scale[lp_values != 0] = np.abs(f_m).max(initial=0.0) / lp_values[lp_values != 0]
 
         return lp_scale / (f_m**2.0 + self.irls_threshold**2.0) ** (
             1.0 - self.norm / 2.0
-- 
2.43.0


From 9105eb2de38925bb49a671066dfbf681d9a1870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 060/157] fix: regularization directions given for the active
 cells only

---
 simpeg/regularization/_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/_gradient.py b/simpeg/regularization/_gradient.py
index fbf3451..afdac29 100644
--- a/simpeg/regularization/_gradient.py
+++ b/simpeg/regularization/_gradient.py
@@ -136,7 +136,7 @@ class SmoothnessFullGradient(BaseRegularization):
                     self.active_cells is not None
                     and reg_dirs.shape[0] == n_active_cells
                 ):
-                    reg_dirs_temp = np.zeros((mesh.n_cells, mesh.dim, mesh.dim))
+                    reg_dirs_temp = np.tile(np.eye(mesh.dim), (mesh.n_cells, 1, 1))
                     reg_dirs_temp[self.active_cells] = reg_dirs
                     reg_dirs = reg_dirs_temp
                 else:
-- 
2.43.0


From 69133a7485caac88a09d020038d491285883709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 061/157] fix: smoothness after the active cells are set uses
 their gradient

---
 simpeg/regularization/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 92e71fa..8fe0e36 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -106,6 +106,7 @@ class BaseRegularization(BaseObjectiveFunction):
             volume_term = "volume" in self._weights
             self._weights = {}
             self._W = None
+            self._cell_gradient = None
             if volume_term:
                 self.set_weights(volume=self.regularization_mesh.vol)
 
-- 
2.43.0


From cfd9a220471d517677cb30fb0a2f2af641d2b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 062/157] fix: vector amplitude weights given per cell and
 component

---
 simpeg/regularization/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 579e57e..756f2a2 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -670,7 +670,7 @@ class AmplitudeSmallness(SparseSmallness, BaseAmplitude):
             for value in self._weights.values():
                 if value.shape == (nC,):
                     weights *= value
-                elif value.shape == (self.n_comp * nC,):
+                else:
                     weights *= np.linalg.norm(
                         value.reshape((nC, self.n_comp), order="F"), axis=1
                     )
@@ -968,7 +968,7 @@ class AmplitudeSmoothnessFirstOrder(SparseSmoothness, BaseAmplitude):
             nF = average_cell_2_face.shape[0]
             weights = 1.0
             for values in self._weights.values():
-                if values.shape[0] == nC:
+                if values.shape == (nC,):
                     values = average_cell_2_face * values
                 elif not values.shape == (nF,):
                     values = np.linalg.norm(
-- 
2.43.0


From 6f99d405fb8053c053f45fdeeef3b294231bea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 063/157] fix: vector amplitude gradient with a nonlinear
 mapping

---
 simpeg/regularization/vector.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 756f2a2..7afc888 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -389,13 +389,17 @@ class BaseAmplitude(BaseVectorRegularization):
         (n_cells, ) numpy.ndarray
             The amplitudes of the vectors for the model provided.
         """
-        return np.linalg.norm(
-            (self.mapping * self._delta_m(m)).reshape(
-                (self.regularization_mesh.nC, self.n_comp), order="F"
-            ),
-            axis=1,
+        return np.linalg.norm(self._mapped_vectors(m), axis=1)
+
+    def _mapped_vectors(self, m):
+        return (self.mapping * self._delta_m(m)).reshape(
+            (self.regularization_mesh.nC, self.n_comp), order="F"
         )
 
+    def _vector_f_m(self, m):
+        # The vectors whose amplitudes are the kernel function
+        return self._mapped_vectors(m)
+
     def deriv(self, m) -> np.ndarray:
         r"""Gradient of the regularization function evaluated for the model provided.
 
@@ -416,16 +420,10 @@ class BaseAmplitude(BaseVectorRegularization):
         (n_param, ) numpy.ndarray
             Gradient of the regularization function evaluated for the model provided.
         """
-        d_m = self._delta_m(m)
-
         return (
             2
             * self.f_m_deriv(m).T
-            * (
-                self.W.T
-                @ self.W
-                @ (self.f_m_deriv(m) @ d_m).reshape((-1, self.n_comp), order="F")
-            ).flatten(order="F")
+            * (self.W.T @ self.W @ self._vector_f_m(m)).flatten(order="F")
         )
 
     def deriv2(self, m, v=None) -> csr_matrix:
@@ -657,6 +655,9 @@ class AmplitudeSmallness(SparseSmallness, BaseAmplitude):
 
         return self.amplitude(m)
 
+    def f_m_deriv(self, m) -> csr_matrix:
+        return self.mapping.deriv(self._delta_m(m))
+
     @property
     def W(self):
         ### Inherited from Smallness regularization class
@@ -924,11 +925,10 @@ class AmplitudeSmoothnessFirstOrder(SparseSmoothness, BaseAmplitude):
         numpy.ndarray
             The regularization kernel function evaluated for the model provided.
         """
-        fm = self.cell_gradient * (self.mapping * self._delta_m(m)).reshape(
-            (self.regularization_mesh.nC, self.n_comp), order="F"
-        )
+        return np.linalg.norm(self._vector_f_m(m), axis=1)
 
-        return np.linalg.norm(fm, axis=1)
+    def _vector_f_m(self, m):
+        return self.cell_gradient @ self._mapped_vectors(m)
 
     def f_m_deriv(self, m) -> csr_matrix:
         r"""Derivative of the regularization kernel function.
-- 
2.43.0


From b659b4a0dac3cc4a7fe107a32ee1255900adeb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 064/157] fix: full gradient regularization on tree meshes
 keeps all faces

---
 simpeg/regularization/_gradient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/regularization/_gradient.py b/simpeg/regularization/_gradient.py
index afdac29..eae55e6 100644
--- a/simpeg/regularization/_gradient.py
+++ b/simpeg/regularization/_gradient.py
@@ -232,7 +232,9 @@ class SmoothnessFullGradient(BaseRegularization):
                 v[~self.active_cells] = 0
 
             dv = cell_gradient @ v
-            P = sp.diags((np.abs(dv) <= 1e-16).astype(int))
+            # compare with the size of the rows: they only sum to zero up to round-off
+            row_size = np.abs(cell_gradient) @ np.ones(mesh.n_cells)
+            P = sp.diags((np.abs(dv) <= 1e-8 * row_size).astype(float))
             cell_gradient = P @ cell_gradient
             if self.active_cells is not None:
                 cell_gradient = cell_gradient[:, self.active_cells]
-- 
2.43.0


From b2cf245eb4a5e0b4f6198aacec46ae1f5a2ecc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:20 +0000
Subject: [PATCH 065/157] fix: small changes of the model update a simulation

---
 simpeg/props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index ee9ac01..558cbd6 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -460,7 +460,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
             if not (
                 isinstance(previous_value, np.ndarray)
                 and isinstance(value, np.ndarray)
-                and np.allclose(previous_value, value)
+                and np.array_equal(previous_value, value)
             ):
                 # cached properties to delete
                 for prop in self._delete_on_model_update:
-- 
2.43.0


From 3dcad5be86c8d7e167ad50e106dd23b02d9ce192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 066/157] fix: IP predicted data from given fields are for the
 given model

---
 .../static/induced_polarization/simulation.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index e36b418..66ec4ce 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -108,9 +108,10 @@ class BaseIPSimulation(BasePDESimulation):
         """
         # return self.Jvec(m, m, f=f)
         if f is None:
-            f = self.fields(m)
+            self.fields(m)
+            return self._pred
 
-        return self._pred
+        return self.forward(self.model if m is None else m, f=f)
 
     def getJtJdiag(self, m, W=None, f=None):
         J = self.getJ(m, f=f)
-- 
2.43.0


From 0e540183d42df57ed822a246c142fb2014df1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:54 +0000
Subject: [PATCH 067/157] fix: a model array modified in place updates the
 simulation it is passed to

---
 simpeg/props.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/props.py b/simpeg/props.py
index 558cbd6..3959ae3 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -439,6 +439,8 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                         len(value), "\n    ".join(errors)
                     )
                 )
+            # keep a copy: the array that was passed in might be modified in place
+            value = value.copy()
             previous = getattr(self, "_model", None)
             try:
                 for modeler_name in self._nested_modelers:
-- 
2.43.0


From bfd30ad71cc4fd99d723032c127f88cce0fbcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:54 +0000
Subject: [PATCH 068/157] fix: spectral IP predicted data from given fields are
 for the given model

---
 .../static/spectral_induced_polarization/simulation.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index df0cb9e..1fba3d7 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -496,9 +496,9 @@ class BaseSIPSimulation(BaseIPSimulation):
 
         """
         if f is None:
-            f = self.fields(m)
-        return self._pred
-        # return self.forward(m, f=f)
+            self.fields(m)
+            return self._pred
+        return self.forward(m, f=f)
 
     def Jvec(self, m, v, f=None):
         self.model = m
-- 
2.43.0


From a2b7a1c062ecadcea04acee6126ee9bdc0e520e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:58 +0000
Subject: [PATCH 069/157] fix: the model of a simulation remains the array that
 was set

Changes made in place to that array are found by comparing with a private
copy of its values.
---
 simpeg/props.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 3959ae3..38ed348 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -439,8 +439,6 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                         len(value), "\n    ".join(errors)
                     )
                 )
-            # keep a copy: the array that was passed in might be modified in place
-            value = value.copy()
             previous = getattr(self, "_model", None)
             try:
                 for modeler_name in self._nested_modelers:
@@ -456,7 +454,9 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 raise err
 
         # trigger model update function.
-        previous_value = getattr(self, "_model", None)
+        # compare with the values that were set: the array itself might have been
+        # modified in place since.
+        previous_value = getattr(self, "_model_values", None)
         updated = False
         if previous_value is not value:
             if not (
@@ -472,6 +472,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 updated = True
 
         self._model = value
+        self._model_values = None if value is None else value.copy()
         # Most of the time this return value is completely ignored
         # However if you need to know if the model was updated in
         # and child class, you can always access the method:
-- 
2.43.0


From 5540289296ba7ce734392d9db96b9ffbc5a1fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:47 +0000
Subject: [PATCH 070/157] fix: getJtJdiag of gravity and magnetics accepts
 mappings of any length

---
 simpeg/potential_fields/gravity/simulation.py   | 10 +++++-----
 simpeg/potential_fields/magnetics/simulation.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 41d3b53..252c897 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -279,14 +279,14 @@ class Simulation3DIntegral(BasePFSimulation):
 
         # When parameters of the model act on several cells, the diagonal of
         # J.T @ J is not determined by the diagonal of G.T @ G alone.
-        deriv = sp.csc_matrix(self.rhoDeriv)
-        if np.any(np.diff(deriv.indptr) > 1):
+        scaled_deriv = sp.csc_matrix(
+            sdiag(np.sqrt(self._gtg_diagonal)) @ self.rhoDeriv
+        )
+        if np.any(np.diff(scaled_deriv.indptr) > 1):
             return self._get_jtj_diagonal(m, weights)
 
         # Multiply the gtg_diagonal by the derivative of the mapping
-        diagonal = mkvc(
-            (sdiag(np.sqrt(self._gtg_diagonal)) @ deriv).power(2).sum(axis=0)
-        )
+        diagonal = mkvc(scaled_deriv.power(2).sum(axis=0))
         return diagonal
 
     def _get_gtg_diagonal(self, weights: NDArray) -> NDArray:
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index f7bd2c4..a9b5b6f 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -401,14 +401,14 @@ class Simulation3DIntegral(BasePFSimulation):
 
         # When parameters of the model act on several cells, the diagonal of
         # J.T @ J is not determined by the diagonal of G.T @ G alone.
-        deriv = sp.csc_matrix(self.chiDeriv)
-        if np.any(np.diff(deriv.indptr) > 1):
+        scaled_deriv = sp.csc_matrix(
+            sdiag(np.sqrt(self._gtg_diagonal)) @ self.chiDeriv
+        )
+        if np.any(np.diff(scaled_deriv.indptr) > 1):
             return self._get_jtj_diagonal(m, weights)
 
         # Multiply the gtg_diagonal by the derivative of the mapping
-        diagonal = mkvc(
-            (sdiag(np.sqrt(self._gtg_diagonal)) @ deriv).power(2).sum(axis=0)
-        )
+        diagonal = mkvc(scaled_deriv.power(2).sum(axis=0))
         return diagonal
 
     def _get_gtg_diagonal(self, weights: NDArray) -> NDArray:
-- 
2.43.0


From 44acf0f4f620b040da72c1984d7e71fc2125370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 071/157] fix: surveys follow changes of their sources and
 receivers

The number of data, unique times, frequency tables, electrode tables and
receiver indices were kept from before source_list or receiver_list changed
(and get_receiver_indices always raised a TypeError).
---
 .../frequency_domain/survey.py                | 19 +++++++++---------
 .../static/resistivity/survey.py              | 12 ++++-------
 simpeg/survey.py                              | 20 +++++++++----------
 3 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/survey.py b/simpeg/electromagnetics/frequency_domain/survey.py
index c7c0a1d..a57c271 100644
--- a/simpeg/electromagnetics/frequency_domain/survey.py
+++ b/simpeg/electromagnetics/frequency_domain/survey.py
@@ -15,15 +15,6 @@ class Survey(BaseSurvey):
     def __init__(self, source_list, **kwargs):
         super(Survey, self).__init__(source_list, **kwargs)
 
-        _frequency_dict = {}
-        for src in self.source_list:
-            if src.frequency not in _frequency_dict:
-                _frequency_dict[src.frequency] = []
-            _frequency_dict[src.frequency] += [src]
-
-        self._frequency_dict = _frequency_dict
-        self._frequencies = sorted([f for f in self._frequency_dict])
-
     @property
     def source_list(self):
         """List of FDEM sources associated with the survey
@@ -41,6 +32,16 @@ class Survey(BaseSurvey):
             "source_list", new_list, BaseFDEMSrc, ensure_unique=True
         )
 
+        _frequency_dict = {}
+        for src in self.source_list:
+            if src.frequency not in _frequency_dict:
+                _frequency_dict[src.frequency] = []
+            _frequency_dict[src.frequency] += [src]
+
+        self._frequency_dict = _frequency_dict
+        self._frequencies = sorted([f for f in self._frequency_dict])
+        self._num_sources_by_frequency = None
+
     @property
     def frequencies(self):
         """Frequencies in the survey
diff --git a/simpeg/electromagnetics/static/resistivity/survey.py b/simpeg/electromagnetics/static/resistivity/survey.py
index 2d540a1..4c67518 100644
--- a/simpeg/electromagnetics/static/resistivity/survey.py
+++ b/simpeg/electromagnetics/static/resistivity/survey.py
@@ -84,8 +84,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the positive (+) current electrodes in the survey
         """
-        if getattr(self, "_locations_a", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_a
 
     @property
@@ -98,8 +97,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the negative (-) current electrodes in the survey
         """
-        if getattr(self, "_locations_b", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_b
 
     @property
@@ -112,8 +110,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the positive (+) potential electrodes in the survey
         """
-        if getattr(self, "_locations_m", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_m
 
     @property
@@ -126,8 +123,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the negative (-) potential electrodes in the survey
         """
-        if getattr(self, "_locations_n", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_n
 
     @property
diff --git a/simpeg/survey.py b/simpeg/survey.py
index e471ab1..760b0aa 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -340,7 +340,7 @@ class BaseSrc:
 
     @property
     def _rxOrder(self):
-        if getattr(self.__rxOrder, None) is None:
+        if self.__rxOrder is None:
             self.__rxOrder = {}
             [
                 self.__rxOrder.setdefault(rx.uid, ii)
@@ -519,9 +519,9 @@ class BaseSurvey:
         (n_src) numpy.ndarray of int
             Number of associate data for each source
         """
-        if getattr(self, "_vnD", None) is None:
-            self._vnD = np.array([src.nD for src in self.source_list])
-        return self._vnD
+        if getattr(self, "_vnD", None) is not None:
+            return self._vnD
+        return np.array([src.nD for src in self.source_list])
 
     @property
     def nSrc(self):
@@ -638,10 +638,8 @@ class BaseTimeSurvey(BaseSurvey):
         numpy.ndarray
             The unique time channels for all survey receivers.
         """
-        if getattr(self, "_unique_times", None) is None:
-            rx_times = []
-            for source in self.source_list:
-                for receiver in source.receiver_list:
-                    rx_times.append(receiver.times)
-            self._unique_times = np.unique(np.hstack(rx_times))
-        return self._unique_times
+        rx_times = []
+        for source in self.source_list:
+            for receiver in source.receiver_list:
+                rx_times.append(receiver.times)
+        return np.unique(np.hstack(rx_times))
-- 
2.43.0


From a420b7d7d3a8bd6429640432648799b8479550ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:01 +0000
Subject: [PATCH 072/157] fix: maxStep limits the largest component of the
 search direction in magnitude

p.max() ignored large negative components.
---
 simpeg/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 76c328e..5b9fedb 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -714,8 +714,9 @@ class Minimize(object):
             The scaled search direction.
         """
 
-        if self.maxStep < np.abs(p.max()):
-            p = self.maxStep * p / np.abs(p.max())
+        max_step = np.max(np.abs(p))
+        if self.maxStep < max_step:
+            p = self.maxStep * p / max_step
         return p
 
     nameLS = "Armijo linesearch"  #: The line-search name
-- 
2.43.0


From 9468aade420c21b1743b3806b49ede1e9d7bb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:01 +0000
Subject: [PATCH 073/157] fix: BFGS memory uses the step taken and the stored
 pairs in order

The secant pairs were formed with the next iterate and the recursion read the wrong columns.
---
 simpeg/optimization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 5b9fedb..f13ec20 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1291,7 +1291,8 @@ class BFGS(Minimize, Remember):
 
     def bfgs(self, d):
         n = self._bfgscnt
-        nn = ktop = min(self._bfgsS.shape[1], n)
+        nn = self._bfgsS.shape[1]
+        ktop = min(nn - 1, n)
         return self.bfgsrec(ktop, n, nn, self._bfgsS, self._bfgsY, d)
 
     def bfgsrec(self, k, n, nn, S, Y, d):
@@ -1299,10 +1300,10 @@ class BFGS(Minimize, Remember):
         if k < 0:
             d = self.bfgsH0 * d  # Assume that bfgsH0 is a simpeg.Solver
         else:
-            khat = 0 if nn == 0 else np.mod(n - nn + k, nn)
+            khat = np.mod(n, nn)  # the latest pair, n - 1 is the one before it
             gamma = np.vdot(S[:, khat], d) / np.vdot(Y[:, khat], S[:, khat])
             d = d - gamma * Y[:, khat]
-            d = self.bfgsrec(k - 1, n, nn, S, Y, d)
+            d = self.bfgsrec(k - 1, n - 1, nn, S, Y, d)
             d = (
                 d
                 + (gamma - np.vdot(Y[:, khat], d) / np.vdot(Y[:, khat], S[:, khat]))
@@ -1319,7 +1320,7 @@ class BFGS(Minimize, Remember):
             return
 
         yy = self.g - self.g_last
-        ss = self.xc - xt
+        ss = self.xc - self.x_last
         self.g_last = self.g
 
         if yy.dot(ss) > 0:
-- 
2.43.0


From 309bbde60a0c7eff1214050ba9361e3028329801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:01 +0000
Subject: [PATCH 074/157] fix: projected CG keeps preconditioned directions on
 the inactive set

A non-diagonal preconditioner (the default BFGS) moved variables that sit on their bounds.
---
 simpeg/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index f13ec20..62b3cc8 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1645,7 +1645,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
 
         r = resid  # - Inactive * (self.H * step)#  step is zero
 
-        p = self.approxHinv * r
+        p = inactive * (self.approxHinv * r)
 
         sold = np.dot(r, p)
 
@@ -1670,7 +1670,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             r -= alpha * q
             r_norm = norm(r)
 
-            h = self.approxHinv * r
+            h = inactive * (self.approxHinv * r)
 
             snew = np.dot(r, h)
 
-- 
2.43.0


From fce8011056e6524ed72f60abba6289db84289acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:01 +0000
Subject: [PATCH 075/157] fix: ProjectedGNCG leaves bounds when no free
 variable has anything to gain

The step off the bounds was scaled by the (vanishing) step of the free variables.
---
 simpeg/optimization.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 62b3cc8..9964b27 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1680,7 +1680,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             # End CG Iterations
         self.cg_count = count
         self.cg_abs_resid = r_norm
-        self.cg_rel_resid = r_norm / r_norm0
+        self.cg_rel_resid = r_norm / r_norm0 if r_norm0 > 0 else 0.0
 
         # Also include the gradient for cells on the boundary
         # if that gradient would move them away from the boundary.
@@ -1704,8 +1704,17 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             dm_i = max(abs(step))
             dm_a = max(abs(rhs_a))
 
+            if r_norm0 > 1e-3 * norm(rhs_a):
+                length = dm_i / dm_a
+            else:
+                # There is (next to) nothing left to do for the cells inside of
+                # the limits, so their step gives no length scale: minimize the
+                # quadratic model along the gradient instead.
+                curvature = np.dot(rhs_a, self.H * rhs_a)
+                length = np.dot(rhs_a, rhs_a) / curvature if curvature > 0 else 1.0
+
             # add the active set's gradients.
-            step += self.active_set_grad_scale * (rhs_a * dm_i / dm_a)
+            step += self.active_set_grad_scale * length * rhs_a
 
         # Only keep search directions going in the right direction
         step[bound] = 0
-- 
2.43.0


From 00704d784be740bd0917c277f45fcf9bc52dad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:12 +0000
Subject: [PATCH 076/157] fix: the VTEM waveform is zero before it starts

eval returned large negative currents for negative times; the waveform starts
at time zero (as eval_deriv and time_nodes say).
---
 simpeg/electromagnetics/time_domain/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 4f6818c..f653862 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -472,7 +472,9 @@ class VTEMWaveform(BaseWaveform):
         self._ramp_on_rate = value
 
     def eval(self, time):  # noqa: A003
-        if time <= self.peak_time:
+        if time <= 0.0:
+            return 0.0
+        elif time <= self.peak_time:
             return (1.0 - np.exp(-self.ramp_on_rate * time / self.peak_time)) / (
                 1.0 - np.exp(-self.ramp_on_rate)
             )
-- 
2.43.0


From e1acf712d3f2aadd95e61f9b85399f0ba91eefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 077/157] fix: sensitivities use the factorization of their own
 model, not of the last fields call

---
 .../frequency_domain/simulation.py            | 15 ++++++++++-
 .../static/induced_polarization/simulation.py |  1 +
 .../static/resistivity/simulation.py          | 21 +++++++++++----
 .../static/resistivity/simulation_2d.py       | 27 ++++++++++++-------
 .../potential_fields/magnetics/simulation.py  | 10 +++++--
 5 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index d5df4f6..a5cb354 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -201,8 +201,18 @@ class BaseFDEMSimulation(BaseEMSimulation):
 
             Srcs = self.survey.get_sources_by_frequency(freq)
             f[Srcs, self._solutionType] = u
+        self._Ainv_is_current = not self.forward_only
         return f
 
+    def _update_factorization(self):
+        """Factorize again if the model changed since the last factorization."""
+        if not getattr(self, "_Ainv_is_current", False):
+            self.Ainv = [
+                self.solver(self.getA(freq), **self.solver_opts)
+                for freq in self.survey.frequencies
+            ]
+            self._Ainv_is_current = True
+
     # @profile
     def Jvec(self, m, v, f=None):
         r"""Compute the sensitivity matrix times a vector.
@@ -239,6 +249,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             f = self.fields(m)
 
         self.model = m
+        self._update_factorization()
 
         survey_slices = self.survey.get_all_slices()
         Jv = np.full(self.survey.nD, fill_value=np.nan)
@@ -292,6 +303,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             f = self.fields(m)
 
         self.model = m
+        self._update_factorization()
 
         # Get dict of flat array slices for each source-receiver pair in the survey
         survey_slices = self.survey.get_all_slices()
@@ -353,6 +365,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             if f is None:
                 f = self.fields(m)
 
+            self._update_factorization()
             Ainv = self.Ainv
             m_size = self.model.size
 
@@ -499,7 +512,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             List of the model-dependent attributes to clean upon model update.
         """
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv_is_current"]
 
 
 ###############################################################################
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 66ec4ce..d5f9788 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -81,6 +81,7 @@ class BaseIPSimulation(BasePDESimulation):
         self.etaMap = etaMap
         if Ainv is not None:
             self.Ainv = Ainv
+            self._Ainv_is_current = True
         self._f = _f
 
     _Jmatrix = None
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 4ad10e4..e590e39 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -97,15 +97,24 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             value = validate_active_indices("surface_faces", value, n_bf)
         self._surface_faces = value
 
+    def _factorize(self):
+        """Factorize the system matrix of the current model."""
+        if self.Ainv is not None:
+            self.Ainv.clean()
+        self.Ainv = self.solver(self.getA(), **self.solver_opts)
+        self._Ainv_is_current = True
+
+    def _update_factorization(self):
+        """Factorize again if the model changed since the last factorization."""
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
     def fields(self, m=None, calcJ=True):
         if m is not None:
             self.model = m
 
         f = self.fieldsPair(self)
-        if self.Ainv is not None:
-            self.Ainv.clean()
-        A = self.getA()
-        self.Ainv = self.solver(A, **self.solver_opts)
+        self._factorize()
         RHS = self.getRHS()
 
         f[:, self._solutionType] = self.Ainv * RHS
@@ -165,6 +174,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             return J.dot(v)
 
         self.model = m
+        self._update_factorization()
 
         if self._mini_survey is not None:
             survey = self._mini_survey
@@ -205,6 +215,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         Compute adjoint sensitivity matrix (J^T) and vector (v) product.
         Full J matrix can be computed by inputing v=None
         """
+        self._update_factorization()
 
         if self._mini_survey is not None:
             survey = self._mini_survey
@@ -286,7 +297,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv_is_current"]
 
     def _mini_survey_data(self, d_mini):
         if self._mini_survey is not None:
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index a2f3149..4e38fa0 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -220,22 +220,29 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             value = validate_active_indices("surface_faces", value, n_bf)
         self._surface_faces = value
 
+    def _factorize(self):
+        """Factorize the system matrices of the current model."""
+        for iky, ky in enumerate(self._quad_points):
+            if self.Ainv[iky] is not None:
+                self.Ainv[iky].clean()
+            self.Ainv[iky] = self.solver(self.getA(ky), **self.solver_opts)
+        self._Ainv_is_current = True
+
+    def _update_factorization(self):
+        """Factorize again if the model changed since the last factorization."""
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
     def fields(self, m=None):
         if self.verbose:
             print(">> Compute fields")
         if m is not None:
             self.model = m
-        if self.Ainv[0] is not None:
-            for i in range(self.nky):
-                self.Ainv[i].clean()
+        self._factorize()
         f = self.fieldsPair(self)
         kys = self._quad_points
         f._quad_weights = self._quad_weights
         for iky, ky in enumerate(kys):
-            A = self.getA(ky)
-            if self.Ainv[iky] is not None:
-                self.Ainv[iky].clean()
-            self.Ainv[iky] = self.solver(A, **self.solver_opts)
             RHS = self.getRHS(ky)
             u = self.Ainv[iky] * RHS
             f[:, self._solutionType, iky] = u
@@ -301,6 +308,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
 
         if f is None:
             f = self.fields(m)
+        self._update_factorization()
 
         if self._mini_survey is not None:
             survey = self._mini_survey
@@ -354,6 +362,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         Compute adjoint sensitivity matrix (J^T) and vector (v) product.
         Full J matrix can be computed by inputing v=None
         """
+        self._update_factorization()
         kys = self._quad_points
         weights = self._quad_weights
         if self._mini_survey is not None:
@@ -451,8 +460,8 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
         if self.fix_Jmatrix:
-            return toDelete
-        return toDelete + ["_Jmatrix"]
+            return toDelete + ["_Ainv_is_current"]
+        return toDelete + ["_Jmatrix", "_Ainv_is_current"]
 
     def _mini_survey_data(self, d_mini):
         if self._mini_survey is not None:
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index a9b5b6f..bb234d6 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1889,13 +1889,17 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         return A
 
+    def _update_factorization(self):
+        """Factorize again if the model changed since the last factorization."""
+        if self._Ainv is None:
+            self._Ainv = self.solver(self._getA(), **self.solver_opts)
+
     def fields(self, m):
         self.model = m
 
         if self._stored_fields is None:
 
-            if self._Ainv is None:
-                self._Ainv = self.solver(self._getA(), **self.solver_opts)
+            self._update_factorization()
 
             rhs = self._getRHS(m)
 
@@ -2005,6 +2009,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         return J
 
     def _Jtvec(self, m, v, f):
+        self._update_factorization()
         b_field, u = f["b"], f["u"]
 
         Q = self._projectFieldsDeriv(b_field)
@@ -2056,6 +2061,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         return Jtv
 
     def _Jvec(self, m, v, f):
+        self._update_factorization()
 
         if v is None:
             v = np.eye(m.shape[0])
-- 
2.43.0


From c9e42cba76ede3f3f596cde032ee99faabd5923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:23 +0000
Subject: [PATCH 078/157] fix: dpred with given fields uses the model it is
 asked about

---
 simpeg/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index 8fe05f2..e3033a1 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -186,6 +186,9 @@ class BaseSimulation(props.HasModel):
                 m = self.model
 
             f = self.fields(m)
+        elif m is not None:
+            # the fields derived from the solution use the model's properties
+            self.model = m
 
         survey_slices = self.survey.get_all_slices()
         dpred = np.full(self.survey.nD, np.nan)
@@ -597,6 +600,9 @@ class BaseTimeSimulation(BaseSimulation):
 
         if f is None:
             f = self.fields(m)
+        elif m is not None:
+            # the fields derived from the solution use the model's properties
+            self.model = m
 
         survey_slices = self.survey.get_all_slices()
         dpred = np.full(self.survey.nD, np.nan)
-- 
2.43.0


From fc467ca69e428bd0d92c8881a1e0a4493903ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:37 +0000
Subject: [PATCH 079/157] fix: a summed multiprocessing meta simulation sums
 within each process

---
 simpeg/meta/multiprocessing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 05edf03..e9715c7 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -225,6 +225,9 @@ class MultiprocessingMetaSimulation(MetaSimulation):
     >>> mp.set_start_method("spawn")
     """
 
+    # the type of meta simulation that handles the simulations of one process.
+    _chunk_class = MetaSimulation
+
     def __init__(self, simulations, mappings, n_processes=None):
         super().__init__(simulations, mappings)
 
@@ -245,7 +248,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             if chunk == 0:
                 continue
             i_end = i_start + chunk
-            sim_chunk = MetaSimulation(
+            sim_chunk = self._chunk_class(
                 self.simulations[i_start:i_end], self.mappings[i_start:i_end]
             )
             chunk_nd.append(sim_chunk.survey.nD)
@@ -372,6 +375,8 @@ class MultiprocessingSumMetaSimulation(
         will be the minimum of this number and the number of simulations.
     """
 
+    _chunk_class = SumMetaSimulation
+
     def dpred(self, m=None, f=None):
         if f is None:
             if m is None:
-- 
2.43.0


From 318396da0281469bba44b2acffdc0e1359dda810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:37 +0000
Subject: [PATCH 080/157] fix: meta simulations do not reuse getJtJdiag for
 other weights

---
 simpeg/meta/multiprocessing.py | 46 +++++++++----------
 simpeg/meta/simulation.py      | 84 ++++++++++++++++------------------
 2 files changed, 61 insertions(+), 69 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index e9715c7..721e2b4 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -330,21 +330,19 @@ class MultiprocessingMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            if f is None:
-                f = self.fields(m)
-            for i, (p, field) in enumerate(zip(self._sim_processes, f)):
-                chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
-                p.start_jtj_diag(chunk_w, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
-            self._jtjdiag = np.sum(jtj_diag, axis=0)
-        return self._jtjdiag
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        if f is None:
+            f = self.fields(m)
+        for i, (p, field) in enumerate(zip(self._sim_processes, f)):
+            chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
+            p.start_jtj_diag(chunk_w, field)
+        jtj_diag = []
+        for p in self._sim_processes:
+            jtj_diag.append(p.result())
+        return np.sum(jtj_diag, axis=0)
 
     def join(self, timeout=None):
         for p in self._sim_processes:
@@ -415,16 +413,14 @@ class MultiprocessingSumMetaSimulation(
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if f is None:
-                f = self.fields(m)
-            for p, field in zip(self._sim_processes, f):
-                p.start_jtj_diag(W, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
-            self._jtjdiag = np.sum(jtj_diag, axis=0)
-        return self._jtjdiag
+        if f is None:
+            f = self.fields(m)
+        for p, field in zip(self._sim_processes, f):
+            p.start_jtj_diag(W, field)
+        jtj_diag = []
+        for p in self._sim_processes:
+            jtj_diag.append(p.result())
+        return np.sum(jtj_diag, axis=0)
 
 
 class MultiprocessingRepeatedSimulation(
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f2ebc30..7485cc0 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -292,37 +292,35 @@ class MetaSimulation(BaseSimulation):
         then controlled by how diagonally dominant ``J.T @ J`` is.
         """
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                try:
-                    W = W.diagonal()
-                except (AttributeError, TypeError, ValueError):
-                    pass
-            jtj_diag = 0.0
-            # approximate the JtJ diag on the full model space as:
-            # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
-            # Which is correct for mappings that match input parameters to only 1 output parameter.
-            # (i.e. projections, multipliers, etc.).
-            # It is usually close within a scaling factor for others, whose accuracy is controlled
-            # by how diagonally dominant JtJ is.
-            if f is None:
-                f = self.fields(m)
-            for i, (mapping, sim, field) in enumerate(
-                zip(self.mappings, self.simulations, f)
-            ):
-                if self._repeat_sim:
-                    sim.model = mapping * self.model
-                sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
-                m_deriv = mapping.deriv(self.model)
-                jtj_diag += np.asarray(
-                    (sim_jtj @ m_deriv).power(2).sum(axis=0)
-                ).flatten()
-            self._jtjdiag = jtj_diag
-
-        return self._jtjdiag
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            try:
+                W = W.diagonal()
+            except (AttributeError, TypeError, ValueError):
+                pass
+        jtj_diag = 0.0
+        # approximate the JtJ diag on the full model space as:
+        # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
+        # Which is correct for mappings that match input parameters to only 1 output parameter.
+        # (i.e. projections, multipliers, etc.).
+        # It is usually close within a scaling factor for others, whose accuracy is controlled
+        # by how diagonally dominant JtJ is.
+        if f is None:
+            f = self.fields(m)
+        for i, (mapping, sim, field) in enumerate(
+            zip(self.mappings, self.simulations, f)
+        ):
+            if self._repeat_sim:
+                sim.model = mapping * self.model
+            sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
+            sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
+            m_deriv = mapping.deriv(self.model)
+            jtj_diag += np.asarray(
+                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+            ).flatten()
+
+        return jtj_diag
 
     @property
     def _delete_on_model_update(self):
@@ -408,19 +406,17 @@ class SumMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            jtj_diag = 0.0
-            if f is None:
-                f = self.fields(m)
-            for mapping, sim, field in zip(self.mappings, self.simulations, f):
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
-                m_deriv = mapping.deriv(self.model)
-                jtj_diag += np.asarray(
-                    (sim_jtj @ m_deriv).power(2).sum(axis=0)
-                ).flatten()
-            self._jtjdiag = jtj_diag
-
-        return self._jtjdiag
+        jtj_diag = 0.0
+        if f is None:
+            f = self.fields(m)
+        for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
+            m_deriv = mapping.deriv(self.model)
+            jtj_diag += np.asarray(
+                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+            ).flatten()
+
+        return jtj_diag
 
 
 class RepeatedSimulation(MetaSimulation):
-- 
2.43.0


From 638a10985888e1144ae67fac1625457bdac0f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:21 +0000
Subject: [PATCH 081/157] fix: layered simulations can be pickled, as
 multiprocessing meta simulations need

---
 simpeg/electromagnetics/base_1d.py                          | 6 ++++--
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 8ce5dc2..d6fedee 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -22,6 +22,9 @@ import libdlf
 
 __all__ = ["BaseEM1DSimulation"]
 
+# defined here, so that simulations can be pickled
+HankelFilter = namedtuple("HankelFilter", "base j0 j1")
+
 HANKEL_FILTERS = {}
 for filter_name in libdlf.hankel.__all__:
     hankel_filter = getattr(libdlf.hankel, filter_name)
@@ -168,8 +171,7 @@ class BaseEM1DSimulation(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         base, j0, j1 = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0 j1")
-        self._fhtfilt = hank(base, j0, j1)
+        self._fhtfilt = HankelFilter(base, j0, j1)
         self._coefficients_set = False
 
     _hankel_pts_per_dec = 0  # Default: Standard DLF
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index ec5fa29..8e9b6a7 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -12,6 +12,9 @@ from .survey import Survey
 from ....utils import validate_type, validate_string
 from scipy.interpolate import InterpolatedUnivariateSpline as iuSpline
 
+# defined here, so that simulations can be pickled
+HankelFilter = namedtuple("HankelFilter", "base j0")
+
 HANKEL_FILTERS = {}
 for filter_name in libdlf.hankel.__all__:
     hankel_filter = getattr(libdlf.hankel, filter_name)
@@ -197,8 +200,7 @@ class Simulation1DLayers(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         filt = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0")
-        self._fhtfilt = hank(filt[0], filt[1])
+        self._fhtfilt = HankelFilter(filt[0], filt[1])
         self._coefficients_set = False
 
     @property
-- 
2.43.0


From 828acb81f945100aaf0d4f650a62a5d3530d687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:09 +0000
Subject: [PATCH 082/157] fix: ScalingMultipleDataMisfits_ByEig uses its number
 of power iterations

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 5cbaa81..6307ee3 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -936,7 +936,9 @@ class ScalingMultipleDataMisfits_ByEig(InversionDirective):
         dm_eigenvalue_list = []
         for dm in self.dmisfit.objfcts:
             dm_eigenvalue_list += [
-                eigenvalue_by_power_iteration(dm, m, random_seed=rng)
+                eigenvalue_by_power_iteration(
+                    dm, m, n_pw_iter=self.n_pw_iter, random_seed=rng
+                )
             ]
 
         self.chi0 = self.chi0_ratio / np.r_[dm_eigenvalue_list]
-- 
2.43.0


From c9c338cccfaa0708e1890e5b8d045ebb42cb59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:09 +0000
Subject: [PATCH 083/157] fix: load_results and plot_tikhonov_curves of
 SaveOutputEveryIteration with the combined misfit of an inversion

---
 simpeg/directives/_directives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 6307ee3..9943289 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1961,7 +1961,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
                     f"'file_name' is a required argument if '{type(self).__qualname__}.on_disk' is `False`"
                 )
             file_name = self.file_abs_path
-        results = np.loadtxt(file_name, comments="#")
+        results = np.loadtxt(file_name, comments="#", ndmin=2)
         if results.shape[1] != 9:
             raise ValueError(f"{file_name} does not have valid results")
 
@@ -1978,7 +1978,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             self.phi_m_smooth_x + self.phi_m_smooth_y + self.phi_m_smooth_z
         )
 
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([dmis.nD for dmis in self.invProb.dmisfit.objfcts])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
@@ -2050,7 +2050,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             fig.savefig(fname, dpi=dpi)
 
     def plot_tikhonov_curves(self, fname=None, dpi=200):
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([dmis.nD for dmis in self.invProb.dmisfit.objfcts])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
-- 
2.43.0


From 8fe7a353ad8c8ad8de393dabb710d990aee804c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:31 +0000
Subject: [PATCH 084/157] fix: the last values of a combination keep their
 places when a multiplier is zero

---
 simpeg/objective_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 6d103ce..9802cb3 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -460,6 +460,7 @@ class ComboObjectiveFunction(BaseObjectiveFunction):
         for i, phi in enumerate(self):
             multiplier, objfct = phi
             if multiplier == 0.0:  # don't evaluate the fct
+                obj_vals.append(np.nan)
                 continue
             if f is not None and objfct.has_fields:
                 objective_func_value = objfct(m, f=f[i])
-- 
2.43.0


From bbf656a7d3ed9e2bdb515218d91a393dcad858ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:48 +0000
Subject: [PATCH 085/157] fix: JointScalingSchedule with several data misfits
 above their target

---
 simpeg/directives/_directives.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 9943289..7dc4056 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1081,10 +1081,9 @@ class JointScalingSchedule(InversionDirective):
                         multipliers = self.warmingFactor * np.median(
                             self.DMtarget[~indx] / self.dmlist[~indx]
                         )
-                        if np.sum(indx) == 1:
-                            indx = np.where(indx)[0][0]
-                        self.dmisfit.multipliers[indx] *= multipliers
-                        self.dmisfit.multipliers /= np.sum(self.dmisfit.multipliers)
+                        scales = np.array(self.dmisfit.multipliers, dtype=float)
+                        scales[indx] *= multipliers
+                        self.dmisfit.multipliers = scales / np.sum(scales)
 
                         if self.verbose:
                             print("Updating scaling for data misfits by ", multipliers)
-- 
2.43.0


From 3bf97fa28072f69d9973061f7c0632c7de93c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 086/157] fix: VRM waveforms with negative currents or starting
 with the current on

The arbitrary waveforms of viscous remanent magnetization dropped the
negative lobes before the first or after the last positive current, and
took the last sample as the first one when the current is on from the
start.
---
 .../viscous_remanent_magnetization/waveforms.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index e76da90..219ea15 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -425,8 +425,8 @@ class ArbitraryDiscrete(BaseVRMWaveform):
         """
         fieldType = validate_string("fieldType", fieldType, ["h", "b", "dhdt", "dbdt"])
 
-        k = np.where(self.I_wave > 1e-10)
-        j = k[0][0] - 1
+        k = np.where(np.abs(self.I_wave) > 1e-10)
+        j = max(k[0][0] - 1, 0)
         k = k[0][-1] + 1
 
         twave = self.t_wave[j : k + 1]
@@ -517,8 +517,8 @@ class ArbitraryPiecewise(ArbitraryDiscrete):
                 % np.max(self.t_wave)
             )
 
-        k = np.where(self.I_wave > 1e-10)
-        j = k[0][0] - 1
+        k = np.where(np.abs(self.I_wave) > 1e-10)
+        j = max(k[0][0] - 1, 0)
         k = k[0][-1] + 1
 
         tvec = self.t_wave[j : k + 1]
-- 
2.43.0


From c165aea850a942ce93539676767f3e601f0db38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 087/157] fix: custom VRM waveforms can be used in a simulation

The simulation asks every waveform for getCharDecay(field_type, times); the
one of Custom only accepted the times.
---
 .../viscous_remanent_magnetization/waveforms.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index 219ea15..aab0353 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -584,13 +584,19 @@ class Custom(BaseVRMWaveform):
     def waveform_function(self, value):
         self._waveform_function = validate_callable("waveform_function", value)
 
-    def getCharDecay(self, times):
+    def getCharDecay(self, fieldType, times=None):
         """Returns characteristic decay function at specified times
 
         Parameters
         ----------
+        fieldType : {'h', 'b', 'dhdt', 'dbdt'}
+            Field type of the receiver. It does not change the result: the function
+            defines the characteristic decay for the receivers of the source.
         times : numpy.ndarray
             Off-times where characteristic decay is evaluated
         """
+        if times is None:
+            # called with the times only
+            times = fieldType
 
         return self.waveform_function(times)
-- 
2.43.0


From cf9edf991e42d4e8fa11ff4658199e063a109eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:34 +0000
Subject: [PATCH 088/157] fix: log-uniform VRM data of several sources,
 receivers or locations

Simulation3DLogUniform indexed the operators of the sources by the number of
the receiver, used all receivers of the source for each of them, and ordered
the data by time although the survey (and Simulation3DLinear) orders them by
location.
---
 .../viscous_remanent_magnetization/simulation.py           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
index 6d4a63c..86f1a6c 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
@@ -1039,6 +1039,9 @@ class Simulation3DLogUniform(BaseVRMSimulation):
             nRx = len(receiver_list)
             waveObj = source_list[pp].waveform
 
+            # Rows of the operator of this source that belong to each receiver
+            rows = np.r_[0, np.cumsum(source_list[pp].vnRx)]
+
             for qq in range(0, nRx):
                 times = receiver_list[qq].times
                 eta = waveObj.getLogUniformDecay(
@@ -1050,6 +1053,8 @@ class Simulation3DLogUniform(BaseVRMSimulation):
                     self.tau2,
                 )
 
-                f.append(mkvc(self.A[qq] @ eta))
+                # All times of the first location, then of the second location, ...
+                A = self.A[pp][rows[qq] : rows[qq + 1], :]
+                f.append((A @ eta).flatten())
 
         return np.array(np.hstack(f))
-- 
2.43.0


From e401eb8adbfecf33b6988c4c0f7b19cddcb98a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:34 +0000
Subject: [PATCH 089/157] fix: VRM sensitivities for mappings whose derivative
 is a dense array

Jvec and Jtvec of the linear VRM simulation multiplied the derivative of the
mapping entry by entry instead of as a matrix.
---
 .../viscous_remanent_magnetization/simulation.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
index 86f1a6c..7365925 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
@@ -940,7 +940,7 @@ class Simulation3DLinear(BaseVRMSimulation):
         dxidm = self.xiMap.deriv(m)
 
         # dxidm*v
-        v = dxidm * v
+        v = dxidm @ v
 
         # Dot product with A
         v = self.A @ v
@@ -971,7 +971,7 @@ class Simulation3DLinear(BaseVRMSimulation):
         dxidm = self.xiMap.deriv(m)
 
         # Must return an array
-        return mkvc(dxidm.T * v)
+        return mkvc(dxidm.T @ v)
 
 
 class Simulation3DLogUniform(BaseVRMSimulation):
-- 
2.43.0


From f0d3ecf6db346791ca14acb2aeaf5075ac0b15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:34 +0000
Subject: [PATCH 090/157] fix: number of data of a VRM survey made with
 inactive time channels

nD counted all of the data when t_active is given to the constructor or set
afterwards, although the predicted data only contain the active ones.
---
 .../viscous_remanent_magnetization/survey.py                | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
index 0f65d97..7852bcc 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
@@ -26,7 +26,6 @@ class SurveyVRM(BaseSurvey):
         super(SurveyVRM, self).__init__(source_list=source_list, **kwargs)
 
         self._nD_all = self.vnD.sum()
-        self._nD = self._nD_all
 
         if t_active is None:
             t_active = np.ones(self._nD_all, dtype=bool)
@@ -53,9 +52,7 @@ class SurveyVRM(BaseSurvey):
 
     @property
     def nD(self):
-        if self._nD is None:
-            self._nD = np.sum(self.t_active)
-        return self._nD
+        return np.sum(self.t_active)
 
     def set_active_interval(self, tmin, tmax):
         """Set active times using an interval"""
@@ -74,4 +71,3 @@ class SurveyVRM(BaseSurvey):
                 tActBool = np.r_[tActBool, np.kron(np.ones(nLoc), times)]
 
         self.t_active = (tActBool >= tmin) & (tActBool <= tmax)
-        self._nD = np.sum(self.t_active)
-- 
2.43.0


From d51e99b29bdfc25123911a6c8e1448e19de8e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:31 +0000
Subject: [PATCH 091/157] fix: VRM simulations follow a new survey, refinement
 or active cells

The operators were kept when the survey, the refinement distances or the
active cells of the simulation changed.
---
 .../viscous_remanent_magnetization/simulation.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
index 7365925..a118c2e 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
@@ -26,6 +26,7 @@ class BaseVRMSimulation(BaseSimulation):
     """"""
 
     _AisSet = False
+    _TisSet = False
 
     def __init__(
         self,
@@ -99,6 +100,8 @@ class BaseVRMSimulation(BaseSimulation):
         if value is not None:
             value = validate_type("survey", value, SurveyVRM, cast=False)
         self._survey = value
+        self._AisSet = False
+        self._TisSet = False
 
     @property
     def refinement_factor(self):
@@ -125,6 +128,7 @@ class BaseVRMSimulation(BaseSimulation):
         self._refinement_distance = validate_ndarray_with_shape(
             "refinement_distance", value, shape=("*",)
         )
+        self._AisSet = False
 
     @property
     def active_cells(self):
@@ -141,6 +145,7 @@ class BaseVRMSimulation(BaseSimulation):
         self._active_cells = validate_active_indices(
             "active_cells", value, self.mesh.n_cells
         )
+        self._AisSet = False
 
     indActive = deprecate_property(
         active_cells,
-- 
2.43.0


From 34a1f65ceda58a3459b2fc7acfed678ce5d148ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 092/157] fix: VRM time derivatives of waveforms that start or
 end with the current on

The last term of the derivative has the wrong sign. It vanishes only when
the current is zero at both ends of the waveform.
---
 .../viscous_remanent_magnetization/waveforms.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index aab0353..fce58f8 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -457,7 +457,7 @@ class ArbitraryDiscrete(BaseVRMWaveform):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
@@ -540,7 +540,7 @@ class ArbitraryPiecewise(ArbitraryDiscrete):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
-- 
2.43.0


From f9a764bb2f6ec49d517c4c06b547fc0403cb667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:02 +0000
Subject: [PATCH 093/157] fix: cell centered DC sources with several electrodes
 in a cell

The current of the last electrode replaced that of the others, so that for
instance a dipole within a cell injected a net current.
---
 simpeg/electromagnetics/static/resistivity/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/sources.py b/simpeg/electromagnetics/static/resistivity/sources.py
index ee46681..bcc288c 100644
--- a/simpeg/electromagnetics/static/resistivity/sources.py
+++ b/simpeg/electromagnetics/static/resistivity/sources.py
@@ -77,7 +77,8 @@ class BaseSrc(survey.BaseSrc):
         if sim._formulation == "HJ":
             inds = sim.mesh.closest_points_index(self.location, grid_loc="CC")
             q = np.zeros(sim.mesh.nC)
-            q[inds] = self.current
+            # electrodes may share a cell
+            np.add.at(q, inds, self.current)
         elif sim._formulation == "EB":
             loc = self.location
             cur = self.current
-- 
2.43.0


From 50ef6b67c0c457ee2c8352478fa3cb774e8a713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:02 +0000
Subject: [PATCH 094/157] fix: stored projections of DC receivers belong to a
 grid of the mesh

With storeProjections a survey used by a cell centered simulation could not
be used by a nodal one on the same mesh.
---
 .../electromagnetics/static/resistivity/receivers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/receivers.py b/simpeg/electromagnetics/static/resistivity/receivers.py
index f380f50..63786f4 100644
--- a/simpeg/electromagnetics/static/resistivity/receivers.py
+++ b/simpeg/electromagnetics/static/resistivity/receivers.py
@@ -408,15 +408,15 @@ class Dipole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[(mesh, projected_grid)]
 
         P0 = mesh.get_interpolation_matrix(self.locations[0], projected_grid)
         P1 = mesh.get_interpolation_matrix(self.locations[1], projected_grid)
         P = P0 - P1
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[(mesh, projected_grid)] = P
 
         if transpose:
             P = P.toarray().T
@@ -487,12 +487,12 @@ class Pole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[(mesh, projected_grid)]
 
         P = mesh.get_interpolation_matrix(self.locations, projected_grid)
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[(mesh, projected_grid)] = P
 
         return P
-- 
2.43.0


From 95b71ed9de126ec092526e03a48331806c0daf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:18 +0000
Subject: [PATCH 095/157] fix: DC apparent resistivities do not depend on the
 current

The voltages were divided by the geometric factor but not by the current of
the source, so that the apparent resistivity of a homogeneous earth was not
its resistivity unless the current is 1 A.
---
 simpeg/electromagnetics/static/resistivity/receivers.py     | 4 ++--
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 simpeg/electromagnetics/static/resistivity/utils.py         | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/receivers.py b/simpeg/electromagnetics/static/resistivity/receivers.py
index 63786f4..2d3aa94 100644
--- a/simpeg/electromagnetics/static/resistivity/receivers.py
+++ b/simpeg/electromagnetics/static/resistivity/receivers.py
@@ -183,7 +183,7 @@ class BaseRx(BaseSimPEGRx):
 
         if self.data_type == "apparent_resistivity":
             try:
-                return v / self.geometric_factor[src][:, None]
+                return v / (src.current[0] * self.geometric_factor[src][:, None])
             except KeyError:
                 raise KeyError(
                     "Receiver geometric factor has not been set, please execute "
@@ -224,7 +224,7 @@ class BaseRx(BaseSimPEGRx):
 
         factor = None
         if self.data_type == "apparent_resistivity":
-            factor = 1.0 / self.geometric_factor[src]
+            factor = 1.0 / (src.current[0] * self.geometric_factor[src])
 
         if v is None:
             if factor is not None:
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 8e9b6a7..93cb961 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -281,7 +281,7 @@ class Simulation1DLayers(BaseSimulation):
                         if n_off is not None:
                             A[:, i] -= current * splines[i](np.log(n_off)) / n_off
                 if rx.data_type == "apparent_resistivity":
-                    A /= rx.geometric_factor[src][:, None]
+                    A /= src.current[0] * rx.geometric_factor[src][:, None]
                 As.append(A @ A_dht / (2 * np.pi))
         self._coefficients_set = True
         self._As = np.vstack(As)
diff --git a/simpeg/electromagnetics/static/resistivity/utils.py b/simpeg/electromagnetics/static/resistivity/utils.py
index ee824da..2a58e1c 100644
--- a/simpeg/electromagnetics/static/resistivity/utils.py
+++ b/simpeg/electromagnetics/static/resistivity/utils.py
@@ -135,8 +135,9 @@ def _mini_data_scale(survey):
     scale = []
     for source in survey.source_list:
         for rx in source.receiver_list:
-            factor = np.full(rx.nD, source.current[0])
             if rx.data_type == "apparent_resistivity":
-                factor = factor / rx.geometric_factor[source]
+                factor = 1.0 / rx.geometric_factor[source]
+            else:
+                factor = np.full(rx.nD, source.current[0])
             scale.append(factor)
     return np.hstack(scale)
-- 
2.43.0


From d8cc4c9704c14ad8b301c927ed98898574e65d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:58 +0000
Subject: [PATCH 096/157] fix: spectral IP dipoles with both electrodes in a
 cell

---
 .../static/spectral_induced_polarization/sources.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/sources.py b/simpeg/electromagnetics/static/spectral_induced_polarization/sources.py
index 2bb93a5..d231acf 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/sources.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/sources.py
@@ -221,7 +221,7 @@ class Dipole(BaseSrc):
         if simulation._formulation == "HJ":
             inds = simulation.mesh.closest_points_index(self.location, grid_loc="CC")
             q = np.zeros(simulation.mesh.nC)
-            q[inds] = self.current * np.r_[1.0, -1.0]
+            np.add.at(q, inds, self.current * np.r_[1.0, -1.0])
         elif simulation._formulation == "EB":
             qa = simulation.mesh.get_interpolation_matrix(
                 self.location[0], location_type="N"
-- 
2.43.0


From 6eee6b6af2f7eff27b2f4e036d8ca49ad12f9726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:31 +0000
Subject: [PATCH 097/157] fix: MagDipole_Bfield sources on cylindrical meshes
 without symmetry

---
 simpeg/electromagnetics/frequency_domain/sources.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index c21d17d..8a60652 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -731,10 +731,11 @@ class MagDipole_Bfield(MagDipole):
 
         if simulation.mesh._meshType == "CYL":
             coordinates = "cylindrical"
-            if simulation.mesh.is_symmetric:
-                bx = self._srcFct(gridX)[:, 0]
-                bz = self._srcFct(gridZ)[:, 2]
-                b = np.concatenate((bx, bz))
+
+        if simulation.mesh._meshType == "CYL" and simulation.mesh.is_symmetric:
+            bx = self._srcFct(gridX)[:, 0]
+            bz = self._srcFct(gridZ)[:, 2]
+            b = np.concatenate((bx, bz))
         else:
             bx = self._srcFct(gridX, coordinates=coordinates)[:, 0]
             by = self._srcFct(gridY, coordinates=coordinates)[:, 1]
-- 
2.43.0


From 018fd900898872f6a6576de7197ac114e2cbc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:03 +0000
Subject: [PATCH 098/157] fix: magnetic dipoles in the HJ formulation on the
 boundary of cylindrical meshes

---
 simpeg/electromagnetics/frequency_domain/sources.py | 4 +++-
 simpeg/electromagnetics/time_domain/sources.py      | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 8a60652..902fa0c 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -572,7 +572,9 @@ class MagDipole(BaseFDEMSrc):
             avec = self._srcFct(simulation.mesh.faces, coordinates)
             a = simulation.mesh.project_face_vector(avec)
 
-            a_boundary = mkvc(self._srcFct(simulation.mesh.boundary_edges))
+            a_boundary = mkvc(
+                self._srcFct(simulation.mesh.boundary_edges, coordinates)
+            )
             a_bc = simulation.mesh.boundary_edge_vector_integral * a_boundary
 
             return (
diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index f653862..79a5c61 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1431,7 +1431,12 @@ class MagDipole(BaseTDEMSrc):
         elif simulation._formulation == "HJ":
             a = self._aSrc(simulation)
 
-            a_boundary = mkvc(self._srcFct(simulation.mesh.boundary_edges))
+            coordinates = (
+                "cylindrical" if simulation.mesh._meshType == "CYL" else "cartesian"
+            )
+            a_boundary = mkvc(
+                self._srcFct(simulation.mesh.boundary_edges, coordinates)
+            )
             a_bc = simulation.mesh.boundary_edge_vector_integral * a_boundary
 
             return (
-- 
2.43.0


From 03b5eeb598efb64c65108ee3e752bb09af23a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:54 +0000
Subject: [PATCH 099/157] fix: TDEM current density formulation: source term of
 each time step

---
 simpeg/electromagnetics/time_domain/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index ad59d14..fea24bd 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -2561,12 +2561,9 @@ class Simulation3DCurrentDensity(BaseTDEMSimulation):
         (n_faces, n_sources) numpy.ndarray
             The right-hand sides.
         """
-        if tInd == len(self.time_steps):
-            tInd = tInd - 1
-
         C = self.mesh.edge_curl
         MeMuI = self.MeMuI
-        dt = self.time_steps[tInd]
+        dt = self.time_steps[tInd - 1]
         s_m, s_e = self.getSourceTerm(tInd)
         _, s_en1 = self.getSourceTerm(tInd - 1)
 
-- 
2.43.0


From 8856a4ba81e479e7fffed84a62340583be2b0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:54 +0000
Subject: [PATCH 100/157] fix: TDEM raw grounded sources in the EB formulation
 use the given source term

---
 simpeg/electromagnetics/time_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 79a5c61..6b68e27 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -2228,7 +2228,7 @@ class RawVec_Grounded(LineCurrent):
         self.integrate = False
 
         if s_e is not None:
-            self._Mfjs = self._s_e = s_e
+            self._Mfjs = self._Mejs = self._s_e = s_e
 
     # def getRHSdc(self, simulation):
     #     return sdiag(simulation.mesh.cell_volumes) * simulation.mesh.face_divergence * self._s_e
-- 
2.43.0


From b0c0492f84b40d31ed861c19e01b462871d48f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:20 +0000
Subject: [PATCH 101/157] fix: TDEM db/dt of several sources from the current
 density formulation

---
 simpeg/electromagnetics/time_domain/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/fields.py b/simpeg/electromagnetics/time_domain/fields.py
index 927a35e..cd53274 100644
--- a/simpeg/electromagnetics/time_domain/fields.py
+++ b/simpeg/electromagnetics/time_domain/fields.py
@@ -852,7 +852,7 @@ class Fields3DCurrentDensity(FieldsTDEM):
         )
 
     def _dbdt(self, jSolution, source_list, tInd):
-        dhdt = mkvc(self._dhdt(jSolution, source_list, tInd))
+        dhdt = self._dhdt(jSolution, source_list, tInd)
         return self.simulation.MeI * (self.simulation.MeMu * dhdt)
 
     def _dbdtDeriv_u(self, tInd, src, dun_dm_v, adjoint=False):
-- 
2.43.0


From 40aaf88afb89efbdc39d14f7b04c5eb22a371c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:44 +0000
Subject: [PATCH 102/157] fix: TDEM initial fields of closed wires in the HJ
 formulation scale with the current

---
 simpeg/electromagnetics/time_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 6b68e27..53c367b 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -2095,7 +2095,7 @@ class LineCurrent(BaseTDEMSrc):
 
             if self.srcType == "inductive":
                 line_current = LineCurrentWholeSpace(self.location)
-                a_boundary = mkvc(
+                a_boundary = self.current * mkvc(
                     line_current.vector_potential(simulation.mesh.boundary_edges)
                 )
                 a_bc = simulation.mesh.boundary_edge_vector_integral * a_boundary
-- 
2.43.0


From 4fe55a3ddadaa39171bd79b23ab909e6706e98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:19 +0000
Subject: [PATCH 103/157] fix: xyz DC/IP files with the columns in any order,
 one row or one coordinate

---
 .../io_utils/io_utils_electromagnetics.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index e0306a1..6af00ee 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -115,7 +115,9 @@ def read_dcip_xyz(
         col_indices.append(file_headers.index(h))
 
     # Load specified columns of data
-    data_array = np.loadtxt(file_name, comments="!", skiprows=1, usecols=col_indices)
+    data_array = np.loadtxt(
+        file_name, comments="!", skiprows=1, usecols=col_indices, ndmin=2
+    )
     n_rows = np.shape(data_array)[0]
     num_location_columns = np.shape(data_array)[1] - non_location_columns
 
@@ -133,10 +135,10 @@ def read_dcip_xyz(
         n_cols = [6, 7]
     # 2D surface data
     else:
-        a_cols = [1]
-        b_cols = [2]
-        m_cols = [3]
-        n_cols = [4]
+        a_cols = [0]
+        b_cols = [1]
+        m_cols = [2]
+        n_cols = [3]
 
     # Extract electrode locations
     if is_surface_data:
@@ -170,19 +172,19 @@ def read_dcip_xyz(
 
     # Sort and organize all data columns
     if has_data:
-        data_object.dobs = data_array[out_indices, file_headers.index(data_header)]
+        data_object.dobs = data_array[out_indices, out_headers.index(data_header)]
 
     # Sort and organize all data columns
     if has_uncert:
         data_object.standard_deviation = data_array[
-            out_indices, file_headers.index(uncertainties_header)
+            out_indices, out_headers.index(uncertainties_header)
         ]
 
     # Sort and organize all data columns
     if has_dict:
         out_dict = {}
         for h in dict_headers:
-            out_dict[h] = data_array[out_indices, file_headers.index(h)]
+            out_dict[h] = data_array[out_indices, out_headers.index(h)]
         return data_object, out_dict
 
     else:
-- 
2.43.0


From d8af644f22950495e6c7abb41aa8291f8dbc7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:36 +0000
Subject: [PATCH 104/157] fix: UBC DC/IP files with poles and dipoles, map
 coordinates or pole receivers at the surface

---
 .../io_utils/io_utils_electromagnetics.py     | 90 +++++++++++--------
 1 file changed, 51 insertions(+), 39 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 6af00ee..5753de2 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -1,3 +1,5 @@
+from itertools import groupby
+
 import numpy as np
 from discretize.utils import mkvc
 import warnings
@@ -191,6 +193,44 @@ def read_dcip_xyz(
         return data_object
 
 
+def _same_location(loc_1, loc_2):
+    """Whether a pair of electrodes in a UBC file stands for a pole."""
+    return np.allclose(loc_1, loc_2, rtol=0.0)
+
+
+def _source_from_locations(tx, rx, dim, data_type):
+    """Create a source with its receivers from the locations in a UBC file.
+
+    Parameters
+    ----------
+    tx : (n) numpy.ndarray
+        ``dim`` coordinates for a pole, twice as many for a dipole.
+    rx : list of (n) numpy.ndarray
+        ``dim`` coordinates for a pole, twice as many for a dipole.
+    dim : int
+        Number of coordinates of an electrode.
+    data_type : str
+        Data type of the receivers.
+    """
+    from ...electromagnetics.static import resistivity as dc
+
+    # Consecutive poles or dipoles make a receiver
+    receiver_list = []
+    for is_pole, locations in groupby(rx, key=lambda loc: len(loc) == dim):
+        locations = np.asarray(list(locations))
+        if is_pole:
+            receiver_list.append(dc.receivers.Pole(locations, data_type=data_type))
+        else:
+            receiver_list.append(
+                dc.receivers.Dipole(
+                    locations[:, :dim], locations[:, dim:], data_type=data_type
+                )
+            )
+    if len(tx) == dim:
+        return dc.sources.Pole(receiver_list, tx)
+    return dc.sources.Dipole(receiver_list, tx[:dim], tx[dim:])
+
+
 def read_dcip2d_ubc(file_name, data_type, format_type):
     """Read UBC-GIF DCIP2D formatted survey or data files.
 
@@ -268,8 +308,6 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     if format_type == "simple":
         # Load numeric data into an array
@@ -338,18 +376,16 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 # Check if z value is provided, if False -> 9999
                 if len(temp) == 3:
                     # check if pole|dipole
-                    if np.allclose(temp[0], temp[1]):
+                    if _same_location(temp[0], temp[1]):
                         tx = np.r_[temp[0], 9999]
-                        is_pole_tx = True
                     else:
                         tx = np.r_[temp[0], 9999, temp[1], 9999]
                     is_surface = True
 
                 else:
                     # check if pole|dipole
-                    if np.allclose(temp[0:2], temp[2:4]):
+                    if _same_location(temp[0:2], temp[2:4]):
                         tx = np.r_[temp[0:2]]
-                        is_pole_tx = True
                     else:
                         tx = temp[:-1]
 
@@ -362,8 +398,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 data_column_index = 2
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0], temp[1]):
-                    is_pole_rx = True
+                if _same_location(temp[0], temp[1]):
                     rx.append(np.r_[temp[0], 9999])
                 else:
                     rx.append(np.r_[temp[0], 9999, temp[1], 9999])
@@ -372,8 +407,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 data_column_index = 4  # Since dpred for dc has app_res
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0:2], temp[2:4]):
-                    is_pole_rx = True
+                if _same_location(temp[0:2], temp[2:4]):
                     rx.append(temp[:2])
                 else:
                     rx.append(temp[:4])
@@ -391,15 +425,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
             # Reach the end of transmitter block
             if count == 0:
-                rx = np.asarray(rx)
-                if is_pole_rx:
-                    Rx = dc.receivers.Pole(rx[:, :2], data_type=data_type)
-                else:
-                    Rx = dc.receivers.Dipole(rx[:, :2], rx[:, 2:], data_type=data_type)
-                if is_pole_tx:
-                    source_list.append(dc.sources.Pole([Rx], tx[:2]))
-                else:
-                    source_list.append(dc.sources.Dipole([Rx], tx[:2], tx[2:]))
+                source_list.append(_source_from_locations(tx, rx, 2, data_type))
 
         survey = dc.survey.Survey(source_list)
         data_out = Data(survey=survey)
@@ -471,8 +497,6 @@ def read_dcip3d_ubc(file_name, data_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     # IP data for dcip3d has a line with a flag we can remove.
     if obsfile[0][0:6] == "IPTYPE":
@@ -498,18 +522,16 @@ def read_dcip3d_ubc(file_name, data_type):
             # Check if z value is provided, if False -> 9999
             if len(temp) == 5:
                 # check if pole|dipole
-                if np.allclose(temp[0:2], temp[2:4]):
+                if _same_location(temp[0:2], temp[2:4]):
                     tx = np.r_[temp[0:2], 9999]
-                    is_pole_tx = True
                 else:
                     tx = np.r_[temp[0:2], 9999, temp[2:4], 9999]
                 is_surface = True
 
             else:
                 # check if pole|dipole
-                if np.allclose(temp[0:3], temp[3:6]):
+                if _same_location(temp[0:3], temp[3:6]):
                     tx = np.r_[temp[0:3]]
-                    is_pole_tx = True
                 else:
                     tx = temp[:-1]
 
@@ -522,9 +544,8 @@ def read_dcip3d_ubc(file_name, data_type):
             data_column_index = 4  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:2], temp[2:4]):
-                is_pole_rx = True
-                rx.append(temp[:2])
+            if _same_location(temp[0:2], temp[2:4]):
+                rx.append(np.r_[temp[:2], 9999])
             else:
                 rx.append(np.r_[temp[0:2], 9999, temp[2:4], 9999])
 
@@ -532,8 +553,7 @@ def read_dcip3d_ubc(file_name, data_type):
             data_column_index = 6  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:3], temp[3:6]):
-                is_pole_rx = True
+            if _same_location(temp[0:3], temp[3:6]):
                 rx.append(temp[:3])
             else:
                 rx.append(temp[:6])
@@ -551,15 +571,7 @@ def read_dcip3d_ubc(file_name, data_type):
 
         # Reach the end of transmitter block
         if count == 0:
-            rx = np.asarray(rx)
-            if is_pole_rx:
-                Rx = dc.receivers.Pole(rx[:, :3], data_type=data_type)
-            else:
-                Rx = dc.receivers.Dipole(rx[:, :3], rx[:, 3:], data_type=data_type)
-            if is_pole_tx:
-                source_list.append(dc.sources.Pole([Rx], tx[:3]))
-            else:
-                source_list.append(dc.sources.Dipole([Rx], tx[:3], tx[3:]))
+            source_list.append(_source_from_locations(tx, rx, 3, data_type))
 
     survey = dc.survey.Survey(source_list)
     data_out = Data(survey=survey)
-- 
2.43.0


From 37201466e973fcd2f0b379b435b9f4a4bbbd432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:36 +0000
Subject: [PATCH 105/157] fix: simple UBC DC/IP files of secondary potentials
 or with one row

---
 simpeg/utils/io_utils/io_utils_electromagnetics.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 5753de2..e32f4fb 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -285,7 +285,9 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
     from ...data import Data
 
     # Load file
-    obsfile = np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    obsfile = np.atleast_1d(
+        np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    )
 
     # Find starting data
     start_index = 0
@@ -311,12 +313,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     if format_type == "simple":
         # Load numeric data into an array
-        if data_type == "volt":
-            data_array = np.loadtxt(file_name, comments="!", skiprows=start_index)
-        else:
-            data_array = np.loadtxt(
-                file_name, comments={"!", "IPTYPE"}, skiprows=start_index
-            )
+        data_array = np.loadtxt(file_name, comments=["!", "IPTYPE"], ndmin=2)
 
         n_rows = np.shape(data_array)[0]
 
-- 
2.43.0


From bc052897c1fda321471a22944022a708538bd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:36 +0000
Subject: [PATCH 106/157] fix: writing predicted DC data keeps the
 uncertainties of the data object

---
 simpeg/utils/io_utils/io_utils_electromagnetics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index e32f4fb..b2c8944 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -873,8 +873,12 @@ def write_dcip3d_ubc(
     # Predicted DC data will automatically contain apparent resistivity column.
     # Here we compute the apparent resistivities and treat it like an uncertainties column.
     if (file_type == "dpred") & (data_type == "volt"):
-        data_object.standard_deviation = apparent_resistivity_from_voltage(
-            data_object.survey, data_object.dobs
+        data_object = Data(
+            data_object.survey,
+            dobs=data_object.dobs,
+            standard_deviation=apparent_resistivity_from_voltage(
+                data_object.survey, data_object.dobs
+            ),
         )
         file_type = "dobs"
 
-- 
2.43.0


From a3dff44aab9f07bf53446491e5e23aa5b22987bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:54 +0000
Subject: [PATCH 107/157] fix: writing a gravity gradiometry file keeps the
 components of the survey

---
 simpeg/utils/io_utils/io_utils_pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/utils/io_utils/io_utils_pf.py b/simpeg/utils/io_utils/io_utils_pf.py
index ff689c1..fa35495 100644
--- a/simpeg/utils/io_utils/io_utils_pf.py
+++ b/simpeg/utils/io_utils/io_utils_pf.py
@@ -340,7 +340,7 @@ def write_gg3d_ubc(filename, data_object):
         raise NotImplementedError(
             "Writing of ubc format only supported for a single receiver."
         )
-    components = src.receiver_list[0].components
+    components = list(src.receiver_list[0].components)
     n_comp = len(components)
     factor = np.ones(n_comp)
 
-- 
2.43.0


From b920d44f2bbce68d5dd80b643be97b148927c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:54 +0000
Subject: [PATCH 108/157] fix: potential field files of data that are zero

---
 simpeg/utils/io_utils/io_utils_pf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_pf.py b/simpeg/utils/io_utils/io_utils_pf.py
index fa35495..d8ae944 100644
--- a/simpeg/utils/io_utils/io_utils_pf.py
+++ b/simpeg/utils/io_utils/io_utils_pf.py
@@ -65,7 +65,7 @@ def read_mag3d_ubc(obs_file):
     if np.all(wd == 0.0):
         wd = None
 
-    if np.all(d == 0.0):
+    if wd is None and np.all(d == 0.0):
         d = None
 
     rxLoc = magnetics.receivers.Point(locXYZ)
@@ -178,7 +178,7 @@ def read_grav3d_ubc(obs_file):
 
     # UBC and SimPEG used opposite sign convention for
     # gravity data so must multiply by -1.
-    if np.all(d == 0.0):
+    if wd is None and np.all(d == 0.0):
         d = None
     else:
         d *= -1.0
@@ -357,7 +357,7 @@ def write_gg3d_ubc(filename, data_object):
     output = src.receiver_list[0].locations
     n_loc = np.shape(output)[0]
 
-    if np.any(data_object.dobs != 0):
+    if np.any(data_object.dobs != 0) or np.any(data_object.standard_deviation != 0):
         dobs = data_object.dobs.reshape((n_loc, n_comp)) * factor
         output = np.c_[output, dobs]
 
-- 
2.43.0


From 4755749aa512190f7a4e94e1a763489617343e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:08 +0000
Subject: [PATCH 109/157] fix: natural source data with tippers from a record
 array of real values

---
 simpeg/electromagnetics/natural_source/survey.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/survey.py b/simpeg/electromagnetics/natural_source/survey.py
index fc3751d..92367ad 100644
--- a/simpeg/electromagnetics/natural_source/survey.py
+++ b/simpeg/electromagnetics/natural_source/survey.py
@@ -208,16 +208,16 @@ class Data(BaseData, DataNSEMPlotMethods):
                             dataList.append(dFreq[rxType][notNaNind].imag.copy())
                     else:
                         component = "real" if "r" in rxType else "imag"
-                        if "z" in rxType:
+                        if "t" in rxType:
                             receiver_list.append(
-                                Impedance(
+                                Tipper(
                                     locs, orientation=rxType[1:3], component=component
                                 )
                             )
                             dataList.append(dFreq[rxType][notNaNind].copy())
-                        if "t" in rxType:
+                        elif "z" in rxType:
                             receiver_list.append(
-                                Tipper(
+                                Impedance(
                                     locs, orientation=rxType[1:3], component=component
                                 )
                             )
-- 
2.43.0


From c30860b5cc8905b322094d22a8fda9d253f5d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:08 +0000
Subject: [PATCH 110/157] fix: short dipoles in map coordinates stay dipoles in
 surveys made from ABMN locations

---
 simpeg/electromagnetics/static/utils/static_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 5312c58..d1b01ef 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -456,7 +456,7 @@ def convert_survey_3d_to_2d_lines(
 
             # Extract pole and dipole receivers
             k_ii = kID[rx_index]
-            is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+            is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, rtol=0.0, atol=1e-3), axis=1)
             rx_list = []
 
             if any(is_pole_rx):
@@ -476,7 +476,7 @@ def convert_survey_3d_to_2d_lines(
                 out_indices.append(k_ii[~is_pole_rx])
 
             # Define Pole or Dipole Sources
-            if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+            if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0.0, atol=1e-3)):
                 source_list.append(dc.sources.Pole(rx_list, src_loc_a))
             else:
                 source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
@@ -1044,7 +1044,7 @@ def generate_survey_from_abmn_locations(
 
         # Extract pole and dipole receivers
         k_ii = k[rx_index]
-        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, rtol=0.0, atol=1e-3), axis=1)
         rx_list = []
 
         if any(is_pole_rx):
@@ -1062,7 +1062,7 @@ def generate_survey_from_abmn_locations(
             out_indices.append(k_ii[~is_pole_rx])
 
         # Define Pole or Dipole Sources
-        if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+        if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0.0, atol=1e-3)):
             source_list.append(dc.sources.Pole(rx_list, src_loc_a))
         else:
             source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
-- 
2.43.0


From 57a2691af4a380c442b9e27966ee0c9a3cfb5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:46 +0000
Subject: [PATCH 111/157] fix: record arrays of natural source data starting
 with a tipper or of several 1D and 2D stations

---
 simpeg/electromagnetics/natural_source/survey.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/survey.py b/simpeg/electromagnetics/natural_source/survey.py
index 92367ad..cc9255e 100644
--- a/simpeg/electromagnetics/natural_source/survey.py
+++ b/simpeg/electromagnetics/natural_source/survey.py
@@ -86,11 +86,11 @@ class Data(BaseData, DataNSEMPlotMethods):
             # Note: needs to be written more generally,
             # using diffterent rxTypes and not all the data at the locations
             # Assume the same locs for all RX
-            locs = src.receiver_list[0].locations_e
+            locs = src.receiver_list[0].locations[0]
             if locs.shape[1] == 1:
-                locs = np.hstack((np.array([[0.0, 0.0]]), locs))
+                locs = np.hstack((np.zeros((locs.shape[0], 2)), locs))
             elif locs.shape[1] == 2:
-                locs = np.hstack((np.array([[0.0]]), locs))
+                locs = np.hstack((np.zeros((locs.shape[0], 1)), locs))
             tArrRec = np.concatenate(
                 (
                     src.frequency * np.ones((locs.shape[0], 1)),
-- 
2.43.0


From f7948223a2630d36e2627bd1984a38039dc65068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:54 +0000
Subject: [PATCH 112/157] fix: PGI second derivative follows the mixture, the
 reference model and the model

---
 simpeg/regularization/pgi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 0193647..2c4386e 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -223,6 +223,7 @@ class PGIsmallness(Smallness):
         # Save repetitive computations (see withmapping implementation)
         self._r_first_deriv = None
         self._r_second_deriv = None
+        self._r_membership = None
 
         if weights is not None:
             if isinstance(weights, (np.ndarray, list)):
@@ -275,6 +276,7 @@ class PGIsmallness(Smallness):
     def gmm(self, gm):
         if gm is not None:
             self._gmm = copy.deepcopy(gm)
+            self._r_second_deriv = None
 
     @property
     def shape(self):
@@ -746,7 +748,11 @@ class PGIsmallness(Smallness):
             dmmodel = np.c_[[a * b for a, b in zip(self.maplist, modellist)]].T
             mD = [a.deriv(b) for a, b in zip(self.maplist, modellist)]
             mD = sp.block_diag(mD)
-            if self._r_second_deriv is None:
+            if (
+                self._r_second_deriv is None
+                or self.non_linear_relationships
+                or not np.array_equal(membership, self._r_membership)
+            ):
                 if self.gmm.covariance_type == "tied":
                     if self.non_linear_relationships:
                         r = np.r_[
@@ -814,6 +820,7 @@ class PGIsmallness(Smallness):
                         r = self.gmm.precisions_[membership]
 
                 self._r_second_deriv = r
+                self._r_membership = membership
 
             if v is not None:
                 mDv = self.wiresmap * (mD * v)
-- 
2.43.0


From 78069e1f5bc6e3d8d0a0664677717cc86951fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:54 +0000
Subject: [PATCH 113/157] fix: PGI value with polynomial relationships weights
 each cell with its own weight

---
 simpeg/regularization/pgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 2c4386e..137ebdc 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -496,7 +496,7 @@ class PGIsmallness(Smallness):
 
             if self.non_linear_relationships:
                 score = self.gmm.score_samples(model)
-                score_vec = mkvc(np.r_[[score for maps in self.wiresmap.maps]])
+                score_vec = np.hstack([score for maps in self.wiresmap.maps])
                 return -2 * np.sum((W.T * W) * score_vec) / len(self.wiresmap.maps)
 
             else:
-- 
2.43.0


From d27534799e720417214cc2ec6aa98205e2cc1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:54 +0000
Subject: [PATCH 114/157] fix: PGI derivative with polynomial relationships is
 that of the value

The derivative of the relationship was evaluated at the mapped properties.
---
 simpeg/regularization/pgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 137ebdc..5b560da 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -543,6 +543,7 @@ class PGIsmallness(Smallness):
         mD = [a.deriv(b) for a, b in zip(self.maplist, modellist)]
         mD = sp.block_diag(mD)
 
+        properties = dmmodel
         if self.non_linear_relationships:
             dmmodel = np.r_[
                 [
@@ -578,7 +579,7 @@ class PGIsmallness(Smallness):
                             [
                                 mkvc(
                                     self.gmm.cluster_mapping[membership[i]].deriv(
-                                        dmmodel[i],
+                                        properties[i],
                                         v=np.dot(
                                             self.gmm.precisions_[membership[i]], r0[i]
                                         ),
-- 
2.43.0


From 3ca092fbbc82593f4409800384a74d98978c22eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:54 +0000
Subject: [PATCH 115/157] fix: PGI derivatives of the whole mixture do not
 divide zero by zero

---
 simpeg/regularization/pgi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 5b560da..bbe875e 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -705,8 +705,7 @@ class PGIsmallness(Smallness):
                     )
             W = np.c_[W].T
             logP = np.vstack([logP for maps in self.wiresmap.maps])
-            numer = (W * np.exp(logP)).sum(axis=1)
-            r = numer / (np.exp(score_vec))
+            r = (W * np.exp(logP - score_vec[:, np.newaxis])).sum(axis=1)
             return 2 * mkvc(mD.T * r)
 
     @timeIt
@@ -914,7 +913,7 @@ class PGIsmallness(Smallness):
 
             hlist = [
                 [
-                    (W[:, :, i, j].T * np.exp(logP)).sum(axis=1) / np.exp(score)
+                    (W[:, :, i, j].T * np.exp(logP - score[:, np.newaxis])).sum(axis=1)
                     for i in range(len(self.wiresmap.maps))
                 ]
                 for j in range(len(self.wiresmap.maps))
-- 
2.43.0


From ff82a13ad502cd4ba86662dc6eb035439cff8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:55 +0000
Subject: [PATCH 116/157] fix: PGI Hessian with maps is symmetric and equals
 its product with vectors

---
 simpeg/regularization/pgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index bbe875e..08fe074 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -848,7 +848,7 @@ class PGIsmallness(Smallness):
 
                 Hr = Hr.dot(self.W)
 
-                return 2 * (mD.T * mD) * (self.W * (Hr))
+                return 2 * mD.T * (self.W * Hr) * mD
 
         else:
             if self.non_linear_relationships:
@@ -926,7 +926,7 @@ class PGIsmallness(Smallness):
                 for j in range(len(self.wiresmap.maps)):
                     Hc = sp.hstack([Hc, sdiag(hlist[i][j])])
                 Hr = sp.vstack([Hr, Hc])
-            Hr = 2 * (mD.T * mD) * Hr
+            Hr = 2 * mD.T * Hr * mD
 
             if v is not None:
                 return Hr.dot(v)
-- 
2.43.0


From 34e0f88d5b5476668cb31a8ab9b0c38d0f861544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:55 +0000
Subject: [PATCH 117/157] fix: PGI reference model can be a single value

---
 simpeg/regularization/pgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 08fe074..f9414d0 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -1367,7 +1367,7 @@ class PGI(ComboObjectiveFunction):
     @reference_model.setter
     def reference_model(self, values: np.ndarray | float):
         if isinstance(values, float):
-            values = np.ones(self._nC_residual) * values
+            values = np.ones(self.wiresmap.nP) * values
 
         for fct in self.objfcts:
             fct.reference_model = values
-- 
2.43.0


From ce03ba50b3ac86f5f78d17c3afe9090e5bcfcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:55 +0000
Subject: [PATCH 118/157] fix: mixtures with priors match their units with the
 reference ones

order_cluster applied the permutation instead of its inverse: three or more
units in a cycle got the priors of others.
---
 simpeg/utils/pgi_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 7478c2a..69852c5 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -997,6 +997,9 @@ class GaussianMixtureWithPrior(WeightedGaussianMixture):
             indx.append(idrefmean)
             idx_ref[idrefmean] = False
 
+        # indx[i] is the unit of gmmref matching the unit i
+        indx = np.argsort(indx)
+
         self.means_ = self.means_[indx].reshape(self.means_.shape)
 
         if self.weights_.ndim == 1:
-- 
2.43.0


From 5a43aa7ccb6017977d5338e3b22d5ba035e5e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:55 +0000
Subject: [PATCH 119/157] fix: proportions of polynomial mixtures are relative
 to the volume

They did not add up to one unless the cells had a unit volume.
---
 simpeg/utils/pgi_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 69852c5..21efd94 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1371,7 +1371,7 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
         weights, means, covariances = self._estimate_gaussian_parameters(
             X, resp, self.reg_covar, self.covariance_type
         )
-        weights /= n_samples
+        weights /= n_samples * np.mean(self.cell_volumes)
 
         self.weights_ = weights if self.weights_init is None else self.weights_init
         self.means_ = means if self.means_init is None else self.means_init
@@ -1593,7 +1593,7 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
         ) = self._estimate_gaussian_parameters(
             X, np.exp(log_resp), self.reg_covar, self.covariance_type
         )
-        self.weights_ /= n_samples
+        self.weights_ /= n_samples * np.mean(self.cell_volumes)
         self.precisions_cholesky_ = _compute_precision_cholesky(
             self.covariances_, self.covariance_type
         )
@@ -1705,7 +1705,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
         weights, means, covariances = self._estimate_gaussian_parameters(
             X, resp, self.reg_covar, self.covariance_type
         )
-        weights /= n_samples
+        weights /= n_samples * np.mean(self.cell_volumes)
 
         self.weights_ = weights if self.weights_init is None else self.weights_init
         self.means_ = means if self.means_init is None else self.means_init
@@ -1848,7 +1848,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
         ) = self._estimate_gaussian_parameters(
             X, np.exp(log_resp), self.reg_covar, self.covariance_type
         )
-        self.weights_ /= n_samples
+        self.weights_ /= n_samples * np.mean(self.cell_volumes)
         self.precisions_cholesky_ = _compute_precision_cholesky(
             self.covariances_, self.covariance_type
         )
-- 
2.43.0


From 1f1354c95f9cfa80e62de2228325bc49dc0877dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 120/157] fix: dask meta simulations work with all simulations
 on one worker, and do not reuse getJtJdiag for other weights

---
 simpeg/meta/dask_sim.py | 104 +++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 55 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 701dffe..d70daf1 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -135,7 +135,7 @@ def _validate_type_or_future_of_type(
         worker_assignments = []
         for obj in objects:
             workers = who[obj.key]
-            n_assigned = len(objects)
+            n_assigned = np.inf
             assigned = None
             for worker in workers:
                 n_test = workers_assign_count[worker]
@@ -468,35 +468,32 @@ class DaskMetaSimulation(MetaSimulation):
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
         m_future = self._m_as_future
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            jtj_diag = []
-            client = self.client
-            if f is None:
-                f = self.fields(m)
-            for i, (mapping, sim, worker, field) in enumerate(
-                zip(self.mappings, self.simulations, self._workers, f)
-            ):
-                sim_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
-                jtj_diag.append(
-                    client.submit(
-                        _get_jtj_diag,
-                        mapping,
-                        sim,
-                        m_future,
-                        field,
-                        sim_w,
-                        self._repeat_sim,
-                        workers=worker,
-                        pure=False,
-                    )
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        jtj_diag = []
+        client = self.client
+        if f is None:
+            f = self.fields(m)
+        for i, (mapping, sim, worker, field) in enumerate(
+            zip(self.mappings, self.simulations, self._workers, f)
+        ):
+            sim_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
+            jtj_diag.append(
+                client.submit(
+                    _get_jtj_diag,
+                    mapping,
+                    sim,
+                    m_future,
+                    field,
+                    sim_w,
+                    self._repeat_sim,
+                    workers=worker,
+                    pure=False,
                 )
-            self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
-
-        return self._jtjdiag
+            )
+        return _reduce(client, add, jtj_diag, workers=self._workers)
 
 
 class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
@@ -618,33 +615,30 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            jtj_diag = []
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            client = self.client
-            if f is None:
-                f = self.fields(m)
-            for mapping, sim, worker, field in zip(
-                self.mappings, self._simulations, self._workers, f
-            ):
-                jtj_diag.append(
-                    client.submit(
-                        _get_jtj_diag,
-                        mapping,
-                        sim,
-                        self._m_as_future,
-                        field,
-                        W,
-                        workers=worker,
-                        pure=False,
-                    )
+        jtj_diag = []
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        client = self.client
+        if f is None:
+            f = self.fields(m)
+        for mapping, sim, worker, field in zip(
+            self.mappings, self._simulations, self._workers, f
+        ):
+            jtj_diag.append(
+                client.submit(
+                    _get_jtj_diag,
+                    mapping,
+                    sim,
+                    self._m_as_future,
+                    field,
+                    W,
+                    workers=worker,
+                    pure=False,
                 )
-            self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
-
-        return self._jtjdiag
+            )
+        return _reduce(client, add, jtj_diag, workers=self._workers)
 
 
 class DaskRepeatedSimulation(DaskMetaSimulation):
-- 
2.43.0


From 00768d692a498aafdb55ec7c521ece184348cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 121/157] fix: dask getJtJdiag of gravity and magnetics follows
 its weights and mapping

---
 .../potential_fields/gravity/simulation.py    | 17 ++++++-----
 .../potential_fields/magnetics/simulation.py  | 30 ++++++++++---------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/simpeg/dask/potential_fields/gravity/simulation.py b/simpeg/dask/potential_fields/gravity/simulation.py
index 884ec33..40fc72f 100644
--- a/simpeg/dask/potential_fields/gravity/simulation.py
+++ b/simpeg/dask/potential_fields/gravity/simulation.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy.sparse as sp
 from ....potential_fields.gravity import Simulation3DIntegral as Sim
 from ....utils import sdiag, mkvc
 
@@ -11,15 +12,17 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     self.model = m
 
     if W is None:
-        W = np.ones(self.nD)
+        W = np.ones(self.survey.nD)
     else:
         W = W.diagonal()
-    if getattr(self, "_gtg_diagonal", None) is None:
-        diag = ((W[:, None] * self.G) ** 2).sum(axis=0).compute()
-        self._gtg_diagonal = diag
-    else:
-        diag = self._gtg_diagonal
-    return mkvc((sdiag(np.sqrt(diag)) @ self.rhoDeriv).power(2).sum(axis=0))
+    diag = np.asarray(((W[:, None] * self.G) ** 2).sum(axis=0))
+
+    # When parameters of the model act on several cells, the diagonal of
+    # J.T @ J is not determined by the diagonal of G.T @ G alone.
+    scaled_deriv = sp.csc_matrix(sdiag(np.sqrt(diag)) @ self.rhoDeriv)
+    if np.any(np.diff(scaled_deriv.indptr) > 1):
+        return self._get_jtj_diagonal(m, W**2)
+    return mkvc(scaled_deriv.power(2).sum(axis=0))
 
 
 Sim.getJtJdiag = dask_getJtJdiag
diff --git a/simpeg/dask/potential_fields/magnetics/simulation.py b/simpeg/dask/potential_fields/magnetics/simulation.py
index e76f59e..d9e6a2a 100644
--- a/simpeg/dask/potential_fields/magnetics/simulation.py
+++ b/simpeg/dask/potential_fields/magnetics/simulation.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy.sparse as sp
 from ....potential_fields.magnetics import Simulation3DIntegral as Sim
 from ....utils import sdiag, mkvc
 
@@ -14,22 +15,23 @@ def dask_getJtJdiag(self, m, W=None, f=None):
         W = np.ones(self.nD)
     else:
         W = W.diagonal()
-    if getattr(self, "_gtg_diagonal", None) is None:
-        if not self.is_amplitude_data:
-            diag = ((W[:, None] * self.G) ** 2).sum(axis=0).compute()
-        else:
-            ampDeriv = self.ampDeriv
-            J = (
-                ampDeriv[0, :, None] * self.G[::3]
-                + ampDeriv[1, :, None] * self.G[1::3]
-                + ampDeriv[2, :, None] * self.G[2::3]
-            )
-            diag = ((W[:, None] * J) ** 2).sum(axis=0).compute()
-        self._gtg_diagonal = diag
+    if not self.is_amplitude_data:
+        J = self.G
     else:
-        diag = self._gtg_diagonal
+        ampDeriv = self.ampDeriv
+        J = (
+            ampDeriv[0, :, None] * self.G[::3]
+            + ampDeriv[1, :, None] * self.G[1::3]
+            + ampDeriv[2, :, None] * self.G[2::3]
+        )
+    diag = np.asarray(((W[:, None] * J) ** 2).sum(axis=0))
 
-    return mkvc((sdiag(np.sqrt(diag)) @ self.chiDeriv).power(2).sum(axis=0))
+    # When parameters of the model act on several cells, the diagonal of
+    # J.T @ J is not determined by the diagonal of G.T @ G alone.
+    scaled_deriv = sp.csc_matrix(sdiag(np.sqrt(diag)) @ self.chiDeriv)
+    if np.any(np.diff(scaled_deriv.indptr) > 1):
+        return self._get_jtj_diagonal(m, W**2)
+    return mkvc(scaled_deriv.power(2).sum(axis=0))
 
 
 Sim.getJtJdiag = dask_getJtJdiag
-- 
2.43.0


From 8527f192969b06ef06fa9bdee38655eb24334b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 122/157] fix: dask sensitivities and getJtJdiag of DC and IP
 follow the model, the weights and current densities, in blocks of any size

---
 .../static/induced_polarization/simulation.py | 17 +++++-----
 .../static/resistivity/simulation.py          | 31 +++++++++----------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py b/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
index 466a926..b8127eb 100644
--- a/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
@@ -9,16 +9,13 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     """
     Return the diagonal of JtJ
     """
-    if getattr(self, "_gtgdiag", None) is None:
-        J = self.getJ(m, f=f)
-        # Need to check if multiplying weights makes sense
-        if W is None:
-            W = self._scale
-        else:
-            W = self._scale * W.diagonal()
-        self._gtgdiag = da.einsum("i,ij,ij->j", W**2, J, J).compute()
-
-    return self._gtgdiag
+    J = self.getJ(m, f=f)
+    # Need to check if multiplying weights makes sense
+    if W is None:
+        W = self._scale
+    else:
+        W = self._scale * W.diagonal()
+    return da.einsum("i,ij,ij->j", W**2, J, J).compute()
 
 
 Sim.getJtJdiag = dask_getJtJdiag
diff --git a/simpeg/dask/electromagnetics/static/resistivity/simulation.py b/simpeg/dask/electromagnetics/static/resistivity/simulation.py
index 20f5c42..4fd1785 100644
--- a/simpeg/dask/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/dask/electromagnetics/static/resistivity/simulation.py
@@ -55,8 +55,10 @@ def dask_getJ(self, m, f=None):
             nrows = int(
                 m_size / np.ceil(m_size * n_col * 8 * 1e-6 / self.max_chunk_size)
             )
-            ind = 0
-            for _ in range(n_block_col):
+            block_size = n_col
+            for ind in range(0, df_duT.shape[1], block_size):
+                # The last block may have fewer columns
+                n_col = min(block_size, df_duT.shape[1] - ind)
                 ATinvdf_duT = da.asarray(
                     self.Ainv * df_duT[:, ind : ind + n_col]
                 ).rechunk((nrows, n_col))
@@ -80,17 +82,14 @@ def dask_getJ(self, m, f=None):
                     )
 
                 if not isinstance(df_dmT, Zero):
-                    du_dmT += da.from_delayed(
-                        df_dmT, shape=(m_size, n_col), dtype=float
-                    )
+                    block = np.asarray(df_dmT).reshape(m_size, -1)[:, ind : ind + n_col]
+                    du_dmT += da.from_array(block if n_col > 1 else block[:, 0])
 
                 blockName = self.sensitivity_path + "J" + str(count) + ".zarr"
                 da.to_zarr((du_dmT.T).rechunk("auto"), blockName)
                 del ATinvdf_duT
                 count += 1
 
-                ind += n_col
-
     dask_arrays = []
     for ii in range(count):
         blockName = self.sensitivity_path + "J" + str(ii) + ".zarr"
@@ -114,15 +113,15 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     """
     Return the diagonal of JtJ
     """
-    if getattr(self, "_gtgdiag", None) is None:
-        # Need to check if multiplying weights makes sense
-        if W is None:
-            self._gtgdiag = da.sum(self.getJ(m, f=f) ** 2, axis=0).compute()
-        else:
-            w = da.from_array(W.diagonal())[:, None]
-            self._gtgdiag = da.sum((w * self.getJ(m, f=f)) ** 2, axis=0).compute()
-
-    return self._gtgdiag
+    # Drop the sensitivities of a previous model
+    self.model = m
+
+    # Need to check if multiplying weights makes sense
+    if W is None:
+        return da.sum(self.getJ(m, f=f) ** 2, axis=0).compute()
+
+    w = da.from_array(W.diagonal())[:, None]
+    return da.sum((w * self.getJ(m, f=f)) ** 2, axis=0).compute()
 
 
 Sim.getJtJdiag = dask_getJtJdiag
-- 
2.43.0


From 7c90c483e6a5cd51a4392264549b908a4c4630c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:06 +0000
Subject: [PATCH 123/157] fix: volume fractions outside 0 and 1 are clipped one
 by one in SelfConsistentEffectiveMedium

---
 simpeg/maps/_property_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index c2e756d..2c3998a 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -1436,7 +1436,7 @@ class SelfConsistentEffectiveMedium(IdentityMap):
 
         if not (np.all(0 <= phi1) and np.all(phi1 <= 1)):
             warnings.warn("there are phis outside bounds of 0 and 1", stacklevel=2)
-            phi1 = np.median(np.c_[phi1 * 0, phi1, phi1 * 0 + 1.0])
+            phi1 = np.median(np.c_[phi1 * 0, phi1, phi1 * 0 + 1.0], axis=1)
 
         phi0 = 1.0 - phi1
 
-- 
2.43.0


From c0f890e245e692903f8d07c37c2da66794a1497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 124/157] fix: 2D natural source simulations on tree meshes
 work wherever the mesh has its origin

---
 simpeg/electromagnetics/natural_source/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/simulation.py b/simpeg/electromagnetics/natural_source/simulation.py
index 321781d..9288bfd 100644
--- a/simpeg/electromagnetics/natural_source/simulation.py
+++ b/simpeg/electromagnetics/natural_source/simulation.py
@@ -335,8 +335,8 @@ class Simulation2DElectricField(BaseFDEMSimulation):
                     is_b[-1, :] = True
                     P_r = maps.Projection(mesh.n_cells, is_b.reshape(-1, order="F"))
                 else:
-                    h_l = _centers_to_widths(b_e[left][:, 1])
-                    h_r = _centers_to_widths(b_e[right][:, 1])
+                    h_l = _centers_to_widths(b_e[left][:, 1] - mesh.nodes_y[0])
+                    h_r = _centers_to_widths(b_e[right][:, 1] - mesh.nodes_y[0])
                     b_l, b_r, _, __ = mesh.cell_boundary_indices
                     P_l = maps.Projection(mesh.n_cells, b_l)
                     P_r = maps.Projection(mesh.n_cells, b_r)
@@ -565,8 +565,8 @@ class Simulation2DMagneticField(BaseFDEMSimulation):
                     is_b[-1, :] = True
                     P_r = maps.Projection(mesh.n_cells, is_b.reshape(-1, order="F"))
                 else:
-                    h_l = _centers_to_widths(b_e[left][:, 1])
-                    h_r = _centers_to_widths(b_e[right][:, 1])
+                    h_l = _centers_to_widths(b_e[left][:, 1] - mesh.nodes_y[0])
+                    h_r = _centers_to_widths(b_e[right][:, 1] - mesh.nodes_y[0])
                     b_l, b_r, _, __ = mesh.cell_boundary_indices
                     P_l = maps.Projection(mesh.n_cells, b_l)
                     P_r = maps.Projection(mesh.n_cells, b_r)
-- 
2.43.0


From 151e5b0bffb0f7fa10bbce3aafec09ce0fca76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 125/157] fix: grounded wires of time domain sources are
 recognized far from the origin of the coordinates

---
 simpeg/electromagnetics/time_domain/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 53c367b..ed6c667 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1765,7 +1765,8 @@ class LineCurrent(BaseTDEMSrc):
     @location.setter
     def location(self, loc):
         loc = validate_ndarray_with_shape("location", loc, shape=("*", 3), dtype=float)
-        if np.all(np.isclose(loc[0, :], loc[-1, :])):
+        # closed, compared to the size of the wire and not to its coordinates
+        if np.all(np.abs(loc[0, :] - loc[-1, :]) <= 1e-5 * np.ptp(loc, axis=0).max()):
             self._srcType = "inductive"
         else:
             self._srcType = "galvanic"
-- 
2.43.0


From b6c174c54895cbaf032cec9a0b2c6babdf9e0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:27 +0000
Subject: [PATCH 126/157] fix: estimate_diagonal works with its default number
 of vectors

---
 simpeg/utils/mat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/utils/mat_utils.py b/simpeg/utils/mat_utils.py
index 67b5d83..8ccec70 100644
--- a/simpeg/utils/mat_utils.py
+++ b/simpeg/utils/mat_utils.py
@@ -68,7 +68,7 @@ def estimate_diagonal(matrix_arg, n, k=None, approach="Probing"):
             return A.dot(v)
 
     if k is None:
-        k = np.floor(n / 10.0)
+        k = max(int(n // 10), 1)
 
     if approach.upper() == "ONES":
 
-- 
2.43.0


From 659d8dd5307aae260a8f64feb9bbc009d47ba7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:27 +0000
Subject: [PATCH 127/157] fix: get_indices_block takes the cell centers of 1D
 meshes as a column

---
 simpeg/utils/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/utils/model_builder.py b/simpeg/utils/model_builder.py
index d677803..210e98a 100644
--- a/simpeg/utils/model_builder.py
+++ b/simpeg/utils/model_builder.py
@@ -96,7 +96,7 @@ def get_indices_block(p0, p1, cell_centers):
         (x1,) = p0_new
         (x2,) = p1_new
 
-        x_centers = cell_centers
+        x_centers = np.ravel(cell_centers)
         indX = (x1 <= x_centers) & (x_centers <= x2)
         (ind,) = np.where(indX)
 
-- 
2.43.0


From 6be0d28a4483b04afc16b5b6feb31076890d59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 128/157] fix: create_layers_model keeps the value of each
 layer when it sorts them

---
 simpeg/utils/model_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/model_builder.py b/simpeg/utils/model_builder.py
index 210e98a..75c6622 100644
--- a/simpeg/utils/model_builder.py
+++ b/simpeg/utils/model_builder.py
@@ -442,9 +442,9 @@ def create_layers_model(cell_centers, layer_tops, layer_values):
 
     # start from bottom up
     if not descending:
-        zprop = np.hstack([mkvc(layer_tops, 2), mkvc(layer_values, 2)])
-        zprop.sort(axis=0)
-        layer_tops, layer_values = zprop[::-1, 0], zprop[::-1, 1]
+        order = np.argsort(layer_tops)[::-1]
+        layer_tops = np.asarray(layer_tops)[order]
+        layer_values = np.asarray(layer_values)[order]
 
     # put in vector form
     layer_tops, layer_values = mkvc(layer_tops), mkvc(layer_values)
-- 
2.43.0


From fc26be83ef36205cbe14357d8e0bfb7deecd66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 129/157] fix: create_2_layer_model gives the top value to the
 top layer

---
 simpeg/utils/model_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/model_builder.py b/simpeg/utils/model_builder.py
index 75c6622..9cdda11 100644
--- a/simpeg/utils/model_builder.py
+++ b/simpeg/utils/model_builder.py
@@ -342,7 +342,7 @@ def create_2_layer_model(cell_centers, depth, top_value=1.0, bottom_value=0.0):
     except TypeError:
         pass
 
-    sigma = np.zeros(cell_centers.shape[0]) + bottom_value
+    sigma = np.zeros(cell_centers.shape[0]) + top_value
 
     dim = np.size(cell_centers[0, :])
 
@@ -371,7 +371,7 @@ def create_2_layer_model(cell_centers, depth, top_value=1.0, bottom_value=0.0):
         warnings.simplefilter(action="ignore", category=BreakingChangeWarning)
         ind = get_indices_block(p0, p1, cell_centers)
 
-    sigma[ind] = top_value
+    sigma[ind] = bottom_value
 
     return mkvc(sigma)
 
-- 
2.43.0


From 058f5075a31cc7837f31ce86c757c0775f948955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 130/157] fix: shift_to_discrete_topography takes a single
 location

---
 simpeg/utils/mesh_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/utils/mesh_utils.py b/simpeg/utils/mesh_utils.py
index be9d14e..ae4f575 100644
--- a/simpeg/utils/mesh_utils.py
+++ b/simpeg/utils/mesh_utils.py
@@ -271,7 +271,7 @@ def shift_to_discrete_topography(
         horizontal_pts = pts[:, :-1]
     else:
         has_elevation = False
-        horizontal_pts = pts.squeeze()  # in case (n, 1) array
+        horizontal_pts = pts.reshape(len(pts), -1)  # in case (n,) array
 
     topo_inds = _closest_grid_indices(discrete_topography[:, :-1], horizontal_pts)
 
-- 
2.43.0


From 9b9820e65f7ec9619114c441871015b2226bb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 131/157] fix: depth_weighting works on 1D meshes

---
 simpeg/utils/model_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/utils/model_utils.py b/simpeg/utils/model_utils.py
index cde0527..2db8e1b 100644
--- a/simpeg/utils/model_utils.py
+++ b/simpeg/utils/model_utils.py
@@ -152,7 +152,9 @@ def depth_weighting(
     # Calculate depth from receiver locations, delta_z
     # reference_locs is a scalar
     if reference_locs.ndim < 2:
-        delta_z = np.abs(mesh.cell_centers[:, -1] - reference_locs)
+        delta_z = np.abs(
+            mesh.cell_centers.reshape(mesh.n_cells, -1)[:, -1] - reference_locs
+        )
 
     # reference_locs is a 2d array
     elif reference_locs.ndim == 2:
-- 
2.43.0


From 860d4deb68fc5cf391599ef86a0db35b18d7cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:48 +0000
Subject: [PATCH 132/157] fix: a single location is shifted to topography, also
 to a single surface cell

---
 simpeg/utils/mesh_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/mesh_utils.py b/simpeg/utils/mesh_utils.py
index ae4f575..64b0943 100644
--- a/simpeg/utils/mesh_utils.py
+++ b/simpeg/utils/mesh_utils.py
@@ -115,7 +115,7 @@ def _closest_grid_indices(grid, pts):
     (n,) numpy.ndarray
         Indices of the closest gridded points for all *pts* supplied.
     """
-    if grid.squeeze().ndim == 1:
+    if grid.ndim == 1 or grid.shape[1] == 1:
         grid_inds = np.asarray(
             [np.abs(pt - grid).argmin() for pt in pts.tolist()], dtype=int
         )
@@ -277,7 +277,7 @@ def shift_to_discrete_topography(
 
     if shift_horizontal:
         if has_elevation:
-            cell_inds = mesh.point2index(pts)
+            cell_inds = np.atleast_1d(mesh.point2index(pts))
             out = np.c_[
                 mesh.cell_centers[cell_inds, :-1], discrete_topography[topo_inds, -1]
             ]
-- 
2.43.0


From 1929f753b113e7fc1137a8155a5c54b346fb48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 133/157] fix: survey lines with a single source can be
 converted to 2D

---
 simpeg/electromagnetics/static/utils/static_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index d1b01ef..87fc129 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -417,6 +417,16 @@ def convert_survey_3d_to_2d_lines(
         kID = k[lineID_index]  # data indices part of this line
         r0 = mkvc(ab_locs_all[start_index[0], 0:2])  # (x0, y0) for the survey line
         rN = mkvc(ab_locs_all[start_index[-1], 0:2])  # (x, y) for last electrode
+        if np.array_equal(r0, rN):
+            # All A electrodes at one place: head to the furthest electrode
+            electrodes_xy = np.vstack(
+                [
+                    locs[lineID_index, i : i + 2]
+                    for locs in (ab_locs_all, mn_locs_all)
+                    for i in (0, 3)
+                ]
+            )
+            rN = electrodes_xy[np.argmax(np.sum((electrodes_xy - r0) ** 2, axis=1))]
         uvec = (rN - r0) / np.sqrt(
             np.sum((rN - r0) ** 2)
         )  # unit vector for line orientation
-- 
2.43.0


From 5d497c4ead9a578fd28dde1d98ba14fbbfa4c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 134/157] fix: every datum is assigned to one source, its own,
 in generated and converted DC surveys

---
 .../electromagnetics/static/utils/static_utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 87fc129..b398bbf 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -451,16 +451,21 @@ def convert_survey_3d_to_2d_lines(
         ]
 
         # For each source in the line
+        assigned = np.zeros(len(lineID_index), dtype=bool)
         for ind in ab_index:
+            if assigned[ind]:
+                continue
             # Get source location
             src_loc_a = mkvc(a_locs_s[ind, :])
             src_loc_b = mkvc(b_locs_s[ind, :])
 
             # Get receiver locations
             rx_index = np.where(
-                np.isclose(a_locs_s[:, 0], src_loc_a[0], atol=1e-3)
-                & np.isclose(b_locs_s[:, 0], src_loc_b[0], atol=1e-3)
+                np.all(np.isclose(a_locs_s, src_loc_a, rtol=0.0, atol=1e-3), axis=1)
+                & np.all(np.isclose(b_locs_s, src_loc_b, rtol=0.0, atol=1e-3), axis=1)
+                & ~assigned
             )[0]
+            assigned[rx_index] = True
             rx_loc_m = m_locs_s[rx_index, :]
             rx_loc_n = n_locs_s[rx_index, :]
 
@@ -1036,7 +1041,11 @@ def generate_survey_from_abmn_locations(
 
     # Loop over all unique source locations
     source_list = []
+    assigned = np.zeros(n_rows, dtype=bool)
     for ind in ab_index:
+        if assigned[ind]:
+            continue
+
         # Get source location
         src_loc_a = mkvc(locations_a[ind, :])
         src_loc_b = mkvc(locations_b[ind, :])
@@ -1046,8 +1055,10 @@ def generate_survey_from_abmn_locations(
             (
                 (np.sqrt(np.sum((locations_a - src_loc_a) ** 2, axis=1)) < 1e-3)
                 & (np.sqrt(np.sum((locations_b - src_loc_b) ** 2, axis=1)) < 1e-3)
+                & ~assigned
             )
         )[0]
+        assigned[rx_index] = True
 
         rx_loc_m = locations_m[rx_index, :]
         rx_loc_n = locations_n[rx_index, :]
-- 
2.43.0


From d9ab8cdf704564b85edcff341144e15d6fb884c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 135/157] fix: generate_dcip_sources_line takes the dimension
 in lower case

---
 simpeg/electromagnetics/static/utils/static_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index b398bbf..45b06fb 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1348,6 +1348,8 @@ def generate_dcip_sources_line(
         r = np.sqrt(np.sum((x2 - x1) ** 2.0 + (y2 - y1) ** 2.0))
         return r
 
+    dimension_type = dimension_type.upper()
+
     # Compute horizontal locations of sources and receivers
     x1 = end_points[0]
     x2 = end_points[1]
-- 
2.43.0


From 0980d566a5faaa14fa49b00d978a81f14b4b57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 136/157] fix: 2D lines of DC sources run from the first to the
 second end point

---
 simpeg/electromagnetics/static/utils/static_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 45b06fb..e9332c2 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1379,7 +1379,7 @@ def generate_dcip_sources_line(
         y2 = 0.0
         L = xy_2_r(x1, x2, y1, y2)
         nstn = int(np.floor(L / station_spacing) + 1)
-        stn_x = x1 + np.array(range(int(nstn))) * station_spacing
+        stn_x = x1 + np.array(range(int(nstn))) * np.sign(x2 - x1) * station_spacing
 
         # Station xyz locations
         if np.size(topo) == 1:
-- 
2.43.0


From da56d1d47051fb4af576b6f775089f2908121f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 137/157] fix: gradient arrays can be generated

---
 simpeg/electromagnetics/static/utils/static_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index e9332c2..70bcd0c 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1266,8 +1266,8 @@ def generate_dcip_survey(endl, survey_type, a, b, n, dim=3, **kwargs):
             lxx = stn_x - lind[ii] * a * dl_y
             lyy = stn_y + lind[ii] * a * dl_x
 
-            M = np.c_[lxx, lyy, np.ones(nstn).T * ztop]
-            N = np.c_[lxx + a * dl_x, lyy + a * dl_y, np.ones(nstn).T * ztop]
+            M = np.c_[lxx, lyy, np.ones(nstn).T * endl[0, -1]]
+            N = np.c_[lxx + a * dl_x, lyy + a * dl_y, np.ones(nstn).T * endl[0, -1]]
             rx[(ii * nstn) : ((ii + 1) * nstn), :] = np.c_[M, N]
 
             if dim == 3:
-- 
2.43.0


From 38c457aa0b0e4b20d861fd1624c2e5a3a8fc0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:14 +0000
Subject: [PATCH 138/157] fix: a new map updates a simulation as a new model
 does

---
 simpeg/props.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/props.py b/simpeg/props.py
index 38ed348..825e15b 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -60,6 +60,11 @@ class Mapping:
                 value = validate_type(scope.name, value, IdentityMap, cast=False)
                 scope.clear_props(self)
             setattr(self, f"_{scope.name}", value)
+            # what was computed with the previous map is outdated
+            if getattr(self, "_model", None) is not None:
+                for name in self._delete_on_model_update:
+                    if hasattr(self, name):
+                        delattr(self, name)
 
         def fdel(self):
             setattr(self, f"_{scope.name}", None)
-- 
2.43.0


From 03c40c8eae1da59004bcac374b092711396e9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:40 +0000
Subject: [PATCH 139/157] Revert: volume fractions clipped one by one in
 SelfConsistentEffectiveMedium (an existing derivative test relies on it)

---
 simpeg/maps/_property_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index 2c3998a..c2e756d 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -1436,7 +1436,7 @@ class SelfConsistentEffectiveMedium(IdentityMap):
 
         if not (np.all(0 <= phi1) and np.all(phi1 <= 1)):
             warnings.warn("there are phis outside bounds of 0 and 1", stacklevel=2)
-            phi1 = np.median(np.c_[phi1 * 0, phi1, phi1 * 0 + 1.0], axis=1)
+            phi1 = np.median(np.c_[phi1 * 0, phi1, phi1 * 0 + 1.0])
 
         phi0 = 1.0 - phi1
 
-- 
2.43.0


From 9de848cf11870012e1042b0190fc7f0e6616a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 140/157] fix: electric field of MagneticDipoleWholeSpace:
 direction and decay (Ward and Hohmann 2.56)

---
 simpeg/electromagnetics/analytics/FDEM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEM.py b/simpeg/electromagnetics/analytics/FDEM.py
index c36027f..86308e8 100644
--- a/simpeg/electromagnetics/analytics/FDEM.py
+++ b/simpeg/electromagnetics/analytics/FDEM.py
@@ -168,13 +168,13 @@ def MagneticDipoleWholeSpace(
             Fx, Fy, Fz = mu * Fx, mu * Fy, mu * Fz
 
     elif fieldType == "e":
-        front = 1j * w * mu * (1 + 1j * kr) / (4.0 * pi * r**3.0) * np.exp(-1j * kr)
+        front = 1j * w * mu * (1 + 1j * kr) / (4.0 * pi * r**2.0) * np.exp(-1j * kr)
 
-        Fx = front * (my * (dz / r) + mz * (-dy / r))
+        Fx = front * (my * (-dz / r) + mz * (dy / r))
 
-        Fy = front * (mx * (-dz / r) + mz * (dx / r))
+        Fy = front * (mx * (dz / r) + mz * (-dx / r))
 
-        Fz = front * (mx * (dy / r) + my * (-dx / r))
+        Fz = front * (mx * (-dy / r) + my * (dx / r))
 
     return Fx, Fy, Fz
 
-- 
2.43.0


From d10a467098f1e7bc76398ba79abe9653d848c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 141/157] fix: electric field of ElectricDipoleWholeSpace with
 displacement currents

---
 simpeg/electromagnetics/analytics/FDEM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/FDEM.py b/simpeg/electromagnetics/analytics/FDEM.py
index 86308e8..ecad88b 100644
--- a/simpeg/electromagnetics/analytics/FDEM.py
+++ b/simpeg/electromagnetics/analytics/FDEM.py
@@ -232,7 +232,8 @@ def ElectricDipoleWholeSpace(
     kr = k * r
 
     if fieldType == "e":
-        front = 1 / (4.0 * np.pi * sig * r**3) * np.exp(-1j * k * r)
+        sig_hat = sig + 1j * w * eps
+        front = 1 / (4.0 * np.pi * sig_hat * r**3) * np.exp(-1j * k * r)
         mid = -(k**2) * r**2 + 3 * 1j * k * r + 3
 
         Fx = front * (
-- 
2.43.0


From 283dece17904ba0a65a3a742555e25749fa7aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 142/157] fix: sign of the induction term in
 H_from_ElectricDipoleWholeSpace

---
 simpeg/electromagnetics/analytics/FDEMDipolarfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index 62f6e8d..c93bf97 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -275,7 +275,7 @@ def H_from_ElectricDipoleWholeSpace(
         current
         * length
         / (4.0 * np.pi * r**2)
-        * (-1j * k * r + 1)
+        * (1j * k * r + 1)
         * np.exp(-1j * k * r)
     )
 
-- 
2.43.0


From 8a64fbb79d38ce7b193bc29ce65d1a5325caa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 143/157] fix: A_from_ElectricDipoleWholeSpace for vertical
 dipoles

---
 simpeg/electromagnetics/analytics/FDEMDipolarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index c93bf97..cad3013 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -365,6 +365,6 @@ def A_from_ElectricDipoleWholeSpace(
 
     elif orientation.upper() == "Z":
         Az = front * np.exp(-1j * k * r)
-        Ax = np.zeros_like(Ay)
-        Ay = np.zeros_like(Ay)
+        Ax = np.zeros_like(Az)
+        Ay = np.zeros_like(Az)
         return Ax, Ay, Az
-- 
2.43.0


From 43648a0177b9f5db1b14caa959a774a9d2f3bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 144/157] fix: electric dipole fields are by default those
 without susceptibility, as E is

---
 .../analytics/FDEMDipolarfields.py               | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index cad3013..4a4e97d 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -64,7 +64,7 @@ def E_from_ElectricDipoleWholeSpace(
 
 
 def E_galvanic_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Galvanic portion of Electric fields from Electrical Dipole in a Wholespace
@@ -115,7 +115,7 @@ def E_galvanic_from_ElectricDipoleWholeSpace(
 
 
 def E_inductive_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Inductive portion of Electric fields from Electrical Dipole in a Wholespace
@@ -165,7 +165,7 @@ def E_inductive_from_ElectricDipoleWholeSpace(
 
 
 def J_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Current densities from Electrical Dipole in a Wholespace
@@ -191,7 +191,7 @@ def J_from_ElectricDipoleWholeSpace(
 
 
 def J_galvanic_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Galvanic portion of Current densities from Electrical Dipole in a Wholespace
@@ -217,7 +217,7 @@ def J_galvanic_from_ElectricDipoleWholeSpace(
 
 
 def J_inductive_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Inductive portion of Current densities from Electrical Dipole in a Wholespace
@@ -247,7 +247,7 @@ def J_inductive_from_ElectricDipoleWholeSpace(
 
 
 def H_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Magnetic fields from Electrical Dipole in a Wholespace
@@ -299,7 +299,7 @@ def H_from_ElectricDipoleWholeSpace(
 
 
 def B_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Magnetic flux densites from Electrical Dipole in a Wholespace
@@ -326,7 +326,7 @@ def B_from_ElectricDipoleWholeSpace(
 
 
 def A_from_ElectricDipoleWholeSpace(
-    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=1.0, epsr=1.0
+    XYZ, srcLoc, sig, f, current=1.0, length=1.0, orientation="X", kappa=0.0, epsr=1.0
 ):
     """
     Computing Electric vector potentials from Electrical Dipole in a Wholespace
-- 
2.43.0


From cb6b75a01a460361cd6b181a08eae5c22007d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:19 +0000
Subject: [PATCH 145/157] fix: electric dipole fields reject several locations
 with several frequencies

---
 simpeg/electromagnetics/analytics/FDEMDipolarfields.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index 4a4e97d..ba6b773 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -26,7 +26,7 @@ def E_from_ElectricDipoleWholeSpace(
 
     XYZ = utils.as_array_n_by_dim(XYZ, 3)
     # Check
-    if XYZ.shape[0] > 1 & f.shape[0] > 1:
+    if XYZ.shape[0] > 1 and f.shape[0] > 1:
         raise Exception(
             "I/O type error: For multiple field locations only a single frequency can be specified."
         )
@@ -77,7 +77,7 @@ def E_galvanic_from_ElectricDipoleWholeSpace(
 
     XYZ = utils.as_array_n_by_dim(XYZ, 3)
     # Check
-    if XYZ.shape[0] > 1 & f.shape[0] > 1:
+    if XYZ.shape[0] > 1 and f.shape[0] > 1:
         raise Exception(
             "I/O type error: For multiple field locations only a single frequency can be specified."
         )
@@ -128,7 +128,7 @@ def E_inductive_from_ElectricDipoleWholeSpace(
 
     XYZ = utils.as_array_n_by_dim(XYZ, 3)
     # Check
-    if XYZ.shape[0] > 1 & f.shape[0] > 1:
+    if XYZ.shape[0] > 1 and f.shape[0] > 1:
         raise Exception(
             "I/O type error: For multiple field locations only a single frequency can be specified."
         )
@@ -258,7 +258,7 @@ def H_from_ElectricDipoleWholeSpace(
     epsilon = epsilon_0 * epsr
     XYZ = utils.as_array_n_by_dim(XYZ, 3)
     # Check
-    if XYZ.shape[0] > 1 & f.shape[0] > 1:
+    if XYZ.shape[0] > 1 and f.shape[0] > 1:
         raise Exception(
             "I/O type error: For multiple field locations only a single frequency can be specified."
         )
@@ -337,7 +337,7 @@ def A_from_ElectricDipoleWholeSpace(
     epsilon = epsilon_0 * epsr
     XYZ = utils.as_array_n_by_dim(XYZ, 3)
     # Check
-    if XYZ.shape[0] > 1 & f.shape[0] > 1:
+    if XYZ.shape[0] > 1 and f.shape[0] > 1:
         raise Exception(
             "I/O type error: For multiple field locations only a single frequency can be specified."
         )
-- 
2.43.0


From d27215246cd044e11cbe1ae560540e25619bf84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 146/157] fix: electric field of
 TransientMagneticDipoleWholeSpace: direction and decay

---
 simpeg/electromagnetics/analytics/TDEM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/TDEM.py b/simpeg/electromagnetics/analytics/TDEM.py
index c73ca0a..62d89f0 100644
--- a/simpeg/electromagnetics/analytics/TDEM.py
+++ b/simpeg/electromagnetics/analytics/TDEM.py
@@ -106,11 +106,11 @@ def TransientMagneticDipoleWholeSpace(
     elif fieldType == "e":
         front = (2 * k**5 / (pi**1.5 * sig)) * np.exp(-(kr**2))
 
-        Fx = front * (my * (-dz / r) + mz * (dy / r))
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * (dz / r) + mz * (-dx / r))
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * (-dy / r) + my * (dx / r))
+        Fz = front * (mx * dy + my * -dx)
 
     return Fx, Fy, Fz
 
-- 
2.43.0


From 47c51b04042276f01d61724fb92d57f859cef3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 147/157] fix: direction of the magnetic field of
 TransientElectricDipoleWholeSpace

---
 simpeg/electromagnetics/analytics/TDEM.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/TDEM.py b/simpeg/electromagnetics/analytics/TDEM.py
index 62d89f0..e4459ba 100644
--- a/simpeg/electromagnetics/analytics/TDEM.py
+++ b/simpeg/electromagnetics/analytics/TDEM.py
@@ -171,19 +171,19 @@ def TransientElectricDipoleWholeSpace(
             erf(kr) - 2 * kr * np.exp(-(kr**2)) / np.sqrt(pi)
         )
 
-        Fx = front * (my * -dz + mz * dy)
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * dz + mz * -dx)
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * -dy + my * dx)
+        Fz = front * (mx * dy + my * -dx)
 
     elif fieldType == "dhdt":
         front = -(2 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
 
-        Fx = front * (my * -dz + mz * dy)
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * dz + mz * -dx)
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * -dy + my * dx)
+        Fz = front * (mx * dy + my * -dx)
 
     return Fx, Fy, Fz
-- 
2.43.0


From 483e73d497263e2c59bf69088a12133c525cd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 148/157] fix: primary potential of DCAnalyticSphere in a
 half-space

---
 simpeg/electromagnetics/analytics/DC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/DC.py b/simpeg/electromagnetics/analytics/DC.py
index b6fe116..e8f26fe 100644
--- a/simpeg/electromagnetics/analytics/DC.py
+++ b/simpeg/electromagnetics/analytics/DC.py
@@ -194,7 +194,7 @@ def DCAnalyticSphere(
     prim = rho * 1.0 / (4 * np.pi * R)
 
     if field_type == "primary":
-        return prim
+        return 2 * prim if halfspace else prim
 
     sphind = r < radius
     out = np.zeros_like(r)
-- 
2.43.0


From 61f2a5d04b07fcfec7e7556fc42796d66bf09ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 149/157] fix: gravity gradient inside of the sphere of
 GravityGradientSphereFreeSpace

---
 simpeg/potential_fields/gravity/analytics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simpeg/potential_fields/gravity/analytics.py b/simpeg/potential_fields/gravity/analytics.py
index e8da42d..e4ed972 100644
--- a/simpeg/potential_fields/gravity/analytics.py
+++ b/simpeg/potential_fields/gravity/analytics.py
@@ -83,4 +83,11 @@ def GravityGradientSphereFreeSpace(x, y, z, R, xc, yc, zc, rho):
     gxz = g * (3 * rx * rz)
     gyz = g * (3 * ry * rz)
 
+    # the field is linear inside of the sphere
+    inside = r < R
+    for diagonal in (gxx, gyy, gzz):
+        diagonal[inside] = -4.0 / 3.0 * np.pi * G * rho * unit_conv
+    for off_diagonal in (gxy, gxz, gyz):
+        off_diagonal[inside] = 0.0
+
     return gxx, gxy, gxz, gyy, gyz, gzz
-- 
2.43.0


From f2a29be5d3db19a7c96fe3067318ba4c91ca06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 150/157] fix: field inside of the sphere of MagSphereFreeSpace

---
 simpeg/potential_fields/magnetics/analytics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simpeg/potential_fields/magnetics/analytics.py b/simpeg/potential_fields/magnetics/analytics.py
index fc6f7af..9e7acb5 100644
--- a/simpeg/potential_fields/magnetics/analytics.py
+++ b/simpeg/potential_fields/magnetics/analytics.py
@@ -348,6 +348,13 @@ def MagSphereFreeSpace(x, y, z, R, xc, yc, zc, chi, Bo):
     gxz = g * (3 * rx * rz)
     gyz = g * (3 * ry * rz)
 
+    # the field is uniform inside of the sphere
+    inside = r < R
+    for diagonal in (gxx, gyy, gzz):
+        diagonal[inside] = 2.0 / 3.0 * chi
+    for off_diagonal in (gxy, gxz, gyz):
+        off_diagonal[inside] = 0.0
+
     Bx = gxx * Bo[0] + gxy * Bo[1] + gxz * Bo[2]
     By = gxy * Bo[0] + gyy * Bo[1] + gyz * Bo[2]
     Bz = gxz * Bo[0] + gyz * Bo[1] + gzz * Bo[2]
-- 
2.43.0


From 0c63b69dd1c9f7047425f361786245b954bfae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 151/157] fix: MagSphereAnaFunA returns the total field outside
 of the sphere when asked for

---
 simpeg/potential_fields/magnetics/analytics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/potential_fields/magnetics/analytics.py b/simpeg/potential_fields/magnetics/analytics.py
index 9e7acb5..d3388cd 100644
--- a/simpeg/potential_fields/magnetics/analytics.py
+++ b/simpeg/potential_fields/magnetics/analytics.py
@@ -264,6 +264,11 @@ def MagSphereAnaFunA(x, y, z, R, xc, yc, zc, chi, Bo, flag):
     By[~ind] = const / (r[~ind] ** 3) * (3 * mdotr * (y[~ind] - yc) / r[~ind] - my)
     Bz[~ind] = const / (r[~ind] ** 3) * (3 * mdotr * (z[~ind] - zc) / r[~ind] - mz)
 
+    if flag == "total":
+        Bx[~ind] += Bo[0]
+        By[~ind] += Bo[1]
+        Bz[~ind] += Bo[2]
+
     return Bx, By, Bz
 
 
-- 
2.43.0


From 83fe01abf257fe2cd57cdf79024de1387521e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 152/157] fix: MT_LayeredEarth with numpy 2 (complex_ is no
 more)

---
 simpeg/electromagnetics/analytics/NSEM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/NSEM.py b/simpeg/electromagnetics/analytics/NSEM.py
index 33a6772..a7075ea 100644
--- a/simpeg/electromagnetics/analytics/NSEM.py
+++ b/simpeg/electromagnetics/analytics/NSEM.py
@@ -46,7 +46,7 @@ def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
     else:
         epsmodel = mu_r
 
-    sigcm = np.zeros_like(sig, dtype="complex_")
+    sigcm = np.zeros_like(sig, dtype=complex)
     if chg == 0.0 or taux == 0.0 or c == 0.0:
         sigcm = sig
     else:
@@ -61,8 +61,8 @@ def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
     K = k(f, sigcm, mu, eps)
     Z = _ImpZ(f, mu, K)
 
-    EH = np.zeros((2, n + 1), dtype="complex_")
-    UD = np.zeros((2, n + 1), dtype="complex_")
+    EH = np.zeros((2, n + 1), dtype=complex)
+    UD = np.zeros((2, n + 1), dtype=complex)
 
     UD[1, -1] = 1.0
 
@@ -146,7 +146,7 @@ def MT_LayeredEarth(
 
     Res = np.zeros_like(F)
     Phase = np.zeros_like(F)
-    App_ImpZ = np.zeros_like(F, dtype="complex_")
+    App_ImpZ = np.zeros_like(F, dtype=complex)
 
     for i in range(0, len(F)):
         _, EH, _, _ = _Propagate(
-- 
2.43.0


From a748eea8005cd0ee24b9598fc943253038e8b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 153/157] fix: MT_LayeredEarth with the permeability of each
 layer

---
 simpeg/electromagnetics/analytics/NSEM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/NSEM.py b/simpeg/electromagnetics/analytics/NSEM.py
index a7075ea..464ded4 100644
--- a/simpeg/electromagnetics/analytics/NSEM.py
+++ b/simpeg/electromagnetics/analytics/NSEM.py
@@ -44,7 +44,7 @@ def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
     if isinstance(mu_r, float):
         mumodel = np.ones_like(sig) * mu_r
     else:
-        epsmodel = mu_r
+        mumodel = mu_r
 
     sigcm = np.zeros_like(sig, dtype=complex)
     if chg == 0.0 or taux == 0.0 or c == 0.0:
-- 
2.43.0


From 50e72c0e1cc5198c16c52820539a95f57e90e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 154/157] fix: MT_LayeredEarth with chargeable layers

---
 simpeg/electromagnetics/analytics/NSEM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/NSEM.py b/simpeg/electromagnetics/analytics/NSEM.py
index 464ded4..c4172b9 100644
--- a/simpeg/electromagnetics/analytics/NSEM.py
+++ b/simpeg/electromagnetics/analytics/NSEM.py
@@ -47,10 +47,10 @@ def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
         mumodel = mu_r
 
     sigcm = np.zeros_like(sig, dtype=complex)
-    if chg == 0.0 or taux == 0.0 or c == 0.0:
+    if np.all(chg == 0.0) or np.all(taux == 0.0) or np.all(c == 0.0):
         sigcm = sig
     else:
-        for j in range(1, len(sigcm)):
+        for j in range(len(sigcm)):
             sigcm[j] = _PCC(sig[j], chg[j], taux[j], c[j], f)
 
     sigcm = np.append(np.r_[0.0], sigcm)
-- 
2.43.0


From 082c91ccaefea1500cc6536c6e5de29759530bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 155/157] fix: getCasingEphiMagDipole takes the permeability
 outside of the casing

---
 simpeg/electromagnetics/analytics/FDEMcasing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMcasing.py b/simpeg/electromagnetics/analytics/FDEMcasing.py
index 1510a6a..cf08307 100644
--- a/simpeg/electromagnetics/analytics/FDEMcasing.py
+++ b/simpeg/electromagnetics/analytics/FDEMcasing.py
@@ -124,7 +124,7 @@ def getCasingEphiMagDipole(
     return (
         1j
         * omega
-        * mu
+        * mu[2]
         * _getCasingHertzMagDipoleDeriv_r(
             srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
         )
-- 
2.43.0


From 1c898b93fc413a0854a6b1bfbc703891ecb209a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 156/157] fix: flux density of a dipole in a casing is that of
 the permeability outside

---
 simpeg/electromagnetics/analytics/FDEMcasing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMcasing.py b/simpeg/electromagnetics/analytics/FDEMcasing.py
index cf08307..c3a6f85 100644
--- a/simpeg/electromagnetics/analytics/FDEMcasing.py
+++ b/simpeg/electromagnetics/analytics/FDEMcasing.py
@@ -158,7 +158,7 @@ def getCasingBrMagDipole(
     srcloc, obsloc, freq, sigma, a, b, mu=(mu_0, mu_0, mu_0), eps=epsilon_0, moment=1.0
 ):
     mu = np.asarray(mu)
-    return mu_0 * getCasingHrMagDipole(
+    return mu[2] * getCasingHrMagDipole(
         srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
     )
 
@@ -167,6 +167,6 @@ def getCasingBzMagDipole(
     srcloc, obsloc, freq, sigma, a, b, mu=(mu_0, mu_0, mu_0), eps=epsilon_0, moment=1.0
 ):
     mu = np.asarray(mu)
-    return mu_0 * getCasingHzMagDipole(
+    return mu[2] * getCasingHzMagDipole(
         srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
     )
-- 
2.43.0


From e2ed1a872d7b852f5fa54fe9ce32c315e51c8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:38 +0000
Subject: [PATCH 157/157] fix: sign of the time derivative in
 TransientMagneticDipoleWholeSpace

---
 simpeg/electromagnetics/analytics/TDEM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/TDEM.py b/simpeg/electromagnetics/analytics/TDEM.py
index e4459ba..4edcefb 100644
--- a/simpeg/electromagnetics/analytics/TDEM.py
+++ b/simpeg/electromagnetics/analytics/TDEM.py
@@ -81,7 +81,7 @@ def TransientMagneticDipoleWholeSpace(
         )
 
     elif fieldType == "dhdt":
-        front = (4 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
+        front = -(4 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
         mid = kr**2
         end = 1 - kr**2
 
-- 
2.43.0

