From 68ec478b0af30100aef14259bbf13ce68177f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 01/16] fix: build an IsotropicMaterial without allowables

The defaults t=c=s=None were rejected by _float_number; use 0 as in
OrthotropicMaterial.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From d6304ccb279810872d64703ae1a70fe2d5533c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 02/16] fix: reject NaN in _float_number

NaN passed both range comparisons and was accepted by every constructor.
---
 composipy/utils/validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..ad90f91 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -8,6 +8,8 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
+        if value != value: # nan
+            raise ValueError(f'{name} Must be a real number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
         if n_max is not None and value > n_max:
-- 
2.43.0


From 7d90c814ae4e67c26c4fefdb52816cd462491815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 03/16] fix: raise KeyError when a lamination-parameter dict
 misses xiD or T

The exception was built but not raised, which ended in UnboundLocalError.
---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..c47495a 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From 6118e013e90af34a4786a51e2d8404c4922905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 04/16] fix: report the given xiA and xiD of a
 lamination-parameter laminate

Both getters iterated over the single ply material and raised TypeError.
---
 composipy/core/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c47495a..d645f3b 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,8 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if self._xiA is not None: # defined by lamination parameters
+            return np.array(self._xiA)
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +292,8 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if self._xiD is not None: # defined by lamination parameters
+            return np.array(self._xiD)
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From a9203b2d89fd40dc2c684e098fc74af80cde3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 05/16] fix: compare lamination-parameter laminates by their
 parameters

Their layup is empty, so any two of them compared equal.
---
 composipy/core/property.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index d645f3b..d5c8d55 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -315,8 +315,19 @@ class LaminateProperty(Property):
         return representation
 
 #Comparisons
+    def _lamination_data(self):
+        xis = [None if xi is None else list(xi)
+               for xi in (self._xiA, self._xiB, self._xiD)]
+        return xis + [self._total_thickness]
+
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
+            is_lp = isinstance(self.stacking, dict)
+            if is_lp != isinstance(other.stacking, dict):
+                return False
+            if is_lp: # defined by lamination parameters, there is no layup
+                return (self._lamination_data() == other._lamination_data()
+                        and self.plies == other.plies)
             return (self.layup == other.layup)
         return NotImplemented
 
-- 
2.43.0


From e21b6adc48797fcf1f61486dd55a49657444c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/16] fix: A66 factor of the u-u stiffness term is a/b

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..8cbbca4 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
-- 
2.43.0


From 65728d930549ea23520b798ef8f6d8a8c4be600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 07/16] fix: B11 and B26 factors of the u-w stiffness term

They are 2b/a^2 and 2a/b^2, as in calc_k31_ijkl.
---
 composipy/pre_integrated_component/build_k.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 8cbbca4..f662fe4 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
-- 
2.43.0


From eff4a2d6852bffb31c5602a0bb664a35cd814892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 08/16] fix: A16 factor of the v-u stiffness term is b/a, as in
 calc_k12_ijkl

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index f662fe4..de0d4b7 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
-- 
2.43.0


From 3020a8ffedcf37f1eacc0d657a0ec3e6e93d1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 09/16] fix: assemble k23 in the v-w block of K

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..c16cd3a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -318,7 +318,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
-- 
2.43.0


From 5bd5b9daa0f120cf64d7af2fdc98d95935190693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 10/16] fix: use the v and w constraints along y

vn and wn were overwritten by a slice of un, so TY, RY, TZ and RZ on y0 and
yb were ignored.
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index c16cd3a..9d9a90b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 2c61bc0ad1edb80d2dfcad9197bd62ec852526d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 11/16] fix: label the allowable and margin rows bottom first

The rows are combined with the stress table, whose first row of each ply is
the bottom face.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From 18ba46dcf397014a0981f778ed7714ded229b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 12/16] fix: find the smallest positive load factor for loads
 of any magnitude

The cayley transform with sigma=1 selected eigenvalues around 1, which gives
the critical load only for load factors above 1.
---
 composipy/core/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 9d9a90b..15c2655 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -392,10 +392,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
 
-        eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+        # smallest algebraic: the most negative one gives the smallest positive load factor
+        eigvals, eigvecs = eigsh(A=KG, k=k, which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 7546ad4e5bb8640075f178724bae9061057ca4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 13/16] fix: plot mode shapes on grids with ngridx different
 from ngridy

meshgrid returns arrays of shape (ngridy, ngridx).
---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 15c2655..adde49e 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -418,10 +418,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From a189135e159268ab3b8dcddd6d2cb182a2adf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 14/16] fix: accept S as the symmetry mark of a stacking
 sequence

It was detected case-insensitively but only the lower case was stripped.
---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..79a96e4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From a1dadd8c77dec43d645645b422ec7c73f38b3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 15/16] fix: k31 B11 term integrates w,xixi u,xi

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index de0d4b7..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From 620ed6bb925236a1c914330aad3b5b05611d67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 16/16] fix: honour edge names when other edges are given as
 lists

---
 composipy/core/structure.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index adde49e..291124c 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -157,12 +157,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -170,24 +165,22 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
-            ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
+
             x0 = self.constraints['x0']
             xa = self.constraints['xa']
             y0 = self.constraints['y0']
             yb = self.constraints['yb']
 
+            # each edge is either a name or an explicit list
+            if isinstance(x0, str):
+                x0 = boundary_conditions[x0.lower()]
+            if isinstance(xa, str):
+                xa = boundary_conditions[xa.lower()]
+            if isinstance(y0, str):
+                y0 = boundary_conditions[y0.lower()]
+            if isinstance(yb, str):
+                yb = boundary_conditions[yb.lower()]
+
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
 
-- 
2.43.0

