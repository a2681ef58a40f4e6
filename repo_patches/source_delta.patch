From 221d98796e836cdd9a1cec7738783423d88dd1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 01/79] fix: Fermi-Dirac delta for complex arguments with
 negative real part

---
 elphmod/occupations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..cf66196 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -36,7 +36,7 @@ def fermi_dirac_delta(x):
     """Calculate negative derivative of Fermi function."""
 
     x = np.array(x)
-    x.real = np.minimum(abs(x.real), xmax)
+    x.real = np.sign(x.real) * np.minimum(abs(x.real), xmax)
 
     return 1 / (2 * np.cosh(x) + 2)
 
-- 
2.43.0


From 7fc0d2be519858f7d6e9f4fb72896d607ca1124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 02/79] fix: Keep list of cell dimensions passed to primitives
 unchanged

---
 elphmod/bravais.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..9c44e9a 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -93,6 +93,8 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
 
         elif ibrav in {-5, 5, 12, 13}:
             celldm[3] = cosab
+    else:
+        celldm = list(celldm)
 
     if not bohr:
         celldm[0] *= elphmod.misc.a0
-- 
2.43.0


From bf490c30df9ce6c4074bbd9f4cb697d43c06425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/79] fix: Outline of square Brillouin zone was twice too
 large

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 9c44e9a..c733c99 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1787,7 +1787,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From a933b33afebfb1d513d64c4bbbdccf83fe0087d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 04/79] fix: Account for third dimension when testing if point
 is on path

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index c733c99..6d65eb3 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2581,8 +2581,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From af991ac97b14622243820585f8f1879eaabdc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 05/79] fix: Interpolation of arrays with additional axes

---
 elphmod/bravais.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 6d65eb3..208cd3a 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -766,6 +766,31 @@ def stack(*points, **kwargs):
 
     # re "corresponding" and ".T" see NumPy's "Advanced indexing" and "NEP 21"
 
+def vectorize(function, nin, nout):
+    """Make function of scalars applicable to arrays.
+
+    Parameters
+    ----------
+    function : function
+        Function of `nin` scalars.
+    nin : int
+        Number of arguments.
+    nout : int
+        Number of dimensions of returned value.
+
+    Returns
+    -------
+    function
+        Vectorized function. The axes of the value follow those of the argument.
+    """
+    if not nout:
+        return np.vectorize(function)
+
+    # By default, NumPy only supports scalar return values:
+
+    return np.vectorize(function, signature='%s->(%s)' % (
+        ','.join(['()'] * nin), ','.join('n%d' % n for n in range(nout))))
+
 def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
     """Perform linear interpolation in one or two dimensions.
 
@@ -934,7 +959,7 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
-    return np.vectorize(interpolant)
+    return vectorize(interpolant, nin=len(axes), nout=data.ndim - len(axes))
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         periodic=True):
@@ -1481,10 +1506,11 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
     idphi = -sign * 2j * np.pi / N
 
     def interpolant(*point):
-        return np.dot(np.exp(idphi * np.dot(points, point)), values).real
+        return np.tensordot(np.exp(idphi * np.dot(points, point)), values,
+            axes=1).real
 
     if function:
-        return np.vectorize(interpolant)
+        return vectorize(interpolant, nin=2, nout=data.ndim - 2)
 
     # return either interpolation function or parameter dictionary:
 
-- 
2.43.0


From ab966df3d67965a64ffe9028eff7875d3b57c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 06/79] fix: q2r with list of matrices or single number for
 complete mesh

---
 elphmod/ph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..ee2b622 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1867,7 +1867,7 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
         independent of ``ph.divide_mass``, which is always respected.
     """
     if D_full is None:
-        ph.size = D_irr.shape[-2]
+        ph.size = len(D_irr[0])
         ph.nat = ph.size // 3
 
         D_full = np.empty((nq, nq, ph.size, ph.size), dtype=complex)
@@ -1927,7 +1927,7 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
     if nq is None:
         nq = D_full.shape[:-2]
     elif not hasattr(nq, '__len__'):
-        nq = (nq,) * len(q_irr[0])
+        nq = (nq,) * (D_full.ndim - 2)
 
     nq_orig = tuple(nq)
     nq = np.ones(3, dtype=int)
-- 
2.43.0


From c1f96131eb51f21d3cd0f64e16de768786c556c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 07/79] fix: Sum over repeated lattice vectors in supercell
 mapping of hoppings

---
 elphmod/el.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..f91dbf5 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -371,7 +371,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((el.size, el.size), dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
@@ -426,7 +426,11 @@ class Model:
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = t
+
+                        if R in const:
+                            const[R] += t
+                        else:
+                            const[R] = t.copy()
 
                 status.update()
 
-- 
2.43.0


From 7d329b66aaf657481c9b12aa1b3b7ee75d853409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 08/79] fix: Keep energy units when mapping tight-binding model
 back to unit cell

---
 elphmod/el.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index f91dbf5..256f47c 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,6 +414,9 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
         if comm.rank == 0:
             const = dict()
 
-- 
2.43.0


From bf9e7734f86d1ecdc2af2c9d669d432365241b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 09/79] fix: Sum over repeated lattice vectors in other
 supercell mappings

---
 elphmod/elel.py | 2 +-
 elphmod/elph.py | 2 +-
 elphmod/ph.py   | 8 ++++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..8e11032 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -188,7 +188,7 @@ class Model:
                         const[R] = np.zeros((elel.size, elel.size),
                             dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..bc04b35 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -487,7 +487,7 @@ class Model:
                     const[R][
                         X:X + self.ph.size,
                         A:A + self.el.size,
-                        B:B + self.el.size] = self.data[g, :, k]
+                        B:B + self.el.size] += self.data[g, :, k]
 
                 status.update()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index ee2b622..2bf8344 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -650,7 +650,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((ph.size, ph.size))
 
-                    const[R][X:X + self.size, Y:Y + self.size] = self.data[n]
+                    const[R][X:X + self.size, Y:Y + self.size] += self.data[n]
 
                 status.update()
 
@@ -738,7 +738,11 @@ class Model:
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = C
+
+                        if R in const:
+                            const[R] += C
+                        else:
+                            const[R] = C.copy()
 
                 status.update()
 
-- 
2.43.0


From 0a552646801e2447ca938036f0caf9f203bc9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 10/79] fix: Lattice vectors of unit cell from left-handed
 phonon supercell

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 2bf8344..d252a38 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -696,7 +696,7 @@ class Model:
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
-- 
2.43.0


From f2804a2df6488c28c9415d22a2a914f3f20aa173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 11/79] fix: Shifting atoms or correcting charges changed
 arrays of others

---
 elphmod/ph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index d252a38..6b0326f 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -265,6 +265,7 @@ class Model:
                 Q = read_quadrupole_fmt(quadrupole_fmt)
 
             if apply_zasr and zeu is not None:
+                zeu = np.array(zeu)
                 zasr(zeu)
 
         phid = comm.bcast(phid)
@@ -840,6 +841,7 @@ class Model:
 
         self.standardize()
 
+        self.r = self.r.copy()
         self.r[s] += np.dot(S, self.a)
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 4ca67f4e6de2932f7a20f205263494302e8e2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 12/79] fix: Search all reciprocal vectors within cutoff for
 skewed cells

---
 elphmod/ph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 6b0326f..8feefdb 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -373,8 +373,8 @@ class Model:
 
         self.scale = 4 * self.alpha * (2 * np.pi / a) ** 2
 
-        nr = 1 + (np.sqrt(self.scale * G_max)
-            / np.linalg.norm(2 * np.pi * self.b, axis=1)).astype(int)
+        nr = 1 + (np.sqrt(self.scale * G_max) / (2 * np.pi)
+            * np.linalg.norm(self.a, axis=1)).astype(int)
 
         if self.lr2d or G_2d:
             nr[2] = 0
-- 
2.43.0


From 4b3a84fce054341a3a825f8e5591d544eea54886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 13/79] fix: Shape of lattice vectors of standardized coupling

---
 elphmod/elph.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index bc04b35..b911813 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -616,15 +616,8 @@ class Model:
         ng = comm.bcast(ng)
         nk = comm.bcast(nk)
 
-        if ng <= len(self.Rg):
-            self.Rg = self.Rg[:ng]
-        else:
-            self.Rg = np.empty((ng, 3), dtype=int)
-
-        if nk <= len(self.Rk):
-            self.Rk = self.Rk[:nk]
-        else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+        self.Rg = np.empty((ng, 3), dtype=int)
+        self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From 5922ef78625c9e935073422423a36b2af905bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 14/79] fix: Squared coupling transform changed the coupling
 passed to it

---
 elphmod/elph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index b911813..a695e21 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -981,8 +981,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
-                    gqk = gqk.real
+                    gqk = abs(gqk) ** 2
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
 
-- 
2.43.0


From 796e276e24637fbf5c787236b5d2a138ab28658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 15/79] fix: Map supercell models back to unit cell if first
 cell is not at origin

---
 elphmod/el.py | 3 ++-
 elphmod/ph.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 256f47c..85ae8db 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -428,7 +428,8 @@ class Model:
                     t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
 
                     if np.any(t != 0):
-                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
+                        R = tuple(np.dot(self.R[n], self.N)
+                            + np.array(cell) - np.array(self.cells[0]))
 
                         if R in const:
                             const[R] += t
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 8feefdb..fc9fef9 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -692,12 +692,12 @@ class Model:
         ph.nat = self.nat // len(self.cells)
         ph.M = self.M[:ph.nat]
         ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
         ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
+        ph.r = self.r[:ph.nat] - np.dot(self.cells[0], ph.a)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
@@ -738,7 +738,8 @@ class Model:
                     C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
 
                     if np.any(C != 0):
-                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
+                        R = tuple(np.dot(self.R[n], self.N)
+                            + np.array(cell) - np.array(self.cells[0]))
 
                         if R in const:
                             const[R] += C
-- 
2.43.0


From 0c0aec9e310620472e991382561de02d47cba25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 16/79] fix: Discard buffered coupling when real-space coupling
 changes

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index a695e21..7d78b7c 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -701,6 +701,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
@@ -1081,6 +1083,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk),
+        elph.el.size, elph.el.size), dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From 19e7b49702c2b865d53bbcaf61a5bb0ec36d1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 17/79] fix: Acoustic sum rule for coupling divided by masses

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 7d78b7c..8041ab6 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -678,6 +678,10 @@ class Model:
         if comm.rank == 0:
             shape = self.data.shape
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
+
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
 
             zero = self.data.sum(axis=0)
@@ -698,6 +702,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] /= np.sqrt(self.ph.M[x // 3])
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From 7473169bc80fa2b56db510f2473416ebc77bdf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 18/79] fix: Reading arrays from text files in Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 8041ab6..07c11ea 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1610,7 +1610,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From d615698861ca6be2110d14dae384255392ec6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 19/79] fix: Axes of single-band coupling written to XML files

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 07c11ea..b668719 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1519,7 +1519,7 @@ def write_xml_files(filename, data, angle=120, angle0=0):
         return
 
     if data.ndim == 4:
-        data = data[:, :, np.newaxis, np.newaxis, :, :]
+        data = data[:, :, :, :, np.newaxis, np.newaxis]
 
     nQ, nmodes, nk, nk, nbands, nbands = data.shape
 
-- 
2.43.0


From b0d734f67138fd40efbbf852058527cdcd0378e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 20/79] fix: Wait for shared coupling if there are more
 processes than q points

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index b668719..f1fe771 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -933,6 +933,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        comm.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From f98e5ae254087024aa9826b6d7c28724c5cef693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 21/79] fix: Add long-range part of sparse coupling only once

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index f1fe771..1e6b730 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -433,7 +433,7 @@ class Model:
             elph.gs = [sparse_array((elph.el.size, elph.el.size))
                 for x in range(elph.ph.size)]
 
-            if elph.ph.lr:
+            if elph.ph.lr and comm.rank == 0: # summed over all processes below
                 g_lr = elph.g_lr().real
 
                 for x in range(elph.ph.size):
-- 
2.43.0


From 5d881dc2e9744f0d53c601c0d0cdf91c5c88de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 22/79] fix: Remember if coupling has been divided by masses
 because of phonons

---
 elphmod/elph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 1e6b730..65edffc 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -260,6 +260,11 @@ class Model:
         if epmatwp is None:
             return
 
+        if self.ph.lr and self.ph.divide_mass != divide_mass:
+            info("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
+            info("The value from 'ph' (%r) is used." % self.ph.divide_mass)
+            self.divide_mass = divide_mass = self.ph.divide_mass
+
         if comm.rank == 0:
             with open(epmatwp, 'rb') as data:
                 status = elphmod.misc.StatusBar((self.data.nbytes > 1e9)
@@ -288,11 +293,6 @@ class Model:
 
             # divide by square root of atomic masses:
 
-            if self.ph.lr and self.ph.divide_mass != divide_mass:
-                print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
-                print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
-
             if divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
-- 
2.43.0


From 171b36f2df7b66ed6738f8003c944f9303a066aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 23/79] fix: Transform Coulomb interaction to band basis
 without MPI

---
 elphmod/MPI.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..01bd9b5 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -66,6 +66,9 @@ except ImportError:
 
         @staticmethod
         def Scatterv(send, recv):
+            if isinstance(recv, tuple):
+                recv = recv[0]
+
             recv[...] = send[0].reshape(recv.shape)
 
         def Split(self, color, key=None):
@@ -74,9 +77,20 @@ except ImportError:
         def Split_type(self, color, key=None):
             return self
 
+    class Datatype:
+        def Create_contiguous(self, count):
+            return self
+
+        def Commit(self):
+            return self
+
+        def Free(self):
+            pass
+
     class Interface:
         def __init__(self):
             self.COMM_WORLD = Communicator()
+            self.UNSIGNED_CHAR = Datatype()
             self.UNDEFINED = 0
             self.COMM_TYPE_SHARED = self.UNDEFINED
             self.IN_PLACE = 1
-- 
2.43.0


From bbb052a142b7daed9ac44e643e1e95b51039c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 24/79] fix: Set documented primitive vectors of interaction
 supercell

---
 elphmod/elel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 8e11032..bfce53b 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -165,6 +165,7 @@ class Model:
         elel = Model()
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
+        elel.N = list(map(tuple, supercell[1]))
         elel.cells = supercell[-1]
 
         elel.size = len(elel.cells) * self.size
-- 
2.43.0


From f5e683ba4d15cb4189c33a7ce3f9cb714284cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 25/79] fix: Grand potential of states far below the Fermi
 level

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..e78a73c 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1086,7 +1086,7 @@ def grand_potential(e, kT=0.025, occupations='fd'):
     prefactor = 2 * kT / np.prod(e.shape[:-1])
 
     if occupations is elphmod.occupations.fermi_dirac: # faster alternative
-        return prefactor * np.log(occupations(-x)).sum()
+        return -prefactor * np.logaddexp(0.0, -x).sum()
 
     return prefactor * ((occupations(x) * x).sum()
         - occupations.entropy(x).sum()) # U - T S - mu N (where mu = 0)
-- 
2.43.0


From ce97a9e3cdfd4b68009bd47ff94c9bf687c8ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 26/79] fix: Renormalize coupling using interaction with four
 orbital indices

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index e78a73c..5a5da2c 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From f48b500c4619191a15de8a374b9b0d20a0b64089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:46 +0000
Subject: [PATCH 27/79] fix: Ignore contact interaction if only squared
 coupling is given

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5a5da2c..dbc8ddc 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -462,7 +462,7 @@ def phonon_self_energy(q, e, g2=None, kT=0.025, eps=1e-10, omega=0.0,
 
             status.update()
 
-        if np.any(U != 0):
+        if g is not None and np.any(U != 0):
             axes = tuple(range(-5, -2))
 
             chi0 = prefactor * dfde.sum(axis=axes)
-- 
2.43.0


From 7095c798a837f0a0699a0350bd612511b1e95a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:46 +0000
Subject: [PATCH 28/79] fix: Change of chemical potential if there are no
 states at the Fermi level

---
 elphmod/diagrams.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index dbc8ddc..93f7a6d 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -527,7 +527,10 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     d = occupations.delta(x) / kT
 
     dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g) / dos
+    avg = np.einsum('ijkn,xijknn->x', d, g)
+
+    if dos:
+        avg = avg / dos
 
     return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
 
-- 
2.43.0


From 6794705f7339d634ed90f4c0f9421b870c73b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 29/79] fix: Free energy of photoexcited electrons consistent
 with forces

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..1f805f4 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -264,6 +264,10 @@ class Driver:
 
         E = prefactor * (self.f(self.e / self.kT) * self.e).sum() # E - mu N
         E += self.mu * self.n # mu N
+
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            E += 2 * self.kT * self.f.d * self.nx # (mu_c - mu_v) N_x
+
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
-- 
2.43.0


From aae32d79e8b6d2e6232e8feea901a8d20dc60025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 30/79] fix: MD driver changed displacements passed to
 free_energy

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 1f805f4..9fd02b5 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -188,7 +188,7 @@ class Driver:
     def center_mass(self):
         """Subtract collective translational displacement component."""
 
-        self.u -= np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
+        self.u = self.u - np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
             self.elph.ph.nat)
 
     def find_Fermi_level(self):
-- 
2.43.0


From 2fafbfe2c9c722771c84876d885ac8bf46de66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 31/79] fix: Sparse Hessian if density of states is zero or
 negative

---
 elphmod/md.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 9fd02b5..95f4f90 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -374,7 +374,12 @@ class Driver:
 
             d_orb = self.U * d[np.newaxis] @ V
             avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+                for x in range(self.elph.ph.size)])
+
+            shift = np.outer(avg, avg)
+
+            if dos:
+                shift /= dos
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
@@ -388,7 +393,7 @@ class Driver:
                 gx = self.U @ (gx * dfde) @ V # overwriting gx to save memory
 
                 for y in range(x, self.elph.ph.size):
-                    C[0, x, y] = self.d0[y].multiply(gx).sum() + avg[x] * avg[y]
+                    C[0, x, y] = self.d0[y].multiply(gx).sum() + shift[x, y]
                     C[0, y, x] = C[0, x, y]
 
                     if kT is not None:
-- 
2.43.0


From 1dc3803b1fde762fbaf7bdf4ec71c1ed858adc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 32/79] fix: Save MD driver using sparse matrices

---
 elphmod/md.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 95f4f90..ebd27c5 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -842,25 +842,19 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
+        comms = [(obj, name, getattr(obj, name))
+            for obj in (self, self.elph)
+            for name in ('node', 'images') if hasattr(obj, name)]
 
-        del self.node
-        del self.images
-
-        if not self.sparse:
-            elph_comms = self.elph.node, self.elph.images
-
-            del self.elph.node
-            del self.elph.images
+        for obj, name, value in comms:
+            delattr(obj, name)
 
         elphmod.MPI.Buffer(filename).set(self)
 
         self.interactive = interactive
 
-        self.node, self.images = comms
-
-        if not self.sparse:
-            self.elph.node, self.elph.images = elph_comms
+        for obj, name, value in comms:
+            setattr(obj, name, value)
 
     @staticmethod
     def load(filename):
-- 
2.43.0


From 7e38adeba55f731790dd8f0c6efdf2fd1d4ab4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 33/79] fix: Double Fermi-surface average from dense Hessian

---
 elphmod/md.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index ebd27c5..59564ce 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -423,6 +423,13 @@ class Driver:
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            if kT is not None:
+                g2dd, dd = elphmod.diagrams.double_fermi_surface_average(
+                    self.q[:nq], self.e, self.d[:nq, :, np.newaxis].conj()
+                    * self.d[:nq, np.newaxis], kT, self.f)
+
+                g2dd = g2dd.reshape(C.shape) / dd.sum()
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From 0ea875d0a792a6f6bce222c801387699394449aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 34/79] fix: Wait for shared coupling in Hessian of MD driver

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 59564ce..27c65f7 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -417,6 +417,8 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            comm.Barrier()
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
@@ -430,6 +432,8 @@ class Driver:
 
                 g2dd = g2dd.reshape(C.shape) / dd.sum()
 
+            comm.Barrier()
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From ffe5ad047280f8524db989800647827ab6f17f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 35/79] fix: Shift of both Fermi levels of photoexcited
 electrons in Hessian

---
 elphmod/diagrams.py | 20 +++++++++++++++-----
 elphmod/md.py       | 20 +++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 93f7a6d..0385ac5 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -526,13 +526,23 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     x = e / kT
     d = occupations.delta(x) / kT
 
-    dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g)
+    if occupations is elphmod.occupations.two_fermi_dirac: # two Fermi levels
+        groups = np.where(x < 0, d, 0.0), np.where(x < 0, 0.0, d)
+    else:
+        groups = d,
+
+    shift = 0.0
+
+    for d in groups:
+        dos = d.sum()
+        avg = np.einsum('ijkn,xijknn->x', d, g)
+
+        if dos:
+            avg = avg / dos
 
-    if dos:
-        avg = avg / dos
+        shift = shift + dos * np.outer(avg, avg) # one complex conjugate?
 
-    return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
+    return 2 / nk.prod() * shift
 
 def phonon_self_energy2(q, e, g2, kT=0.025, nmats=1000, hyb_width=1.0,
         hyb_height=0.0, GB=4.0):
diff --git a/elphmod/md.py b/elphmod/md.py
index 27c65f7..dbc7edb 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -359,7 +359,6 @@ class Driver:
 
             dfde = np.tile(d, (self.elph.el.size, 1))
             dfde[ok] = df[ok] / de[ok]
-            dos = -d.sum() # = -np.trace(dfde)
 
             if kT is not None:
                 tmp = d if kT == self.kT else self.f.delta(self.e / kT) / kT
@@ -372,14 +371,21 @@ class Driver:
 
             V = self.U.transpose().copy()
 
-            d_orb = self.U * d[np.newaxis] @ V
-            avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)])
+            if self.f is elphmod.occupations.two_fermi_dirac:
+                groups = np.where(x < 0, d, 0.0), np.where(x < 0, 0.0, d)
+            else:
+                groups = d,
+
+            shift = np.zeros(C.shape[1:])
 
-            shift = np.outer(avg, avg)
+            for d in groups:
+                dos = -d.sum()
+                d_orb = self.U * d[np.newaxis] @ V
+                avg = np.array([self.d0[x].multiply(d_orb).sum()
+                    for x in range(self.elph.ph.size)])
 
-            if dos:
-                shift /= dos
+                if dos:
+                    shift += np.outer(avg, avg) / dos
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
-- 
2.43.0


From d51ed1c1af333123ea1d56e931441612a8b7f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:24 +0000
Subject: [PATCH 36/79] fix: Count long-range force constants once in MD driver

---
 elphmod/md.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index dbc7edb..72a6504 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -163,7 +163,12 @@ class Driver:
             if unscreen:
                 self.elph.ph = copy.copy(self.elph.ph)
 
-                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=self.C0,
+                C = self.C0
+
+                if self.elph.ph.lr:
+                    C = C - elphmod.dispersion.sample(self.elph.ph.D_lr, self.q)
+
+                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=C,
                     divide_mass=False)
 
             elph = self.elph.supercell(*supercell, sparse=True)
@@ -528,11 +533,16 @@ class Driver:
             Mass-spring model for the phonons.
         """
         ph = copy.deepcopy(self.elph.ph)
-        ph.divide_mass = divide_mass
         ph.r += self.u.reshape((-1, 3))
 
-        elphmod.ph.q2r(ph, D_full=self.hessian(gamma_only=False), nq=self.nq,
-            divide_mass=False, **kwargs)
+        C = self.hessian(gamma_only=False)
+
+        if ph.lr:
+            C = C - elphmod.dispersion.sample(ph.D_lr, self.q)
+
+        ph.divide_mass = divide_mass
+
+        elphmod.ph.q2r(ph, D_full=C, nq=self.nq, divide_mass=False, **kwargs)
 
         return ph
 
-- 
2.43.0


From e8b55317e4ae9ccf408c69f5c21ca421f30d611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 37/79] fix: Write XSF data grid in Fortran order

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..164d79e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,7 +464,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From 8ae780dfb6e1879e8f81f15710a955dbb575bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 38/79] fix: Support comment and quotation marks in namelist
 strings

---
 elphmod/misc.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 164d79e..3dab57e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -525,24 +525,21 @@ def read_namelists(filename):
     with open(filename) as data:
         text = data.read()
 
-    # remove comments:
-
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
-
-    # protect string (which might contain spaces):
+    # remove comments and protect strings (which might contain spaces):
 
     groups = []
 
     def replace(match):
+        if match.group(0).startswith('!'):
+            return ''
+
         groups.append(match.group(0))
         return '___%d___' % len(groups)
 
     def place(match):
         return groups[int(match.group(0).strip('_')) - 1]
 
-    count = 1
-    while count:
-        text, count = re.subn(r'\'[^\'"]*\'|"[^\'"]*"', replace, text)
+    text = re.sub(r'\'[^\']*\'|"[^"]*"|!.*', replace, text)
 
     # parse all namelists:
 
@@ -573,9 +570,7 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
-                count = 1
-                while count:
-                    item, count = re.subn(r'___\d+___', place, item)
+                item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
                     item = item[1:-1]
-- 
2.43.0


From 855283e20096d5ac4061f065c970b929cfcb7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 39/79] fix: Ignore white space within parentheses in namelists

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 3dab57e..ec3998d 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -551,7 +551,7 @@ def read_namelists(filename):
         data[name] = dict()
 
         content = re.sub(r'=', ' = ', content)
-        content = re.sub(r'\s+\(', '(', content)
+        content = re.sub(r'\s*\(\s*(\d+)\s*\)', r'(\1)', content)
         items = re.split(r'[;,\s]+', content)
 
         key = None
-- 
2.43.0


From b5bcbbc6f66fa6d9efd0192ecd36543b3254f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 40/79] fix: Read Wannier90 input with colon as separator

---
 elphmod/bravais.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 208cd3a..47f0cb3 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2055,9 +2055,7 @@ def read_win(win):
 
         with open(win) as lines:
             for line in lines:
-                words = [word
-                    for column in line.split()
-                    for word in column.split('=') if word]
+                words = line.replace('=', ' ').replace(':', ' ').split()
 
                 if not words:
                     continue
-- 
2.43.0


From 876b0bc88042a3d03264548fc7d88286c660d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 41/79] fix: Write Wannier90 input without optional entries

---
 elphmod/bravais.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 47f0cb3..d63fd5d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2195,7 +2195,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2203,7 +2203,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write('%s = %r\n' % (key, struct[key]))
 
@@ -2215,7 +2215,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
@@ -2223,17 +2223,19 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin unit_cell_cart\n')
-        for (r1, r2, r3) in tuple(struct['unit_cell']):
-            data.write('%12.9f %12.9f %12.9f\n' % (r1, r2, r3))
-        data.write('end unit_cell_cart\n')
+        if 'unit_cell' in struct:
+            data.write('begin unit_cell_cart\n')
+            for (r1, r2, r3) in tuple(struct['unit_cell']):
+                data.write('%12.9f %12.9f %12.9f\n' % (r1, r2, r3))
+            data.write('end unit_cell_cart\n')
 
         data.write('\n')
 
-        data.write('begin atoms_%s\n' % struct['atoms_coords'])
-        for X, (r1, r2, r3) in zip(struct['at'], struct['atoms']):
-            data.write('%2s %12.9f %12.9f %12.9f\n' % (X, r1, r2, r3))
-        data.write('end atoms_%s\n' % struct['atoms_coords'])
+        if 'atoms' in struct:
+            data.write('begin atoms_%s\n' % struct['atoms_coords'])
+            for X, (r1, r2, r3) in zip(struct['at'], struct['atoms']):
+                data.write('%2s %12.9f %12.9f %12.9f\n' % (X, r1, r2, r3))
+            data.write('end atoms_%s\n' % struct['atoms_coords'])
 
         data.write('\n')
 
@@ -2242,10 +2244,11 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin kpoints\n')
-        for (kx, ky, kz, wk) in struct['kpoints']:
-            data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
-        data.write('end kpoints\n')
+        if 'kpoints' in struct:
+            data.write('begin kpoints\n')
+            for (kx, ky, kz, wk) in struct['kpoints']:
+                data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
+            data.write('end kpoints\n')
 
 def read_ph(filename):
     """Read input parameters from Quantum ESPRESSO's ``ph.x`` input file.
-- 
2.43.0


From d40655bde4ce0fa967c9dd074569617bfa276b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 42/79] fix: Support paths, 3D q points, and no q points in
 matdyn input

---
 elphmod/bravais.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d63fd5d..220fd2a 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2359,22 +2359,24 @@ def read_matdyn(filename):
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
+        import re
+
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                # find end of namelist (no path separator or comment):
+
+                if '/' in re.sub(r'\'[^\']*\'|"[^"]*"|!.*', '', line):
                     for line in lines:
                         words = line.split()
                         if words:
                             break
+                    else:
+                        break
 
                     struct['nq'] = int(words[0])
-                    struct['q'] = np.empty((struct['nq'], 4))
-
-                    for n in range(struct['nq']):
-                        words = next(lines).split()
-
-                        for x in range(4):
-                            struct['q'][n, x] = float(words[x])
+                    struct['q'] = np.array([
+                        list(map(float, next(lines).split()[:4]))
+                        for n in range(struct['nq'])])
 
     struct = comm.bcast(struct)
 
@@ -2402,9 +2404,11 @@ def write_matdyn(matdyn, struct):
                 data.write('%s = %r\n' % (key, struct[key]))
 
         data.write('/\n')
-        data.write('%d\n' % struct['nq'])
-        for point in struct['q']:
-            data.write(' '.join('%12.9f' % q for q in point) + '\n')
+
+        if 'nq' in struct:
+            data.write('%d\n' % struct['nq'])
+            for point in struct['q']:
+                data.write(' '.join('%12.9f' % q for q in point) + '\n')
 
 def read_epw(filename):
     """Read input parameters from Quantum ESPRESSO's ``epw.x`` input file.
-- 
2.43.0


From 8a473572bb00e6fd23e146929f9ad3c98d0e8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 43/79] fix: Read PWscf input with default type of k points

---
 elphmod/bravais.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 220fd2a..27ea927 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1891,7 +1891,10 @@ def read_pwi(pwi):
                                 struct['r'][n, x] = float(words[1 + x])
 
                 elif key == 'k_points':
-                    struct['ktyp'] = words[1].lower()
+                    if len(words) == 1:
+                        struct['ktyp'] = 'tpiba'
+                    else:
+                        struct['ktyp'] = words[1].lower()
 
                     if 'automatic' in struct['ktyp']:
                         struct[key] = list(map(int, next(lines).split()[:6]))
-- 
2.43.0


From 912b29b3c7c51456312f0cb67998e15be267c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 44/79] fix: Write lists and NumPy scalars to input files

---
 elphmod/bravais.py | 80 +++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 27ea927..2ae88a1 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1927,6 +1927,28 @@ def read_pwi(pwi):
 
     return struct
 
+def write_entry(data, key, value):
+    """Write entry of input file (one line per element of list).
+
+    Parameters
+    ----------
+    data : file object
+        Input file.
+    key : str
+        Name of input parameter.
+    value : object
+        Value of input parameter. Missing list elements (``None``) are skipped.
+    """
+    if isinstance(value, (list, tuple, np.ndarray)):
+        for n, item in enumerate(value, 1):
+            if item is not None:
+                write_entry(data, '%s(%d)' % (key, n), item)
+    else:
+        if isinstance(value, np.generic):
+            value = value.item()
+
+        data.write('%s = %r\n' % (key, value))
+
 def write_pwi(pwi, struct):
     """Write crystal structure to PWscf input file.
 
@@ -1946,7 +1968,7 @@ def write_pwi(pwi, struct):
         for key in ['title', 'prefix', 'outdir', 'pseudo_dir', 'calculation',
                 'tprnfor', 'tstress', 'nstep', 'forc_conv_thr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1955,7 +1977,7 @@ def write_pwi(pwi, struct):
         if 'celldm' in struct:
             for i, celldm in enumerate(struct['celldm'], 1):
                 if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+                    write_entry(data, 'celldm(%d)' % i, celldm)
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1964,7 +1986,7 @@ def write_pwi(pwi, struct):
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1974,7 +1996,7 @@ def write_pwi(pwi, struct):
                 'diago_full_acc', 'mixing_beta', 'startingpot', 'startingwfc',
                 'scf_must_converge']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1983,7 +2005,7 @@ def write_pwi(pwi, struct):
 
             for key in ['ion_dynamics', 'upscale']:
                 if key in struct:
-                    data.write('%s = %r\n' % (key, struct[key]))
+                    write_entry(data, key, struct[key])
 
             data.write('/\n')
 
@@ -1993,7 +2015,7 @@ def write_pwi(pwi, struct):
                 for key in ['cell_dynamics', 'cell_dofree', 'press',
                         'press_conv_thr']:
                     if key in struct:
-                        data.write('%s = %r\n' % (key, struct[key]))
+                        write_entry(data, key, struct[key])
 
                 data.write('/\n')
 
@@ -2187,14 +2209,14 @@ def write_win(win, struct):
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
@@ -2208,13 +2230,13 @@ def write_win(win, struct):
 
         for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_num_iter', 'num_iter', 'search_shells']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
@@ -2286,26 +2308,26 @@ def write_ph(ph, struct):
 
         for key in ['prefix', 'outdir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['fildyn', 'fildvscf']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['ldisp', 'nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['tr2_ph', 'alpha_mix', 'cdfpt', 'subspace',
                 'cdfpt_bnd', 'cdfpt_orb']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2342,7 +2364,7 @@ def write_q2r(q2r, struct):
 
         for key in ['fildyn', 'flfrc', 'zasr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2404,7 +2426,7 @@ def write_matdyn(matdyn, struct):
         for key in ['flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr',
                 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2475,80 +2497,80 @@ def write_epw(epw, struct):
 
         for key in ['prefix', 'outdir', 'dvscf_dir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['wannierize', 'elph']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbwrite', 'epwwrite']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbread', 'epwread']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['use_ws', 'nbndsub', 'bands_skipped']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         if 'proj' in struct:
             for n, value in enumerate(struct['proj'], 1):
                 if value:
-                    data.write('proj(%d) = %r\n' % (n, value))
+                    write_entry(data, 'proj(%d)' % n, value)
 
         data.write('\n')
 
         for key in ['num_iter']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
                 if value:
-                    data.write('wdata(%d) = %r\n' % (n, value))
+                    write_entry(data, 'wdata(%d)' % n, value)
 
         data.write('\n')
 
         for key in ['nk1', 'nk2', 'nk3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nkf1', 'nkf2', 'nkf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nqf1', 'nqf2', 'nqf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                write_entry(data, key, struct[key])
 
         data.write('/')
         data.write('\n')
-- 
2.43.0


From 282197619a24608d958e03f292d4432e0757baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 45/79] fix: Read species names with more than two characters

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index fc9fef9..81e95f2 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1173,7 +1173,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(' '.join(tmp).split("'")[1])
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From ca43ed817428e908af123ac95bc8449bd38878de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 46/79] fix: Write Born effective charges as expected upon
 reading

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 81e95f2..46527c0 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1404,7 +1404,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective charges E-U\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 9099226779fbb1d97d9728f0924fd8f84fabbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 47/79] fix: Keep masses of isotopes in force-constants file

---
 elphmod/ph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 46527c0..e1fb121 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1313,8 +1313,9 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
     """
     dyn = isinstance(phid, tuple)
 
-    atm, amass = tuple(zip(*sorted(set(zip(atom_order, amass)),
-        key=lambda X: atom_order.index(X[0]))))
+    atoms = list(zip(atom_order, amass))
+    species = sorted(set(atoms), key=atoms.index)
+    atm, amass = zip(*species)
 
     with open(flfrc, 'w') as data:
         if dyn:
@@ -1350,7 +1351,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
         # write types and positions of individual atoms:
 
         for na in range(len(tau)):
-            data.write('%5d %4d' % (na + 1, atm.index(atom_order[na]) + 1))
+            data.write('%5d %4d' % (na + 1, species.index(atoms[na]) + 1))
 
             for x in range(3):
                 data.write(' %17.10f' % (tau[na, x] / alat))
-- 
2.43.0


From 1448e4502dcbfaa502e634e19bcc01e39d71b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 48/79] fix: Do not discard origin when reading cube file

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index ec3998d..ec254c6 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -280,11 +280,11 @@ def read_cube(cube, only_header=False, comm=comm):
         r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
+        r0 = np.empty(3, dtype=float)
 
     nat = comm.bcast(nat)
 
     n = np.empty(3, dtype=int)
-    r0 = np.empty(3, dtype=float)
     a = np.empty((3, 3), dtype=float)
     X = np.empty(nat, dtype=int)
     tau = np.empty((nat, 3), dtype=float)
-- 
2.43.0


From 46b3a39821b5951574c481836efafbc86d644ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 49/79] fix: Add whole segment to isoline along mesh edges

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..5d5bf68 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -349,7 +349,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From bf403bb16c26afb2e2f21e594cdfc54e2337397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 50/79] fix: Count intersections on boundaries of periodic mesh
 once

---
 elphmod/dos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 5d5bf68..236c6b9 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,10 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            # points on opposite boundaries of periodic mesh are equivalent:
+
+            D[D > N - eps] -= N
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From 0680c1b26920f15fe5a5e1854f69c6d17e1bcb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 51/79] fix: Ignore coinciding contours in double-delta
 integrals despite rounding errors

---
 elphmod/dos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 236c6b9..6b5ee97 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -252,7 +252,8 @@ def double_delta(x, y, f=None, eps=1e-7):
             w = A * b - B * a - A * c + C * a + B * c - C * b
             # = sum[ijk] epsilon(ijk) F(i) f(j)
 
-            if w == 0:
+            if abs(w) <= 1e-14 * max(abs(A), abs(B), abs(C)) * max(
+                    abs(a), abs(b), abs(c)): # parallel up to rounding errors
                 continue
 
             U = (z * b - B * z - z * c + C * z + B * c - C * b) / w # A = a = z
-- 
2.43.0


From 5f4e30a835029673c2554404765e9f57842c79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 52/79] fix: Use same order of bands with and without
 tetrahedron method

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 2fc1e1c0895d6611f3a31af580ff30b9f1929f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 53/79] fix: Sort disentangled bands by their average energy

---
 elphmod/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..ccadb07 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -499,7 +499,8 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        o[:] = o[:, sorted(range(bands),
+            key=lambda i: v[range(points), o[:, i]].sum())]
 
     return o
 
-- 
2.43.0


From f8a01c178c34194df8be02d793b8dcf8fb92bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 54/79] fix: Align phonon eigenvectors with wave vector

---
 elphmod/dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index ccadb07..c2382b1 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
@@ -133,7 +133,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
 
                 for atom in range(atoms):
                     for band in range(bands):
-                        xy = point, [atom, atom + atoms], band
+                        xy = point, [3 * atom, 3 * atom + 1], band
                         my_V[xy] = elphmod.bravais.rotate(my_V[xy], -phi)
         else:
             if bands == 1:
-- 
2.43.0


From 41ce54680b33d25bc1fb4913b8f6bb35b660ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 55/79] fix: Reorder bands in shared memory once

---
 elphmod/dispersion.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index c2382b1..beb1cb3 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[:] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
@@ -387,13 +387,22 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        if kwargs.get('broadcast', True):
+            node, images = elphmod.MPI.shm_split(comm,
+                shared_memory=kwargs.get('shared_memory', False))
+        else:
+            node = comm
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+        if node.rank == 0:
+            for k1 in range(size):
+                for k2 in range(size):
+                    v[k1, k2] = v[k1, k2, o[k1, k2]]
+
+                    if vectors:
+                        for n in range(V.shape[2]):
+                            V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+
+        node.Barrier()
 
     # return results:
 
-- 
2.43.0


From 5243a4d570e7e197092c2dcc9ac204953c0cd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:11 +0000
Subject: [PATCH 56/79] fix: Do not modify colormap when colorizing data

---
 elphmod/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 87c4983..fa63cb6 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -399,15 +399,17 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
     list of list of list
         RGB image.
     """
+    import copy
+
     if minimum is None:
         minimum = np.nanmin(data)
 
     if maximum is None:
         maximum = np.nanmax(data)
 
-    for n, x in enumerate(cmap.x):
-        if type(x) is str:
-            cmap.x[n] = (float(x) - minimum) / (maximum - minimum)
+    cmap = copy.copy(cmap)
+    cmap.x = [(float(x) - minimum) / (maximum - minimum)
+        if type(x) is str else x for x in cmap.x]
 
     data = (data - minimum) / (maximum - minimum)
 
-- 
2.43.0


From b042d7b4327c6453cb5ed10407dec067e9036e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 57/79] fix: Do not crop rotated square Brillouin zone

---
 elphmod/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index fa63cb6..e466c46 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -239,19 +239,21 @@ def toBZ(data=None, points=1000,
         a3 = a1 - a2
         b3 = b1 + b2
         M = 2 / 3
+        corners = [a1, a2, a3]
 
     elif angle == 90:
-        a3 = a1
         b3 = b1
         M = 1 / 2
+        corners = [a1 + a2, a1 - a2]
 
     elif angle == 120:
         a3 = a1 + a2
         b3 = b1 - b2
         M = 2 / 3
+        corners = [a1, a2, a3]
 
-    kxmax = max(abs(a1[0]), abs(a2[0]), abs(a3[0])) * M
-    kymax = max(abs(a1[1]), abs(a2[1]), abs(a3[1])) * M
+    kxmax = max(abs(corner[0]) for corner in corners) * M
+    kymax = max(abs(corner[1]) for corner in corners) * M
 
     nkx = int(round(points * kxmax))
     nky = int(round(points * kymax))
-- 
2.43.0


From e2fa5a9f18bb88a30686cf16b8c286f0ed83ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:15 +0000
Subject: [PATCH 58/79] fix: Keep colorbar within image

---
 elphmod/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index e466c46..c90d6c2 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -189,6 +189,8 @@ def colorbar(image, left=0.02, bottom=0.02, width=0.03, height=0.30,
     y1 = int(round(image_height * (1 - bottom)))
     y2 = int(round(image_height * (1 - bottom - height)))
 
+    y1, y2 = np.clip([y1, y2], 0, image_height - 1)
+
     if minimum is None:
         minimum = np.nanmin(image)
 
-- 
2.43.0


From 39091e172cc0531f044310db184ff14c4dee698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 59/79] fix: Find extremum through points given as arguments

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index ec254c6..12f1a8f 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -770,7 +770,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From d1c3f3204750c6e53d9866f04c213c9cbcc74f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:16 +0000
Subject: [PATCH 60/79] fix: Use same phase convention for all graphene
 matrices

---
 elphmod/models/graphene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/models/graphene.py b/elphmod/models/graphene.py
index a7aadf6..2968a7c 100644
--- a/elphmod/models/graphene.py
+++ b/elphmod/models/graphene.py
@@ -75,14 +75,14 @@ def dynamical_matrix(q1=0, q2=0, q3=0):
 
     C = np.empty((6, 6), dtype=complex)
 
-    C[3:, :3] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
+    C[:3, 3:] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
     C[:3, :3] = (L1 * np.exp(1j * q1) + L2 * np.exp(1j * q2)
         + L3 * np.exp(-1j * (q1 + q2)))
     C[:3, :3] += C[:3, :3].conj()
 
     C[:3, :3] -= K1 + K2 + K3 + 2 * (L1 + L2 + L3)
 
-    C[:3, 3:] = C[3:, :3].conj().T
+    C[3:, :3] = C[:3, 3:].conj().T
     C[3:, 3:] = C[:3, :3].conj()
 
     return C / M
-- 
2.43.0


From 7148400fbd648ef0c2d11ac22130cf020cc69125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 61/79] fix: Wait for supercell coupling from other nodes

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 65edffc..c68fc35 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -548,6 +548,8 @@ class Model:
                 elph.images.Allreduce(elphmod.MPI.MPI.IN_PLACE,
                     elph.data[g].view(dtype=float))
 
+        comm.Barrier()
+
         return elph
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 311e2594a8e5fc012d730b525575f5f05430bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 62/79] fix: Wait for all processes before changing shared
 coupling

---
 elphmod/elph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c68fc35..54a4fc4 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -573,6 +573,8 @@ class Model:
         symmetrize : bool
             Symmetrize coupling?
         """
+        comm.Barrier()
+
         if comm.rank == 0:
             if eps:
                 self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
@@ -677,6 +679,8 @@ class Model:
         report : bool
             Print sums before and after correction?
         """
+        comm.Barrier()
+
         if comm.rank == 0:
             shape = self.data.shape
 
-- 
2.43.0


From 8c75e6a3bc7f1f25a1a84492794f6476c184aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 63/79] fix: Broadcast loaded data in the order it is received

---
 elphmod/MPI.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 01bd9b5..dc94c6f 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -384,7 +384,9 @@ def load(filename, shared_memory=False, txt=False, comm=comm):
 
         return array
     else:
-        if comm.rank != 0:
+        if comm.rank == 0:
+            data = np.asarray(data, order='C')
+        else:
             data = np.empty(shape, dtype=dtype)
 
         comm.Bcast(data)
-- 
2.43.0


From 2bf56e5c1536d042aa6636554d0fc416b9f67862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 64/79] fix: Keep Fermi levels of photoexcited drivers apart

---
 elphmod/md.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 72a6504..024ad76 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -103,7 +103,8 @@ class Driver:
         self.elph = copy.copy(elph)
 
         self.kT = kT
-        self.f = elphmod.occupations.smearing(f)
+        self._f = elphmod.occupations.smearing(f)
+        self._d = None
 
         self.n = n
         self.nx = nx
@@ -176,6 +177,14 @@ class Driver:
             self.__init__(elph, self.kT, self.f, self.n * len(elph.cells),
                 self.nx * len(elph.cells), unscreen=False, **kwargs)
 
+    @property
+    def f(self):
+        """Particle distribution for Fermi levels of this driver."""
+        if self._d is not None: # other drivers may have other Fermi levels
+            self._f.d = self._d
+
+        return self._f
+
     def random_displacements(self, amplitude=0.01):
         """Displace atoms randomly from unperturbed positions.
 
@@ -217,7 +226,7 @@ class Driver:
                 self.e[..., int(self.n) // 2:], self.kT,
                 elphmod.occupations.fermi_dirac, self.mu)
 
-            self.f.d = (muc - muv) / (2 * self.kT)
+            self._d = (muc - muv) / (2 * self.kT)
             self.mu = (muc + muv) / 2
         else:
             self.mu = elphmod.occupations.find_Fermi_level(self.n,
-- 
2.43.0


From d914c066ad3e97db789733aae6028980e2ba1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 65/79] fix: Read energies of insulators without lowest
 unoccupied level

---
 elphmod/el.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 85ae8db..c0c16c7 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1326,7 +1326,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
-- 
2.43.0


From 43a1e2f7d617f81e5610a99b08360a8b17ac2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 66/79] fix: Use volume of actual unit cell to integrate
 density

---
 elphmod/el.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index c0c16c7..2065c82 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1812,9 +1812,8 @@ def read_pp_density(filename):
         kin_energy_cutoff = float(tmp[2])
 
         # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav)
-        A[2, 2] = celldm[2]
-        uc_volume = np.linalg.det(A) * celldm[0] ** 3
+        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+        uc_volume = abs(np.linalg.det(A))
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
 #        print(B)
-- 
2.43.0


From ae71a696723346c3e3f78df260314af166219b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 67/79] fix: Read density if number of grid points is not
 multiple of five

---
 elphmod/el.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 2065c82..c26b6bb 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1834,9 +1834,10 @@ def read_pp_density(filename):
         # total number of real-space grid points:
         nr_points = np.prod(FFT_dim[:3])
         # separated into columns of 5:
-        if divmod(nr_points, 5)[1] != 0:
-            print('Warning: Total number of grid points is not divisible by 5!')
-        rho = table(divmod(nr_points, 5)[0])
+        rho = []
+        while len(rho) < nr_points:
+            rho.extend(list(map(float, cells())))
+        rho = np.array(rho)
 
         tot_charge = rho.sum() / nr_points * uc_volume
 
-- 
2.43.0


From 97d6b8b2e6f54f8e382f55f8ede437a301886385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 68/79] fix: Skip coupling of bands below requested ones

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 54a4fc4..0a66153 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1153,7 +1153,7 @@ def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
                 ibnd -= offset
                 jbnd -= offset
 
-                if ibnd >= bands or jbnd >= bands:
+                if not (0 <= ibnd < bands and 0 <= jbnd < bands):
                     continue
 
                 indices = n, nu, k1, k2, ibnd, jbnd
-- 
2.43.0


From ec04c03fd4c48849ac2d821e2608c49669b60cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 69/79] fix: Scale lattice vectors read from VASP input

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 2ae88a1..709bf69 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2617,7 +2617,7 @@ def readPOSCAR(filename):
             for n in range(number):
                 atoms[element][n] = list(map(float, next(POSCAR).split()[:3]))
 
-    return t1, t2, t3, atoms
+    return a * t1, a * t2, a * t3, atoms
 
 def point_on_path(test_point, point_A, point_B, eps=1e-14):
     """Test whether a `test_point` is between the points A and B.
-- 
2.43.0


From ce3e921ba9050dc41f36568fc7f75c8d40b04c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 70/79] fix: Find MPI module in interpolation of dynamical
 matrices

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e1fb121..299471c 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2068,7 +2068,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From 62a0cd41673f8b91b2aa9ba41679fe4c9f71cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:08 +0000
Subject: [PATCH 71/79] fix: Accept lists of q points to be written

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 299471c..ff27d7e 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1359,7 +1359,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
             data.write('\n')
 
         if dyn:
-            q = phid[0] * alat / (2 * np.pi)
+            q = np.array(phid[0]) * alat / (2 * np.pi)
             D = np.array(phid[1])
 
             # write dynamical matrices:
-- 
2.43.0


From 90c2e2ce589c7cc093a1000de0c366767ed972de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:29 +0000
Subject: [PATCH 72/79] fix: Separate grid values with three-digit exponents in
 XSF files

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 12f1a8f..0e89e44 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -465,7 +465,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
 
             if not only_header:
                 for i, value in enumerate(data.T.flat, 1):
-                    text.write('%13.5e' % value)
+                    text.write(' %12.5e' % value)
 
                     if not i % 6 or i == data.size:
                         text.write('\n')
-- 
2.43.0


From f1229da6f58329e2f7caf1a0533d5158695b2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 73/79] fix: Accept integer cell parameters where units are
 converted

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 709bf69..508f8bd 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -103,7 +103,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
         if r_cell is None or cell_units is None:
             info('ibrav=0 requires r_cell and cell_units!', error=True)
 
-        a = np.array(r_cell)
+        a = np.array(r_cell, dtype=float)
 
         if 'alat' in cell_units.lower():
             a *= celldm[0]
-- 
2.43.0


From 2b89d3675bf6c9f3ebb9686718fd9664192a010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:36 +0000
Subject: [PATCH 74/79] fix: Resize nonperiodic data to a single point

---
 elphmod/bravais.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 508f8bd..ceca9c6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1011,7 +1011,8 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
     else:
-        scale = np.subtract(data.shape[:len(shape)], 1) / np.subtract(shape, 1)
+        scale = (np.subtract(data.shape[:len(shape)], 1)
+            / np.maximum(np.subtract(shape, 1), 1)) # also for single point
 
     for n, m in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
         if len(shape) == 2:
-- 
2.43.0


From 5aff9bd19fa282654793a621041cee20681796b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 75/79] fix: Accept integers in derivatives of Heaviside
 function

---
 elphmod/occupations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index cf66196..941acad 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -301,7 +301,7 @@ def heaviside(x):
 def heaviside_delta(x):
     """Calculate negative derivative of (reflected) Heaviside function."""
 
-    delta = np.copy(x)
+    delta = np.array(x, dtype=float)
 
     zero = delta == 0
 
@@ -313,7 +313,7 @@ def heaviside_delta(x):
 def heaviside_delta_prime(x):
     """Calculate negative 2nd derivative of (reflected) Heaviside function."""
 
-    delta_prime = np.copy(x)
+    delta_prime = np.array(x, dtype=float)
 
     zero = delta_prime == 0
 
-- 
2.43.0


From 27539fb498dc9e5256c0102e9155b961366f59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 76/79] fix: Treat zero among several frequencies in phonon
 self-energy

---
 elphmod/diagrams.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 0385ac5..df846c6 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -403,11 +403,11 @@ def phonon_self_energy(q, e, g2=None, kT=0.025, eps=1e-10, omega=0.0,
     k2 = slice(0, nk[1])
     k3 = slice(0, nk[2])
 
-    dynamic = np.any(omega != 0)
+    static = omega == 0
 
     status = elphmod.misc.StatusBar(sizes[comm.rank] * np.prod(phshape),
         title='calculate %s phonon self-energy'
-            % ('dynamic' if dynamic else 'static'))
+            % ('static' if np.all(static) else 'dynamic'))
 
     for my_iq, iq in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
         q1, q2, q3 = np.round(q[iq] * scale).astype(int) % nk
@@ -421,13 +421,13 @@ def phonon_self_energy(q, e, g2=None, kT=0.025, eps=1e-10, omega=0.0,
                 df = f[k1, k2, k3, n] - f[kq1, kq2, kq3, m]
                 de = e[k1, k2, k3, n] - e[kq1, kq2, kq3, m]
 
-                if dynamic:
-                    dfde[..., m, n] = df / np.add.outer(omega, de)
-                else:
-                    ok = abs(de) > eps
+                ok = abs(de) > eps
+
+                adiabatic = d[..., n].copy()
+                adiabatic[ok] = df[ok] / de[ok]
 
-                    dfde[..., m, n][ok] = df[ok] / de[ok]
-                    dfde[..., m, n][~ok] = d[..., n][~ok]
+                dfde[static, ..., m, n] = adiabatic
+                dfde[~static, ..., m, n] = df / np.add.outer(omega[~static], de)
 
                 if Delta is not None:
                     if Delta_diff:
-- 
2.43.0


From b42adf54891dfa2016cd29d9ec951a4d7da2ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 77/79] fix: Allow for more than 256 q points per direction in
 orbital2band

---
 elphmod/elel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index bfce53b..b46ef86 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -461,7 +461,7 @@ def orbital2band(U, H, nq, nk, band=0, status=False, share=False, dd=False):
     sizes = elphmod.MPI.distribute(size)
 
     if comm.rank == 0:
-        points = np.empty((size, 10), dtype=np.uint8)
+        points = np.empty((size, 10), dtype=np.uint16)
 
         n = 0
 
@@ -491,12 +491,12 @@ def orbital2band(U, H, nq, nk, band=0, status=False, share=False, dd=False):
     else:
         points = None
 
-    my_points = np.empty((sizes[comm.rank], 10), dtype=np.uint8)
+    my_points = np.empty((sizes[comm.rank], 10), dtype=np.uint16)
 
     # Chunk-wise scattering to overcome MPI's array-length limit of 2^32 - 1:
     # (adapted from L. Dalcin's reply to 'Gatherv seg fault?' on Google Groups)
 
-    chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(10).Commit()
+    chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(20).Commit()
     comm.Scatterv((points, sizes, chunk), (my_points, chunk))
     chunk.Free()
 
-- 
2.43.0


From 699b290cb5ea817100d6bfd4cd7b1c57710f7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 78/79] fix: Read POSCAR files without selective dynamics

---
 elphmod/bravais.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index ceca9c6..53934c4 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2607,8 +2607,8 @@ def readPOSCAR(filename):
 
         numbers = list(map(int, next(POSCAR).split()))
 
-        next(POSCAR)
-        next(POSCAR)
+        if next(POSCAR).lstrip()[:1] in {'S', 's'}: # selective dynamics
+            next(POSCAR)
 
         atoms = dict()
 
-- 
2.43.0


From f9e14438df0cc8a4da846dc737abddc5eed04437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:35 +0000
Subject: [PATCH 79/79] fix: Acoustic sum rule of Hessian for nonzero wave
 vectors

---
 elphmod/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 024ad76..0458bba 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -459,10 +459,10 @@ class Driver:
         if apply_asr_simple:
             C = C.reshape((nq, self.elph.ph.nat, 3, self.elph.ph.nat, 3))
 
-            corr = C.sum(axis=3)
+            corr = C[0].sum(axis=2) # q = 0
 
             for na in range(self.elph.ph.nat):
-                C[:, na, :, na, :] -= corr[:, na]
+                C[:, na, :, na, :] -= corr[na]
 
             C = C.reshape((nq, self.elph.ph.size, self.elph.ph.size))
 
-- 
2.43.0

