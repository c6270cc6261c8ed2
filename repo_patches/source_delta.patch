From 57f3a52a3d6e7d9ae45ea77fe913709802fe8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/60] fix: linked cells crash with numpy >= 1.24 (numpy.int
 was removed)

---
 atooms/postprocessing/linkedcells.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..c8c3f46 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -142,7 +142,7 @@ class LinkedCells(object):
         # this is the same set of particles we use when retrieving
         # the neighbours? We should keep a reference.
         # from atooms.postprocessing.realspace_wrap import compute
-        # index = numpy.ndarray(pos.shape, dtype=numpy.int)
+        # index = numpy.ndarray(pos.shape, dtype=int)
         # compute.bin_in_cell(pos, self.hbox, self.box_cell, index)
 
         self.neighbors = []
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 008db8e73fa075e027e5145f7152ded1d5106218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 02/60] fix: accept fractional norigins given as a string, as
 the command line does

---
 atooms/postprocessing/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..6fc4871 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -158,7 +158,7 @@ def adjust_skip(trajectory, n_origins=None):
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
             skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,7 +177,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and float(n_origins) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-- 
2.43.0


From 3c010bc446cb67e53f5722564b8381b1f2a49a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 03/60] fix: keep time origins aligned with blocks when
 norigins exceeds the number of blocks

---
 atooms/postprocessing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6fc4871..a1979a8 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -157,7 +157,8 @@ def adjust_skip(trajectory, n_origins=None):
             skip = 1 * trajectory.block_size  # all origins
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
-            skip = int(nbl / float(n_origins)) * trajectory.block_size
+            # At least one block, even if we ask for more origins than blocks
+            skip = max(1, int(nbl / float(n_origins))) * trajectory.block_size
         elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
-- 
2.43.0


From 4d72833d3597471e032002f391829becec630706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 04/60] fix: honour norigins=1 given as an integer when
 building the time grid

---
 atooms/postprocessing/alpha2.py | 2 +-
 atooms/postprocessing/chi4t.py  | 2 +-
 atooms/postprocessing/msd.py    | 2 +-
 atooms/postprocessing/qt.py     | 4 ++--
 atooms/postprocessing/s4kt.py   | 2 +-
 atooms/postprocessing/sacf.py   | 2 +-
 atooms/postprocessing/vacf.py   | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..e6faad5 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -25,7 +25,7 @@ class NonGaussianParameter(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.75, nsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def alpha_2(x, y):
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..7497a0e 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -39,7 +39,7 @@ class Chi4SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
         self.a_square = a**2
         self.average = Correlation(self.trajectory, self.grid)
         self.average.short_name = 'Q^u(t)'
diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 12a52ac..d6e404e 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -71,7 +71,7 @@ class MeanSquareDisplacement(Correlation):
         # Setup time grid
         # We disable offsets if only one time origin is requested or if no_offset is True
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid,
-                                            offset=self._norigins != '1' and not self._no_offset)
+                                            offset=str(self._norigins) != '1' and not self._no_offset)
         # Note that the grid is redefined
         self.grid, self.value = gcf_offset(msd, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..7a524bd 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -50,7 +50,7 @@ class CollectiveOverlap(Correlation):
         self.a_square = a**2
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def f(x, y):
@@ -74,7 +74,7 @@ class SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
         self.a_square = a**2
 
     def _compute(self):
diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..acb0d1f 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -34,7 +34,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, [tgrid, kgrid], norigins,
                                          nk, dk, kmin, kmax, ksamples)
         # Setup time grid
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
         self.a_square = a**2
 
     def _tabulate_W(self, kgrid, selection, t_off, t, skip):
diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..67730e4 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -23,7 +23,7 @@ class StressAutocorrelation(Correlation):
 
     def __init__(self, trajectory, tgrid, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
 
     def _get_stress(self):
         ndims = 3
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..7dcd15a 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 6172281567e3d60c7456b98cad8c057bdb9b3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 05/60] fix: default time grids of vacf and self overlap, also
 when given a trajectory path

---
 atooms/postprocessing/qt.py   | 2 +-
 atooms/postprocessing/vacf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 7a524bd..f533ca3 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -73,7 +73,7 @@ class SelfOverlap(Correlation):
                  tsamples=60):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
-            self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
+            self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
         self.a_square = a**2
 
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 7dcd15a..0ef5887 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -23,8 +23,8 @@ class VelocityAutocorrelation(Correlation):
     def __init__(self, trajectory, tgrid=None, tsamples=30, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
-            self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=str(norigins) != '1')
+            self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=str(norigins) != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 8b1f5c2aa8232331550d0ca7df00ccf863a54532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 06/60] fix: vacf ignored norigins

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 0ef5887..fd988ac 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From a33fda65d3e9473943f7fa856d9f68a8e09ab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 07/60] fix: do not modify the k grid provided by the user

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..2c94e1e 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -214,7 +214,8 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
-            self.kgrid.sort()
+            # We work on a copy: the input grid may be shared with other correlations.
+            self.kgrid = sorted(self.kgrid)
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
-- 
2.43.0


From cbd1ad35c0be75194491aef747f9938a33d22f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 08/60] fix: spectral density must use the physical norm of the
 wave-vectors

---
 atooms/postprocessing/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..a431370 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From f10bafeb2fa6b8c8ff75462b7487f42e37c70639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 09/60] fix: ik ignored trajectory_radius and all input files
 but the first

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..20d1004 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default, the radii are read from the input file itself
+        radius = th.filename if trajectory_radius is None else trajectory_radius
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From 510f183c5235ff578ffa9f1b0f358cf91ba93f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 10/60] fix: spectral density of a sliced trajectory used the
 radii of other frames

---
 atooms/postprocessing/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index a431370..fb76cfe 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -34,9 +34,10 @@ class SpectralDensity(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, kgrid, norigins, nk,
                                          dk, kmin, kmax, ksamples)
         self._is_cell_variable = None
-        # TODO: check step consistency 06.09.2017
+        # Pick up the radii at the steps of the trajectory, which may be a slice
         with Trajectory(trajectory_radius) as th:
-            self._radius = [s.dump('particle.radius') for s in th]
+            self._radius = [th[th.steps.index(step)].dump('particle.radius')
+                            for step in self.trajectory.steps]
 
     def _compute(self):
         nsteps = len(self._pos)
-- 
2.43.0


From f783262075faaf04be13f0d7f399cab355f81610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 11/60] fix: StructureFactorFast used shifted wave-vectors,
 dropped cross correlations and weights

---
 atooms/postprocessing/sk.py | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..12a4aca 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -189,7 +189,8 @@ class StructureFactorFast(StructureFactorLegacy):
 
         # Setup k vectors and tabulate rho
         cnt = [0 for k in kgrid]
-        rho_av = [complex(0., 0.) for k in kgrid]
+        rho_0_av = [complex(0., 0.) for k in kgrid]
+        rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
         variable_cell = is_cell_variable(self.trajectory)
         for i in range(0, nsteps, self.skip):
@@ -205,28 +206,34 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
-            # for kk, knorm in enumerate(kgrid):
-            #     ikvec = numpy.ndarray((3, len(selection[kk])), order='F', dtype=numpy.int32)
-            #     i = 0
-            #     for k in selection[kk]:
-            #         ikvec[:, i] = self.kvector[knorm][k]
-            #         i += 1
+            # Include weights in the exponentials along the first axis
+            if self._weight is not None:
+                if expo_1 is not expo_0:
+                    expo_1[:, 0, :] *= self._weight_1[i][:, numpy.newaxis]
+                expo_0[:, 0, :] *= self._weight_0[i][:, numpy.newaxis]
+
             for k, klist in enumerate(self._kvectors):
-                # TODO: do it by transpose()
-                # Fill array of kvectors in this bin
-                ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
-                for i, kvec in enumerate(klist):
-                    ikvec[:, i] = kvec
-                rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
-                rho_0 = rho
-                rho_1 = rho
+                # Array of kvectors in this bin, shifted to Fortran indexing
+                ikvec = numpy.array(klist, dtype=numpy.int32).transpose() + 1
+                rho_0 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                fourierspace_module.sk_bare(expo_0, ikvec, rho_0)
+                if expo_1 is expo_0:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec, rho_1)
+                rho_0_av[k] += numpy.sum(rho_0)
+                rho_1_av[k] += numpy.sum(rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-                cnt[k] += rho.shape[0]
+                cnt[k] += ikvec.shape[1]
+
+        # In the absence of a microscopic field, the average density is zero.
+        if self._weight_0 is None:
+            rho_0_av = [complex(0., 0.) for k in kgrid]
+            rho_1_av = [complex(0., 0.) for k in kgrid]
 
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
@@ -235,7 +242,7 @@ class StructureFactorFast(StructureFactorLegacy):
         self.value, self.value_nonorm = [], []
         for k in range(len(self.grid)):
             norm = float(npart_0 * npart_1)**0.5
-            value = (rho2_av[k] / cnt[k] - rho_av[k]*rho_av[k].conjugate() / cnt[k]**2).real
+            value = (rho2_av[k] / cnt[k] - rho_0_av[k] * rho_1_av[k].conjugate() / cnt[k]**2).real
             self.value.append(value / norm)
             self.value_nonorm.append(value)
 
-- 
2.43.0


From 975f9061345eceb7fb38512be3a24b2f78d314ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 12/60] fix: StructureFactorFast read out of bounds in two
 dimensions

---
 atooms/postprocessing/fourierspace.f90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.f90 b/atooms/postprocessing/fourierspace.f90
index 10573ac..0e0ff08 100644
--- a/atooms/postprocessing/fourierspace.f90
+++ b/atooms/postprocessing/fourierspace.f90
@@ -13,8 +13,12 @@ contains
     do ii = 1,size(ikvec,2)
        i1   = ikvec(1,ii)
        i2   = ikvec(2,ii)
-       i3   = ikvec(3,ii)
-       rho(ii) = sum(expo(:,1,i1) * expo(:,2,i2) * expo(:,3,i3))
+       if (size(ikvec,1) == 2) then
+          rho(ii) = sum(expo(:,1,i1) * expo(:,2,i2))
+       else
+          i3   = ikvec(3,ii)
+          rho(ii) = sum(expo(:,1,i1) * expo(:,2,i2) * expo(:,3,i3))
+       end if
     end do
   end subroutine sk_bare
 
-- 
2.43.0


From 5d73e47d8fc626cb5dbfc1815dffd4385c890c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 13/60] fix: Chi4SelfOverlapOptimized crashed (wrong f90
 module, no time origins)

---
 atooms/postprocessing/chi4t.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 7497a0e..9f60cbf 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -99,13 +99,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, self.a_square)
 
         self.grid = []
         self.average.tag, self.variance.tag = self.tag, self.tag
@@ -117,7 +117,10 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
                 A += w
                 cnt += 1
             dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
-            A_av, A2_av = A/cnt, A2/cnt
+            if cnt > 0:
+                A_av, A2_av = A / cnt, A2 / cnt
+            else:
+                A_av, A2_av = 0, 0
             self.grid.append(dt * self.trajectory.timestep)
             self.value.append((A2_av - A_av**2) / self._pos_unf[0].shape[0])
             self.average.value.append(A_av)
-- 
2.43.0


From d8a8daeda8a1ea4136a6c6145e9265e8ac1f6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 14/60] fix: computing a correlation function twice accumulated
 the phase space arrays

---
 atooms/postprocessing/chi4t.py       | 6 ++++--
 atooms/postprocessing/correlation.py | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 9f60cbf..73b0424 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return compute.self_overlap(x, y, self.a_square)
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..6ad3ee9 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -310,7 +310,13 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case we call compute more than once
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -405,6 +411,7 @@ class Correlation(object):
             return
 
         # Dump arrays of weights
+        self._weight = []
         for s in progress(self.trajectory):
             # Apply filter if there is one
             # TODO: fix when weight trajectory does not contain actual particle info
-- 
2.43.0


From e6f06e564885df9b0b2f289fbe8a41f101866ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 15/60] fix: computing g(r) twice shrank the grid

---
 atooms/postprocessing/gr.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..952921e 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -91,6 +91,8 @@ class RadialDistributionFunctionLegacy(Correlation):
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
         self.dr = dr
+        self._input_grid = rgrid
+        self._output_grid = None
         self.rmax = rmax
         """
         Limit distance binning up to `rmax`. It may enable linked cells if
@@ -101,6 +103,11 @@ class RadialDistributionFunctionLegacy(Correlation):
         """
         Deferred grid setup
         """
+        # If we compute again, start over from the input grid
+        if self.grid is self._output_grid:
+            self.grid = self._input_grid
+        self._input_grid = self.grid
+
         if self.grid is None:
             # Get side of cell. If the system does not have a cell,
             # wrap it in an infinite cell and estimate a reasonable grid.
@@ -183,6 +190,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             where = self.grid <= min(side) / 2
         self.grid = self.grid[where]
         self.value = self.value[where]
+        self._output_grid = self.grid
 
 
 class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
@@ -369,6 +377,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             where = self.grid <= min(side) / 2
         self.grid = self.grid[where]
         self.value = self.value[where]
+        self._output_grid = self.grid
 
 
 # Defaults to fast
-- 
2.43.0


From c79fbccb37b6e69c291fe071025c8f25bd73b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 16/60] fix: bond angles corrupted memory with more than 50
 neighbors

---
 atooms/postprocessing/ba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..3f7286c 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,8 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            # All particles can be neighbors, at most
+            neighbors = numpy.ndarray(max(1, len(self._pos_1[i])), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From 558cd2e81dac4ed3b41acbe8034d6f5dd353b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 17/60] fix: bond angles computed twice, integer dtheta and dr

---
 atooms/postprocessing/ba.py | 6 +++++-
 atooms/postprocessing/gr.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 3f7286c..19bfa84 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,7 +59,9 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        # An integer would be the number of points in linear_grid
+        self._dtheta = float(dtheta)
+        self.grid = linear_grid(0.0, 180.0, self._dtheta)  # reassign grid anyway
         self.rcut = rcut
 
     def _compute(self):
@@ -67,6 +69,8 @@ class BondAngleDistribution(Correlation):
         from atooms.postprocessing.realspace_wrap import compute
         from atooms.system.particle import distinct_species
 
+        # The grid is redefined below, start over if we compute again
+        self.grid = linear_grid(0.0, 180.0, self._dtheta)
         hist_all = []
         hist_one = numpy.ndarray(len(self.grid), dtype=numpy.int32)
         origins = range(0, len(self.trajectory), self.skip)
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 952921e..c3b0fa2 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -90,7 +90,8 @@ class RadialDistributionFunctionLegacy(Correlation):
 
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
-        self.dr = dr
+        # An integer would be the number of points in linear_grid
+        self.dr = float(dr)
         self._input_grid = rgrid
         self._output_grid = None
         self.rmax = rmax
-- 
2.43.0


From 2ccc52cfb9b4b5027f85ddc5092734df38753c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 18/60] fix: gcf ignored the last pair of frames

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 6ad3ee9..3afb9ea 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From 4f1d8b941e972e9efbd6c8456f172ed2f283b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 19/60] fix: add_filter accepted one filter too many

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 3afb9ea..ccd85cc 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -290,7 +290,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From dbb405576b62f0db2d6a4e2dc26ea30357c97909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 20/60] fix: update and write of correlations without output
 file

---
 atooms/postprocessing/correlation.py | 3 +++
 atooms/postprocessing/fkt.py         | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index ccd85cc..bd2ced4 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -299,6 +299,9 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        # Without an output file, e.g. trajectories in memory, we always update
+        if self._output_file is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..ba4d1fb 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From db68f7182dc7fac47b56be0d2a81548fd40d932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 21/60] fix: read back correlation functions of two variables
 and single-row files

---
 atooms/postprocessing/correlation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index bd2ced4..7b03a46 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -567,9 +567,12 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
-            if len(x) == 3:
-                _log.warn("cannot read 3-columns files yet in %s", self._output_file)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
+            if len(x) == 3 and len(self.grid_name) == 2:
+                # The second variable runs fastest, see write()
+                rows = numpy.where(x[1] == x[1][0])[0]
+                self.grid = [x[0][rows].tolist(), x[1][:len(x[1]) // len(rows)].tolist()]
+                self.value = x[2].reshape(len(rows), -1).tolist()
             elif len(x) == 2:
                 self.grid, self.value = x
             else:
-- 
2.43.0


From 6b6db461bdd2ee7eda3aeef27cb27c1154aac199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 22/60] fix: fix_cm was ignored by two-body correlations with
 two filters

---
 atooms/postprocessing/correlation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 7b03a46..9120628 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -473,9 +473,17 @@ class Correlation(object):
             self._ids_1 = self._ids
             return
 
+        # Local shortcut, see _setup_arrays_onebody()
+        th = self.trajectory
+        if 'pos' in self.phasespace and self._fix_cm:
+            if self._unfolded is None:
+                self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                self._unfolded.add_callback(fold)
+            th = self._unfolded
+
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
-            ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            ids = distinct_species(th[0].particle)
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
-- 
2.43.0


From 3aeafad122bdbcd0ba982e95fbf29d821247ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 23/60] fix: fix_cm modified the unfolded positions of cached
 trajectories

---
 atooms/postprocessing/correlation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 9120628..c0a482f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -383,6 +383,7 @@ class Correlation(object):
                     # particle.position_unfolded because atooms.system
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
+                    cm = 0.0
                     if self._fix_cm:
                         # Compute CM using unfolded positions, which is safe
                         cm = numpy.zeros_like(s.particle[0].position_unfolded)
@@ -391,14 +392,12 @@ class Correlation(object):
                             cm += p.position_unfolded * p.mass
                             mtot += p.mass
                         cm /= mtot
-                        # Subtract it
-                        for p in s.particle:
-                            p.position_unfolded -= cm
                     # Apply filter if there is one
-                    # This must be done after the CM has been fixed
+                    # This must be done after the CM has been computed
                     if len(self._cbk) > 0:
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                    self._pos_unf.append(s.dump('particle.position_unfolded'))
+                    # Subtract CM without modifying the particles, which may be cached
+                    self._pos_unf.append(s.dump('particle.position_unfolded') - cm)
             else:
                 for s in progress(th):
                     # Apply filter if there is one
-- 
2.43.0


From 7a3863ad18f3a5af805862b73f1eb97f8893b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 24/60] fix: non-Gaussian parameter in dimensions other than 3

---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index e6faad5..56bfff2 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndim = x.shape[1]
+            return ndim * dr4 / ((ndim + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From 1a89d489d4615b6b56969f3c919ba944355ab7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 25/60] fix: Filter polluted the attributes of the particles

---
 atooms/postprocessing/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..542d121 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,7 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            if eval(condition, {}, particle.__dict__):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From 3211d87e22ee02c71eb82e0aa58bfa63daae43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 26/60] fix: linear_fit of exactly collinear data

---
 atooms/postprocessing/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index a1979a8..3b2fb0a 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -89,6 +89,8 @@ def linear_fit(xdata, ydata):
         s = (n*syy - sy**2 - a**2 * (n*sxx - sx**2)) / (n*dof)
     else:
         s = 0.0
+    # Round-off errors may give a slightly negative variance
+    s = max(0.0, s)
     sa = n * s / (n*sxx - sx**2)
     sb = sa * sxx / n
     return a, b, sqrt(sa), sqrt(sb)
-- 
2.43.0


From 41284d5e67c5a05b9229ce8fd3ddaa410a030519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 27/60] fix: linked cells with a fluctuating simulation cell

---
 atooms/postprocessing/linkedcells.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index c8c3f46..f4b1f84 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,9 +16,9 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
-        self.hbox = box / 2
-        self.n_cell = (box / self.rcut).astype(int)
+        self.box = numpy.array(box, dtype=float)
+        self.hbox = self.box / 2
+        self.n_cell = (self.box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
@@ -135,7 +135,8 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        # Adjust the cells again if the box has changed
+        if not self._is_adjusted or numpy.any(self.box != box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From 2fd1050657a24d4f8709fb480528149e2b016698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 28/60] fix: linked cells crash with particles on the border of
 the simulation cell

---
 atooms/postprocessing/linkedcells.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index f4b1f84..34a2394 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self._periodic = numpy.array(periodic)
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -122,8 +123,11 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
+        # Particles on the border of the cell or outside it: fold indices along
+        # periodic directions, assign the closest subcell along the others
+        return numpy.where(self._periodic, x % self.n_cell,
+                           numpy.clip(x, 0, self.n_cell - 1))
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From 41014cf70942e728f0581efcd82ffb4dac3d3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 29/60] fix: g(r) with linked cells wrote out of bounds with
 short user-provided grids

---
 atooms/postprocessing/realspace.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..7e93bd1 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -287,7 +287,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -388,7 +388,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From 0b3549ecc154f58f9bb6142898f572ac0ff4de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 30/60] fix: api.msd ignored fix_cm for partial correlations

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 20d1004..5ecf901 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -165,7 +165,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From af05e4c9fd0cdb9f6f91c10cfcdabe30350cc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 31/60] fix: chi4qs did nothing with one species, crashed with
 --fast and ignored --no-partial

---
 atooms/postprocessing/api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 5ecf901..bf1ab6a 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -257,7 +257,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
@@ -268,10 +268,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
-- 
2.43.0


From 4171ed72453f292ac02013b3ad611c5968b00b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 32/60] fix: --filter was silently ignored by time correlation
 functions

---
 atooms/postprocessing/api.py | 42 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index bf1ab6a..8e0149c 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -67,6 +67,12 @@ def _compat(args):
 
     return args
 
+def _filter(cf, args):
+    """Apply the global filter, if there is one, to the correlation function `cf`"""
+    if args['filter'] is not None:
+        cf = pp.Filter(cf, args['filter'])
+    return cf
+
 def gr(input_file, dr=0.04, grandcanonical=False, ndim=-1, rmax=-1.0, *input_files, **global_args):
     """Radial distribution function"""
     global_args = _compat(global_args)
@@ -158,10 +164,10 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        _filter(pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                          norigins=global_args['norigins'],
+                                          sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                          fix_cm=fix_cm), global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -180,7 +186,7 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        _filter(pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']), global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -209,10 +215,10 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            _filter(pp.IntermediateScattering(th, k_grid, t_grid,
+                                              norigins=global_args['norigins'],
+                                              nk=nk, dk=dk, fix_cm=fix_cm), global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -241,10 +247,10 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            _filter(backend(th, k_grid, t_grid, nk, dk=dk,
+                            norigins=global_args['norigins'], fix_cm=fix_cm,
+                            lookup_mb=lookup_mb), global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -269,8 +275,8 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            _filter(backend(th, t_grid, a=a, norigins=global_args['norigins']), global_args).do(update=global_args['update'])
         if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
@@ -287,7 +293,7 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        _filter(pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']), global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -305,7 +311,7 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        _filter(pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']), global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -323,7 +329,7 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        _filter(pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']), global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
-- 
2.43.0


From d2d8bf942b58398be642750174657bed5ccebb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 33/60] fix: sk with a weight trajectory crashed on the second
 input file

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 8e0149c..9f28e17 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -110,14 +110,14 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
         backend = pp.StructureFactorLegacy
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
+    if weight_trajectory is not None:
+        weight_trajectory = TrajectoryXYZ(weight_trajectory)
     for th in _get_trajectories([input_file] + list(input_files), global_args):
         cf = backend(th, kgrid=kgrid,
                      norigins=global_args['norigins'], kmin=kmin,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
-        if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
         cf.add_weight(trajectory=weight_trajectory,
                       field=weight,
                       fluctuations=weight_fluctuations)
-- 
2.43.0


From 8046776313e3f071c4d552a2beb8782313762319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/60] fix: --center with cached frames shifted the particles
 at each read

---
 atooms/postprocessing/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 9f28e17..c9f4c1e 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -23,8 +23,9 @@ def _get_trajectories(input_files, args):
                 th.add_callback(center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
-            # disable it
-            if not args['no_cache']:
+            # disable it. Centering modifies the cached system in place,
+            # it would be applied each time a frame is read.
+            if not args['no_cache'] and not args['center']:
                 th.cache = True
             if args['species_layout'] is not None:
                 th.register_callback(change_species, args['species_layout'])
-- 
2.43.0


From 93b224959862d10aa4cb602f01ffb962ea6136bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 35/60] fix: feqc missed roots at the boundaries of the grid

---
 atooms/postprocessing/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 3b2fb0a..c56ab0e 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -105,6 +105,9 @@ def feqc(x, f, fstar):
     """
     s = f[0] - fstar
     for i in range(min(len(x), len(f))):
+        if f[i] == fstar:
+            # The root lies on the grid
+            return x[i], i
         if (f[i] - fstar) * s < 0.0:
             # Linear interpolation
             dxf = (f[i] - f[i-1]) / (x[i] - x[i-1])
-- 
2.43.0


From 7c97dbabb8ed9c5ae70591f134340c5a10308d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 36/60] fix: chi4 dropped the last time origins and reported
 zeros without origins

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 73b0424..459073f 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -61,7 +61,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -113,7 +113,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From 11805792d7f61b0d422fd1573e7401fed8cf63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 37/60] fix: computing twice correlations of unfolded positions
 raised an error

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index c0a482f..5341e9f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -319,6 +319,8 @@ class Correlation(object):
         self._vel_0, self._vel_1 = [], []
         self._ids_0, self._ids_1 = [], []
         self._pos_unf_0, self._pos_unf_1 = [], []
+        # Unfolded trajectories can only be read once from the start
+        self._unfolded = None
 
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
-- 
2.43.0


From 0520fc8e363503d4ccfebcf24f399dfb022120a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 38/60] fix: g(r) with linked cells missed pairs in the last
 bin if it extends beyond rmax

---
 atooms/postprocessing/gr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index c3b0fa2..af5a8d2 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -248,8 +248,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
             nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin may extend up to half a bin beyond rmax
+            rcut = self.rmax + dr / 2
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From 434e5e9b32d450d6f247939fd333b3a03478c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 39/60] fix: linked cells reused with other sets, newton or
 periodicity kept the old map of cells

---
 atooms/postprocessing/linkedcells.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 34a2394..063bc79 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -139,10 +139,14 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        # Adjust the cells again if the box has changed
-        if not self._is_adjusted or numpy.any(self.box != box):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        # Adjust the cells again if the box or the kind of neighbors
+        # have changed since the last call
+        newton = other is None and newton
+        setup = (tuple(box), newton, None if periodic is None else tuple(periodic))
+        if not self._is_adjusted or self._setup != setup:
+            self.adjust(box, newton=newton, periodic=periodic)
             self._is_adjusted = True
+            self._setup = setup
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
         # the neighbours? We should keep a reference.
-- 
2.43.0


From 0bd150e2e4dc3cffe9995405dfad06c0b3e97f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 40/60] fix: linked cells without newton listed pairs in the
 same cell only once

---
 atooms/postprocessing/linkedcells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 063bc79..261bd05 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -171,8 +171,10 @@ class LinkedCells(object):
             # Initialize an empty list
             neighbors = []
             # Start with particles in the cell of particle ipart
-            if other is None:
+            if other is None and newton:
                 neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart]
+            elif other is None:
+                neighbors += [_ for _ in particle_in_cell[icell] if _ != ipart]
             else:
                 neighbors += particle_in_cell[icell]
                 # try:
-- 
2.43.0


From e7519dfd4e87ecd6c00b742e9e5d99cd483eeaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 41/60] fix: python g(r) averaged the number of particles over
 frames that are not origins

---
 atooms/postprocessing/gr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index af5a8d2..a957b0a 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -148,12 +148,13 @@ class RadialDistributionFunctionLegacy(Correlation):
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
         # N_0, N_1 = len(self._pos_0[0]), len(self._pos_1[0])
-        N_0 = numpy.average([len(x) for x in self._pos_0])
-        N_1 = numpy.average([len(x) for x in self._pos_1])
+        # Only the frames entering the average matter.
+        origins = range(0, ncfg, self.skip)
+        N_0 = numpy.average([len(self._pos_0[i]) for i in origins])
+        N_1 = numpy.average([len(self._pos_1[i]) for i in origins])
 
         gr_all = []
         _, r = numpy.histogram([], bins=self.grid)
-        origins = range(0, ncfg, self.skip)
         for i in progress(origins):
             system = self.trajectory.read(i)
             side = system.cell.side
-- 
2.43.0


From dc761c78604ca0afc7635cdd6de7a18be141a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 42/60] fix: g(r) between overlapping groups paired particles
 with themselves

---
 atooms/postprocessing/correlation.py | 4 ++++
 atooms/postprocessing/gr.py          | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 5341e9f..cd34443 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -319,6 +319,7 @@ class Correlation(object):
         self._vel_0, self._vel_1 = [], []
         self._ids_0, self._ids_1 = [], []
         self._pos_unf_0, self._pos_unf_1 = [], []
+        self._common = []
         # Unfolded trajectories can only be read once from the start
         self._unfolded = None
 
@@ -487,6 +488,9 @@ class Correlation(object):
             for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
+                # Particles belonging to both groups
+                self._common.append(len(set([id(p) for p in s0.particle]) &
+                                        set([id(p) for p in s1.particle])))
                 if 'pos' in self.phasespace:
                     self._pos_0.append(s0.dump('pos'))
                     self._pos_1.append(s1.dump('pos'))
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index a957b0a..e8991de 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -164,6 +164,9 @@ class RadialDistributionFunctionLegacy(Correlation):
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
                 gr = pairs_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
+                # Particles in both groups are not paired with themselves
+                if r[0] <= 0:
+                    gr[0] -= self._common[i]
             gr_all.append(gr)
 
         # Normalization
@@ -275,6 +278,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             # Switch between self and distinct calculation
             distinct = pos_0 is not pos_1
             remove_self_term = False
+            common = self._common[i] if distinct else 0
 
             # Store side
             system = self.trajectory.read(i)
@@ -333,6 +337,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
 
+            # Particles in both groups are not paired with themselves
+            if not remove_self_term:
+                gr[0] -= common
+
             # Damned copies in python
             gr_all.append(gr.copy())
 
-- 
2.43.0


From 4e8dc7049f48e620a99e265a2bfe470ae7e03440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 43/60] fix: g(r) crashed or counted pairs twice with linked
 cells if the cell shrinks

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index e8991de..1381a41 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -297,7 +297,9 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
-            if linkedcells:
+            # and if there are enough cells in this frame
+            neighbors = None
+            if linkedcells and int(min(system.cell.side / rcut)) > 3:
                 if not distinct:
                     neighbors, number_of_neighbors = linkedcells.compute(system.cell.side, pos_0, as_array=True, periodic=system.cell.periodic)
                 else:
@@ -327,12 +329,12 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # Compute g(r)
             if not distinct:
-                if linkedcells is None:
+                if neighbors is None:
                     compute.gr_self_c(pos_0, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_self_c('C', pos_0, neighbors, number_of_neighbors, side, dr, gr, bins)
             else:
-                if linkedcells is None:
+                if neighbors is None:
                     compute.gr_distinct_c(pos_0, pos_1, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
-- 
2.43.0


From ffe255b7fdb0dd4c3ff9356e441e8379ed1861c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 44/60] fix: S(k) and I(k) used the first cell if only
 intermediate frames differ from it

---
 atooms/postprocessing/ik.py | 2 +-
 atooms/postprocessing/sk.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index fb76cfe..0b38e30 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -46,7 +46,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         # Note: actually rho_av is not calculated because it is negligible
         rho_av = [complex(0., 0.) for k in self.kgrid]
         rho2_av = [complex(0., 0.) for k in self.kgrid]
-        cell_variable = is_cell_variable(self.trajectory)
+        cell_variable = is_cell_variable(self.trajectory, tests=-1)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 12a4aca..c1de844 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -67,7 +67,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         rho_0_av = [complex(0., 0.) for k in kgrid]
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=-1)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -192,7 +192,7 @@ class StructureFactorFast(StructureFactorLegacy):
         rho_0_av = [complex(0., 0.) for k in kgrid]
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=-1)
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-- 
2.43.0


From d9124d16bb379c858cffe2a71d68246af585d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 45/60] fix: S(k) with fluctuating cells could not be computed
 twice or with given kvectors

---
 atooms/postprocessing/fourierspace.py | 34 ++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 2c94e1e..7544233 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -179,6 +179,11 @@ class FourierSpaceCorrelation(Correlation):
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
+        # The frame whose cell defines k0 and _kvectors, the requested
+        # grid, and whether the kvectors have been provided by the user
+        self._ksample = 0
+        self._kgrid_request = None
+        self._kvectors_given = False
 
     def compute(self):
         # Setup grid once. If cell changes we'll call it again
@@ -188,19 +193,30 @@ class FourierSpaceCorrelation(Correlation):
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-        # asking to rebuild it (for a sample != 0).
+        # asking to rebuild it (for another sample).
         # This allows to copy over the kvectors and kgrid
-        if sample == 0 and self.kgrid is not None:
+        if sample == self._ksample and self.kgrid is not None:
+            return
+
+        # Kvectors provided by the user are kept, in units of the current cell
+        if self._kvectors_given:
+            self.k0 = 2*math.pi/self.trajectory[sample].cell.side
+            self._ksample = sample
             return
 
         # We subclass compute to define k grid at compute time
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
-        variables = self.short_name.split('(')[1][:-1]
-        variables = variables.split(',')
-        if len(variables) > 1:
-            self.kgrid = self.grid[variables.index('k')]
-        else:
-            self.kgrid = self.grid
+        # The grid is replaced by the actual one at the end of the
+        # calculation, so we store the requested one the first time
+        if self.kgrid is None:
+            variables = self.short_name.split('(')[1][:-1]
+            variables = variables.split(',')
+            if len(variables) > 1:
+                self._kgrid_request = self.grid[variables.index('k')]
+            else:
+                self._kgrid_request = self.grid
+        self.kgrid = self._kgrid_request
+        self._ksample = sample
 
         # Smallest kvector
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
@@ -312,6 +328,8 @@ class FourierSpaceCorrelation(Correlation):
         # Smallest kvector
         sample = 0
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
+        self._ksample = sample
+        self._kvectors_given = True
 
         # Collect kvectors and compute shift
         self._kvectors = []
-- 
2.43.0


From 152fbf0a468b93d34b57d9511d1b0803487d86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 46/60] fix: given wave-vectors with large positive components
 were out of the tables

---
 atooms/postprocessing/fourierspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 7544233..d7ca505 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -339,11 +339,11 @@ class FourierSpaceCorrelation(Correlation):
             for kvec in klist:
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
-                # Update shift
-                shift = min(shift, int(min(rounded)))
+                # Update shift, the tables are symmetric around zero
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From 3b34162a4494a66afe6e27d13689094f621ac294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 47/60] fix: with a cached trajectory and fix_cm the first
 frame was folded twice

---
 atooms/postprocessing/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index cd34443..458636e 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -355,6 +355,8 @@ class Correlation(object):
             # We unfold the positions, caching the trajectory
             if self._unfolded is None:
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                # Folding modifies the particles, which must not be cached
+                self._unfolded.cache = False
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
                     self._unfolded.add_callback(fold)
@@ -480,6 +482,8 @@ class Correlation(object):
         if 'pos' in self.phasespace and self._fix_cm:
             if self._unfolded is None:
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                # Folding modifies the particles, which must not be cached
+                self._unfolded.cache = False
                 self._unfolded.add_callback(fold)
             th = self._unfolded
 
-- 
2.43.0


From efb26b0acfe4100c50cfa912437ef19f27105822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 48/60] fix: writing in the current directory failed

---
 atooms/postprocessing/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 458636e..90b8bb5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -663,7 +663,8 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            if os.path.dirname(self._output_file):
+                mkdir(os.path.dirname(self._output_file))
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From 806e4e4ded7f74fc9e5f541345818c9ec7087db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 49/60] fix: moments of the overlap described the whole system
 in partials

---
 atooms/postprocessing/chi4t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 459073f..47bda06 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -59,6 +59,8 @@ class Chi4SelfOverlap(Correlation):
         self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
+        self.average.tag_description = self.tag_description
+        self.variance.tag_description = self.tag_description
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
             for i0 in range(off, len(self._pos_unf)-i, self.skip):
@@ -111,6 +113,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.grid, self.value = [], []
         self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
+        self.average.tag_description = self.tag_description
+        self.variance.tag_description = self.tag_description
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
             for i0 in range(off, len(self._pos_unf)-i, self.skip):
-- 
2.43.0


From 4e13a5a4634fcc8120041930fe4e082d32a82a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 50/60] fix: writing F(k,t) after compute() raised KeyError

---
 atooms/postprocessing/fkt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index ba4d1fb..99f3918 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,6 +167,9 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
+        # The relaxation times are only available after the analysis
+        if 'relaxation times tau' not in self.analysis:
+            return
         if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
@@ -370,6 +373,9 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
+        # The relaxation times are only available after the analysis
+        if 'relaxation times tau' not in self.analysis:
+            return
         if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From 4a04ad6a4daa4e4df7d4a7d8ef48c26c3f823f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 51/60] fix: computing the mean square displacement twice
 changed its time grid

---
 atooms/postprocessing/msd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index d6e404e..bfe0f65 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -50,6 +50,8 @@ class MeanSquareDisplacement(Correlation):
         # Use the no_offset parameter to disable them
         self._no_offset = no_offset
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins, fix_cm=fix_cm)
+        # The grid is redefined by compute() and read(), keep the requested one
+        self._tgrid = self.grid
 
     def _compute(self):
         # We postpone time grid definition to compute to avoid
@@ -58,6 +60,7 @@ class MeanSquareDisplacement(Correlation):
         def msd(x, y):
             return numpy.sum((x-y)**2) / float(x.shape[0])
 
+        self.grid = self._tgrid
         if self.grid is None:
             t_max = self.trajectory.total_time
             if self.rmax > 0.0:
-- 
2.43.0


From 33b7a728a29eaad24304f6abc2fb420104122e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 52/60] fix: computing after read() used the grid in the file
 instead of the requested one

---
 atooms/postprocessing/correlation.py  | 12 ++++++++++++
 atooms/postprocessing/fourierspace.py |  1 +
 2 files changed, 13 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 90b8bb5..aaed2ef 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -202,6 +202,8 @@ class Correlation(object):
         self._fix_cm = fix_cm
         self._unfolded = None
         self.grid = grid
+        # Grid read from a file and the one it replaced
+        self._grid_read, self._grid_unread = None, None
         self.value = []
         self.analysis = {}
         self.comments = None  # can be modified by user at run time
@@ -528,6 +530,7 @@ class Correlation(object):
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
+        self._unread_grid()
         self._setup_arrays()
         t[0].stop()
 
@@ -583,6 +586,8 @@ class Correlation(object):
 
     def read(self):
         """Read correlation function from existing file"""
+        self._unread_grid()
+        grid = self.grid
         with open(self._output_file, 'r') as inp:
             x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3 and len(self.grid_name) == 2:
@@ -595,6 +600,13 @@ class Correlation(object):
             else:
                 self.grid, self.value = x[0: 2]
                 _log.warn("Ignoring some columns in %s", self._output_file)
+        self._grid_read, self._grid_unread = self.grid, grid
+
+    def _unread_grid(self):
+        # The grid that was read is not the one requested to compute
+        if self._grid_read is not None and self.grid is self._grid_read:
+            self.grid = self._grid_unread
+        self._grid_read, self._grid_unread = None, None
 
     @property
     def grid_name(self):
diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index d7ca505..3b34e67 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -187,6 +187,7 @@ class FourierSpaceCorrelation(Correlation):
 
     def compute(self):
         # Setup grid once. If cell changes we'll call it again
+        self._unread_grid()
         self._setup()
         # Now compute
         super(FourierSpaceCorrelation, self).compute()
-- 
2.43.0


From 01715aaf3484fc0e329f3f5ada524431c440441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 53/60] fix: default cutoffs of bond angles wrote g(r) files

---
 atooms/postprocessing/ba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 19bfa84..e2a23b2 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,8 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    # Only the g(r) is needed, files are left alone
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From fe5f35239f9bf49d22419895b03ba8bd49349c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 54/60] fix: --fmt was ignored by the spectral density

---
 atooms/postprocessing/api.py | 7 +++++--
 atooms/postprocessing/ik.py  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index c9f4c1e..985ad72 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -144,11 +144,14 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
         # By default, the radii are read from the input file itself
-        radius = th.filename if trajectory_radius is None else trajectory_radius
+        if trajectory_radius is None:
+            radius, fmt = th.filename, global_args['fmt']
+        else:
+            radius, fmt = trajectory_radius, None
         pp.SpectralDensity(th, radius,
                            kgrid=kgrid, norigins=global_args['norigins'],
                            kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                           ksamples=ksamples).do(update=global_args['update'])
+                           ksamples=ksamples, fmt=fmt).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 0b38e30..a03d78b 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -30,12 +30,12 @@ class SpectralDensity(FourierSpaceCorrelation):
 
     def __init__(self, trajectory, trajectory_radius, kgrid=None,
                  norigins=-1, nk=20, dk=0.1, kmin=-1.0, kmax=15.0,
-                 ksamples=30):
+                 ksamples=30, fmt=None):
         FourierSpaceCorrelation.__init__(self, trajectory, kgrid, norigins, nk,
                                          dk, kmin, kmax, ksamples)
         self._is_cell_variable = None
         # Pick up the radii at the steps of the trajectory, which may be a slice
-        with Trajectory(trajectory_radius) as th:
+        with Trajectory(trajectory_radius, fmt=fmt) as th:
             self._radius = [th[th.steps.index(step)].dump('particle.radius')
                             for step in self.trajectory.steps]
 
-- 
2.43.0


From 253796672882356076cb5fc9a8b69aabe0f5e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 55/60] fix: python g(r) averaged the number of particles over
 frames without particles

---
 atooms/postprocessing/gr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 1381a41..0926d27 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -148,8 +148,10 @@ class RadialDistributionFunctionLegacy(Correlation):
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
         # N_0, N_1 = len(self._pos_0[0]), len(self._pos_1[0])
-        # Only the frames entering the average matter.
-        origins = range(0, ncfg, self.skip)
+        # Only the frames entering the average matter. Skip those
+        # without particles.
+        origins = [i for i in range(0, ncfg, self.skip)
+                   if len(self._pos_0[i]) > 0 and len(self._pos_1[i]) > 0]
         N_0 = numpy.average([len(self._pos_0[i]) for i in origins])
         N_1 = numpy.average([len(self._pos_1[i]) for i in origins])
 
@@ -158,8 +160,6 @@ class RadialDistributionFunctionLegacy(Correlation):
         for i in progress(origins):
             system = self.trajectory.read(i)
             side = system.cell.side
-            if len(self._pos_0[i]) == 0 or len(self._pos_1[i]) == 0:
-                continue
             if self._pos_0 is self._pos_1:
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
-- 
2.43.0


From 76de3e20ca4584dc6334fd565e1aba573e0ce6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 56/60] fix: all time differences within a block are available
 to the time grid

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index c56ab0e..bc5a945 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -222,7 +222,7 @@ def setup_t_grid(trajectory, t_grid, offset=True):
     else:
         offset_range = [0]
     for off in offset_range:
-        for i in range(off, len(steps)-off):
+        for i in range(off, len(steps)):
             if steps[i] - steps[off] not in off_samp:
                 off_samp[steps[i] - steps[off]] = (off, i-off)
 
-- 
2.43.0


From ef9d0e5154b872fac40bdfe600aab43b9b1a9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 57/60] fix: the wave-number grid was not sorted if the
 smallest one exceeds other requested values

---
 atooms/postprocessing/fourierspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 3b34e67..2ae8ff1 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -236,6 +236,7 @@ class FourierSpaceCorrelation(Correlation):
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
+                self.kgrid.sort()
 
         # Setup the grid of wave-vectors
         self._kvectors, self._koffset = self._setup_grid_sphere(len(self.kgrid) * [self.dk],
-- 
2.43.0


From 3d3ded1282aa141330f88073b611fdec173cf987 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 58/60] fix: g(r) in one and four dimensions: shell volume and
 linked cells

---
 atooms/postprocessing/gr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 0926d27..b0ec80c 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -177,7 +177,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = float(ndims) / 2
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -247,7 +247,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # TODO: if memory footprint is surpassed skip particles
         # TODO: fix fluctating cell case!
         linkedcells = None
-        if self.rmax > 0.0 and system.cell is not None:
+        if self.rmax > 0.0 and system.cell is not None and ndims in (2, 3):
             n_0 = len(self._pos_0[0])
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
@@ -366,7 +366,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = float(ndims) / 2
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From 72c7d65c46b9d90e2cd60eedbf42f2dedacdf7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 59/60] fix: subtracting the mean of integer weights raised
 UFuncTypeError

---
 atooms/postprocessing/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index aaed2ef..7933ce3 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -104,8 +104,8 @@ def _subtract_mean(weight):
     for current_field in weight:
         mean += current_field.mean()
     mean /= len(weight)
-    for current_field in weight:
-        current_field -= mean
+    for i in range(len(weight)):
+        weight[i] = weight[i] - mean
     return weight
 
 
-- 
2.43.0


From 3aec903a758dea5254a720b72507376c474dcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 60/60] fix: filters were ignored by the api ik command and
 broke the spectral density

---
 atooms/postprocessing/api.py |  8 ++++----
 atooms/postprocessing/ik.py  | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 985ad72..d7e3323 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -148,10 +148,10 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
             radius, fmt = th.filename, global_args['fmt']
         else:
             radius, fmt = trajectory_radius, None
-        pp.SpectralDensity(th, radius,
-                           kgrid=kgrid, norigins=global_args['norigins'],
-                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                           ksamples=ksamples, fmt=fmt).do(update=global_args['update'])
+        _filter(pp.SpectralDensity(th, radius,
+                                   kgrid=kgrid, norigins=global_args['norigins'],
+                                   kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                                   ksamples=ksamples, fmt=fmt), global_args).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index a03d78b..40bfc57 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -39,6 +39,17 @@ class SpectralDensity(FourierSpaceCorrelation):
             self._radius = [th[th.steps.index(step)].dump('particle.radius')
                             for step in self.trajectory.steps]
 
+    def _setup_arrays(self):
+        FourierSpaceCorrelation._setup_arrays(self)
+        # Keep the radii of the particles which match the filter, if there is one
+        self._radius_match = self._radius
+        if len(self._cbk) > 0:
+            self._radius_match = []
+            for s, radius in zip(self.trajectory, self._radius):
+                index = {id(p): i for i, p in enumerate(s.particle)}
+                s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
+                self._radius_match.append(radius[[index[id(p)] for p in s.particle]])
+
     def _compute(self):
         nsteps = len(self._pos)
         # Setup k vectors and tabulate rho
@@ -56,7 +67,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
                     knorm = _k_norm(kvec, self.k0, self._koffset)
-                    Ri = self._radius[i]
+                    Ri = self._radius_match[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
                     rho = numpy.sum(mk *
-- 
2.43.0

