From 8fe4593c582494876b5b7c8e1ad7d3da4f2253b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 01/39] fix: calcDensProfsEllDirectBinning no longer overwrites
 the index catalogue

Every entry of an object's index list was replaced by one (wrong) particle index, so the ellipsoidal
profiles of all objects were those of a single repeated particle.
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From fb6c423bd4a73b3bfd52662aae6fccd83df91032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 02/39] fix: zero components of converged principal axes are no
 longer reported as NaN

---
 .../shape_profs/shape_profs_algos.pyx         | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..b60b408 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -617,11 +617,12 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)),(1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)),(1,2,0))
     d.base[d.base==0.0] = np.nan
-    s.base[s.base==0.0] = np.nan
-    q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    s.base[unconv] = np.nan
+    q.base[unconv] = np.nan
+    minor[unconv] = np.nan
+    inter[unconv] = np.nan
+    major[unconv] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -725,11 +726,12 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
     d.base[d.base==0.0] = np.nan
-    s.base[s.base==0.0] = np.nan
-    q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    s.base[unconv] = np.nan
+    q.base[unconv] = np.nan
+    minor[unconv] = np.nan
+    inter[unconv] = np.nan
+    major[unconv] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -845,11 +847,12 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)), (1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)), (1,2,0))
     d.base[d.base==0.0] = np.nan
-    s.base[s.base==0.0] = np.nan
-    q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    s.base[unconv] = np.nan
+    q.base[unconv] = np.nan
+    minor[unconv] = np.nan
+    inter[unconv] = np.nan
+    major[unconv] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -961,11 +964,12 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
     d.base[d.base==0.0] = np.nan
-    s.base[s.base==0.0] = np.nan
-    q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    s.base[unconv] = np.nan
+    q.base[unconv] = np.nan
+    minor[unconv] = np.nan
+    inter[unconv] = np.nan
+    major[unconv] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From 6ee4c2fa9a373d1ccef0ad1fe5a282c01430ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 03/39] fix: getShapeCatVelGlobal passes the arguments its base
 method takes

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 1540e2e7c1257a77a5dfb18d95549769199ee8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 04/39] fix: calcMorphLocalVelDisp fills the particle
 velocities it works on

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index b60b408..095562f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -823,6 +823,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From 523d1cb336221b82f98c188264211753669e5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 05/39] fix: unwrap objects around the periodic boundary by
 translation relative to one of their particles

---
 cosmic_profiles/common/python_routines.py     |  4 +--
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 28 +++++++++++--------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..cedb0ed 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -511,9 +511,7 @@ def respectPBCNoRef(xyz, L_BOX = None):
     :rtype: (N^3x3) floats"""
     if L_BOX != 0.0:
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
-        rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
-        choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        ref_xyz = xyz[0] # Any particle will do, but not an average over particles: it is meaningless if the boundary cuts the object
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..ac6826b 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..c502d4d 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,12 +166,12 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2, translate those particles accordingly.
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
@@ -183,19 +183,25 @@ cdef class CythonHelpers:
         if L_BOX == 0.0:
             return xyz
         cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef double dist_x
+        cdef double dist_y
+        cdef double dist_z
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
+            dist_x = xyz[i,0]-xyz[ref,0]
             if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,0] = xyz[i,0]-L_BOX
+            elif dist_x < -L_BOX/2:
+                xyz[i,0] = xyz[i,0]+L_BOX
+            dist_y = xyz[i,1]-xyz[ref,1]
             if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,1] = xyz[i,1]-L_BOX
+            elif dist_y < -L_BOX/2:
+                xyz[i,1] = xyz[i,1]+L_BOX
+            dist_z = xyz[i,2]-xyz[ref,2]
             if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+                xyz[i,2] = xyz[i,2]-L_BOX
+            elif dist_z < -L_BOX/2:
+                xyz[i,2] = xyz[i,2]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
-- 
2.43.0


From 3d64d91f6c3f90fa6a8bef3d82d2aa9846cc3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 06/39] fix: MassInternalToOut and MassInToInternal use the
 name of the internal mass unit

---
 cosmic_profiles/common/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..16658cb 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -160,13 +160,13 @@ def LengthInternalToOut(length_arr):
     return length_arr*int_to_out
     
 def MassInternalToOut(mass_arr):
-    """ Rescale mass_arr from internal mass units (E+10M_sun/h) to out mass units
+    """ Rescale mass_arr from internal mass units (E+10Msun/h) to out mass units
     
     :param mass_arr: mass array in internal units
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -190,13 +190,13 @@ def LengthInToInternal(length_arr):
     return length_arr*in_to_int
     
 def MassInToInternal(mass_arr):
-    """ Rescale mass_arr from in mass units to internal mass units (E+10M_sun/h) 
+    """ Rescale mass_arr from in mass units to internal mass units (E+10Msun/h) 
     
     :param mass_arr: mass array in in units
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From 2574cb7d23c1ae6190bfcb5ab7197fae98f8b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/39] fix: test for missing convergence on q, which is 0
 exactly if there is no result

---
 .../shape_profs/shape_profs_algos.pyx            | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 095562f..f70d900 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -616,8 +616,8 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     minor = np.transpose(np.stack((minor_x.base,minor_y.base,minor_z.base)),(1,2,0))
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)),(1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)),(1,2,0))
-    d.base[d.base==0.0] = np.nan
-    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    unconv = q.base==0.0 # Not to be tested component by component: a component of a converged principal axis can be 0.0, too
+    d.base[unconv] = np.nan
     s.base[unconv] = np.nan
     q.base[unconv] = np.nan
     minor[unconv] = np.nan
@@ -725,8 +725,8 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     minor = np.hstack((np.reshape(minor_x.base, (minor_x.base.shape[0],1)), np.reshape(minor_y.base, (minor_y.base.shape[0],1)), np.reshape(minor_z.base, (minor_z.base.shape[0],1))))
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
-    d.base[d.base==0.0] = np.nan
-    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    unconv = q.base==0.0 # Not to be tested component by component: a component of a converged principal axis can be 0.0, too
+    d.base[unconv] = np.nan
     s.base[unconv] = np.nan
     q.base[unconv] = np.nan
     minor[unconv] = np.nan
@@ -849,8 +849,8 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     minor = np.transpose(np.stack((minor_x.base,minor_y.base,minor_z.base)), (1,2,0))
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)), (1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)), (1,2,0))
-    d.base[d.base==0.0] = np.nan
-    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    unconv = q.base==0.0 # Not to be tested component by component: a component of a converged principal axis can be 0.0, too
+    d.base[unconv] = np.nan
     s.base[unconv] = np.nan
     q.base[unconv] = np.nan
     minor[unconv] = np.nan
@@ -966,8 +966,8 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     minor = np.hstack((np.reshape(minor_x.base, (minor_x.base.shape[0],1)), np.reshape(minor_y.base, (minor_y.base.shape[0],1)), np.reshape(minor_z.base, (minor_z.base.shape[0],1))))
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
-    d.base[d.base==0.0] = np.nan
-    unconv = np.isnan(d.base) # A component of a converged principal axis can be 0.0, too
+    unconv = q.base==0.0 # Not to be tested component by component: a component of a converged principal axis can be 0.0, too
+    d.base[unconv] = np.nan
     s.base[unconv] = np.nan
     q.base[unconv] = np.nan
     minor[unconv] = np.nan
-- 
2.43.0


From 04bb7a12080d1c75a034a440cff8ad71c07a8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 08/39] fix: np_cache keeps the dtype of array arguments and
 tells arguments of different type apart

---
 cosmic_profiles/common/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..f08c2c5 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -269,13 +269,13 @@ def np_cache_factory(nb_arrs, nb_lists):
     def np_cache(function):
         
         GB = 1024**3 # in bytes
-        @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
+        @lru_cache(maxsize = config.CACHE_MAXSIZE, typed = True, use_memory_up_to=(config.GBs * GB))
         def cached_wrapper(*args_cached, dims):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dims[arr_nb][1]).reshape(dims[arr_nb][0])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -287,7 +287,7 @@ def np_cache_factory(nb_arrs, nb_lists):
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                dims.append(args_l[arr_nb].shape)
+                dims.append((args_l[arr_nb].shape, args_l[arr_nb].dtype))
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
-- 
2.43.0


From 06455ae3816b6c51b3136be37b6948b58208ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 09/39] fix: np_cache hands out copies so that callers cannot
 change cached results

---
 cosmic_profiles/common/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index f08c2c5..a59d344 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import psutil
+from copy import deepcopy
 from functools import RLock, update_wrapper, namedtuple, wraps
 import cosmic_profiles.common.config as config
 import numpy as np
@@ -293,7 +294,7 @@ def np_cache_factory(nb_arrs, nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return deepcopy(cached_wrapper(*args_l, dims=dims)) # The caller may modify what it gets
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From e4c1a4fe54f757e3c754c9d6cd55db0437661b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 10/39] fix: group radii cached under other input units are not
 used

---
 cosmic_profiles/gadget/read_fof.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..40b0e32 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +132,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    # Conversion factor is an argument so that results cached under other units are not used
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
-- 
2.43.0


From bad341f8a43e332310fe6492572e4490ec83a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 11/39] fix: every object enters the mass-split density profile
 plot of its mass bin

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..e8500d0 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,9 +131,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
-        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
+        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(len(obj_m_groups[0])))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
         prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
         model_name = {'einasto': 'Einasto', 'alpha_beta_gamma': r'\alpha \beta \gamma', 'nfw': 'NFW', 'hernquist': 'Hernquist'}
@@ -186,7 +186,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            # The bin edges are masses of objects, so rely on the indices to have every object in exactly one bin
+            obj_pass_m = np.zeros((r200s.shape[0],), dtype = np.int32)
+            obj_pass_m[idx_groups[group]] = 1
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From 32ae72ed75efa22b0c2c546171af8e33215de9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 12/39] fix: M_split of zero objects accepts a vectorial
 quantity

---
 cosmic_profiles/common/cosmo_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index c7e9524..8d25e5b 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -250,7 +250,7 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
         chunk_size = len(m)//NB_BINS + 1
     if chunk_size == 0:
         idx_groups = []
-        if v == None:
+        if v is None:
             return max_min_m, m_groups, gx_center_groups, idx_groups
         return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups 
     m_groups = list(getBlocks(list(m_ordered), chunk_size)) # List of lists
@@ -265,6 +265,6 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
         
     idx_groups = [[args_sort[i] for i in np.arange(int(np.array([len(m_groups[k]) for k in range(j)]).sum()), int(np.array([len(m_groups[k]) for k in range(j)]).sum())+len(m_groups[j]))] for j in range(len(m_groups))]
     if v_groups == []:
-        assert v == None
+        assert v is None
         return max_min_m, m_groups, gx_center_groups, idx_groups
     return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups
\ No newline at end of file
-- 
2.43.0


From 5b2ae21a0d05c94784b106c969599d123e41f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 13/39] fix: plotLocalEpsHist no longer fails for every input

---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index cedb0ed..6998738 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -591,15 +591,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From ed37402bb7bd7b463bbef1b732f270f7bfcd9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 14/39] fix: bootstrap errors do not fail on empty bins

---
 cosmic_profiles/common/cosmo_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index 8d25e5b..17f42f3 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -190,6 +190,9 @@ def getMeanOrMedianAndError(y, ERROR_METHOD, N_REAL=10):
         err_high = np.empty(len(y), dtype = np.float64)
         for random_state in range(N_REAL):
             for d_bin in range(len(y)):
+                if len(y[d_bin]) == 0: # Nothing to resample
+                    mean_l[d_bin].append(np.nan)
+                    continue
                 boot = resample(y[d_bin], replace=True, n_samples=len(y[d_bin]), random_state=random_state)
                 mean_l[d_bin].append(np.average(boot))
         for d_bin in range(len(y)):
-- 
2.43.0


From 625712aff1797085a07c3c4a09b3d476ca9ea59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 15/39] fix: mass-split shape profiles honour ERROR_METHOD

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 37fc824..e7216b5 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -99,7 +99,7 @@ def getShapeMs(d, idx_groups, group, param_interest, ERROR_METHOD, r_over_r200,
                 continue
             else:
                 y[closest_idx].append(param_interest[obj][rad])
-    mean, err_low, err_high = getMeanOrMedianAndError(y, "median_quantile")
+    mean, err_low, err_high = getMeanOrMedianAndError(y, ERROR_METHOD)
     return mean, err_low, err_high
 
 def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj_centers, d, q, s, major_full, nb_bins, MASS_UNIT=1e10, suffix = '_'):
-- 
2.43.0


From b197c2bf5ea4ffdeb368a14498591d6dddf02706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 16/39] fix: triaxiality histograms keep objects with T = 0

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index e7216b5..a5606cd 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -275,14 +275,12 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
             t[obj] = (1-q[obj,idx[obj]]**2)/(1-s[obj,idx[obj]]**2) # Triaxiality
-        t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
         
         # T counting
         plt.figure()
-        t[t == 0.] = np.nan
         n, bins, patches = plt.hist(x=t, bins = np.linspace(0, 1, HIST_NB_BINS), alpha=0.7, density=True)
         plt.axvline(1/3, label="oblate-triaxial transition", color = "g")
         plt.axvline(2/3, label="triaxial-prolate transition", color = "r")
@@ -330,14 +328,12 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
             t[obj] = (1-q[obj,idx[obj]]**2)/(1-s[obj,idx[obj]]**2) # Triaxiality
-        t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
         
         # T counting
         plt.figure()
-        t[t == 0.] = np.nan
         n, bins, patches = plt.hist(x=t, bins = np.linspace(0, 1, HIST_NB_BINS), alpha=0.7, density=True)
         plt.axvline(1/3, label="oblate-triaxial transition", color = "g")
         plt.axvline(2/3, label="triaxial-prolate transition", color = "r")
-- 
2.43.0


From d271d998f4b3d47b19f92865ee749904d00fff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 17/39] fix: one object without a density estimate does not
 void the averaged profile

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index e8500d0..c5d65e0 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -141,7 +141,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         # Average over all objects' density profiles
         if r200s.shape[0] == 0:
             dens_profs = np.zeros((0,ROverR200.shape[0]), dtype = np.float32)
-        y = [list(dens_profs[:,i]) for i in range(ROverR200.shape[0])]
+        y = [list(prof[~np.isnan(prof)]) for prof in dens_profs.T] # NaN: no estimate for this object
         prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
         err_low = np.array([np.quantile(np.array(z), 0.25)/(np.sqrt(len(z))) if z != [] else np.nan for z in y])
         err_high = np.array([np.quantile(np.array(z), 0.75)/(np.sqrt(len(z))) if z != [] else np.nan for z in y])
@@ -149,7 +149,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         # Prepare median for fitting
         if r200s.shape[0] == 0:
             dens_profs_fit = np.zeros((0,ROverR200_fit.shape[0]), dtype = np.float32)
-        y = [list(dens_profs_fit[:,i]) for i in range(ROverR200_fit.shape[0])]
+        y = [list(prof[~np.isnan(prof)]) for prof in dens_profs_fit.T]
         prof_median_fit = np.array([np.median(z) if z != [] else np.nan for z in y])
         best_fit, obj_nb = fitDensProf(ROverR200_fit, method, (prof_median_fit, r200, 0)) # Fit median
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
@@ -190,13 +190,13 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
             obj_pass_m = np.zeros((r200s.shape[0],), dtype = np.int32)
             obj_pass_m[idx_groups[group]] = 1
             # Find profile median
-            y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
+            y = [list(prof[~np.isnan(prof)]) for prof in dens_profs[np.nonzero(obj_pass_m > 0)[0]].T]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
             err_low = np.array([np.quantile(np.array(z), 0.25)/(np.sqrt(len(z))) if z != [] else np.nan for z in y])
             err_high = np.array([np.quantile(np.array(z), 0.75)/(np.sqrt(len(z))) if z != [] else np.nan for z in y])
             r200_m = np.average(r200s[np.arange(r200s.shape[0])[obj_pass_m.nonzero()[0]]])
             # Prepare median for fitting
-            y = [list(dens_profs_fit[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200_fit.shape[0])]
+            y = [list(prof[~np.isnan(prof)]) for prof in dens_profs_fit[np.nonzero(obj_pass_m > 0)[0]].T]
             prof_median_fit = np.array([np.median(z) if z != [] else np.nan for z in y])
             best_fit_m, obj_nb = fitDensProf(ROverR200_fit, method, (prof_median_fit, r200_m, 0))
             best_fit_m_dict = getModelParsDict(best_fit_m, method['profile'])
-- 
2.43.0


From 87d5735ede0831668ee6523aaa9322f6fd906d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 18/39] fix: DensShapeProfsGadget can be constructed with
 several MPI processes

---
 .../shape_profs/shape_profs_classes.pyx            | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..ac6d36a 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -575,17 +575,9 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         # Raise Error message if empty
         if len(nb_shs) == 0:
             raise ValueError("No subhalos found in HDF5 files.")
-        if rank == 0:
-            # Construct catalogue
-            obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, np.int32(MIN_NUMBER_PTCS))
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
-        else:
-            del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+        # Construct catalogue (on every rank: all of them set up the analysis object below)
+        obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, np.int32(MIN_NUMBER_PTCS))
+        del nb_shs; del sh_len; del fof_sizes; del group_r200
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From f53d5fda192b442ca5ffd89ea58a509d0865a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 19/39] fix: conversion helpers use the unit ratio in double
 precision

---
 cosmic_profiles/common/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 16658cb..8c3afaa 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -156,7 +156,7 @@ def LengthInternalToOut(length_arr):
     :type length_arr: floats"""
     global OutUnitLength_in_cm
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(length_in_cm_d['Mpc/h']/OutUnitLength_in_cm)
+    int_to_out = length_in_cm_d['Mpc/h']/OutUnitLength_in_cm
     return length_arr*int_to_out
     
 def MassInternalToOut(mass_arr):
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
+    int_to_out = mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -176,7 +176,7 @@ def VelInternalToOut(vel_arr):
     :type vel_arr: floats"""
     global OutUnitVelocity_in_cm_per_s
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(velocity_in_cm_per_s_d['km/s']/OutUnitVelocity_in_cm_per_s)
+    int_to_out = velocity_in_cm_per_s_d['km/s']/OutUnitVelocity_in_cm_per_s
     return vel_arr*int_to_out
 
 def LengthInToInternal(length_arr):
@@ -186,7 +186,7 @@ def LengthInToInternal(length_arr):
     :type length_arr: floats"""
     global InUnitLength_in_cm
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitLength_in_cm/length_in_cm_d['Mpc/h'])
+    in_to_int = InUnitLength_in_cm/length_in_cm_d['Mpc/h']
     return length_arr*in_to_int
     
 def MassInToInternal(mass_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
+    in_to_int = InUnitMass_in_g/mass_in_g_d['E+10Msun/h']
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
@@ -206,7 +206,7 @@ def VelInToInternal(vel_arr):
     :type vel_arr: floats"""
     global InUnitVelocity_in_cm_per_s
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitVelocity_in_cm_per_s/velocity_in_cm_per_s_d['km/s'])
+    in_to_int = InUnitVelocity_in_cm_per_s/velocity_in_cm_per_s_d['km/s']
     return vel_arr*in_to_int
     
 def LMVLabel():
-- 
2.43.0


From c5d9ca7c3b821ab8a92c22c4b026aee3181c3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 20/39] fix: parameters fixed by the user, rho_s included, stay
 fixed in density profile fits

---
 .../dens_profs/dens_profs_tools.py            | 39 ++++++++++++++++---
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index c5d65e0..ea8d01a 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -231,6 +231,30 @@ def toMinimize(model_pars_arr, median, rbin_centers, profile):
     psi_2 = np.sum(np.array([(np.log(median[i])-np.log(prof_models[profile](rbin, getModelParsDict(model_pars_arr, profile))))**2/rbin_centers.shape[0] for i, rbin in enumerate(rbin_centers)]))
     return psi_2
 
+def minimizeFreePars(iguess, bounds, args, min_method):
+    """ Minimize ``toMinimize()`` over those parameters that are not kept fixed
+    
+    :param iguess: initial guess for all parameters of the model
+    :type iguess: (n,) floats
+    :param bounds: lower and upper bound for each parameter, identical if the parameter is kept fixed
+    :type bounds: list of n tuples
+    :param args: further arguments of ``toMinimize()``, i.e. rescaled profile, radii and profile model
+    :type args: tuple
+    :param min_method: minimization method
+    :type min_method: str
+    :return: best-fit parameters, including those kept fixed
+    :rtype: (n,) floats"""
+    best_fit = np.array([bound[0] if bound[0] == bound[1] else iguess[i] for i, bound in enumerate(bounds)])
+    free = [i for i, bound in enumerate(bounds) if bound[0] != bound[1]]
+    if len(free) > 0:
+        def toMinimizeFree(free_pars_arr, *args):
+            model_pars_arr = best_fit.copy()
+            model_pars_arr[free] = free_pars_arr
+            return toMinimize(model_pars_arr, *args)
+        res = optimize.minimize(toMinimizeFree, best_fit[free], method = min_method, args = args, bounds = [bounds[i] for i in free])
+        best_fit[free] = res.x
+    return best_fit
+
 def fitDensProf(ROverR200, method, median_r200_obj_nb):
     """
     Fit density profile according to model provided
@@ -263,6 +287,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     # Discard nan values in median
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
+    if 'rho_s' in method:
+        rho_s_lbound = method['rho_s']/np.average(median) # Since the rescaled median is fit
+        rho_s_rbound = rho_s_lbound
+    else:
+        rho_s_lbound = 1e-7
+        rho_s_rbound = np.inf
     # Set initial guess and minimize scalar function
     try:
         if method['profile'] == 'einasto':
@@ -279,8 +309,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(iguess, [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)], (median/np.average(median), R_to_min, method['profile']), min_method) # Only hand over rescaled median!
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -307,8 +336,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(iguess, [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)], (median/np.average(median), R_to_min, method['profile']), min_method) # Only hand over rescaled median!
         else:
             if 'r_s' in method:
                 r_s_lbound = method['r_s']
@@ -317,8 +345,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(iguess, [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)], (median/np.average(median), R_to_min, method['profile']), min_method) # Only hand over rescaled median!
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
-- 
2.43.0


From 392066c83c3efd3c98f3172bbce0faffb0bc164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 21/39] fix: no best fit and concentration for objects without
 any density estimate

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index ea8d01a..488ec02 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -287,6 +287,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     # Discard nan values in median
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
+    if len(median) == 0: # There is nothing to fit
+        return np.full(({'einasto': 3, 'alpha_beta_gamma': 5}.get(method['profile'], 2),), np.nan), obj_nb
     if 'rho_s' in method:
         rho_s_lbound = method['rho_s']/np.average(median) # Since the rescaled median is fit
         rho_s_rbound = rho_s_lbound
-- 
2.43.0


From 75832243b2ff9f5d0cbbbe0654425d2276234b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 22/39] fix: rho_s and r_s kept fixed in fits are given in
 outgoing units like the results

---
 cosmic_profiles/common/cosmic_base_class.pyx | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..2d30caf 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -998,6 +998,23 @@ cdef class CosmicBase:
         else:
             return None
         
+    def _fixedParsToInternal(self, dict method):
+        """ Express dimensionful parameters to be kept fixed during fitting in internal units
+        
+        :param method: describes density profile model assumed for fitting, with parameters to be kept fixed in outgoing units
+        :type method: dictionary
+        :return: copy of ``method`` with ``rho_s`` and ``r_s`` (if available) in M_sun*h^2/(Mpc)**3 and Mpc/h
+        :rtype: dictionary"""
+        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_curr_over_target = config.OutUnitLength_in_cm/l_internal
+        m_curr_over_target = config.OutUnitMass_in_g/(m_internal/self.MASS_UNIT)
+        method = dict(method)
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
+        return method
+        
     def _fitDensProfsBase(self, double[:] r200, int[:] obj_size, double[:,:] dens_profs, double[:] r_over_r200, dict method, obj_numbers):
         """ Get best-fit results for density profile fitting
         
@@ -1029,7 +1046,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            best_fits = self._getDensProfsBestFitsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], method)
+            best_fits = self._getDensProfsBestFitsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], self._fixedParsToInternal(method))
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_target/config.OutUnitMass_in_g
             best_fits[:,0] = best_fits[:,0]*m_curr_over_target*l_curr_over_target**(-3)
@@ -1075,7 +1092,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            cs = self._getConcentrationsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], method)
+            cs = self._getConcentrationsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], self._fixedParsToInternal(method))
             return cs
         else:
             return None
@@ -1122,7 +1139,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, method, nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix)
+            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, self._fixedParsToInternal(method), nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix)
             del obj_centers; del obj_masses; del r_over_r200_fit; del dens_profs; del r_over_r200
         else:
             del obj_centers; del obj_masses
-- 
2.43.0


From bf4bba4cf51f29af0c41ed5e271000b2ff039104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 23/39] fix: fibonacci_sphere and fibonacci_ellipsoid no longer
 divide by zero for one sample (the default)

---
 cosmic_profiles/common/python_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 6998738..86eb3db 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -272,7 +272,7 @@ def fibonacci_sphere(samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -326,7 +326,7 @@ def fibonacci_ellipsoid(a, b, c, samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
-- 
2.43.0


From 50b33753d051a34445290e96aa1406f529b05071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 24/39] fix: drawing from ellipses and elliptical shells works
 with c = None, as documented

---
 cosmic_profiles/common/python_routines.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 86eb3db..e75c9f6 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -366,7 +366,7 @@ def drawUniformFromEllipsoid(dims, a, b, c, Nptc, ell_nb):
     # Part 1: Generating uniform random vectors inside the 3-ball
     a_val = a[ell_nb]
     b_val = b[ell_nb]
-    c_val = c[ell_nb]
+    c_val = None if c is None else c[ell_nb] # c is None for ellipses (dims = 2)
     N_reals = Nptc[ell_nb]
     X_tmp = np.zeros((N_reals, dims))
     Z = np.zeros((N_reals, dims))
@@ -377,7 +377,7 @@ def drawUniformFromEllipsoid(dims, a, b, c, Nptc, ell_nb):
         Z[i] = R*X_tmp[i]/np.linalg.norm(X_tmp[i])
     
     # Part 2: lower Cholesky decomposition
-    if c_val == None:
+    if c_val is None:
         Sigma = np.array([[1/a_val**2, 0],[0,1/b_val**2]])
     else:
         Sigma = np.array([[1/a_val**2, 0,0],[0,1/b_val**2,0],[0,0,1/c_val**2]])
@@ -448,11 +448,12 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
     x = np.arange(a.shape[0]+1)/(a.shape[0])
     a_inter = interp1d(x, np.hstack((0.0, a)))
     b_inter = interp1d(x, np.hstack((0.0, b)))
-    c_inter = interp1d(x, np.hstack((0.0, c)))
+    if c is not None:
+        c_inter = interp1d(x, np.hstack((0.0, c)))
 
     # Part 1: Generating uniform random vectors inside the 3-ball
     a_val = a[shell_nb]
-    c_val = c[shell_nb]
+    c_val = None if c is None else c[shell_nb] # c is None for elliptical shells (dims = 2)
     N_reals = Nptc[shell_nb]
     X_tmp = np.zeros((N_reals, dims))
     Z = np.zeros((N_reals, dims))
@@ -463,7 +464,7 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
         Z[i] = R*X_tmp[i]/np.linalg.norm(X_tmp[i])
     
     # Part 2: Lower Cholesky decomposition
-    if c_val == None:
+    if c_val is None:
         Sigma = np.array([[1/a_val**2, 0],[0,1/a_val**2]])
     else:
         Sigma = np.array([[1/a_val**2, 0,0],[0,1/a_val**2,0],[0,0,1/a_val**2]])
@@ -477,7 +478,9 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
         
     # Part 4: Move particles from Ball into Ellipsoidal Shell
     def transformCartToSpher(xyz):
-        ptsnew = np.zeros(xyz.shape)
+        ptsnew = np.zeros((xyz.shape[0], 3))
+        if dims == 2: # Points in the xy-plane, elevation angle is pi/2
+            xyz = np.hstack((xyz, np.zeros((xyz.shape[0], 1))))
         xy = xyz[:,0]**2 + xyz[:,1]**2
         ptsnew[:,0] = np.sqrt(xy + xyz[:,2]**2)
         ptsnew[:,1] = np.arctan2(np.sqrt(xy), xyz[:,2]) # For elevation angle defined from Z-axis down
@@ -488,9 +491,11 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
     rand = np.random.uniform(x[shell_nb], x[shell_nb+1], size = X.shape[0])
     a_target = a_inter(rand)
     b_target = b_inter(rand)
-    c_target = c_inter(rand)
     x_new = np.sin(X_sph[:,1])*np.cos(X_sph[:,2])*a_target
     y_new = np.sin(X_sph[:,1])*np.sin(X_sph[:,2])*b_target
+    if c_val is None:
+        return np.hstack((np.reshape(x_new, (x_new.shape[0],1)), np.reshape(y_new, (y_new.shape[0],1))))
+    c_target = c_inter(rand)
     z_new = np.cos(X_sph[:,1])*c_target
     Y = np.hstack((np.reshape(x_new, (x_new.shape[0],1)), np.reshape(y_new, (y_new.shape[0],1)), np.reshape(z_new, (z_new.shape[0],1))))
     # All ptcs pt in Y fulfill inShell(Y[pt], a, b, c, shell_nb) == True.
-- 
2.43.0


From 08861ff3f2cdc5f23b233f8649e84feda643d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 25/39] fix: a dumped shape catalogue is reloaded only for the
 objects, settings and units it was dumped for

---
 cosmic_profiles/common/cosmic_base_class.pyx | 64 ++++++++++++++++++--
 1 file changed, 60 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 2d30caf..86d7a23 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -80,6 +80,50 @@ cdef class CosmicBase:
         centers, m = calcMassesCenters(xyz.base, masses.base, idx_cat.base, obj_size.base, self.L_BOX, self.CENTER)
         return centers, m
     
+    def _getShapeCatSettings(self, r200, idx_cat, obj_size, r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based):
+        """ Summarize everything a shape catalogue depends on
+        
+        :param r200: each entry gives the R_200 radius of the parent halo in Mpc/h (internal length units)
+        :type r200: (N1,) floats
+        :param idx_cat: contains indices of particles belonging to an object
+        :type idx_cat: (N3) integers
+        :param obj_size: indicates how many particles are in each object
+        :type obj_size: (N1,) integers
+        :param r_over_r200: radii at which shapes are calculated
+        :type r_over_r200: (r_res,) floats
+        :param IT_TOL: convergence tolerance
+        :type IT_TOL: float
+        :param IT_WALL: maximum permissible number of iterations
+        :type IT_WALL: int
+        :param IT_MIN: minimum number of particles in any iteration
+        :type IT_MIN: int
+        :param reduced: whether or not reduced shape tensor (1/r^2 factor)
+        :type reduced: boolean
+        :param shell_based: whether shell-based or ellipsoid-based algorithm should be run
+        :type shell_based: boolean
+        :return: output units, settings and fingerprint of the selected objects
+        :rtype: (N,) floats"""
+        idx_ends = np.cumsum(obj_size)
+        idx_sums = np.hstack((0, np.cumsum(idx_cat, dtype = np.int64)))
+        idx_sums = idx_sums[idx_ends] - idx_sums[idx_ends - obj_size]
+        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        return np.hstack((l_internal/config.OutUnitLength_in_cm, m_internal/config.OutUnitMass_in_g, self.L_BOX, self.CENTER == 'mode', IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, obj_size.shape[0], r_over_r200, r200, obj_size, idx_sums))
+    
+    def _isShapeCatDumped(self, str kind, str suffix, settings):
+        """ Determine whether this very shape catalogue has been dumped into ``CAT_DEST``
+        
+        :param kind: either 'local' or 'global'
+        :type kind: string
+        :param suffix: suffix for file names
+        :type suffix: string
+        :param settings: what the catalogue depends on, see ``_getShapeCatSettings()``
+        :type settings: (N,) floats
+        :return: True if the catalogue in ``CAT_DEST`` is for the same objects, settings and output units, False otherwise
+        :rtype: boolean"""
+        if not os.path.exists('{0}/d_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)) or not os.path.exists('{0}/settings_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)):
+            return False
+        return np.array_equal(np.loadtxt('{0}/settings_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)), settings)
+    
     def _getShapeCatLocalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, str suffix):
         """ Get all relevant local shape data
         
@@ -117,7 +161,8 @@ cdef class CosmicBase:
         """
         if rank == 0:
             
-            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
+            if self._isShapeCatDumped('local', suffix, settings):
                 d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -189,7 +234,8 @@ cdef class CosmicBase:
             (number_of_objs, 3) double array, (number_of_objs,) double array"""
         if rank == 0:
             
-            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, np.array([self.SAFE]), IT_TOL, IT_WALL, IT_MIN, reduced, False)
+            if self._isShapeCatDumped('global', suffix, settings):
                 
                 d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -286,7 +332,8 @@ cdef class CosmicBase:
         """
         if rank == 0:
             
-            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
+            if self._isShapeCatDumped('local', suffix, settings):
                 d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -361,7 +408,8 @@ cdef class CosmicBase:
             (number_of_objs, 3) double array, (number_of_objs,) double array"""
         if rank == 0:
             
-            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, np.array([self.SAFE]), IT_TOL, IT_WALL, IT_MIN, reduced, False)
+            if self._isShapeCatDumped('global', suffix, settings):
                 
                 d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -450,6 +498,7 @@ cdef class CosmicBase:
         :type shell_based: boolean
         """
         if rank == 0:
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
             del idx_cat
             l_internal, m_internal, vel_internal = config.getLMVInternal()
@@ -477,6 +526,7 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/settings_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), settings, fmt='%1.17e')
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
     def _dumpShapeCatGlobalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -505,6 +555,7 @@ cdef class CosmicBase:
         :param reduced: whether or not reduced shape tensor (1/r^2 factor)
         :type reduced: boolean"""
         if rank == 0:
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, np.array([self.SAFE]), IT_TOL, IT_WALL, IT_MIN, reduced, False)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatGlobalBase(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, suffix)
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -531,6 +582,7 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/settings_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), settings, fmt='%1.17e')
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatLocalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
@@ -566,6 +618,7 @@ cdef class CosmicBase:
         :type shell_based: boolean
         """
         if rank == 0:
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelLocalBase(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -592,6 +645,7 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/settings_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), settings, fmt='%1.17e')
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatGlobalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -624,6 +678,7 @@ cdef class CosmicBase:
         """
         
         if rank == 0:
+            settings = self._getShapeCatSettings(r200.base, idx_cat.base, obj_size.base, np.array([self.SAFE]), IT_TOL, IT_WALL, IT_MIN, reduced, False)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, suffix)
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -650,6 +705,7 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/settings_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), settings, fmt='%1.17e')
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _plotShapeProfsBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, int nb_bins, str suffix = ''):
-- 
2.43.0


From 22657eb9b78aed835398222ca5455d02d5b9e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 26/39] fix: local shape catalogues with a single radius reload
 with the right shape

---
 cosmic_profiles/common/cosmic_base_class.pyx | 54 ++++++++------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 86d7a23..95ac027 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -178,23 +178,16 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
-                    minor = minor.reshape(minor.shape[0], -1, 3)
-                    inter = inter.reshape(inter.shape[0], -1, 3)
-                    major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
-                else:
-                    minor = np.array([])
-                    inter = np.array([])
-                    major = np.array([])
+                # loadtxt() drops dimensions of length 1
+                nb_objs, r_res = obj_size.shape[0], r_over_r200.shape[0]
+                minor = minor.reshape(nb_objs, r_res, 3)
+                inter = inter.reshape(nb_objs, r_res, 3)
+                major = major.reshape(nb_objs, r_res, 3)
+                obj_masses = obj_masses.reshape(nb_objs)
+                obj_centers = obj_centers.reshape(nb_objs, 3)
+                d = d.reshape(nb_objs, r_res)
+                q = q.reshape(nb_objs, r_res)
+                s = s.reshape(nb_objs, r_res)
             
             else:
                 d, q, s, minor, inter, major, obj_centers, obj_masses = calcMorphLocal(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, self.L_BOX, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, self.CENTER, reduced, shell_based)
@@ -349,23 +342,16 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
-                    minor = minor.reshape(minor.shape[0], -1, 3)
-                    inter = inter.reshape(inter.shape[0], -1, 3)
-                    major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
-                else:
-                    minor = np.array([])
-                    inter = np.array([])
-                    major = np.array([])
+                # loadtxt() drops dimensions of length 1
+                nb_objs, r_res = obj_size.shape[0], r_over_r200.shape[0]
+                minor = minor.reshape(nb_objs, r_res, 3)
+                inter = inter.reshape(nb_objs, r_res, 3)
+                major = major.reshape(nb_objs, r_res, 3)
+                obj_masses = obj_masses.reshape(nb_objs)
+                obj_centers = obj_centers.reshape(nb_objs, 3)
+                d = d.reshape(nb_objs, r_res)
+                q = q.reshape(nb_objs, r_res)
+                s = s.reshape(nb_objs, r_res)
             
             else:
                 d, q, s, minor, inter, major, obj_centers, obj_masses = calcMorphLocalVelDisp(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, self.L_BOX, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, self.CENTER, reduced, shell_based)
-- 
2.43.0


From 0be9fe53b43652d9cf08f3167cb283d69ffc4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 27/39] fix: blocks of format 2 snapshots are found by their
 name

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..8cf5f2f 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -117,7 +117,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
   while ((not found) and (f.tell()<filesize)):
     if format==2:
       f.seek(4, os.SEEK_CUR)
-      curblock = f.read(4)
+      curblock = f.read(4).decode('latin-1')
       if (block == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
-- 
2.43.0


From 0df55ad125e583b6344dd6f504178bacbebf1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 28/39] fix: 64-bit particle IDs of binary snapshots are not
 truncated to 32 bits

---
 cosmic_profiles/gadget/readsnap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 8cf5f2f..41dbaa6 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -351,10 +351,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
-      if block=="ID  ":
-        if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
-          dt = np.uint64 
+    if block=="ID  " and curpartnum > 0: # Fix data type for ID if long IDs are used
+      if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
+        dt = np.uint64 
+        data = data.astype(dt)
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From 8a922d95ad7e2848fbe42fa57b26c537efe73545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 29/39] fix: block sizes of 2 GB and more in binary snapshots
 do not overflow

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 41dbaa6..bc24f8b 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -335,7 +335,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       npart = head.npart  
       del head
       
-    curpartnum = np.int32(0)
+    curpartnum = np.int64(0)
     cur_species_offset = np.zeros(6,np.int64)
     for j in range(6):
       cur_species_offset[j] = curpartnum
-- 
2.43.0


From 414f6ef3e564d693267424e70c84e70c0d8e7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 30/39] fix: sub-files and snapshots without particles of a
 type need not contain its blocks

---
 cosmic_profiles/gadget/readgadget.py | 4 ++++
 cosmic_profiles/gadget/readsnap.py   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..f192d9c 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -164,6 +164,9 @@ def read_block(snapshot, block, ptype, verbose=False):
     offset = 0
     for pt in ptype:
 
+        # Nothing to read, and the block need not exist
+        if Nall[pt]==0:  continue
+
         # Format I or format II Gadget files
         if fformat=="binary":
             array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
@@ -185,6 +188,7 @@ def read_block(snapshot, block, ptype, verbose=False):
 
                 # Read number of particles in the file and read the data
                 npart = header(filename).npart[pt]
+                if npart==0:  continue
                 array[offset:offset+npart] = read_field(filename, block, pt)
                 offset += npart   
 
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index bc24f8b..0131005 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -349,7 +349,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       actual_curpartnum = curpartnum
       add_offset = np.int32(0)
       
-    offset,blocksize = find_block(curfilename,format,swap,block,block_num)
+    if curpartnum > 0:
+      offset,blocksize = find_block(curfilename,format,swap,block,block_num)
+    else: # A sub-file without any particle of these types need not contain the block
+      offset,blocksize = 0,0
     
     if block=="ID  " and curpartnum > 0: # Fix data type for ID if long IDs are used
       if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
-- 
2.43.0


From 8ba38399db7e7bbbe2f1175e3b74a8bc457e1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 31/39] fix: only masses are taken from the mass table when a
 block is missing

---
 cosmic_profiles/gadget/readgadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index f192d9c..1ecbb52 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -107,7 +107,7 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if block=='MASS' and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From fcbdb52edadb3e53ea77b16fee0b51a186832d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 32/39] fix: particle IDs are returned as integers, not as
 doubles that cannot hold 64-bit IDs

---
 cosmic_profiles/gadget/readgadget.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 1ecbb52..eb09e5a 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,7 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        if block!="ID  ":  array = array/unit_fac # IDs stay integers
         return array
     else:
         prefix = 'PartType%d/'%ptype
@@ -112,7 +113,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac # IDs stay integers
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -150,7 +152,7 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=np.uint64
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
@@ -169,7 +171,9 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            if block!="ID  ":  data = data/unit_fac # IDs stay integers
+            array[offset:offset+Nall[pt]] = data
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
-- 
2.43.0


From 584a408f6ea2b6a0e41c0a568b440f210a332192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 33/39] fix: single-precision blocks of binary snapshots can be
 read

---
 cosmic_profiles/gadget/readsnap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 0131005..473f125 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -359,6 +359,9 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
         dt = np.uint64 
         data = data.astype(dt)
         
+    if curpartnum > 0 and np.dtype(dt).base==np.float64 and blocksize*2 == np.dtype(dt).itemsize*curpartnum: # Single-precision block
+      dt = np.dtype((np.float32,np.dtype(dt).shape))
+
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
       sys.exit()
-- 
2.43.0


From 0e40c66737f51c5c2d71cd0c0d4b9b40c573f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 34/39] fix: local triaxiality histogram drops objects with an
 unconverged radius elsewhere

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index a5606cd..b819211 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(abs(r_over_r200 - frac_r200)) # d is NaN where the shape did not converge
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From 1be949d79fdec31a9c54f790abb17963dca14dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 35/39] fix: an interrupted dump of a shape catalogue is not
 taken for the catalogue dumped before it

---
 cosmic_profiles/common/cosmic_base_class.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 95ac027..ea38800 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -124,6 +124,16 @@ cdef class CosmicBase:
             return False
         return np.array_equal(np.loadtxt('{0}/settings_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)), settings)
     
+    def _invalidateShapeCat(self, str kind, str suffix):
+        """ Remove the settings of a previous dump in ``CAT_DEST``, they are written again once all files have been replaced
+        
+        :param kind: either 'local' or 'global'
+        :type kind: string
+        :param suffix: suffix for file names
+        :type suffix: string"""
+        if os.path.exists('{0}/settings_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)):
+            os.remove('{0}/settings_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP))
+    
     def _getShapeCatLocalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, str suffix):
         """ Get all relevant local shape data
         
@@ -504,6 +514,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            self._invalidateShapeCat('local', suffix)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -560,6 +571,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            self._invalidateShapeCat('global', suffix)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -623,6 +635,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            self._invalidateShapeCat('local', suffix)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -683,6 +696,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            self._invalidateShapeCat('global', suffix)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-- 
2.43.0


From 1150381661e6d9dca7c2c2851e892326ab114fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 36/39] fix: pictures of objects cut by the box boundary draw
 particles and ellipsoid together

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index ac6d36a..4755a73 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -169,6 +169,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
+            centers_internal = centers
             centers = config.LengthInternalToOut(centers)
             l_label, m_label, vel_lable = config.LMVLabel()
             
@@ -186,7 +187,8 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                # Draw those images of the particles that are nearest to the center, which lies inside the box
+                obj = config.LengthInternalToOut(respectPBCNoRef(np.vstack((centers_internal[idx_obj], obj)), self.L_BOX)[1:])
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -264,6 +266,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
+            centers_internal = centers
             centers = config.LengthInternalToOut(centers)
             l_label, m_label, vel_lable = config.LMVLabel()
             
@@ -281,7 +284,8 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                # Draw those images of the particles that are nearest to the center, which lies inside the box
+                obj = config.LengthInternalToOut(respectPBCNoRef(np.vstack((centers_internal[idx_obj], obj)), self.L_BOX)[1:])
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From 01935cfad4bee69db4aa6d3078f59bfd4ddf6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 37/39] fix: getObjInfoGadget() reports the number of resolved
 objects instead of raising an exception

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 4755a73..edcdc37 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -837,7 +837,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(self.obj_size.shape[0]))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From eafc351e92826c09d723a7ec340db7c6160706db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:13 +0000
Subject: [PATCH 38/39] fix: an object whose particles lie in a plane no longer
 fails the whole shape catalogue

The smallest eigenvalue of the shape tensor is then 0 and the division by the axis ratio s
raised ZeroDivisionError for all objects. Such an object has no ellipsoid: not converged.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index f70d900..3ff69b0 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # All particles in a plane, along a line or in one point: there is no ellipsoid
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # All particles in a plane, along a line or in one point: there is no ellipsoid
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # All particles in a plane, along a line or in one point: there is no ellipsoid
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # All particles in a plane, along a line or in one point: there is no ellipsoid
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From 6ca41738b93b08b4a78d4f476ce3f7852c8a8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:01 +0000
Subject: [PATCH 39/39] fix: getIdxCat() hands out copies so that callers
 cannot change the object's index catalogue

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..ca25b70 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -75,7 +75,7 @@ cdef class DensProfsBase(CosmicBase):
             obj_size: number of particles in each object
         :rtype: (N3) integers and (N1,) integers"""
         if rank == 0:
-            return self.idx_cat.base, self.obj_size.base
+            return self.idx_cat.base.copy(), self.obj_size.base.copy() # Changing them must not change the object
         else:
             return None, None
         
-- 
2.43.0

