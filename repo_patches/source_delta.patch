From 736323c40ca5150bade3f43aaf62a7e8158f17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 01/48] fix: qu2ro wrote its identity result over whole rows
 0-3 instead of row i

---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..e86db99 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From 1a00c0a0bb88e9567c8fcaba8738b86eea9aa43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 02/48] fix: om2eu used the wrong sign of phi1 for Phi = pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e86db99..84e1289 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From 3a5e100de680d1c2e97604ae3cc756667d156095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 03/48] fix: om2eu took a g33 rounded above 1 for Phi = pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 84e1289..e9b2640 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -216,7 +216,7 @@ def om2euL(om, p=P):
       eu[i,0] = np.arctan2(om[i,2,0] * zeta,-1.0 * om[i,2,1] * zeta)
       eu[i,2] = np.arctan2(om[i,0,2] * zeta,om[i,1,2] * zeta)
     else:
-      if ((np.abs(om[i,2,2] - 1.0)) < eps):
+      if om[i,2,2] > 0.0: # may exceed 1 by rounding
         eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = 0.0
         eu[i,2] = 0.0
-- 
2.43.0


From 8b43f0a06426e279acbfef6aa7cea023b98c151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 04/48] fix: ax2ro tested the un-normalised angle for a half
 turn

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e9b2640..5a0522e 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -448,7 +448,7 @@ def ax2roL(axIn,p=P):
     else:
       for j in range(3):
         ro[i,j] = axn[i,j]
-      if (PI - ax[i,3]) < eps:
+      if (PI - axn[i,3]) < eps:
         ro[i,3] = np.inf
       else:
         ro[i,3] = np.tan(axn[i,3] * 0.5)
-- 
2.43.0


From 857cd262d597a69912958fd2e7a6237aebef473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 05/48] fix: ax2qu divided the un-normalised axis by its
 squared length

---
 pyebsdindex/rotlib.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 5a0522e..50594b7 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -476,13 +476,10 @@ def ax2quL(axIn,p=P):
       qu[i,2] = 0.0
       qu[i,3] = 0.0
     else:
-      qu[i,0] = np.cos(ax[i,3] * 0.5)
-      mag = 0.0
-      for j in range(3):
-        mag += ax[i,j] * ax[i,j]
-      s = np.sin(ax[i,3] * 0.5) / mag
+      qu[i,0] = np.cos(axn[i,3] * 0.5)
+      s = np.sin(axn[i,3] * 0.5)
       for j in range(3):
-        qu[i,j + 1] = ax[i,j] * s
+        qu[i,j + 1] = axn[i,j] * s
   qu = quatnormL(qu)
   return qu
 
-- 
2.43.0


From cc9dcb3a7cda9c0859770ac50015c3991aa4fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 06/48] fix: eu2ax returned a half turn for phi1 = phi2 = 2 pi

---
 pyebsdindex/rotlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 50594b7..4aa7a7d 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -135,10 +135,11 @@ def eu2axL(euIn,p=P):
     delt = 0.50 * (eu[i,0] - eu[i,2])
     tau = np.sqrt(t * t + ssig * ssig)
 
-    if (np.abs(sig - PI2) < eps):
+    csig = np.cos(sig)
+    if (np.abs(csig) < eps):
       alpha = PI
     else:
-      alpha = 2.0 * np.arctan(tau / np.cos(sig))
+      alpha = 2.0 * np.arctan(tau / csig)
 
     if np.abs(alpha) < eps:
       ax[i,0] = 0.0
-- 
2.43.0


From 22207b2d1caf124e032cf7a2b3d890addbe812b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 07/48] fix: rotlib truncated results when given integer arrays

---
 pyebsdindex/rotlib.py | 66 ++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 4aa7a7d..de41a0b 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -73,6 +73,14 @@ nbParallel = False # decide if parallelism is desired.
 nbFastmath = True
 
 
+# integer input would otherwise make the result arrays integer as well, and truncate the values
+def _asfloat(a):
+  a = np.require(a,requirements=['C','A'])
+  if a.dtype.kind != 'f':
+    a = a.astype(np.float64)
+  return a
+
+
 # this will check the type of the input and its size.  
 # it will also reshape the data in case it is a single dimension
 # returns a 2D view of the data, the length of one entry, the number of entries, and datatype. 
@@ -88,7 +96,7 @@ def prepIn(a):
 
 def eu2om(eu,p=P):
   '''Bunge Euler angles to orientation matrix'''
-  om = eu2omL(np.require(eu,requirements=['C','A']),p=p)
+  om = eu2omL(_asfloat(eu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -118,7 +126,7 @@ def eu2omL(euIn,p=P):
  
 def eu2ax(eu,p=P):
   '''Bunge Euler angles to axis-angle (radians)  '''
-  ax = eu2axL(np.require(eu,requirements=['C','A']),p=p)
+  ax = eu2axL(_asfloat(eu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -160,7 +168,7 @@ def eu2axL(euIn,p=P):
 
 def eu2qu(eu,p=P):
   '''Bunge Euler angles to quaternions (scalar, axis)  '''
-  qu = eu2quL(np.require(eu,requirements=['C','A']),p=p)
+  qu = eu2quL(_asfloat(eu),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -192,9 +200,9 @@ def eu2quL(euIn,p=P):
 def om2eu(om,p=P):
   '''orientation matrix to Bunge Euler angles'''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _asfloat(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _asfloat(om).reshape((1,3,3))
   else:
     return -1
   eu = om2euL(omIn,p=p)
@@ -234,7 +242,7 @@ def om2euL(om, p=P):
 
 def ax2om(ax,p=P):
   '''axis-angle (radians) to orientation matrix  '''
-  om = ax2omL(np.require(ax,requirements=['C','A']),p=p)
+  om = ax2omL(_asfloat(ax),p=p)
   om = np.squeeze(om)
   return om
 
@@ -272,7 +280,7 @@ def ax2omL(axIn,p=P):
 
 def qu2eu(qu,p=P):
   '''quaternions (scalar, axis) to Bunge Euler angles  '''
-  eu = qu2euL(np.require(qu,requirements=['C','A']),p=p)
+  eu = qu2euL(_asfloat(qu),p=p)
   eu = np.squeeze(eu)
   return eu
 
@@ -315,7 +323,7 @@ def qu2euL(quIn,p=P):
 
 def ax2ho(ax,p=P):
   '''axis-angle (radians) to homochoric vector  '''
-  ho = ax2hoL(np.require(ax,requirements=['C','A']))
+  ho = ax2hoL(_asfloat(ax))
   ho = np.squeeze(ho)
   return ho
 
@@ -339,7 +347,7 @@ def ax2hoL(axIn,p=P):
 
 def ho2ax(ho,p=P):
   '''homochoric vector to axis-angle (radians)   '''
-  ax = ho2axL(np.require(ho,requirements=['C','A']))
+  ax = ho2axL(_asfloat(ho))
   ax = np.squeeze(ax)
   return ax
 
@@ -393,7 +401,7 @@ def ho2axL(hoIn,p=P):
 
 def ro2ax(ro,p=P):
   '''Rodrigues-Frank vector to axis-angle (radians)  '''
-  ax = ro2axL(np.require(ro,requirements=['C','A']),p=p)
+  ax = ro2axL(_asfloat(ro),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -429,7 +437,7 @@ def ro2axL(roIn,p=P):
 
 def ax2ro(ax,p=P):
   '''axis-angle (radians) to Rodrigues-Frank vector  '''
-  ro = ax2roL(np.require(ax,requirements=['C','A']),p=p)
+  ro = ax2roL(_asfloat(ax),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -458,7 +466,7 @@ def ax2roL(axIn,p=P):
 
 def ax2qu(ax,p=P):
   '''axis-angle (radians) to quaternion (scalar - vector)  '''
-  qu = ax2quL(np.require(ax,requirements=['C','A']),p=p)
+  qu = ax2quL(_asfloat(ax),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -487,7 +495,7 @@ def ax2quL(axIn,p=P):
 
 def ro2ho(ro,p=P):
   '''Rodrigues-Frank  to homochoric  '''
-  ho = ro2hoL(np.require(ro,requirements=['C','A']),p=p)
+  ho = ro2hoL(_asfloat(ro),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -518,7 +526,7 @@ def ro2hoL(roIn,p=P):
 
 def qu2om(qu,p=P):
   '''quaternion (scalar-vector) to orientation matrix  '''
-  om = qu2omL(np.require(qu,requirements=['C','A']),p=p)
+  om = qu2omL(_asfloat(qu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -567,9 +575,9 @@ def qu2omL(quIn,p=P):
 def om2ax_old(om,p=P):
   '''orientation matrix to axis-angle (radians) -- depreciated now use qu2ax(om2qu()) '''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _asfloat(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _asfloat(om).reshape((1,3,3))
   else:
     return -1
   ax = om2axL(omIn,p=p)
@@ -672,9 +680,9 @@ def om2axL_2(om, p=P): # kept for historical reasons
 def om2qu(om,p=P):
   '''orientation matrix to quaternion (scalar-vector)  '''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _asfloat(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _asfloat(om).reshape((1,3,3))
   else:
     return -1
   qu = om2quL(omIn,p=p)
@@ -729,7 +737,7 @@ def om2quL(om, p=P):
 
 def qu2ax(qu,p=P):
   '''quaternion (scalar-vector) to axis-angle (radians)  '''
-  ax = qu2axL(np.require(qu,requirements=['C','A']),p=p)
+  ax = qu2axL(_asfloat(qu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -763,7 +771,7 @@ def qu2axL(quIn,p=P):
 
 def qu2ro(qu,p=P):
   '''quaternion (scalar-vector) to Rodrigues-Frank vector  '''
-  ro = qu2roL(np.require(qu,requirements=['C','A']),p=p)
+  ro = qu2roL(_asfloat(qu),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -803,7 +811,7 @@ def qu2roL(quIn,p=P):
 
 def qu2ho(qu,p=P):
   '''quaternion (scalar-vector) to homochoric  '''
-  ho = qu2hoL(np.require(qu,requirements=['C','A']),p=p)
+  ho = qu2hoL(_asfloat(qu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -835,7 +843,7 @@ def qu2hoL(quIn,p=P):
 
 def ho2cu(ho,p=P):
   ''' homochoric to cubochoric  '''
-  cu = ho2cuL(np.require(ho,requirements=['C','A']),p=p)
+  cu = ho2cuL(_asfloat(ho),p=p)
   cu = np.squeeze(cu)
   return cu
 
@@ -969,7 +977,7 @@ def ho2cuL(hoIn,p=P):
 
 def cu2ho(cu,p=P):
   ''' cubochoric to homochoric  '''
-  ho = cu2hoL(np.require(cu,requirements=['C','A']),p=p)
+  ho = cu2hoL(_asfloat(cu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -1449,7 +1457,7 @@ def lambert3DBallToCube(xyz):
 
 def quatnorm(qu):
   '''quaternion normalization -- first term >=0 , unit quaternion length'''
-  qout = quatnormL(np.require(qu,requirements=['C','A']))
+  qout = quatnormL(_asfloat(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1472,7 +1480,7 @@ def quatnormL(qu,unitNorm=True):
 
 def quatconj(qu):
   '''Provides a quaternion conjugate. For rotations quaternions, this is the inverse quaternion'''
-  qout = quatconjL(np.require(qu,requirements=['C','A']))
+  qout = quatconjL(_asfloat(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1489,7 +1497,7 @@ def quatconjL(quin,unitNorm=True):
 
 def quatave(qu):
   '''Provides a quaternion average. Assumes quaterions are closely clustered'''
-  qout = quataveL(np.require(qu,requirements=['C','A']))
+  qout = quataveL(_asfloat(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1515,7 +1523,7 @@ def quataveL(quin,unitNorm=True):
 
 def quat_multiply(q1,q2,p=P):
   '''quaternion multiplication. Can be q1(Nx4) x q2(N x4) or q1(4) x q2(Nx4)'''
-  q1q2 = quat_multiplyL(np.require(q1,requirements=['C','A']),np.require(q2,requirements=['C','A']),p=p)
+  q1q2 = quat_multiplyL(_asfloat(q1),_asfloat(q2),p=p)
   q1q2 = np.squeeze(q1q2)
   return q1q2
 
@@ -1579,7 +1587,7 @@ def quat_multiply1(q1,q2,p=P):
 
 def quat_vector(q,v,p=P):
   '''quaternion vector rotation. Can be q1(Nx4) x v(Nx3) or q1(4) x v(Nx3) or q1(Nx4) x v(3)'''
-  vout = quat_vectorL(np.require(q,requirements=['C','A']),np.require(v,requirements=['C','A']),p=p)
+  vout = quat_vectorL(_asfloat(q),_asfloat(v),p=p)
   vout = np.squeeze(vout)
   return vout
 
@@ -1742,7 +1750,7 @@ def randomquat(n=1):
 # 
 def axnorm(ax):
   '''axis-angle normalization -- unit vector length, corrects negative angles and angles over 2Pi'''
-  axout = axnormL(np.require(ax,requirements=['C','A']))
+  axout = axnormL(_asfloat(ax))
   axout = np.squeeze(axout)
   return axout
 
-- 
2.43.0


From 3b951a335c972f9084710c92e985b317db89b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 08/48] fix: uvtw2uvw divided by zero for indices below one in
 magnitude

---
 pyebsdindex/crystallometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index fd61d79..9f29dc2 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -214,7 +214,8 @@ def uvtw2uvw(uvtw):
     uvw[2] = uvtw[3]
     #find greatest common denominator and divide
     gcd = reduce(math.gcd,(uvw.astype(int)))
-    uvw = uvw/gcd
+    if gcd > 0: # zero when every index is below one in magnitude
+        uvw = uvw/gcd
     return uvw
 
 # def rotVecQuat(v,qu):
-- 
2.43.0


From 307c82bac9add2da85c6238c5a0bc8db0f6659d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 09/48] fix: crystal matrices lost entries below an absolute
 threshold of 1e-6

---
 pyebsdindex/crystallometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index 9f29dc2..92fdab8 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -73,7 +73,7 @@ class Crystal:
         self.gamma = gamma
         self.elambda = 0.0
         self.spaceGroup = ''
-        smallThreshold = 1e-6
+        smallThreshold = 1e-12 # relative to the largest entry, so that it does not depend on the unit of length
 
         ca = np.cos(alpha*np.pi/180)
         cb = np.cos( beta*np.pi/180)
@@ -99,7 +99,7 @@ class Crystal:
         self.mtDet = ((a*b*c)**2)*(1.0-ca**2 - cb**2 - cg**2 + 2.0*ca*cb*cg)
         self.volume = np.sqrt(self.mtDet)
         self.metricTensor = self.metricTensor.transpose()
-        self.metricTensor[np.abs(self.metricTensor) < smallThreshold] = 0
+        self.metricTensor[np.abs(self.metricTensor) < smallThreshold*np.max(np.abs(self.metricTensor))] = 0
         
         #Compute the reciprocal metric tensor
         self.reciprocalMetricTensor = np.zeros([3,3])
@@ -114,7 +114,7 @@ class Crystal:
         self.reciprocalMetricTensor[1,2] = self.reciprocalMetricTensor[2,1]
         self.reciprocalMetricTensor = self.reciprocalMetricTensor/self.mtDet
         self.reciprocalMetricTensor = self.reciprocalMetricTensor.transpose()
-        self.reciprocalMetricTensor[np.abs(self.reciprocalMetricTensor) < smallThreshold] = 0
+        self.reciprocalMetricTensor[np.abs(self.reciprocalMetricTensor) < smallThreshold*np.max(np.abs(self.reciprocalMetricTensor))] = 0
         
         #Compute direct stucture matrix
         self.directStructureMatrix = np.zeros([3,3])
@@ -128,7 +128,7 @@ class Crystal:
         self.directStructureMatrix[1,2] = 0.0
         self.directStructureMatrix[2,2] = self.volume/(a*b*sg)
         self.directStructureMatrix = self.directStructureMatrix.transpose()
-        self.directStructureMatrix[np.abs(self.directStructureMatrix) < smallThreshold] = 0
+        self.directStructureMatrix[np.abs(self.directStructureMatrix) < smallThreshold*np.max(np.abs(self.directStructureMatrix))] = 0
 
         # Compute inverse direct stucture matrix
         self.invDirectStructureMatrix = np.zeros([3, 3])
@@ -142,7 +142,7 @@ class Crystal:
         self.invDirectStructureMatrix[1, 2] = 0.0
         self.invDirectStructureMatrix[2, 2] = a*b*sg/(self.volume)
         self.invDirectStructureMatrix = self.invDirectStructureMatrix.transpose()
-        self.invDirectStructureMatrix[np.abs(self.invDirectStructureMatrix) < smallThreshold] = 0
+        self.invDirectStructureMatrix[np.abs(self.invDirectStructureMatrix) < smallThreshold*np.max(np.abs(self.invDirectStructureMatrix))] = 0
         
         #compute reciprocal structure matrix
         self.reciprocalStructureMatrix = np.zeros([3,3])
@@ -156,7 +156,7 @@ class Crystal:
         self.reciprocalStructureMatrix[1,2] = a*c*(cb*cg-ca)/(self.volume*sg)
         self.reciprocalStructureMatrix[2,2] = (a*b*sg)/self.volume
         self.reciprocalStructureMatrix = self.reciprocalStructureMatrix.transpose()
-        self.reciprocalStructureMatrix[np.abs(self.reciprocalStructureMatrix) < smallThreshold] = 0
+        self.reciprocalStructureMatrix[np.abs(self.reciprocalStructureMatrix) < smallThreshold*np.max(np.abs(self.reciprocalStructureMatrix))] = 0
 
         # Compute inverse reciprocal stucture matrix
         self.invReciprocalStructureMatrix = np.zeros([3, 3])
-- 
2.43.0


From cda2c2f6b94f4425b46573a64f180ab2c2c19ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:16 +0000
Subject: [PATCH 10/48] fix: radon_fast marks empty lines with the plan's
 missing value and accepts a background for a single pattern

---
 pyebsdindex/radon_fast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 300d4fc..bbf47c6 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -204,9 +204,9 @@ class Radon:
       #image = image.reshape(-1)
     else:
       if str.upper(background_method) == 'DIVIDE':
-        image = imageIn / background
+        image = image / background
       else:
-        image = imageIn - background
+        image = image - background
       #image = image.reshape(-1)
 
     nPx = shapeIm[-1]*shapeIm[-2]
@@ -219,7 +219,7 @@ class Radon:
       im[:-2] = (image[i,:,:].flatten()).astype(np.float32)
       radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] = (
           np.sum(im.take(self.indexPlan.astype(np.int64)), axis=2) / norm)
-      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += -1.0*(norm < 1.0).astype(float)
+      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += self.missingval*(norm < 1.0).astype(float)
 
     if (fixArtifacts == True):
       radon[:,:,0] = radon[:,:,1]
-- 
2.43.0


From b93ef0d1d084347066aca2b9602e187af7da9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 11/48] fix: NLPAR search window left the scan when the scan is
 smaller than the window

---
 pyebsdindex/nlpar_cpu.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..f07f17c 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -685,12 +685,12 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      winstart_x = max(max((i - sr),0) - max((i + sr - (ncols - 1)),0), 0)
+      winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max(max((j - sr),0) - max((j + sr - (nrows - 1)),0), 0)
+        winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -734,14 +734,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From e0a0eca4cadb4e913b1f96ec610e2ec8f45e00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 12/48] fix: NLPAR chunks miss rows of the search window at the
 top of the scan and of the noise estimate at chunk edges

---
 pyebsdindex/nlpar_cpu.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index f07f17c..69c8cd8 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -409,11 +409,10 @@ class NLPAR:
       if verbose >= 2:
         print("begin row: ", j, "/", nrows, sep='', end='\r')
 
-      rowstartread = np.int64(max(0, j-sr))
-      rowend = min(j + chunksize+sr,nrows)
-
-      if (rowend - rowstartread) < (2*sr+1):
-        rowstartread = np.int64(max(0, rowend - (2*sr+1)))
+      # read the full search window of every row of this chunk (the window is shifted at the edges of the scan),
+      # and one more row for the noise estimate of the rows at the edge of the window.
+      rowstartread = np.int64(max(0, min(j-sr, nrows-(2*sr+1)) - 1))
+      rowend = min(max(j + chunksize+sr, 2*sr+1) + 1,nrows)
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
@@ -441,7 +440,7 @@ class NLPAR:
                               rowcountread,ncols,indices,saturation_protect, diff_offset=diff_offset)
 
       dataout = dataout.reshape(rowcountread, ncols, phw)
-      dataout = dataout[j-rowstartread:, :, : ]
+      dataout = dataout[j-rowstartread:min(j+chunksize, nrows)-rowstartread, :, : ]
       shpout = dataout.shape
       dataout = dataout.reshape(shpout[0]*shpout[1], pheight, pwidth)
       if rescale == True:
-- 
2.43.0


From 68579c89c6a239c2be51db48c147b4775fe60914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 13/48] fix: NLPAR failed with reset_sigma or a scalar sigma
 and kept a sigma map of the wrong shape

---
 pyebsdindex/nlpar_cpu.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 69c8cd8..d065e35 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -370,20 +370,20 @@ class NLPAR:
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
+    if reset_sigma:
+      self.sigma = None
+
     if self.sigma is None:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
-    if reset_sigma:
-      self.sigma = None
-
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    if (np.asarray(self.sigma).size == 1) and (calcsigma is False):
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
       calcsigma = False
 
     shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From 4731fc187d25926a0e88dbf1f8ad75f95c52c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 14/48] fix: NLPAR calcsigma counted rows twice when the last
 chunk's margin reached the end of the scan

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index d065e35..b4e83ef 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -484,7 +484,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
@@ -517,7 +517,7 @@ class NLPAR:
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-      sigma[j:j+rowstartcount[1],:] += \
+      sigma[j:j+rowstartcount[1],:] = \
         sigchunk[rowstartcount[0]:rowstartcount[0]+rowstartcount[1],:]
 
     return sigma
-- 
2.43.0


From 0405f271ffb0e6323ffffa995bd4953692a0a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 15/48] fix: NLPAR tiling started tiles outside the scan and
 left margins short when the step is smaller than the search radius

---
 pyebsdindex/nlpar_cpu.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index b4e83ef..3d57c96 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -763,16 +763,16 @@ class NLPAR:
     ncolchunks = max(ncol / colstep, 1)
     colstepov = min(colstep + 2 * col_overlap, ncol)
     ncolchunks = max(int(np.ceil(ncolchunks)), 1)
-    colstep = max(int(np.round(colstep)), 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
+    colstep = max(int(np.round(colstep)), 1, int(col_overlap)) # a margin never reaches beyond the next tile
+    colstepov = colstep + 2 * col_overlap
 
     nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
     rowstep = max((nrow / nrowchunks), 1)
     nrowchunks = max(nrow / rowstep, 1)
     rowstepov = min(rowstep + 2 * row_overlap, nrow)
     nrowchunks = max(int(np.ceil(nrowchunks)), 1)
-    rowstep = max(int(np.round(rowstep)), 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
+    rowstep = max(int(np.round(rowstep)), 1, int(row_overlap)) # a margin never reaches beyond the next tile
+    rowstepov = rowstep + 2 * row_overlap
 
     # colchunks = np.round(np.arange(ncolchunks+1)*ncol/ncolchunks).astype(int)
     # colchunks = np.zeros((ncolchunks, 2), dtype=int)
@@ -786,7 +786,7 @@ class NLPAR:
     for c in range(ncolchunks):
       cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]
       colchunks.append(cchunk)
-      if cchunk[1] > ncol:
+      if cchunk[1] >= ncol:
         break
 
     ncolchunks = len(colchunks)
@@ -808,7 +808,7 @@ class NLPAR:
     for r in range(nrowchunks):
       rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
       rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
+      if rchunk[1] >= nrow:
         break
 
     nrowchunks = len(rowchunks)
@@ -823,7 +823,7 @@ class NLPAR:
     for r in range(nrowchunks):
       rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
       rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
+      if rchunk[1] >= nrow:
         break
 
     nrowchunks = len(rowchunks)
-- 
2.43.0


From bc538d2d80b4bac2b8ddb3d9e8ed33992e6876f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 16/48] fix: NLPAR diff_offset accumulated from point to point
 in a buffer shared by the threads

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 3d57c96..131605a 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -676,7 +676,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
 
     mxval = np.max(data)
     if saturation_protect == False:
@@ -693,6 +692,7 @@ class NLPAR:
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
+        diff_step = np.zeros(winsz,dtype=np.float32)
 
         indx_0 = i + ncols * j
         sigma0 = sigma[j,i]**2
@@ -705,7 +705,7 @@ class NLPAR:
 
             if indx_nn == indx_0:
               weights[counter] = np.float32(-1.0e6)
-              diff_step[counter] +=  diff_offset
+              diff_step[counter] =  diff_offset
             else:
               diff_step[counter] =  0.0
               pairid = getpairid(indx_0, indx_nn)
-- 
2.43.0


From a289e47de04154dae8be7b04da84388ad8e55110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 17/48] fix: pat_flt2int wrapped around or divided by zero,
 clipped 32 bit integers at 255, and added an axis to a single pattern

---
 pyebsdindex/ebsd_pattern.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..30bcf6b 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -117,6 +117,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
   elif isinstance(patterns,np.ndarray):
     pats = patterns
 
+  shp0 = pats.shape
   shp = pats.shape
   ndim = pats.ndim
   if ndim == 2:
@@ -137,14 +138,10 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
      typeout = np.uint16
 
   if (isinstance(typeout(0), np.floating )):
-    return pats.astype(typeout)
+    return pats.astype(typeout).reshape(shp0)
 
   minval = 0
-  maxval = 255
-  if (isinstance(typeout(0), np.uint16)):
-    typeout = np.uint16
-    minval = 0
-    maxval = 65535
+  maxval = np.iinfo(typeout).max
 
 
   patsout = np.zeros(shp, dtype=typeout)
@@ -157,20 +154,23 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     temp = pats.astype(np.float32) - minp
     if maxScale is None:
       maxScale = temp.max()
-    temp *= scalevalue * maxval / maxScale
+    if maxScale > 0:
+      temp *= scalevalue * maxval / maxScale
     temp = temp.clip(0, maxval)
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   elif method=='scale': # here we assume that the min if not < 0 should not be scaled.
     temp = pats.astype(np.float32)
     if minp < minval:
-      temp += minval  - minp 
+      temp += minval - np.float32(minp)
     if maxScale is None:
       maxScale = temp.max()
-    temp *= scalevalue * maxval / maxScale
+    if maxScale > 0:
+      temp *= scalevalue * maxval / maxScale
+    temp = temp.clip(0, maxval)
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
-  return patsout # note, this function uses multiple returns.
+  return patsout.reshape(shp0) # note, this function uses multiple returns.
 
 class EBSDPatterns():
   def __init__(self, path=None):
-- 
2.43.0


From 1afbcc034c8442a819227d31a7ba3f73f5e31ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 18/48] fix: writing a slab scaled every row by itself and
 write_data ignored maxScale

---
 pyebsdindex/ebsd_pattern.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 30bcf6b..a94c453 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -347,11 +347,6 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
-
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
     # self.nPatterns == number of patterns in the file
@@ -367,7 +362,7 @@ class EBSDPatternFile():
         nPatToWrite = self.nPatterns - patStart
 
       typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
+      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -388,11 +383,13 @@ class EBSDPatternFile():
         if (rowstart+nrowwrite) > self.nRows:
           nrowwrite = np.int64(self.nRows - rowstart)
 
+        # convert the slab as a whole, so that all of its rows share one intensity scale
+        pats = pat_flt2int(pats,typeout=self.filedatatype,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
 
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
           self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+                          flt2int='clip')
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 9cec2bbe4ac27ba62f5168779041996cf94c42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 19/48] fix: EBSP files could not be written (unsigned
 version), and files of one row or one pattern could not be read

---
 pyebsdindex/ebsd_pattern.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index a94c453..f121479 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -853,7 +853,7 @@ class EBSPFile(EBSDPatternFile):
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)
 
 
-        self.xStep = xall[1] - xall[0]
+        self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
         if self.xStep > 1e-6:
           ncol = (xall.max() - xall.min()) / self.xStep
           ncol = np.round(ncol+1)
@@ -863,7 +863,7 @@ class EBSPFile(EBSDPatternFile):
         self.nCols = np.uint64(ncol)
 
 
-        self.yStep = yall[0] - yall[self.nCols]
+        self.yStep = np.abs(yall[0] - yall[self.nCols]) if self.nPatterns > self.nCols else 0.0
 
         if self.yStep > 1e-6:
           nrow = (yall.max() - yall.min()) / self.yStep
@@ -934,7 +934,7 @@ class EBSPFile(EBSDPatternFile):
     # xyloc[:,1] *= self.yStep
     return readpats, xyloc
 
-  def write_header(self, writeBlank=False, bitdepth=8):
+  def write_header(self, writeBlank=False, bitdepth=None):
 
     filepath = self.filepath
     extension = str.lower(Path(filepath).suffix)
@@ -964,8 +964,7 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      np.asarray(-np.int64(self.version), dtype=np.int64).tofile(f)
 
     if self.version >= 0:
       if self.filePos is None:
@@ -1007,7 +1006,7 @@ class EBSPFile(EBSDPatternFile):
         for i in range(self.nCols):
           pathead.tofile(f)
           blank.tofile(f)
-          if (self.version > 0) and self.hasxypos:
+          if (self.version == 1) or ((self.version > 1) and self.hasxypos): # version 1 always stores the position
             if self.version >= 2:
               np.uint8(1).tofile(f)
             np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tofile(f)
-- 
2.43.0


From fb320821434839cdb52058dc0aea7625fed54e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 20/48] fix: TFPatFile wrote blank files too short, dropped the
 background, never read the isscan flag and did not copy files

---
 pyebsdindex/ebsd_pattern.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index f121479..5df9af8 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1114,7 +1114,8 @@ class TFPatFile(EBSDPatternFile):
         self.filePos = 25
 
 
-      if isscan < 0:
+      self.isscan = bool(isscan[0] < 0)
+      if self.isscan:
         self.nPatterns = np.int64((self.nCols)) * self.nRows
       else:
         f.seek(0,2) # go to EOF
@@ -1127,7 +1128,7 @@ class TFPatFile(EBSDPatternFile):
     if self.isscan == False:
       xypix = []
       f.seek(self.filePos)
-      stride = np.int64(self.patternW * self.patternH)
+      stride = np.int64(self.patternW * self.patternH) * self.filedatatype(0).nbytes
       for ii in range(np.int64(self.nPatterns)):
         loc = np.fromfile(f, dtype=np.uint32, count=2)
         xypix.append(loc)
@@ -1247,12 +1248,13 @@ class TFPatFile(EBSDPatternFile):
       else:
         np.asarray(-1, dtype=np.int16).tofile(f)
       np.asarray(self.bitdepth, dtype=np.uint8).tofile(f)
+      self.filePos = 25
       if self.hasbackground == False:
         np.asarray(0, dtype=np.int16).tofile(f)
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
+        if type(self.background) != np.ndarray:
           pass
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
@@ -1260,13 +1262,14 @@ class TFPatFile(EBSDPatternFile):
           else:
             background = self.background.astype(self.filedatatype)
         background.tofile(f)
+        self.filePos = 25 + background.nbytes
 
 
     if writeBlank == True:
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
+      f.seek(np.int64(self.filePos + np.int64(self.nPatterns) * dtyperead.itemsize -1))
       np.asarray(0, dtype=np.uint8).tofile(f)
 
 
@@ -1335,6 +1338,7 @@ class TFPatFile(EBSDPatternFile):
       dst = Path(path[0]).expanduser().resolve()
     else:
       dst = Path(str(src.expanduser().resolve())+'.copy')
+    copied = False
     try:
       if 'empty_data' in kwargs:
         if kwargs['empty_data'] == True:
@@ -1348,7 +1352,10 @@ class TFPatFile(EBSDPatternFile):
             dstf.seek(size-1,0)
             #print('seek done')
             dstf.write(b"\0")
+          copied = True
     except:
+      pass
+    if copied == False:
       shutil.copyfile(src,dst)
 
     try:
-- 
2.43.0


From cdc0cb0f42e3d8ef916803f5b602c4639f845313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 21/48] fix: EBSP headers and positions could not be read with
 current NumPy (size one arrays used as scalars)

---
 pyebsdindex/ebsd_pattern.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 5df9af8..9e78d0f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -701,7 +701,7 @@ class EBSPFile(EBSDPatternFile):
       return -1
 
     f.seek(0)
-    version = np.fromfile(f, dtype=np.int64, count=1)
+    version = np.fromfile(f, dtype=np.int64, count=1)[0]
     version = np.int64(-1*version)
     if version <= 0:
       self.version = 0
@@ -731,7 +731,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
@@ -846,11 +846,11 @@ class EBSPFile(EBSDPatternFile):
           if self.filePos[i] > 0:
             f.seek(np.int64(self.filePos[i] + 4*per_pat_header + nbytespat + footoffset))
 
-            x1 = np.fromfile(f, dtype=np.float64, count=1)
+            x1 = np.fromfile(f, dtype=np.float64, count=1)[0]
             #print(x1, i)
             xall[i] = x1
             f.seek(footoffset, 1)
-            yall[i] = np.fromfile(f, dtype=np.float64, count=1)
+            yall[i] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
 
         self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
@@ -917,9 +917,9 @@ class EBSPFile(EBSDPatternFile):
         readpats[ii, :] = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
         if readxypos == True:
           f.seek(xyoffset, 1)
-          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)[0]
           f.seek(xyoffset, 1)
-          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
     readpats = readpats.reshape(nPatToRead, self.patternH, self.patternW)
     f.close()
-- 
2.43.0


From d68370bb4fdd51df945724178d8db8dc04911017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 22/48] fix: UPFile ignored the header's data offset when
 writing blank patterns and when counting the patterns of version 1 files

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9e78d0f..c241b6a 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -462,7 +462,7 @@ class UPFile(EBSDPatternFile):
       self.patternW = dat[0]
       self.patternH = dat[1]
       self.filePos = dat[2]
-      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - 16) /
+      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - np.int64(self.filePos)) /
                               (self.patternW * self.patternH * (self.filedatatype(0).nbytes)))
       if self.xStep is None:
         self.xStep = 0.0
@@ -587,6 +587,7 @@ class UPFile(EBSDPatternFile):
       #   type = np.uint16
 
       blank = np.zeros((self.patternH, self.patternW), dtype=typewrite)
+      f.seek(np.int64(self.filePos))
       for j in range(self.nRows):
         for i in range(self.nCols):
           blank.tofile(f)
-- 
2.43.0


From 2186de5025f8153070d2d520c89cdce70d0a7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 23/48] fix: reading past the end of a file or with a negative
 count other than -1 failed or wrapped around

---
 pyebsdindex/ebsd_pattern.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c241b6a..5ddf8fe 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -252,12 +252,12 @@ class EBSDPatternFile():
     if pStartEnd.ndim == 1: # read a continuous set of patterns.
       patStart = np.int64(patStartCount[0])
       nPatToRead = np.int64(patStartCount[-1])
-      if nPatToRead == -1:
+      if nPatToRead < 0:
         nPatToRead = np.int64(self.nPatterns - patStart)
       if nPatToRead == 0:
         nPatToRead = 1
       if (patStart + nPatToRead) > self.nPatterns:
-        nPatToRead = np.int64(self.nPatterns - patStart)
+        nPatToRead = np.int64(max(self.nPatterns - patStart, 0))
 
 
       # this function does the actual reading from the file.
@@ -279,10 +279,10 @@ class EBSDPatternFile():
           nrowread = np.int64(self.nRows - rowstart)
 
         if (colstart+ncolread) > self.nCols:
-          ncolread = np.int64(self.nCols - colstart)
+          ncolread = np.int64(max(self.nCols - colstart, 0))
 
         if (rowstart+nrowread) > self.nRows:
-          nrowread = np.int64(self.nRows - rowstart)
+          nrowread = np.int64(max(self.nRows - rowstart, 0))
         nrowread = np.uint64(nrowread)
         ncolread = np.uint64(ncolread)
         nPatToRead = [ncolread, nrowread]
@@ -354,7 +354,7 @@ class EBSDPatternFile():
     if pStartEnd.ndim == 1:  # write a continuous set of patterns.
       patStart = np.int64(patStartCount[0])
       nPatToWrite = np.int64(patStartCount[-1])
-      if nPatToWrite == -1:
+      if nPatToWrite < 0:
         nPatToWrite = npats
       if nPatToWrite == 0:
         nPatToWrite = 1
-- 
2.43.0


From 26b65f174be842766e00d314710611066d7cf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 24/48] fix: reflector lists of phases without inversion by
 proper rotations missed half of the senses of a band

---
 pyebsdindex/tripletvote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..7763dee 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -339,7 +339,8 @@ class BandIndexer():
 
     for i in range(npoles):
       family = self._symrotpoles(polesFlt[i, :], crystalmats) #rotlib.quat_vector(symmetry,polesFlt[i,:])
-      uniqHKL = self._hkl_unique(family, reduceInversion=False)
+      # a band normal can point either way, and not every proper rotation group maps a pole onto its inverse.
+      uniqHKL = self._hkl_unique(np.concatenate((family, -1 * family)), reduceInversion=False)
       uniqHKL = np.flip(uniqHKL, axis=0)
       sympolesComplete.append(uniqHKL)
       nFamComplete[i] = np.reshape(sympolesComplete[-1],(-1,3)).shape[0] #np.int32((sympolesComplete[-1]).size/3)
-- 
2.43.0


From d538e9f91bc0fc86e97ea54e3d5a001df24b01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 25/48] fix: four-index reflectors of trigonal phases were read
 as a list of three-index ones

---
 pyebsdindex/tripletvote.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 7763dee..4c03e6a 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -324,8 +324,7 @@ class BandIndexer():
     crystalmats = self.crystalmats
 
     poles = np.array(self.polefamilies)
-    if (self.lauecode == 62) or (self.lauecode == 6):
-      if self.polefamilies.shape[-1] == 4:
+    if self.polefamilies.shape[-1] == 4:
         poles = crystal_sym.hex4poles2hex3poles(np.array(self.polefamilies))
     poles = poles.reshape((-1, 3))
 
-- 
2.43.0


From 9c11b4d1ded458d9f73de32b97076f76bffc9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 26/48] fix: the triplet library of a phase with a single
 reflector family overran its arrays

---
 pyebsdindex/tripletvote.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 4c03e6a..d8365e8 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -397,7 +397,7 @@ class BandIndexer():
     nangs = angs.size
     familyID = np.array(familyID)
     polePairs = np.array(polePairs)
-    nFamilyID = np.bincount(np.squeeze(familyID[:,0]).astype(int), minlength=int(npoles))
+    nFamilyID = np.bincount(familyID[:,0].astype(int), minlength=int(npoles))
 
     #stuff, nFamilyID = np.unique(familyID[:,0], return_counts=True)
 
@@ -405,10 +405,10 @@ class BandIndexer():
     #print(familyID)
     #print(nFamilyID)
     #print(indx0FID)
-    #This completely over previsions the arrays, this is essentially 
-    #N Choose K with N = number of angles and K = 3
-    nlib = npoles*np.prod(np.arange(3, dtype=np.int64)+(nangs-2+1))//np.int64(math.factorial(3))
-    nlib = nlib.astype(int)
+    #This completely over previsions the arrays: all pairs of angles of a family, each with
+    #at most the largest number of angles there is between two families.
+    nPairs = np.bincount(familyID[:,0]*npoles + familyID[:,1])
+    nlib = np.sum(nFamilyID.astype(np.int64)*(nFamilyID+1)//2)*nPairs.max()
 
     libANG = np.zeros((nlib, 3))
     libID = np.zeros((nlib, 3), dtype=int)
-- 
2.43.0


From 2a07d352148739f4ab079385fe498bf68c243fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 27/48] fix: triplets with the same sum of angles were taken
 for duplicates

---
 pyebsdindex/tripletvote.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index d8365e8..0d42c1c 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -723,14 +723,11 @@ class BandIndexer():
       libID[i,:] = temp2
 
     if findDups == True:
-      angID = np.sum(np.round(libANG*100), axis = 1).astype(np.longlong)
       basis = np.longlong(libID.max() + 1)
       libID_ID = libID.dot(np.array([1,basis, basis**2]))
-      UID = np.ceil(np.log10(libID_ID.max()))
-      UID = np.where(UID > 2, UID, 2)
-      UID = (angID * 10**UID) + libID_ID
+      UID = np.column_stack((np.round(libANG*100), libID_ID)).astype(np.longlong)
 
-      stuff, unq = np.unique(UID, return_index=True)
+      stuff, unq = np.unique(UID, axis=0, return_index=True)
       libANG = libANG[unq, :]
       libID = libID[unq,:]
       libID_ID = libID_ID[unq]
-- 
2.43.0


From 4cf4c297e5506955349b304f46791085ceb8c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 28/48] fix: bands out of tolerance were labelled with a pole

---
 pyebsdindex/tripletvote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 0d42c1c..35d895c 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -612,6 +612,9 @@ class BandIndexer():
       print('refinement: ', timer() - tic)
       print('all: ',timer() - tic0)
 
+    # bands that fit no pole carry no label.
+    polematch = np.where(polevalid > 0, polematch, -100)
+
     # avequat = avequat[0,...]
     # fit = fit[0]
     # cm2 = cm2[0]
-- 
2.43.0


From 3067d92940bffffb76bfda945c59dbba8706b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 29/48] fix: the fit of a pattern without an orientation was
 zero degrees

---
 pyebsdindex/tripletvote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 35d895c..a177bdf 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -914,7 +914,7 @@ class BandIndexer():
     qout = np.zeros((npats, 4), dtype=np.float64)
     qout[:, 0] = 1.0
     fitout = np.full((npats), np.pi, dtype=np.float64)
-    fitout_unweight = np.full((npats), np.pi, dtype=np.float64)
+    fitout_unweight = np.full((npats), -1.0, dtype=np.float64)
 
     for p in range(npats):
 
-- 
2.43.0


From 39dd8ebf48c85d50392655228d7d195a99d613f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 30/48] fix: the QUEST solution was undefined for half turns

---
 pyebsdindex/tripletvote.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index a177bdf..c8cd6db 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -976,9 +976,20 @@ class BandIndexer():
       qn = np.float64(0.0)
       qn += gamma ** 2 + X[0] ** 2 + X[1] ** 2 + X[2] ** 2
       qn = np.sqrt(qn)
-      q[0] = gamma
-      q[1:4] = X[0:3]
-      q /= qn
+      if (qn < 1.0e-6) or (np.fabs(gamma) <= 1.0e-3 * qn):
+        # close to a half turn gamma and X vanish, take the eigenvector itself.
+        K = np.zeros((4, 4), dtype=np.float64)
+        K[0, 0] = sig
+        K[0, 1:4] = z
+        K[1:4, 0] = z
+        K[1:4, 1:4] = S - sig * I
+        eigval, eigvec = np.linalg.eigh(K)
+        gamma = eigvec[0, 3]
+        q[:] = eigvec[:, 3]
+      else:
+        q[0] = gamma
+        q[1:4] = X[0:3]
+        q /= qn
       if (np.sign(gamma) < 0):
         q *= -1.0
 
@@ -1854,9 +1865,20 @@ def _orientation_quest_nb(polescart, bandnorms, weights):
   qn = np.float64(0.0)
   qn += gamma ** 2 + X[0] ** 2 + X[1] ** 2 + X[2] ** 2
   qn = np.sqrt(qn)
-  q[0] = gamma
-  q[1:4] = X[0:3]
-  q /= qn
+  if (qn < 1.0e-6) or (np.fabs(gamma) <= 1.0e-3 * qn):
+    # close to a half turn gamma and X vanish, take the eigenvector itself.
+    K = np.zeros((4, 4), dtype=np.float64)
+    K[0, 0] = sig
+    K[0, 1:4] = z
+    K[1:4, 0] = z
+    K[1:4, 1:4] = S - sig * I
+    eigval, eigvec = np.linalg.eigh(K)
+    gamma = eigvec[0, 3]
+    q[:] = eigvec[:, 3]
+  else:
+    q[0] = gamma
+    q[1:4] = X[0:3]
+    q /= qn
   if (np.sign(gamma) < 0):
     q *= -1.0
 
-- 
2.43.0


From 7ebb0644fd996127e14f88bfbc1b5b3d07be078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 31/48] fix: index_pats ignored patstart and npats for patterns
 in an array

---
 pyebsdindex/_ebsd_index_single.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..1555bf8 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,10 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if (patsin is not None) and (len(patsin.shape) == 3):
+            patend = patstart + npats if npats > 0 else patsin.shape[0]
+            patsin = patsin[patstart:patend, :, :]
+
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From 880b22ecf55420728608b9dc89e3a675e4459b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 32/48] fix: the early exit found for the first patterns stayed
 when the phases or number of bands changed

---
 pyebsdindex/_ebsd_index_single.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 1555bf8..c8f4d43 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -719,7 +719,6 @@ class EBSDIndexer:
                     earlyexit = max(earlyexit, ph.nband_earlyexit)
             if earlyexit < 0:
                 earlyexit = shpBandDat[1]  # default to all the poles.
-            self.nband_earlyexit = earlyexit
         else:
             earlyexit = self.nband_earlyexit
 
-- 
2.43.0


From 6efcf6c5e7b06451df15d79f1746968a86c77c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 33/48] fix: a phase with a fit above three degrees lost
 against a phase that did not index

---
 pyebsdindex/_ebsd_index_single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index c8f4d43..28ba469 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -789,6 +789,9 @@ class EBSDIndexer:
                 #    indxData[j + 1, :],
                 phasetest = ((3.0 - indxData[j, :]["fit"]) * indxData[j, :]["nmatch"]) \
                             > ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])
+                # any solution is better than none.
+                phasetest |= indxData[-1, :]["nmatch"] == 0
+                phasetest &= indxData[j, :]["nmatch"] > 0
                 whbetter = np.nonzero(phasetest)
                 indxData[-1, whbetter] = indxData[j, whbetter]
                 #banddataout['band_match_index'][whbetter,:] =  bandmatchindex[j,whbetter,:,:].squeeze()
-- 
2.43.0


From 2531b2211896c78ddaa6a4ab7cdbf24daf374631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 34/48] fix: distributed indexing took a negative start from
 the wrong end and never ended for more patterns than there are

---
 pyebsdindex/_ebsd_index_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..d06f84c 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,8 +275,8 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
-    if npats <= 0:
+        patstart = npatsTotal + patstart
+    if (npats <= 0) or (npats > npatsTotal - patstart):
         npats = npatsTotal - patstart
 
     # Now set up the cluster with the indexer
-- 
2.43.0


From 68fed76ae0095e0900d637adfce3b65ea8d3270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 35/48] fix: a flat pattern was reported to have valid bands

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..37209f3 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -694,7 +694,7 @@ class BandDetect():
         rnn = r - rc
         bandData_aveloc[q,i,:] = np.array([rnn,cnn])
 
-        bandData_valid[q,i] = 1
+        bandData_valid[q,i] = np.int8(rdnPad[r,c,q] > 0.0) # a flat transform has no peaks
 
     return bandData_max,bandData_avemax,bandData_maxloc,bandData_aveloc, bandData_valid, bandData_width
   def _display_radon_pattern(self, rdnConvarray, bandData, patterns):
-- 
2.43.0


From 8386d9aa7e036c51d22b8fe046ea980c2eee2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 36/48] fix: invalid bands took part in the assignment of bands
 to poles and in the number of matches

---
 pyebsdindex/tripletvote.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index c8cd6db..5015d2b 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -553,7 +553,7 @@ class BandIndexer():
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
-      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
+      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1233,7 +1233,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1255,6 +1255,7 @@ class BandIndexer():
 
     for p in range(npats):
       bndnorm = np.transpose(np.asarray(bandnorms[p,...], dtype=np.float32))
+      validband = band_intensity[p,:] >= 1e-6 # as in the vote
       R = np.zeros((1, 3, 3), dtype=np.float32)
       fit = np.float32(360.0)
       #fit = np.float32(360.0)
@@ -1268,6 +1269,8 @@ class BandIndexer():
 
           bnd1 = bandRank_arg[p, -1 - ii]
           bnd2 = bandRank_arg[p, -1 - jj]
+          if not (validband[bnd1] and validband[bnd2]):
+            continue
 
           v1 = bandnorms[p, bnd1,:]
           f1 = bandFam[p, bnd1]
@@ -1340,6 +1343,8 @@ class BandIndexer():
               angfitTry[j] = np.max(test[:,j])
               angfitTry[j] = -1.0 if angfitTry[j] < -1.0 else angfitTry[j]
               angfitTry[j] =  1.0 if angfitTry[j] >  1.0 else angfitTry[j]
+              if not validband[j]:
+                angfitTry[j] = -1.0
 
             #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
 
-- 
2.43.0


From 170f8585e1b0ea5e949528495425deacd9066eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 37/48] fix: the vote of a phase with a single reflector family
 read outside its array

---
 pyebsdindex/tripletvote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 5015d2b..5f3f36a 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1159,6 +1159,8 @@ class BandIndexer():
       #for i in range(n_bands):
         if tvotes[p,q] < 1:
           band_cm[p,q] = 0.0
+        elif nfam < 2: # no other family to compare with
+          band_cm[p,q] = accumulatorW[p,0,q] / (tvotes[p,q])
         else:
           srt = np.argsort(accumulatorW[p,:,q])
           band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
-- 
2.43.0


From 24f1f2eeeb10c3a38704f70c58e3480c0ecbfe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 38/48] fix: BandDetect could not be created with a pattern
 mask

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 37209f3..c31f8a4 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -118,11 +118,11 @@ class BandDetect():
         self.patDim = np.asarray(patDim)
       patternmask = None
       if 'patternmask' in kwargs :
-        self.patternmask = kwargs.get('patternmask')
+        self.patternmask = kwargs.pop('patternmask')
 
       patternmaskindex = None
       if 'patternmaskindex' in kwargs:
-        patternmaskindex = kwargs.get('patternmaskindex')
+        patternmaskindex = kwargs.pop('patternmaskindex')
       #print(patternmask)
       self.band_detect_setup(patterns, self.patDim,self.nTheta,self.nRho,\
                              self.tSigma, self.rSigma,self.rhoMaskFrac,self.nBands,
-- 
2.43.0


From a0dd7a15c71f721e0f097b8f461288caf3c35fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 39/48] fix: the even stride of a background from a file failed

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index c31f8a4..9f91c2f 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -316,7 +316,7 @@ class BandDetect():
         stride = np.sort(stride)
       elif method.upper() == 'EVENSTRIDE':
         step = int(npats / nsample) # not great, but maybe good enough.
-        stride = np.arange(0,npats, step, dypte = np.uint64)
+        stride = np.arange(0,npats, step, dtype = np.uint64)
       pat1 = fileobj.read_data(convertToFloat=True,patStartCount=[stride[0], 1],returnArrayOnly=True)[0]
       for i in stride[1:]:
         pat1 += fileobj.read_data(convertToFloat=True,patStartCount=[i, 1],returnArrayOnly=True)[0]
-- 
2.43.0


From e71b833fe059f3159151f6bb25fe4136d42281d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 40/48] fix: a swarm of a single iteration divided by zero

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..d1d5cae 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -531,7 +531,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From cbf768d037770ff92d1278d08cb02d4b77f6651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 41/48] fix: EMSOFT pattern centres were converted with the
 wrong scale for patterns that are not square, and changed in place, when
 optimized

---
 pyebsdindex/pcopt.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index d1d5cae..9b35309 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -127,8 +127,8 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EDAX"
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
-        PCtemp = PC0[0:3]
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        PCtemp = np.array(PC0[0:3], dtype=float)
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
@@ -161,7 +161,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EMSOFT"
         indexer.PC = delta
         patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
@@ -270,11 +270,13 @@ def optimize_pso(
         emsoftflag = True
         indexer.vendor = "EDAX"
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        patDim = np.array(indexer.bandDetectPlan.patDim)
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
+        PCtemp = np.array(PC0[0:3], dtype=float)
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
+        PCtemp /= patdimnorm
         PCtemp[2] /= delta[3]
         PC0 = np.array(PCtemp)
 
@@ -337,7 +339,7 @@ def optimize_pso(
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
             PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[:, 0] *= -1.0
             PCoutRet[:, 2] *= delta[3]
@@ -347,7 +349,7 @@ def optimize_pso(
         else:
             newout = np.zeros(4)
             PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:3] *= patdimnorm
             PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[0] *= -1.0
             PCoutRet[2] *= delta[3]
-- 
2.43.0


From 94d3d254da5f60455a7829b5357a1a2a6eac512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 42/48] fix: writeoh5 did not mark unindexed points, or changed
 the confidence of the data in memory

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..7af5bb4 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = data[-1]['cm'].copy()
+      wh = np.nonzero(data[-1]['phase'] < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From fb7ab4e54eea03ae705cedce0ed88db9b1f7b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 43/48] fix: writeoh5 failed without the number of rows and
 wrote positions of points that do not exist

---
 pyebsdindex/ebsdfile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 7af5bb4..6018209 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
@@ -238,9 +238,9 @@ def writeoh5(filename, indexer, data,
       npoints = data[-1].shape[-1]
 
       eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      phi1 = eulers[:,0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
@@ -272,8 +272,8 @@ def writeoh5(filename, indexer, data,
       f.create_dataset(datasetname + '/EBSD/Data/CI',
                        data=(ci).astype(np.float32))
 
-      x = (np.arange(ncols[0] * nrows[0], dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
-      y = (np.arange(ncols[0] * nrows[0], dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
+      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
+      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
 
       f.create_dataset(datasetname + '/EBSD/Data/X Position', data=x)
       f.create_dataset(datasetname + '/EBSD/Data/Y Position', data=y)
-- 
2.43.0


From 2ea2d514e73ac6c3e95e45661f6398cc9a3e449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 44/48] fix: results of a single point could not be exported

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 6018209..c7f8a45 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -237,7 +237,7 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
+      eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
       phi1 = eulers[:,0].astype(np.float32)
       phi = eulers[:, 1].astype(np.float32)
       phi2 = eulers[:, 2].astype(np.float32)
-- 
2.43.0


From 04fdb4e48d4c1350fe6b7e3b62fce05da2467bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 45/48] fix: a single orientation could not be coloured

---
 pyebsdindex/EBSDImage/IPFcolor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..682855f 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase).reshape(npoints,3)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
@@ -110,10 +110,10 @@ def qu2ipf_cubic(quats, vector=np.array([0,0,1.0])):
 def ipf_color_cubic(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,-1))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
@@ -258,10 +258,10 @@ def qu2ipf_hex(quats, vector=np.array([0,0,1.0])):
 def ipf_color_hex(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,-1))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv[xstalv[:, 2] < 0, :] *= -1
-- 
2.43.0


From 49e0078db32f06d4c24a2acf15ed881c2b5af188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 46/48] fix: cubic IPF colours depended on the length of the
 sample direction

---
 pyebsdindex/EBSDImage/IPFcolor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index 682855f..8aefa43 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -115,6 +115,7 @@ def ipf_color_cubic(xstalvect):
     xstalv = np.copy(xstalvect)
   npoints = xstalv.shape[0]
 
+  xstalv = xstalv / np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
   # project to sterographic triangle
-- 
2.43.0


From 8337f49303f498a2e64cf793cdb6c3aedb1f5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 47/48] fix: a restarted job was done and counted twice, so
 distributed indexing ended before all patterns were done

---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index d06f84c..d21f680 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -617,6 +617,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From 6a5a21c5c4ba9e49cfc5ca40fbbfdcc7b7f8256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 48/48] fix: hex3poles2hex4poles overflowed for unsigned and
 small integer types

---
 pyebsdindex/crystal_sym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/crystal_sym.py b/pyebsdindex/crystal_sym.py
index fa0bd79..68429d7 100644
--- a/pyebsdindex/crystal_sym.py
+++ b/pyebsdindex/crystal_sym.py
@@ -479,5 +479,5 @@ def hex3poles2hex4poles(poles):
   poles4[:,0] = poles3[:,0]
   poles4[:, 1] = poles3[:, 1]
   poles4[:, 3] = poles3[:, 2]
-  poles4[:, 2] = - (poles3[:,0] + poles3[:,1])
+  poles4[:, 2] = - (poles4[:,0] + poles4[:,1]) # the sum could overflow in a small or unsigned integer type
   return poles4
\ No newline at end of file
-- 
2.43.0

