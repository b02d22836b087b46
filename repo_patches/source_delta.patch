From 4f7463f6daf08b3d562c4fffa284f764e24b71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 01/12] fix: missing term in the fourth derivatives of rational
 functions

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..89a0047 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -938,7 +938,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From b1a59bb126b67d3e2060063ab6f67258c34b061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 02/12] fix: knot insertion and extraction at the right end of
 unclamped axes and next to existing knots

---
 igakit/igalib.f90 | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 89a0047..6f8cd25 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -49,6 +49,11 @@ subroutine FindSpanMult(n,p,uu,U,k,s)
   integer(kind=4), intent(out) :: k, s
   k = FindSpan(n,p,uu,U)
   s = FindMult(k,uu,p,U)
+  ! k is the index of the last knot matching uu
+  do while (k < n+p+1)
+     if (abs(uu - U(k+1)) >= epsilon(uu)) exit
+     k = k + 1
+  end do
 end subroutine FindSpanMult
 
 subroutine BasisFuns(i,uu,p,U,N)
@@ -196,16 +201,15 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
      s = FindMult(n,uu,p,U)
+     k = n+s
      if (s >= p) then
         Cw(:) = Pw(:,n)
         return
      end if
   else
      uu = x
-     k = FindSpan(n,p,uu,U)
-     s = FindMult(k,uu,p,U)
+     call FindSpanMult(n,p,uu,U,k,s)
      if (s >= p) then
         Cw(:) = Pw(:,k-p)
         return
@@ -1125,7 +1129,11 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
-  call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
+  if (s > 0) then
+     call InsKnt(d,n,p,U,Pw,U(k),k,s,r,V,Qw)
+  else
+     call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
+  end if
 end subroutine InsertKnot
 
 subroutine RemoveKnot(d,n,p,U,Pw,uu,r,t,V,Qw,TOL)
-- 
2.43.0


From 620535ad92385e30797db2efb147e1addc55603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 03/12] fix: knots inserted at the ends of unclamped axes

---
 igakit/nurbs.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..df05edb 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -786,7 +786,12 @@ class NURBS(object):
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         V, Qw = InsertKnot(p, U, Pw, value, times)
-        Qw.shape = (Qw.shape[0], ) + shape[1:]
+        # at the ends of an unclamped axis, drop what is left
+        # outside the domain to not end up with empty end spans
+        i = V.searchsorted(U[p], 'r') - 1 - p
+        j = V.searchsorted(U[-p-1], 'l') + p + 1
+        V, Qw = V[i:j].copy(), Qw[i:j-p-1]
+        Qw = Qw.reshape((Qw.shape[0], ) + shape[1:])
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
@@ -1070,6 +1075,13 @@ class NURBS(object):
         p = self.degree[axis]
         U = self.knots[axis]
         u = Arg(p, U, values)
+        # knots at the ends of an unclamped axis
+        for end in (U[p], U[-p-1]):
+            times = np.count_nonzero(u == end)
+            if times: self.insert(axis, end, times)
+        U = self.knots[axis]
+        u = u[(u > U[p]) & (u < U[-p-1])]
+        if u.size == 0: return self
         array = self.array.view()
         knots = list(self.knots)
         #
-- 
2.43.0


From 460d56a1980635ddf40d54ab8cf59b8dc4aaf53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 04/12] fix: slice at a value next to an existing knot

---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index df05edb..48312e6 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1250,9 +1250,11 @@ class NURBS(object):
         u0 = start
         k0, s0 = FindSpanMult(p,U,u0)
         t0 = max(0, p-s0)
+        if s0 > 0: u0 = U[k0]
         u1 = end
         k1, s1 = FindSpanMult(p,U,u1)
         t1 = max(0, p-s1)
+        if s1 > 0: u1 = U[k1]
         u = np.repeat([u0,u1],[t0,t1]).astype('d')
         #
         nrb = self.clone()
-- 
2.43.0


From 9dbe12dcdf77a1d0f2d02331535bef980c66c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 05/12] fix: refine must not sort the caller's array in place

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 48312e6..579e07d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1059,7 +1059,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From f84d7382f2969966d105c6f0e71f761473655934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 06/12] fix: degree elevation of unclamped objects

---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 579e07d..07ea5bc 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1166,6 +1166,8 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
+        # degree elevation is for clamped knot vectors
+        U, Pw = _bsp.Clamp(p, U, Pw, True, True)
         V, Qw = DegreeElevate(p, U, Pw, t)
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From 0d00dc8e459039c87ae35ae09ad85d056ab782cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 07/12] fix: count nonempty knot spans as SpanIndex finds them

---
 igakit/igalib.pyf | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..6676e00 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -2,12 +2,14 @@
 
 python module igalib
 usercode '''
+#include <float.h>
+
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
   for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
+    double du = U[i+1]-U[i];
+    if (du > DBL_EPSILON || -du > DBL_EPSILON) spans++;
   }
   return spans;
 }
-- 
2.43.0


From dd75b0ae07499452ae53f9cdd424aa3cf94d0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 08/12] fix: knot removal tolerance used the last field as
 weight

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 07ea5bc..dd36067 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -872,7 +872,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
+        wmin = self.weights.min()
         Pmax = []
         for i in range(Pw.shape[0]):
             Pmax.append(np.linalg.norm(Pw[i,:-1]))
-- 
2.43.0


From 11fdb72c4568c579bcbbbe26e07153cf705b9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 09/12] fix: join when the second domain does not start at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..0224aa2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -637,7 +637,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, u+(b-a))
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From d5286ae6c9c4b4d3726774ae02510875afd7fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 10/12] fix: revolve around an axis opposite to z

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 0224aa2..19c652e 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if not np.any(n): n[0] = 1 # v is parallel to z
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From 61bdd66ce8597a79278c23c48aa12b41550f90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 11/12] fix: compat of unclamped objects

---
 igakit/cad.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 19c652e..dd8f1a2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -322,6 +322,18 @@ def compat(*nurbs, **kargs):
                 a, b = Umin[j], Umax[j]
                 nrb.remap(axis, a, b)
     #
+    def SameEnds(nurbs, axes):
+        # Clamp the axes whose knot vectors differ, degrees
+        # and inner knots cannot be matched on unclamped axes
+        for axis in axes:
+            p, U = nurbs[0].degree[axis], nurbs[0].knots[axis]
+            same = [nrb.degree[axis] == p and
+                    np.array_equal(nrb.knots[axis], U)
+                    for nrb in nurbs]
+            if all(same): continue
+            for nrb in nurbs:
+                nrb.clamp(axis)
+    #
     def SameDegree(nurbs, axes):
         # Ensure same degree by degree elevation
         degree = [nrb.degree for nrb in nurbs]
@@ -383,6 +395,7 @@ def compat(*nurbs, **kargs):
     if not axes: return nurbs
     #
     SameBounds(nurbs, axes)
+    SameEnds(nurbs, axes)
     SameDegree(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
-- 
2.43.0


From 032de8e89e63a58b6006cb13b92de3bb2f5abe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 12/12] fix: mapped higher derivatives terminated the process

---
 igakit/nurbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index dd36067..94269e1 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1637,6 +1637,7 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        assert not mapped # not supported
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1706,6 +1707,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        assert order >= 1 and order <= 4
+        assert order == 1 or not mapped # not supported
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1719,7 +1722,6 @@ class NURBS(object):
         arglist.append(F)
         arglist.extend(uvw)
         #
-        assert order >= 1 and order <= 4
         fn = ['Gradient', 'Hessian', 'ThirdDer', 'FourthDer'][order-1]
         Derivative = getattr(_bsp, '%s%d' % (fn, self.dim))
         D = Derivative(*arglist)
-- 
2.43.0

