From f6fba062fa4ce58e4dcb7f72cb9da2a3bdd0f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 001/193] fix: SVG arcs left an inverted current point for the
 following tangent arc

---
 pyx/path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..22bc00c 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -681,8 +681,7 @@ class arc_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -778,8 +777,7 @@ class arcn_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 8f0cb2b6b32a9e91e4364fe9e6e7249b1af745d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 002/193] fix: missing comma in the string representation of
 rlineto

---
 pyx/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/path.py b/pyx/path.py
index 22bc00c..860c899 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -514,7 +514,7 @@ class rlineto_pt(pathitem):
         self.dy_pt = dy_pt
 
     def __str__(self):
-        return "rlineto_pt(%g %g)" % (self.dx_pt, self.dy_pt)
+        return "rlineto_pt(%g, %g)" % (self.dx_pt, self.dy_pt)
 
     def updatebbox(self, bbox, context):
         bbox.includepoint_pt(context.x_pt + self.dx_pt, context.y_pt + self.dy_pt)
-- 
2.43.0


From 03bb6134fd077991760a92c1fe56c1e3514b77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 003/193] fix: tangent arcs with collinear or coinciding points
 failed

---
 pyx/path.py | 65 ++++++++++++++++++++---------------------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 860c899..0d85a4e 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
-from math import cos, sin, tan, acos, pi, radians, degrees
+from math import cos, sin, tan, pi, radians, degrees
 from . import trafo, unit
 from .normpath import NormpathException, normpath, normsubpath, normline_pt, normcurve_pt
 from . import bbox as bboxmodule
@@ -811,55 +811,38 @@ class arct_pt(pathitem):
         # direction of tangent 1
         dx1_pt, dy1_pt = self.x1_pt-x_pt, self.y1_pt-y_pt
         l1_pt = math.hypot(dx1_pt, dy1_pt)
-        dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
 
         # direction of tangent 2
         dx2_pt, dy2_pt = self.x2_pt-self.x1_pt, self.y2_pt-self.y1_pt
         l2_pt = math.hypot(dx2_pt, dy2_pt)
-        dx2, dy2 = dx2_pt/l2_pt, dy2_pt/l2_pt
+
+        # (twice) the area spanned by the two tangents
+        area_pt = dx1_pt*dy2_pt-dy1_pt*dx2_pt
+
+        if abs(area_pt) <= 1e-12*l1_pt*l2_pt:
+            # in the degenerate case, we just return a line as specified by the PS
+            # language reference
+            return [lineto_pt(self.x1_pt, self.y1_pt)]
+
+        dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
 
         # intersection angle between two tangents in the range (-pi, pi).
-        # We take the orientation from the sign of the vector product.
         # Negative (positive) angles alpha corresponds to a turn to the right (left)
         # as seen from currentpoint.
-        if dx1*dy2-dy1*dx2 > 0:
-            alpha = acos(dx1*dx2+dy1*dy2) 
-        else:
-            alpha = -acos(dx1*dx2+dy1*dy2) 
-
-        try:
-            # two tangent points
-            xt1_pt = self.x1_pt - dx1*self.r_pt*tan(abs(alpha)/2)
-            yt1_pt = self.y1_pt - dy1*self.r_pt*tan(abs(alpha)/2)
-            xt2_pt = self.x1_pt + dx2*self.r_pt*tan(abs(alpha)/2)
-            yt2_pt = self.y1_pt + dy2*self.r_pt*tan(abs(alpha)/2)
-
-            # direction point 1 -> center of arc
-            dmx_pt = 0.5*(xt1_pt+xt2_pt) - self.x1_pt
-            dmy_pt = 0.5*(yt1_pt+yt2_pt) - self.y1_pt
-            lm_pt = math.hypot(dmx_pt, dmy_pt)
-            dmx, dmy = dmx_pt/lm_pt, dmy_pt/lm_pt
-
-            # center of arc
-            mx_pt = self.x1_pt + dmx*self.r_pt/cos(alpha/2)
-            my_pt = self.y1_pt + dmy*self.r_pt/cos(alpha/2)
-
-            # angle around which arc is centered
-            phi = degrees(math.atan2(-dmy, -dmx))
-
-            # half angular width of arc
-            deltaphi = degrees(alpha)/2
-
-            line = lineto_pt(*_arcpoint(mx_pt, my_pt, self.r_pt, phi-deltaphi))
-            if alpha > 0:
-                return [line, arc_pt(mx_pt, my_pt, self.r_pt, phi-deltaphi, phi+deltaphi)]
-            else:
-                return [line, arcn_pt(mx_pt, my_pt, self.r_pt, phi-deltaphi, phi+deltaphi)]
+        alpha = math.atan2(area_pt, dx1_pt*dx2_pt+dy1_pt*dy2_pt)
 
-        except ZeroDivisionError:
-            # in the degenerate case, we just return a line as specified by the PS 
-            # language reference
-            return [lineto_pt(self.x1_pt, self.y1_pt)]
+        # first tangent point
+        xt1_pt = self.x1_pt - dx1*self.r_pt*tan(abs(alpha)/2)
+        yt1_pt = self.y1_pt - dy1*self.r_pt*tan(abs(alpha)/2)
+        line = lineto_pt(xt1_pt, yt1_pt)
+
+        # the center of the arc is at the left (right) of the first tangent point
+        if alpha > 0:
+            phi = degrees(math.atan2(-dx1, dy1))
+            return [line, arc_pt(xt1_pt-dy1*self.r_pt, yt1_pt+dx1*self.r_pt, self.r_pt, phi, phi+degrees(alpha))]
+        else:
+            phi = degrees(math.atan2(dx1, -dy1))
+            return [line, arcn_pt(xt1_pt+dy1*self.r_pt, yt1_pt-dx1*self.r_pt, self.r_pt, phi, phi+degrees(alpha))]
 
     def updatebbox(self, bbox, context):
         for pathitem in self._pathitems(context.x_pt, context.y_pt):
-- 
2.43.0


From be749a2d1d30de2c42ee937bf4037cd5b7b30a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 004/193] fix: arcs ending a full turn before their start were
 full circles in PDF and SVG but empty in PS

---
 pyx/path.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 0d85a4e..491b4e4 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -93,17 +93,17 @@ def _arctobcurve(x_pt, y_pt, r_pt, phi1, phi2):
 def _arctobezierpath(x_pt, y_pt, r_pt, phi1, phi2, dphimax=45):
     apath = []
 
+    if phi2<phi1:
+        # guarantee that phi2>=phi1 ...
+        phi2 = phi2 + math.ceil((phi1-phi2)/360)*360
+    elif phi2>phi1+360:
+        # ... or remove unnecessary multiples of 360 degree
+        phi2 = phi2 - (math.floor((phi2-phi1)/360)-1)*360
+
     phi1 = radians(phi1)
     phi2 = radians(phi2)
     dphimax = radians(dphimax)
 
-    if phi2<phi1:
-        # guarantee that phi2>phi1 ...
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
-    elif phi2>phi1+2*pi:
-        # ... or remove unnecessary multiples of 2*pi
-        phi2 = phi2 - (math.floor((phi2-phi1)/(2*pi))-1)*2*pi
-
     if r_pt == 0 or phi1-phi2 == 0: return []
 
     subdivisions = int((phi2-phi1)/dphimax)+1
@@ -133,8 +133,8 @@ def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
     # on the borders of this interval or in the interior.
 
     if phi2 < phi1:
-        # guarantee that phi2>phi1
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
+        # guarantee that phi2>=phi1
+        phi2 = radians(angle2 + math.ceil((angle1-angle2)/360)*360)
 
     # next minimum of cos(phi) looking from phi1 in counterclockwise
     # direction: 2*pi*floor((phi1-pi)/(2*pi)) + 3*pi
@@ -664,9 +664,9 @@ class arc_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle2-angle1 < 2*360
+        # make 0 <= angle2-angle1 < 2*360
         if angle2 < angle1:
-            angle2 += (math.floor((angle1-angle2)/360)+1)*360
+            angle2 += math.ceil((angle1-angle2)/360)*360
         elif angle2 > angle1 + 360:
             angle2 -= (math.floor((angle2-angle1)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
@@ -760,9 +760,9 @@ class arcn_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle1-angle2 < 2*360
+        # make 0 <= angle1-angle2 < 2*360
         if angle1 < angle2:
-            angle1 += (math.floor((angle2-angle1)/360)+1)*360
+            angle1 += math.ceil((angle2-angle1)/360)*360
         elif angle1 > angle2 + 360:
             angle1 -= (math.floor((angle1-angle2)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
-- 
2.43.0


From 405065159dce0f47cef32557fb5b39f7451c7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 005/193] fix: path elements following a closepath start at the
 beginning of the closed subpath

---
 pyx/path.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyx/path.py b/pyx/path.py
index 491b4e4..b350b26 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -290,6 +290,12 @@ class pathitem:
 #  - another which accepts arbitrary units
 
 
+def _reopen(normpath, context):
+    """start a new subpath at the current point when the last one has been closed"""
+    if normpath.normsubpaths[-1].closed:
+        moveto_pt(context.x_pt, context.y_pt).updatenormpath(normpath, context)
+
+
 class closepath(pathitem):
 
     """Connect subpath back to its starting point"""
@@ -312,6 +318,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
@@ -394,6 +402,7 @@ class lineto_pt(pathitem):
         context.y_pt = self.y_pt
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
                                                      self.x_pt, self.y_pt))
         context.x_pt = self.x_pt
@@ -438,6 +447,7 @@ class curveto_pt(pathitem):
         context.y_pt = self.y3_pt
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
                                                       self.x1_pt, self.y1_pt,
                                                       self.x2_pt, self.y2_pt,
@@ -522,6 +532,7 @@ class rlineto_pt(pathitem):
         context.y_pt += self.dy_pt
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
                                                      context.x_pt + self.dx_pt, context.y_pt + self.dy_pt))
         context.x_pt += self.dx_pt
@@ -572,6 +583,7 @@ class rcurveto_pt(pathitem):
         context.y_pt += self.dy3_pt
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
                                                       context.x_pt + self.dx1_pt, context.y_pt + self.dy1_pt,
                                                       context.x_pt + self.dx2_pt, context.y_pt + self.dy2_pt,
@@ -986,6 +998,7 @@ class multilineto_pt(pathitem):
             context.x_pt, context.y_pt = self.points_pt[-1]
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
             normpath.normsubpaths[-1].append(normline_pt(x0_pt, y0_pt, *point_pt))
@@ -1028,6 +1041,7 @@ class multicurveto_pt(pathitem):
             context.x_pt, context.y_pt = point_pt[4:]
 
     def updatenormpath(self, normpath, context):
+        _reopen(normpath, context)
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
             normpath.normsubpaths[-1].append(normcurve_pt(x0_pt, y0_pt, *point_pt))
-- 
2.43.0


From 3b8a5c88812939cbb6b05d7a13a841313f1123dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 006/193] fix: path.rotation_pt and path.trafo_pt interpreted
 numbers as user units

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index b350b26..5903bbc 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1247,7 +1247,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1279,7 +1279,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From cff6c2c9dd71fe845c229e90971de7a407c3be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 007/193] fix: division of a normpathparam did not work

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..af003c9 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1494,7 +1494,7 @@ class normpathparam:
 
     __rmul__ = __mul__
 
-    def __div__(self, divisor):
+    def __truediv__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
     def __neg__(self):
-- 
2.43.0


From f6768ab2d98189876ba785a112c3f1f296198947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 008/193] fix: tuples of arc lengths were rejected as path
 parameters

---
 pyx/normpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index af003c9..dda8fdc 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -986,7 +986,7 @@ class normsubpath:
     def _arclentoparam_pt(self, lengths_pt):
         """return a tuple of params and the total length arc length in pts"""
         # work on a copy which is counted down to negative values
-        lengths_pt = lengths_pt[:]
+        lengths_pt = list(lengths_pt)
         results = [None] * len(lengths_pt)
 
         totalarclen = 0
@@ -1594,7 +1594,7 @@ class normpath:
                 converttoparams.append(param)
                 convertparamindices.append(i)
         if converttoparams:
-            params = params[:]
+            params = list(params)
             for i, param in zip(convertparamindices, convertmethod(converttoparams)):
                 params[i] = param
         return params
@@ -1648,7 +1648,7 @@ class normpath:
     def _arclentoparam_pt(self, lengths_pt):
         """return the params matching the given lengths_pt"""
         # work on a copy which is counted down to negative values
-        lengths_pt = lengths_pt[:]
+        lengths_pt = list(lengths_pt)
         results = [None] * len(lengths_pt)
 
         for normsubpathindex, normsubpath in enumerate(self.normsubpaths):
-- 
2.43.0


From 36a8df4d3abf63b4efcfcfec2af36ec44edaad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 009/193] fix: arc lengths of unordered parameters on a curve
 were wrong

---
 pyx/normpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index dda8fdc..a3538d9 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,10 +582,12 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + list(params) + [1])]
-        for i in range(1, len(arclens_pt)):
-            arclens_pt[i] += arclens_pt[i-1]
-        return arclens_pt[:-1], arclens_pt[-1]
+        # each arc length is measured from the beginning as params do not need to be ordered
+        arclens_pt = []
+        for param in params:
+            arclen_pt = self.segments([0, param])[0].arclen_pt(epsilon)
+            arclens_pt.append(arclen_pt if param >= 0 else -arclen_pt)
+        return arclens_pt, self.arclen_pt(epsilon)
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From e58dd46bc0cbc4b1fa6e2e2fedd1f6c7db7b787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 010/193] fix: subtracting a path parameter from a length went
 through a parameter outside the path

---
 pyx/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/unit.py b/pyx/unit.py
index f1fa6bf..461d297 100644
--- a/pyx/unit.py
+++ b/pyx/unit.py
@@ -165,7 +165,7 @@ class length:
             try:
                 other = length(other)
             except Exception:
-                return -other + self
+                return NotImplemented
         result = length()
         result.t = self.t - other.t
         result.u = self.u - other.u
-- 
2.43.0


From 30358c64ac0f2659e00b7694a2fe55979fb41183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 011/193] fix: pieces of split and joined paths shared subpaths
 with the original path

---
 pyx/normpath.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index a3538d9..2d17dc7 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1320,7 +1320,7 @@ class normsubpath:
             raise ValueError("at least two parameters needed in segments")
         if not self.normsubpathitems:
             assert not self.closed # "empty" normsubpath cannot be closed
-            return [self]*(len(params)-1)
+            return [self.copy() for i in range(len(params)-1)]
 
         result = [normsubpath(epsilon=self.epsilon)]
 
@@ -1796,7 +1796,7 @@ class normpath:
         if not other.normsubpaths:
             raise NormpathException("cannot join empty path")
         self.normsubpaths[-1].join(other.normsubpaths[0])
-        self.normsubpaths.extend(other.normsubpaths[1:])
+        self.normsubpaths.extend([normsubpath.copy() for normsubpath in other.normsubpaths[1:]])
 
     def joined(self, other):
         """return joined self and other
@@ -1897,14 +1897,14 @@ class normpath:
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i])
+                            result[-1].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
                             result[-1].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
-                    result = [normpath(self.normsubpaths[:param.normsubpathindex])]
+                    result = [normpath([normsubpath.copy() for normsubpath in self.normsubpaths[:param.normsubpathindex]])]
                     collectparams = [0]
                 collectindex = param.normsubpathindex
             collectparams.append(param.normsubpathparam)
@@ -1913,7 +1913,7 @@ class normpath:
         segments = self.normsubpaths[collectindex].segments(collectparams)
         result[-1].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend(self.normsubpaths[collectindex+1:])
+        result[-1].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From d5fb629da656de76e79e9bba6e8e26f9a9b86457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 012/193] fix: middle of a short line was computed from mixed
 coordinates when intersecting

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 2d17dc7..93b46c6 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -225,7 +225,7 @@ class normline_pt(normsubpathitem):
                 # account.
                 if short_self:
                     sx_pt = 0.5*(self.x0_pt + self.x1_pt)
-                    sy_pt = 0.5*(self.y0_pt + self.x1_pt)
+                    sy_pt = 0.5*(self.y0_pt + self.y1_pt)
                 if short_other:
                     ox_pt = 0.5*(other.x0_pt + other.x1_pt)
                     oy_pt = 0.5*(other.y0_pt + other.y1_pt)
-- 
2.43.0


From 5ff937888613cc7deac13e1db0808e6f0c6ebc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 013/193] fix: mirror used the line with the negative of the
 given direction

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..d4997f8 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+              2*math.sin(phi)*math.cos(phi)                 ),
+             (2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From 93dfedb644790703424374bae02178962e5eac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 014/193] fix: slant did neither keep the given point nor use
 the given direction

---
 pyx/trafo.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index d4997f8..4aea527 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -228,18 +228,22 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(angle, x, y) )
+        t = rotate_pt(angle) * trafo_pt(matrix=((1, a), (0, 1))) * rotate_pt(-angle)
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            t = translate_pt(x, y) * t * translate_pt(-x, -y)
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class slant(trafo):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate(angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        t = rotate_pt(angle) * trafo_pt(matrix=((1, a), (0, 1))) * rotate_pt(-angle)
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            t = translate(x, y) * t * translate(-x, -y)
+        trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From afa43241e6c6850660e8ebea995e7585a06e489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 015/193] fix: incomplete transformation centers raised a
 NameError

---
 pyx/trafo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 4aea527..bc694d8 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -23,6 +23,10 @@
 import math
 from . import attr, baseclasses, unit
 
+class TrafoException(Exception):
+    pass
+
+
 # some helper routines
 
 def _rmatrix(angle):
-- 
2.43.0


From 95002b40405cf6b8f790841d535c84ce13e17341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 016/193] fix: adding a foreign object to a length recursed
 infinitely

---
 pyx/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/unit.py b/pyx/unit.py
index 461d297..b68edb0 100644
--- a/pyx/unit.py
+++ b/pyx/unit.py
@@ -146,7 +146,7 @@ class length:
             try:
                 other = length(other)
             except Exception:
-                return other + self
+                return NotImplemented
         result = length()
         result.t = self.t + other.t
         result.u = self.u + other.u
-- 
2.43.0


From 9f71e3a9d355d07f017582747b8405ed525a2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 017/193] fix: the intersection of disjoint bounding boxes was
 an inverted box instead of an empty one

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..c1a2b67 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,13 +83,13 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
-            self.llx_pt = None
+        else:
+            self.set(empty())
         return self
 
     def copy(self):
-- 
2.43.0


From 38ab5d84f241f9a6dca7d7080e2b15dbe238d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 018/193] fix: pages without any content could not be written
 to PDF

---
 pyx/pdfwriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..0c895c7 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -290,8 +290,11 @@ class PDFpage(PDFobject):
         paperformat = self.page.paperformat
         if paperformat:
             file.write("/MediaBox [0 0 %f %f]\n" % (unit.topt(paperformat.width), unit.topt(paperformat.height)))
-        else:
+        elif self.pdfcontent.bbox:
             file.write("/MediaBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
+        else:
+            # the media box is mandatory, even if there is nothing on the page
+            file.write("/MediaBox [0 0 1 1]\n")
         if self.pdfcontent.bbox and writer.writebbox:
             file.write("/CropBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
         if self.page.rotated:
-- 
2.43.0


From ca9476b5ac9242233bb3cf057cc5940acc368392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 019/193] fix: fill rules given to the filled decorator were
 ignored in PostScript and PDF

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..32937d5 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                fcontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                fcontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -247,7 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -257,11 +259,12 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                fcontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From ec78a72b3879269250737ec01d063914d9b41d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 020/193] fix: SVG output painted strokes below fills and let
 stroke and fill styles leak into arrow heads

---
 pyx/deco.py | 68 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 32937d5..494a9d5 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -320,55 +320,59 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
+        # stroke and fill styles must neither influence each other nor the ornaments
+        scontext = acontext()
+        fcontext = acontext()
+
         if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
+            # like in PS and PDF the filling is done first
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
-                _writefillstyles(attrs, acontext)
-                attrs["fill"] = acontext.fillcolor
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
+                _writefillstyles(attrs, fcontext)
+                attrs["fill"] = fcontext.fillcolor
+                if fcontext.fillopacity != 1:
+                    attrs["opacity"] = "%f" % fcontext.fillopacity
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
                 bbox += fillpath.bbox()
+            if self.strokestyles is not None:
+                attrs = {"d": strokepath.returnSVGdata()}
+                _writestrokestyles(attrs, scontext)
+                attrs["stroke"] = scontext.strokecolor
+                if scontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % scontext.strokeopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                bbox += strokepath.bbox().enlarged_pt(0.5*scontext.linewidth_pt)
         else:
             attrs = {"d": fillpath.returnSVGdata()}
-            _writestrokestyles(attrs, acontext)
-            _writefillstyles(attrs, acontext)
+            _writestrokestyles(attrs, scontext)
+            _writefillstyles(attrs, fcontext)
             if self.strokestyles is not None:
-                attrs["stroke"] = acontext.strokecolor
+                attrs["stroke"] = scontext.strokecolor
             if self.fillstyles is not None:
-                attrs["fill"] = acontext.fillcolor
-            if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
+                attrs["fill"] = fcontext.fillcolor
+            if scontext.strokeopacity != fcontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
+                fillattrs = dict(attrs)
+                if fcontext.fillopacity != 1:
+                    fillattrs["opacity"] = "%f" % fcontext.fillopacity
+                fillattrs["stroke"] = "none"
+                xml.startSVGElement("path", fillattrs)
                 xml.endSVGElement("path")
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                attrs["stroke"] = "none"
-                attrs["fill"] = acontext.fillcolor
+                if scontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % scontext.strokeopacity
+                attrs["fill"] = "none"
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
             else:
-                if acontext.strokeopacity != 1 and self.strokestyles is not None:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                if acontext.fillopacity != 1 and self.fillstyles is not None:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
+                if scontext.strokeopacity != 1 and self.strokestyles is not None:
+                    attrs["opacity"] = "%f" % scontext.strokeopacity
+                if fcontext.fillopacity != 1 and self.fillstyles is not None:
+                    attrs["opacity"] = "%f" % fcontext.fillopacity
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
             if self.strokestyles is not None:
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
+                bbox += strokepath.bbox().enlarged_pt(0.5*scontext.linewidth_pt)
             else:
                 bbox += strokepath.bbox()
 
-- 
2.43.0


From 3106c1e827719152e27160847659b76a0ff03adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 021/193] fix: clearing attributes were rejected by the canvas
 constructor and the shownormpath decorator

---
 pyx/attr.py   | 3 ++-
 pyx/canvas.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/attr.py b/pyx/attr.py
index 83306cb..0ae7651 100644
--- a/pyx/attr.py
+++ b/pyx/attr.py
@@ -61,8 +61,9 @@ def refineattrs(attrs, defaults, allowedclasses, allow_none=True):
     # TODO the whole attribute handling needs some major documentation
     if allow_none and attrs is None:
         return None
+    attrs = mergeattrs(defaults + attrs) # perform cleans
     checkattrs(attrs, allowedclasses)
-    return mergeattrs(defaults + attrs)
+    return attrs
 
 #
 # attr class and simple descendants
diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..4d98e37 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -132,8 +132,8 @@ class canvas(baseclasses.canvasitem):
             self.textengine = text.defaulttextengine
         self.ipython_bboxenlarge = ipython_bboxenlarge
 
+        attrs = attr.mergeattrs(attrs) # perform cleans
         attr.checkattrs(attrs, [trafo.trafo_pt, clip, style.style])
-        attrs = attr.mergeattrs(attrs)
         self.modifies_state = bool(attrs)
 
         self.styles = attr.getattrs(attrs, [style.style])
-- 
2.43.0


From f43e151bbfb1fd920732b3c67a049efed1706f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 022/193] fix: the documented clearing attributes of the style
 base classes and of transparency were missing

---
 pyx/color.py | 4 +++-
 pyx/style.py | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyx/color.py b/pyx/color.py
index 7ea28af..8344723 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -63,7 +63,7 @@ class color(attr.exclusiveattr, style.strokestyle, style.fillstyle):
             context.fillcolor = self.rgb().tohexstring()
 
 
-clear = attr.clearclass(color)
+clear = color.clear = attr.clearclass(color)
 
 
 class gray(color):
@@ -618,3 +618,5 @@ class transparency(attr.exclusiveattr, style.strokestyle, style.fillstyle):
         if context.fillattr:
             context.fillopacity = self.value
 
+
+transparency.clear = attr.clearclass(transparency)
diff --git a/pyx/style.py b/pyx/style.py
index 2da794c..3a37529 100644
--- a/pyx/style.py
+++ b/pyx/style.py
@@ -31,12 +31,18 @@ from . import attr, unit
 class style:
     pass
 
+style.clear = attr.clearclass(style)
+
 class strokestyle(style):
     pass
 
+strokestyle.clear = attr.clearclass(strokestyle)
+
 class fillstyle(style):
     pass
 
+fillstyle.clear = attr.clearclass(fillstyle)
+
 #
 # common stroke styles
 #
-- 
2.43.0


From 19b38c970a25463ef5e0240745810a3fb7fb9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 023/193] fix: mesh as bitmap options: PS writer lost the
 resolution and the deprecated spellings raised NameError

---
 pyx/pdfwriter.py | 4 ++--
 pyx/pswriter.py  | 5 +++--
 pyx/svgwriter.py | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 0c895c7..f70c454 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -364,11 +364,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..43ef984 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -110,11 +110,12 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..9164db2 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -183,7 +183,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From 821be1a3f958198a2c45b630181af279cc190706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 024/193] fix: hexadecimal bitmap data could not be written to
 PostScript (integer division, bytes) and announced a wrong number of lines

---
 pyx/bitmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..fa05d4c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,12 +84,12 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
@@ -524,7 +524,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From 2c54b08a9d62d5a872deb92d82675c970fa70586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 025/193] fix: misspelled structure comments around stored
 PostScript image data

---
 pyx/bitmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index fa05d4c..683d0aa 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -223,7 +223,7 @@ class PSimagedata(pswriter.PSresource):
         self.maxstrlen = maxstrlen
 
     def output(self, file, writer, registry):
-        file.write("%%%%BeginRessource: %s\n" % self.id)
+        file.write("%%%%BeginResource: %s\n" % self.id)
         if self.singlestring:
             file.write("%%%%BeginData: %i ASCII Lines\n"
                        "<~" % ascii85lines(len(self.data)))
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
@@ -248,7 +248,7 @@ class PSimagedata(pswriter.PSresource):
             file.write("]\n"
                        "%%EndData\n")
         file.write("/%s exch def\n" % self.id)
-        file.write("%%EndRessource\n")
+        file.write("%%EndResource\n")
 
 
 class PDFimagepalettedata(pdfwriter.PDFobject):
-- 
2.43.0


From a85bfe1a809fed274571599e87aad971f1970d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 026/193] fix: the size of gray and cmyk palettes was
 calculated as if they were rgb palettes

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 683d0aa..fca564e 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -304,7 +304,7 @@ class PDFimage(pdfwriter.PDFobject):
                    "/Width %d\n" % self.width)
         file.write("/Height %d\n" % self.height)
         if self.palettedata is not None:
-            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)/3-1))
+            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)//len(self.palettemode)-1))
             file.write("%d 0 R\n" % registry.getrefno(self.PDFpalettedata))
             file.write("]\n")
         else:
@@ -463,7 +463,7 @@ class bitmap_trafo(baseclasses.canvasitem):
 
         file.write("gsave\n")
         if palettedata is not None:
-            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)/3-1))
+            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)//len(palettemode)-1))
             file.write("%%%%BeginData: %i ASCII Lines\n" % ascii85lines(len(palettedata)))
             file.write("<~")
             ascii85stream(file, palettedata)
-- 
2.43.0


From 1a42a6b561b84b42ca15912845541a2cb25794d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 027/193] fix: titles with line breaks or non-ascii characters
 raised UnicodeEncodeError or broke the PostScript header

---
 pyx/pswriter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 43ef984..ed69dfe 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -93,6 +93,17 @@ class PSdefinition(PSresource):
 # Writers
 #
 
+def _dsctextline(s):
+    """ returns s as a text line argument of a structure comment, which is an (escaped)
+    string if s contains other characters than printable ASCII """
+    if all(32 <= ord(c) < 127 for c in s):
+        return s
+    return "(%s)" % "".join("\\" + c if c in "()\\" else
+                            c if 32 <= ord(c) < 127 else
+                            "\\%03o" % ord(c) if ord(c) < 256 else "?"
+                            for c in s)
+
+
 class _PSwriter:
 
     def __init__(self, title=None, 
@@ -128,7 +139,7 @@ class _PSwriter:
             creation_date = time.localtime()
         file.write("%%%%Creator: PyX %s\n" % version.version)
         if self.title is not None:
-            file.write("%%%%Title: %s\n" % self.title)
+            file.write("%%%%Title: %s\n" % _dsctextline(self.title))
         file.write("%%%%CreationDate: %s\n" %
                    time.asctime(creation_date))
 
-- 
2.43.0


From 0110c5c15427b1675b4c325256d3b9521d1c8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 028/193] fix: characters beyond latin1 were garbled in the PDF
 document information

---
 pyx/pdfwriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index f70c454..32f4a6c 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -182,9 +182,12 @@ class PDFinfo(PDFobject):
             creation_date = time.localtime()
 
         def pdfstring(s):
+            if any(126 < ord(c) < 161 or ord(c) > 255 for c in s):
+                # not available in the PDFDocEncoding
+                s = (b"\xfe\xff" + s.encode("utf-16-be")).decode("latin1")
             r = ""
             for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
+                if 32 <= ord(c) < 127 and c not in "()[]<>\\":
                     r += c
                 else:
                     r += "\\%03o" % ord(c)
-- 
2.43.0


From 4768b489e4ba2651af645af963cc8b3ad99ef172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 029/193] fix: PDF graphics state operators were written
 between path construction and painting

---
 pyx/deco.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 494a9d5..9944fa9 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -236,9 +236,9 @@ class decoratedpath(baseclasses.canvasitem):
             context = context()
             _writestyles(self.styles, context, registry)
 
+        # note that in PDF the graphics state must not be altered between the
+        # construction of a path and its painting
         if self.fillstyles is not None:
-            fillpath.outputPDF(file, writer)
-
             if self.strokestyles is not None and strokepath is fillpath:
                 # do efficient stroking + filling
                 file.write("q\n") # gsave
@@ -249,6 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
+                fillpath.outputPDF(file, writer)
                 if acontext.fillrule:
                     file.write("B*\n")
                 else:
@@ -264,6 +265,7 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("q\n") # gsave
                     _writefillstyles(self.fillstyles, fcontext, registry)
 
+                fillpath.outputPDF(file, writer)
                 if fcontext.fillrule:
                     file.write("f*\n")
                 else:
-- 
2.43.0


From 8ee363eab895b1d49aa33f87f8d8d9a69e66b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 030/193] fix: PDF patterns were selected in another color
 space after the use of a regular fill color

---
 pyx/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..390c4d3 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -148,15 +148,14 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
                                 patternbbox, xstep, ystep, patterntrafo, patternproc, writer, registry, patternregistry))
 
         # activate pattern
-        if context.colorspace != "Pattern":
-            # we only set the fill color space (see next comment)
-            file.write("/Pattern cs\n")
-            context.colorspace = "Pattern"
         if context.strokeattr:
             # using patterns as stroke colors doesn't seem to work, so
             # we just don't do this...
             logger.warning("ignoring stroke color for patterns in PDF")
         if context.fillattr:
+            # we only set the fill color space (see previous comment) and we always need
+            # to do so, since any other fill color alters the color space as well
+            file.write("/Pattern cs\n")
             file.write("/%s scn\n"% self.id)
 
     def processSVGattrs(self, attrs, writer, context, registry):
-- 
2.43.0


From 4e46c6caa6ba7c58ca09125da7fc8d2973f15153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 031/193] fix: EPS files without any content lacked the
 mandatory bounding box

---
 pyx/pswriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index ed69dfe..92b45da 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -174,6 +174,9 @@ class EPSwriter(_PSwriter):
         if pagebbox:
             file.write("%%%%BoundingBox: %d %d %d %d\n" % pagebbox.lowrestuple_pt())
             file.write("%%%%HiResBoundingBox: %g %g %g %g\n" % pagebbox.highrestuple_pt())
+        else:
+            # the bounding box is mandatory, even if there is nothing on the page
+            file.write("%%BoundingBox: 0 0 0 0\n")
         self.writeinfo(file)
         file.write("%%EndComments\n")
 
-- 
2.43.0


From f2fc35676ed4efc57d262ba1908e165d0745c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 032/193] fix: transparency made PostScript files fail in
 interpreters without the ghostscript extension (including current
 ghostscript)

---
 pyx/color.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/color.py b/pyx/color.py
index 8344723..8e1f0ca 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -596,7 +596,11 @@ class transparency(attr.exclusiveattr, style.strokestyle, style.fillstyle):
 
     def processPS(self, file, writer, context, registry):
         logger.warning("Transparency not available in PostScript, proprietary ghostscript extension code inserted.")
-        file.write("%f .setshapealpha\n" % self.value)
+        # the operators are not available in all interpreters (depending on the version and
+        # command line options of ghostscript)
+        file.write("%f /.setfillconstantalpha where "
+                   "{ pop dup .setfillconstantalpha .setstrokeconstantalpha } "
+                   "{ /.setshapealpha where { pop .setshapealpha } { pop } ifelse } ifelse\n" % self.value)
 
     def processPDF(self, file, writer, context, registry):
         if context.strokeattr and context.fillattr:
-- 
2.43.0


From ac5d2eb5b35fc06f78b355329ba8084127413f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 033/193] fix: bitmaps and meshes in PostScript patterns wrote
 inline data into the paint procedure and stored into the read-only pattern
 dictionary

---
 pyx/bitmap.py   | 16 ++++++++++------
 pyx/mesh.py     | 15 +++++++++++----
 pyx/pattern.py  |  2 +-
 pyx/pswriter.py |  2 ++
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index fca564e..f5ebf90 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -446,18 +446,22 @@ class bitmap_trafo(baseclasses.canvasitem):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(True)
         pstrafo = trafo.translate_pt(0, -1.0).scaled(self.imagewidth, -self.imageheight)*self.pdftrafo.inverse()
 
-        PSsinglestring = self.PSstoreimage and len(data) < self.PSmaxstrlen
+        PSstoreimage = self.PSstoreimage or not context.inlinedata
+        PSsinglestring = PSstoreimage and len(data) < self.PSmaxstrlen
         if PSsinglestring:
             PSimagename = "image-%s-%s-singlestring" % (imagehash, self.compressmode)
         else:
             PSimagename = "image-%s-%s-stringarray" % (imagehash, self.compressmode)
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
+            # the variables need to be available outside of the (read-only) dictionary of a pattern
+            registry.add(pswriter.PSdefinition("imagedataindex", b"0"))
+            registry.add(pswriter.PSdefinition("imagedataid", b"null"))
             registry.add(pswriter.PSdefinition("imagedataaccess",
                                                b"{ /imagedataindex load " # get list index
                                                b"dup 1 add /imagedataindex exch store " # store increased index
                                                b"/imagedataid load exch get }")) # select string from array
-        if self.PSstoreimage:
+        if PSstoreimage:
             registry.add(PSimagedata(PSimagename, data, PSsinglestring, self.PSmaxstrlen))
         bbox += self.bbox()
 
@@ -473,7 +477,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             file.write("%s setcolorspace\n" % devicenames[mode])
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
             file.write("/imagedataindex 0 store\n" # not use the stack since interpreters differ in their stack usage
                        "/imagedataid %s store\n" % PSimagename)
 
@@ -490,7 +494,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("/Decode %s\n" % decodestrings[mode])
 
         file.write("/DataSource ")
-        if self.PSstoreimage:
+        if PSstoreimage:
             if PSsinglestring:
                 file.write("/%s load" % PSimagename)
             else:
@@ -519,7 +523,7 @@ class bitmap_trafo(baseclasses.canvasitem):
                        "/InterleaveType 1\n"
                        ">>\n")
 
-        if self.PSstoreimage:
+        if PSstoreimage:
             file.write("image\n")
         else:
             if self.PSbinexpand == 2:
diff --git a/pyx/mesh.py b/pyx/mesh.py
index e688f16..61b0664 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -124,18 +124,25 @@ class mesh(baseclasses.canvasitem):
         else:
             thisbbox = self.bbox()
             bbox += thisbbox
+            data = binascii.b2a_hex(zlib.compress(self.data(thisbbox)))
+            if context.inlinedata:
+                datasource = "currentfile /ASCIIHexDecode filter"
+            else:
+                datasource = "<%s>" % data.decode("ascii")
             file.write("""<< /ShadingType 4
 /ColorSpace %s
 /BitsPerCoordinate 24
 /BitsPerComponent 8
 /BitsPerFlag 8
 /Decode [%f %f %f %f %s]
-/DataSource currentfile /ASCIIHexDecode filter /FlateDecode filter
+/DataSource %s /FlateDecode filter
 >> shfill\n""" % (self.elements[0].nodes[0].value.colorspacestring(),
                   thisbbox.llx_pt, thisbbox.urx_pt, thisbbox.lly_pt, thisbbox.ury_pt,
-                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()])))
-            file.write_bytes(binascii.b2a_hex(zlib.compress(self.data(thisbbox))))
-            file.write(">\n")
+                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()]),
+                  datasource))
+            if context.inlinedata:
+                file.write_bytes(data)
+                file.write(">\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
         if writer.meshasbitmap:
diff --git a/pyx/pattern.py b/pyx/pattern.py
index 390c4d3..f77cf14 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -74,7 +74,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
         patternfile = writermodule.writer(io.BytesIO())
         realpatternbbox = bboxmodule.empty()
-        canvas.canvas.processPS(self, patternfile, writer, pswriter.context(), registry, realpatternbbox)
+        canvas.canvas.processPS(self, patternfile, writer, pswriter.context()(inlinedata=False), registry, realpatternbbox)
         patternproc = patternfile.file.getvalue()
 
         if self.xstep is None:
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 92b45da..b553c6f 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -287,6 +287,8 @@ class context:
         self.colorspace = None
         self.selectedfont = None
         self.fillrule = 0
+        # data can be read from the current file (not possible within procedures)
+        self.inlinedata = True
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
-- 
2.43.0


From 1cc55b75526f41953d413d31b4902bde3c1dc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 034/193] fix: form fields of one page were listed as
 annotations of all pages in PDF

---
 pyx/pdfwriter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 32f4a6c..7febd10 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -284,6 +284,12 @@ class PDFpage(PDFobject):
 
         self.pdfcontent = PDFcontent(page, writer, self.pageregistry)
         self.pageregistry.add(self.pdfcontent)
+
+        # the annotations belong to this page only, i.e. they must not be merged with
+        # the annotations of the other pages
+        self.pdfannotations = self.pageregistry.types.get("annotations", {}).get("annotations")
+        if self.pdfannotations is not None:
+            self.pdfannotations.id = "annotations%d" % pageno
         registry.mergeregistry(self.pageregistry)
 
     def write(self, file, writer, registry):
@@ -303,9 +309,8 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
-        if pdfannotations in registry:
-            file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
+        if self.pdfannotations is not None:
+            file.write("/Annots %i 0 R\n" % registry.getrefno(self.pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
         file.write("/Resources ")
         self.pageregistry.writeresources(file)
-- 
2.43.0


From 9a8f4a1192354a5c349529a612a4f3622c9eeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 035/193] fix: text form fields on a canvas with fill styles
 raised TypeError, and fill styles leaked to form fields on other canvases

---
 pyx/canvas.py   | 2 +-
 pyx/pdfextra.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 4d98e37..7827d4e 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -222,7 +222,7 @@ class canvas(baseclasses.canvasitem):
                 file.write("q\n") # gsave
                 for attr in self.styles:
                     if isinstance(attr, style.fillstyle):
-                        context.fillstyles.append(attr)
+                        context.fillstyles = context.fillstyles + [attr]
                     attr.processPDF(file, writer, context, registry)
                 if self.clip is not None:
                     self.clip.processPDF(file, writer, context, registry)
diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..2b27030 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -244,7 +244,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From 56931990bb9a40f9e7cdc10372bbc9a8c2572fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 036/193] fix: texts of PDF form fields were written unescaped
 and failed for non-ascii characters

---
 pyx/pdfextra.py  | 39 ++++++++++++++++++++++-----------------
 pyx/pdfwriter.py | 26 ++++++++++++++------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 2b27030..38fea38 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -122,9 +122,14 @@ def _simplestring(text): # <<<
     result = ""
     for x in text:
         if x.isalnum():
-            result += x
+            result += x if x.isascii() else "u%04x" % ord(x)
     return result
 # >>>
+def _contentstring(text): # <<<
+    # characters beyond latin1 are not available in the generic fonts
+    return "".join(c if 32 <= ord(c) < 127 and c not in "()\\" else "\\%03o" % ord(c)
+                   for c in text.encode("latin1", errors="replace").decode("latin1"))
+# >>>
 def _sizetrafo(s, tr): # <<<
     x1, y1 = tr.apply_pt(s, s)
     x0, y0 = tr.apply_pt(0, 0)
@@ -264,11 +269,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +319,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, _contentstring(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % _contentstring(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,11 +484,11 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        file.write("/V /%s\n" % (self.defaultvalue and _simplestring(self.defaultvalue) or "Off"))
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
@@ -686,11 +691,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +703,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 7febd10..aeff944 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -162,6 +162,20 @@ class PDFcatalog(PDFobject):
         file.write(">>\n")
 
 
+def pdfstring(s):
+    """ returns the (escaped) content of a PDF text string """
+    if any(126 < ord(c) < 161 or ord(c) > 255 for c in s):
+        # not available in the PDFDocEncoding
+        s = (b"\xfe\xff" + s.encode("utf-16-be")).decode("latin1")
+    r = ""
+    for c in s:
+        if 32 <= ord(c) < 127 and c not in "()[]<>\\":
+            r += c
+        else:
+            r += "\\%03o" % ord(c)
+    return r
+
+
 class PDFinfo(PDFobject):
 
     def __init__(self):
@@ -181,18 +195,6 @@ class PDFinfo(PDFobject):
                 timezone = "Z00'00'"
             creation_date = time.localtime()
 
-        def pdfstring(s):
-            if any(126 < ord(c) < 161 or ord(c) > 255 for c in s):
-                # not available in the PDFDocEncoding
-                s = (b"\xfe\xff" + s.encode("utf-16-be")).decode("latin1")
-            r = ""
-            for c in s:
-                if 32 <= ord(c) < 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From 5c192c7101f95e01ca3704a33f4bcbdfc58b1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 037/193] fix: bitmaps were not taken into account in the
 bounding box of SVG files

---
 pyx/bitmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index f5ebf90..59b617a 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -562,6 +562,8 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("Q\n")
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        bbox += self.bbox()
+
         if self.compressmode == "Flate":
             f = io.BytesIO()
             self.image.save(f, "png")
-- 
2.43.0


From 1063a81a23826c9fab27911c165f98cac2466e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 038/193] fix: patterns with bitmaps failed in SVG files due to
 a missing xlink namespace

---
 pyx/svgwriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 9164db2..c188e72 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -205,6 +205,9 @@ class SVGwriter:
         pagexml_start = pagesvg.newline_and_tell()
         page.processSVG(pagesvg, self, acontext, registry, pagebbox)
         pagexml_end = pagesvg.newline_and_tell()
+        # the resources might use xlink as well
+        registry.output(pagesvg, self)
+        defsxml_end = pagesvg.newline_and_tell()
         pagesvg.endSVGElement("svg")
         pagesvg.endSVGDocument()
 
@@ -225,9 +228,9 @@ class SVGwriter:
         style.linewidth.normal.processSVGattrs(attrs, self, acontext, registry)
         style.miterlimit.lessthan11deg.processSVGattrs(attrs, self, acontext, registry)
         x.startSVGElement("svg", attrs)
-        registry.output(x, self)
         pagedata = pagefile.getvalue()
         x.newline_and_tell()
+        file.write(pagedata[pagexml_end:defsxml_end])
         file.write(pagedata[pagexml_start:pagexml_end])
         x.endSVGElement("svg")
         x.endSVGDocument()
-- 
2.43.0


From 31995a80e926a9b00d0b3c9b2ab6f9960aefcadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 039/193] fix: included SVG files were not taken into account
 in the bounding box of the page

---
 pyx/svgfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f956f9..18617e4 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -570,14 +570,17 @@ class svgfile_pt(baseclasses.canvasitem):
     def processPS(self, file, writer, context, registry, bbox):
         if not self.parsed:
             raise ValueError("cannot output unparsed SVG to PostScript")
+        bbox += self.bbox()
         self.canvas.processPS(file, writer, context, registry, bbox)
 
     def processPDF(self, file, writer, context, registry, bbox):
         if not self.parsed:
             raise ValueError("cannot output unparsed SVG to PDF")
+        bbox += self.bbox()
         self.canvas.processPDF(file, writer, context, registry, bbox)
 
     def processSVG(self, svg, writer, context, registry, bbox):
+        bbox += self.bbox()
         if self.parsed:
             self.canvas.processSVG(svg, writer, context, registry, bbox)
         else:
-- 
2.43.0


From 9faeef10dc80084ff1942d04c40011f11272b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 040/193] fix: the sign of the time zone in the PDF creation
 date was reversed

---
 pyx/pdfwriter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index aeff944..5ac0463 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -186,14 +186,16 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # offset of the local time (including daylight saving) from UTC
+            offset = creation_date.tm_gmtoff
+            if offset < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(-offset//60, 60)
+            elif offset > 0:
+                timezone = "+%02i'%02i'" % divmod(offset//60, 60)
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         file.write("<<\n")
         if writer.title:
-- 
2.43.0


From 97b2c92d81f98e153b3b174e52da313f260bc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 041/193] fix: different images with the same data shared one
 PDF image object

---
 pyx/bitmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 59b617a..2c244c1 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,10 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # the same data can mean different images
+        imagehash = hashlib.sha1(repr((self.imagewidth, self.imageheight, mode, palettemode, palettedata, alpha)).encode("ascii"))
+        imagehash.update(data)
+        imagehash = imagehash.hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From 2865c1f82137efa6ff09eba09fdc77044941f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 042/193] fix: fittosize failed for contents without any extent
 in one direction

---
 pyx/document.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/document.py b/pyx/document.py
index 59e01ec..f94ff9c 100644
--- a/pyx/document.py
+++ b/pyx/document.py
@@ -107,10 +107,12 @@ class page:
                 paperheight -= 2 * self.margin
 
                 # scale output to pagesize - margins
+                # (there might be no extent in one or both directions)
                 if self.rotated:
-                    sfactor = min(unit.topt(paperheight)/bbox.width_pt(), unit.topt(paperwidth)/bbox.height_pt())
+                    sizes_pt = [(unit.topt(paperheight), bbox.width_pt()), (unit.topt(paperwidth), bbox.height_pt())]
                 else:
-                    sfactor = min(unit.topt(paperwidth)/bbox.width_pt(), unit.topt(paperheight)/bbox.height_pt())
+                    sizes_pt = [(unit.topt(paperwidth), bbox.width_pt()), (unit.topt(paperheight), bbox.height_pt())]
+                sfactor = min([paper_pt/size_pt for paper_pt, size_pt in sizes_pt if size_pt], default=1)
 
                 pagetrafo = pagetrafo.scaled(sfactor, sfactor, self.margin + 0.5*paperwidth, self.margin + 0.5*paperheight)
 
-- 
2.43.0


From 61db89af0e5cf5d5056ec7d0434452c1c575a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 043/193] fix: the order of glyphs in font comments and
 encodings depended on hash values

---
 pyx/font/font.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..0d8f362 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -51,9 +51,9 @@ class PST1file(pswriter.PSresource):
         file.write("%%%%BeginFont: %s\n" % self.t1file.name)
         if writer.stripfonts:
             if self.glyphnames:
-                file.write("%%Included glyphs: %s\n" % " ".join(self.glyphnames))
+                file.write("%%Included glyphs: %s\n" % " ".join(sorted(self.glyphnames)))
             if self.charcodes:
-                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in self.charcodes]))
+                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in sorted(self.charcodes)]))
             self.t1file.getstrippedfont(self.glyphnames, self.charcodes).outputPS(file, writer)
         else:
             self.t1file.outputPS(file, writer)
@@ -490,7 +490,7 @@ class T1text_pt(text_pt):
         """returns the name of the encoding (in encodings) mapping self.glyphnames to codepoints
         If no such encoding can be found or extended, a new encoding is added to encodings
         """
-        glyphnames = set(self.glyphnames)
+        glyphnames = sorted(set(self.glyphnames)) # do not depend on the hash values
         if len(glyphnames) > 256:
             raise ValueError("glyphs do not fit into one single encoding")
         for encodingname, encoding in list(encodings.items()):
-- 
2.43.0


From 9e9879ff84cacd7311c2db34a732b8b80688dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 044/193] fix: text sizes following other text attributes could
 be overridden or ignored by vertical shifts

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..1c69854 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -588,7 +588,7 @@ class size(attr.sortbeforeattr, textattr):
     def __init__(self, sizeindex=None, sizename=None, sizelist=defaultsizelist):
         if (sizeindex is None and sizename is None) or (sizeindex is not None and sizename is not None):
             raise ValueError("either specify sizeindex or sizename")
-        attr.sortbeforeattr.__init__(self, [_mathmode, _vshift])
+        attr.sortbeforeattr.__init__(self, [_vshift, valign, parbox_pt, _localattr])
         if sizeindex is not None:
             if sizeindex >= 0 and sizeindex < sizelist.index(None):
                 self.size = sizelist[sizeindex]
-- 
2.43.0


From cfd548d97e8f7a49b2657972ddadf4c274a9cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 045/193] fix: calling a logarithmic axis to alter its
 parameters tried to create a linear axis

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..366ff78 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -303,7 +303,7 @@ class logarithmic(_regularaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linear(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
+        return logarithmic(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
 
     def convert(self, data, value):
         """axis coordinates -> graph coordinates"""
-- 
2.43.0


From 71f971a60a257b02eee75377624472dfa3c4bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 046/193] fix: subaxis, painter and parter parameters of bar,
 split and autosized axes failed or dropped the defaults

---
 pyx/graph/axis/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 366ff78..fc1a60e 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -369,9 +369,9 @@ class bar(_axis):
                        painter=painter.bar(), linkpainter=painter.linkedbar(), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
-        if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
-        if "painter" in split_kwargs: painter = painter.bar(**split_kwargs["painter"])
-        if "linkpainter" in split_kwargs: linkpainter = painter.linkedbar(**split_kwargs["linkpainter"])
+        if "defaultsubaxis" in split_kwargs: defaultsubaxis = defaultsubaxis(**split_kwargs["defaultsubaxis"])
+        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
@@ -542,7 +542,7 @@ class autosizedlinear(linear):
 
     def __init__(self, parter=parter.autolinear(extendtick=None), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["parter"])
-        if "parter" in split_kwargs: parter = parter.autolinear(**split_kwargs["parter"])
+        if "parter" in split_kwargs: parter = parter(**split_kwargs["parter"])
 
         linear.__init__(self, parter=parter, **rest_kwargs)
 
-- 
2.43.0


From 575b61891b827cee32483742eb10bebd061ec919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 047/193] fix: vtickpoint of axes failed, and the graph's
 xvtickpoint and zvtickpoint_pt were other methods

---
 pyx/graph/axis/axis.py | 3 ++-
 pyx/graph/graph.py     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index fc1a60e..68eb1d7 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -640,7 +640,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..8997b67 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -382,7 +382,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -849,7 +849,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -870,7 +870,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From 098dc783ffe2612f07e746430fd3397b39799add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 048/193] fix: time axes could not be created

---
 pyx/graph/axis/timeaxis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..8eb03aa 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -35,7 +35,7 @@ class timeaxis(axis.linear):
     # TODO: how to deal with reversed timeaxis?
 
     def __init__(self, parter=None, rater=rater.linear(), **args):
-        super().__init__(self, divisor=None, **args)
+        super().__init__(divisor=None, **args)
         self.parter = parter
         self.rater = rater
 
-- 
2.43.0


From 41f35e4f32541a9af968f022e4987dea5f2c6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 049/193] fix: reversed time axes were not reversed

---
 pyx/graph/axis/timeaxis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index 8eb03aa..38426d3 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -32,8 +32,6 @@ from pyx.graph.axis import axis, rater
 class timeaxis(axis.linear):
     "time axis mapping based "
 
-    # TODO: how to deal with reversed timeaxis?
-
     def __init__(self, parter=None, rater=rater.linear(), **args):
         super().__init__(divisor=None, **args)
         self.parter = parter
@@ -44,6 +42,8 @@ class timeaxis(axis.linear):
         def mstimedelta(td):
             "return the timedelta in microseconds"
             return td.microseconds + 1000000*(td.seconds + 3600*24*td.days)
+        if self.reverse:
+            return mstimedelta(data.max - x) / float(mstimedelta(data.max - data.min))
         return mstimedelta(x - data.min) / float(mstimedelta(data.max - data.min))
         # we could store float(mstimedelta(self.dx)) instead of self.dx, but
         # I prefer a different solution (not based on huge integers) for the
-- 
2.43.0


From 626f206ee29262c7cf29d0885064ada077000028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 050/193] fix: ticks of a time axis were ignored when adjusting
 the axis range

---
 pyx/graph/axis/timeaxis.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index 38426d3..56f288b 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,16 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __add__(self, other):
+        # the arithmetics of datetime subclasses does not fit to our constructor
+        return datetime.datetime.combine(self.date(), self.timetz()) + other
+
+    def __copy__(self):
+        return timetick(self.year, self.month, self.day,
+                        ticklevel=self.ticklevel, labellevel=self.labellevel, label=self.label, labelattrs=self.labelattrs,
+                        hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond,
+                        tzinfo=self.tzinfo, fold=self.fold)
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From 5eb82b3682812053836eb87fb14c42d05a157aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 051/193] fix: manual ticks were shared (and modified) between
 all partitions and all uses of an axis

---
 pyx/graph/axis/axis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 68eb1d7..a8e3c00 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -150,7 +150,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = list(map(copy.copy, self.manualticks))
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +196,8 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                # the manual ticks are modified in the layout of each variant
+                ticks = tick.mergeticklists(list(map(copy.copy, self.manualticks)), ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
-- 
2.43.0


From 900968f0b5efab0255830d864b29a1e1eae80a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 052/193] fix: the wrong end of negative logarithmic axes was
 extended when only one limit was fixed

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..2812e35 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -234,6 +234,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From b46a61f33acea92adb28160ac418825a1e8bc4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 053/193] fix: calling a parter to alter its parameters failed

---
 pyx/graph/axis/parter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 2812e35..79187b5 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -22,6 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
+from pyx import utils
 from pyx.graph.axis import tick
 
 
@@ -66,6 +67,8 @@ class linear(_parter):
     """partitioner to create a single linear partition"""
 
     def __init__(self, tickdists=None, labeldists=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickdists = tickdists
+        self.labeldists = labeldists
         if tickdists is None and labeldists is not None:
             self.ticklist = [tick.rational(labeldists[0])]
         else:
@@ -211,6 +214,8 @@ class logarithmic(linear):
     #  ^- we always include 1 in order to get extendto(tick|label)level to work as expected
 
     def __init__(self, tickpreexps=None, labelpreexps=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickpreexps = tickpreexps
+        self.labelpreexps = labelpreexps
         if tickpreexps is None and labelpreexps is not None:
             self.ticklist = [labelpreexps[0]]
         else:
-- 
2.43.0


From 1f093b5a1e9ea338c5db6cc18a4a37b6e7b6e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 054/193] fix: layout of axes without any visible parts did not
 terminate

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index a8e3c00..924fb77 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -225,7 +225,7 @@ class _regularaxis(_axis):
         for variant in variants:
             variant.storedcanvas = None
         variants.sort()
-        while not variants[0].storedcanvas:
+        while variants[0].storedcanvas is None:
             variants[0].storedcanvas = layout(variants[0])
             ratelayout = rater.ratelayout(variants[0].storedcanvas)
             if ratelayout is None:
-- 
2.43.0


From 9cbda9e69837035aadc8221bb87a7bbc192220cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 055/193] fix: rationals lost accuracy when created from
 rationals, integers or fractions (wrong tick positions and mantissas)

---
 pyx/graph/axis/tick.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..1b5bf3b 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 
-import sys, functools
+import sys, functools, numbers
 
 # test automatic long conversion
 try:
@@ -117,6 +117,9 @@ class rational:
             self.denom = 1
             return
         try:
+            if isinstance(x, (rational, numbers.Rational)):
+                # prevent loss of accuracy by the conversion of an exact number to a float
+                raise TypeError
             # does x behave like a number
             x + 0
         except Exception:
@@ -129,7 +132,10 @@ class rational:
                     self.num, self.denom = x
                 except Exception:
                     # otherwise it should have a num and denom
-                    self.num, self.denom = x.num, x.denom
+                    try:
+                        self.num, self.denom = x.num, x.denom
+                    except AttributeError:
+                        self.num, self.denom = int(x.numerator), int(x.denominator)
             else:
                 # x is a string
                 fraction = x.split("/")
-- 
2.43.0


From 491d0f7993a4efcf05ef2e2bd1652a2df550b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 056/193] fix: wrong order of rationals with negative
 denominators

---
 pyx/graph/axis/tick.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 1b5bf3b..d9e52c2 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -165,6 +165,8 @@ class rational:
 
     def __lt__(self, other):
         try:
+            if self.denom * other.denom < 0:
+                return self.num * other.denom > other.num * self.denom
             return self.num * other.denom < other.num * self.denom
         except Exception:
             return float(self) < other
-- 
2.43.0


From 57d3d51e666c4c4e11bf868354f35a35652c6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 057/193] fix: parameters of the exponenttexter were ignored

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..b05cc88 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -184,7 +184,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From e1fc1483a7abb6bd658f648a90c4dff335db14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 058/193] fix: calling a rational texter to alter its
 parameters failed

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index b05cc88..b91f0fe 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -345,7 +345,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From 90e5f99f51590c0d705e8b48a6933ef38df69139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 059/193] fix: the rational texter failed for equaldenom when
 there are subticks without label

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index b91f0fe..2169658 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -396,7 +396,7 @@ class rational(_texter):
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in ticks if tick.label is None])
+            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in labeledticks])
             if equaldenom is not None:
                 for tick in labeledticks:
                     factor, dummy = divmod(equaldenom, tick.temp_rationaldenom)
-- 
2.43.0


From 9fe1b6c70bf5776eea6297c6f4d0ffd4bb14418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 060/193] fix: the period of a repeating decimal started at the
 wrong digit for non-empty thousandthpartsep

---
 pyx/graph/axis/texter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 2169658..28b8c2a 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -103,12 +103,13 @@ class decimal(_texter):
                 if remainder:
                     tick.label += self.decimalsep
                 oldremainders = []
+                digitpositions = []
                 tick.temp_decprecision = 0
                 while (remainder):
                     tick.temp_decprecision += 1
                     if remainder in oldremainders:
                         tick.temp_decprecision = None
-                        periodstart = len(tick.label) - (len(oldremainders) - oldremainders.index(remainder))
+                        periodstart = digitpositions[oldremainders.index(remainder)]
                         tick.label = tick.label[:periodstart] + self.period % tick.label[periodstart:]
                         break
                     oldremainders += [remainder]
@@ -116,6 +117,7 @@ class decimal(_texter):
                     quotient, remainder = divmod(remainder, n)
                     if not ((tick.temp_decprecision - 1) % 3) and tick.temp_decprecision > 1:
                         tick.label += self.thousandthpartsep
+                    digitpositions.append(len(tick.label))
                     tick.label += str(quotient)
                 else:
                     if maxdecprecision < tick.temp_decprecision:
-- 
2.43.0


From d5b3bf288e650682fce78d2bf4bffe52ef8453a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 061/193] fix: wrong positions of the thousandthpartsep in
 trailing zeros created by equalprecision

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 28b8c2a..40c8bcb 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -128,7 +128,7 @@ class decimal(_texter):
                     if tick.temp_decprecision == 0 and maxdecprecision > 0:
                         tick.label += self.decimalsep
                     for i in range(tick.temp_decprecision, maxdecprecision):
-                        if not ((i - 1) % 3) and i > 1:
+                        if not (i % 3) and i > 0:
                             tick.label += self.thousandthpartsep
                         tick.label += "0"
         for tick in labeledticks:
-- 
2.43.0


From f99fe32ad5e6625a7a16256bbad021c9a959fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 062/193] fix: minnegexponent did not follow minexponent when
 altering the parameters of the default texter

---
 pyx/graph/axis/texter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 40c8bcb..a051d2e 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -194,7 +194,7 @@ class default(_texter):
         self.skipmantissaunity = skipmantissaunity
         self.minusunity = minusunity
         self.minexponent = minexponent
-        self.minnegexponent = minnegexponent if minnegexponent is not None else minexponent
+        self.minnegexponent = minnegexponent
         self.uniformexponent = uniformexponent
         self.labelattrs = labelattrs
         self.mantissatexter = mantissatexter
@@ -209,6 +209,7 @@ class default(_texter):
                                                      "labelattrs", "mantissatexter", "basetexter", "exponenttexter"]))
 
     def labels(self, ticks):
+        minnegexponent = self.minnegexponent if self.minnegexponent is not None else self.minexponent
         labeledticks = []
         for tick in ticks:
             if tick.label is None and tick.labellevel is not None:
@@ -228,11 +229,11 @@ class default(_texter):
                     while tick.temp_mantissa < 1:
                         tick.temp_exponent -= 1
                         tick.temp_mantissa *= self.base
-                    tick.temp_wantexponent = not (-self.minnegexponent < tick.temp_exponent < self.minexponent)
+                    tick.temp_wantexponent = not (-minnegexponent < tick.temp_exponent < self.minexponent)
                 else:
                     tick.temp_mantissa = tick.temp_exponent = 0
                     tick.temp_sign = 1
-                    tick.temp_wantexponent = not (-self.minnegexponent < 0 < self.minexponent)
+                    tick.temp_wantexponent = not (-minnegexponent < 0 < self.minexponent)
 
         # make decision on exponential notation uniform if requested
         if self.uniformexponent and any(tick.temp_wantexponent for tick in labeledticks):
-- 
2.43.0


From d305719087a3b1d001b4d5334853794118fce5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 063/193] fix: bar axes failed for names not contained in
 subaxes instead of using the defaultsubaxis

---
 pyx/graph/axis/axis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 924fb77..82b6ab3 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -432,11 +432,13 @@ class bar(_axis):
 
             name = value[0]
             if name is not None and name not in data.names:
-                if self.subaxes:
-                    if self.subaxes[name] is not None:
-                        self.addsubaxis(data, name, self.subaxes[name], graphtextengine, errorname)
-                else:
-                    self.addsubaxis(data, name, self.defaultsubaxis, graphtextengine, errorname)
+                try:
+                    subaxis = self.subaxes[name]
+                except (TypeError, LookupError):
+                    # no subaxes at all or an unknown name
+                    subaxis = self.defaultsubaxis
+                if subaxis is not None:
+                    self.addsubaxis(data, name, subaxis, graphtextengine, errorname)
         for name in data.names:
             subaxis = data.subaxes[name]
             if subaxis.sized:
-- 
2.43.0


From ef1f5efdca1cdf78ff191f5777a38cb9da6733b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 064/193] fix: path axes without any visible parts could not
 convert values

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 82b6ab3..ae9ddee 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -597,7 +597,7 @@ class anchoredaxis:
         self._createkwargs = kwargs
 
     def docreate(self):
-        if not self.canvas:
+        if self.canvas is None:
             self._createfunction(*self._createargs, **self._createkwargs)
 
     def setpositioner(self, positioner):
-- 
2.43.0


From e97d08f60371ad9fb2c60de034b4d1c910cf3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 065/193] fix: altering the parameters of bar and split axes
 reset all other parameters to their defaults

---
 pyx/graph/axis/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index ae9ddee..e407c34 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -390,7 +390,8 @@ class bar(_axis):
         self.painter = painter
         self.linkpainter = linkpainter
         self.epsilon = epsilon
-        self.kwargs = kwargs
+        self.kwargs = dict(kwargs, subaxes=subaxes, dist=dist, firstdist=firstdist, lastdist=lastdist,
+                           title=title, reverse=reverse, epsilon=epsilon)
 
     def __call__(self, **kwargs):
         return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["defaultsubaxis", "painter", "linkpainter"]))
-- 
2.43.0


From 511be5ce79dfb6243080b40ca67f0b3bc33ee5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 066/193] fix: autosized axes raised RuntimeError when a tick
 differs from a range limit by a rounding error

---
 pyx/graph/axis/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index e407c34..99deb99 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -574,8 +574,12 @@ class autosizedlinear(linear):
         min = data.min
         max = data.max
         canvas = linear.create(self, data, positioner, graphtextengine, errorname)
-        if min != data.min or max != data.max:
+        if abs(min - data.min) + abs(max - data.max) > 1e-8 * (max - min):
             raise RuntimeError("range change during axis creation of autosized linear axis")
+        # ignore changes by rounding errors of tick positions
+        data.min = min
+        data.max = max
+        data.size = max - min
         return canvas
 
 autosizedlin = autosizedlinear
-- 
2.43.0


From b9bbf678d435bd720ca6e9bb6edae4c2401f2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 067/193] fix: a fallbackrange moved the fixed limit of an axis
 with one fixed limit

---
 pyx/graph/axis/axis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 99deb99..9ddc8f6 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -125,7 +125,12 @@ class _regularaxis(_axis):
         if data.max == data.min:
             if self.fallbackrange is not None:
                 try:
-                    data.min, data.max = data.min - 0.5*self.fallbackrange, data.min + 0.5*self.fallbackrange
+                    if self.min is not None and self.max is None:
+                        data.max = data.min + self.fallbackrange
+                    elif self.min is None and self.max is not None:
+                        data.min = data.max - self.fallbackrange
+                    else:
+                        data.min, data.max = data.min - 0.5*self.fallbackrange, data.min + 0.5*self.fallbackrange
                 except TypeError:
                     data.min, data.max = self.fallbackrange[0], self.fallbackrange[1]
             else:
-- 
2.43.0


From 402ffbe3468c1e2a41eb9d09492593fb60394f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 068/193] fix: the rational texter created a negative zero for
 negative denominators

---
 pyx/graph/axis/texter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index a051d2e..6903e44 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -396,6 +396,9 @@ class rational(_texter):
                 if tick.temp_rationaldenom < 0:
                     tick.temp_rationalminus = -tick.temp_rationalminus
                     tick.temp_rationaldenom = -tick.temp_rationaldenom
+                if not tick.temp_rationalnum:
+                    # there is no negative zero
+                    tick.temp_rationalminus = 1
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-- 
2.43.0


From 390791f11938353f0e6a6172ba2f9b04020df4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 069/193] fix: skiptail removed too few data lines when
 combined with every

---
 pyx/graph/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..9e77476 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -308,9 +308,9 @@ class file(data):
                                 maxcolumns = len(linedata)
                             columndata.append(linedata)
                         linenumber += 1
-            if skiptail >= every:
-                skip, x = divmod(skiptail, every)
-                del columndata[-skip:]
+            # the line number (counted before skipping) is the first column
+            while columndata and columndata[-1][0] > linenumber - skiptail:
+                del columndata[-1]
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-- 
2.43.0


From 4312e5d59245816f0220e080e075fc5f279096a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 070/193] fix: an empty comment line in front of the data
 dropped the column names

---
 pyx/graph/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 9e77476..48b9c1f 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -296,7 +296,8 @@ class file(data):
                 match = commentpattern.match(line)
                 if match:
                     if not len(columndata):
-                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0)
+                        # keep the column names for empty comment lines
+                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0) or columns
                 else:
                     linedata = []
                     for value in self.splitline(line, stringpattern, columnpattern, tofloat=1):
-- 
2.43.0


From 5d2147567a83d6882455e93aa97e33658eb8cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 071/193] fix: functions could not be plotted along negative
 logarithmic axes

---
 pyx/graph/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 48b9c1f..b567e16 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -539,12 +539,14 @@ class function(_data):
         else:
             max = xaxis.data.max
         if logaxis:
-            min = math.log(min)
-            max = math.log(max)
+            # logarithmic axes might be all negative
+            sign = min < 0 and -1 or 1
+            min = math.log(sign*min)
+            max = math.log(sign*max)
         for i in range(self.numberofpoints):
             x = min + (max-min)*i / (self.numberofpoints-1.0)
             if logaxis:
-                x = math.exp(x)
+                x = sign*math.exp(x)
             dynamiccolumns[self.xname].append(x)
             self.context[self.xname] = x
             try:
-- 
2.43.0


From c090299301aa515f7500764fcf0ab7188355443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 072/193] fix: joining data without a title raised a TypeError

---
 pyx/graph/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index b567e16..b4c31c2 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -641,7 +641,7 @@ class join(_data):
         self.columnnames = self.merge_lists([d.columnnames for d in data])
         self.columns = self.merge_dicts([d.columns for d in data])
         if title is _notitle:
-            self.title = " + ".join([d.title for d in data])
+            self.title = " + ".join([d.title or "unknown source" for d in data])
         else:
             self.title = title
         if defaultstyles is _nodefaultstyles:
-- 
2.43.0


From 5d540223a8c9ed3b43496ea5e8768a0111872a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 073/193] fix: config files whose later sections introduce new
 options could not be read

---
 pyx/graph/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index b4c31c2..f41298c 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -371,6 +371,8 @@ class conffile(data):
                     else:
                         point[index] = value
                 columndata[i] = point
+            for point in columndata:
+                point.extend([None]*(maxcolumns-len(point)))
             # wrap result into a data instance to remove column numbers
             result = data(points(columndata, addlinenumbers=0, **columns), title=title)
             # ... but reinsert sections as linenumbers
-- 
2.43.0


From f13b45b5fd54530836d4836d482f78e8d135200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 074/193] fix: cbd files could not be read in Python 3

---
 pyx/graph/data.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index f41298c..f923986 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -438,21 +438,21 @@ class cbdfile(data):
                 oln, olt = self.orgx, self.orgy
                 self.points = [(olt, oln)]
                 for i in range(self.nstrokes):
-                    c1, c2 = struct.unpack("2c", file.read(2))
-                    if ord(c2) & 0x40:
-                        if c1 > "\177":
-                            dy = ord(c1) - 256
+                    c1, c2 = struct.unpack("2B", file.read(2))
+                    if c2 & 0x40:
+                        if c1 > 127:
+                            dy = c1 - 256
                         else:
-                            dy = ord(c1)
-                        if c2 > "\177":
-                            dx = ord(c2) - 256
+                            dy = c1
+                        if c2 > 127:
+                            dx = c2 - 256
                         else:
-                            dx = ord(c2) - 64
+                            dx = c2 - 64
                     else:
-                        c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
-                        dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
+                        c3, c4, c5, c6, c7, c8 = struct.unpack("6B", file.read(6))
+                        if c2 > 127:
+                            c2 |= 0x40
+                        dx, dy = struct.unpack("<2i", bytes([c3, c4, c1, c2, c7, c8, c5, c6]))
                     oln += dx
                     olt += dy
                     self.points.append((olt, oln))
-- 
2.43.0


From b83ee4d3e1d5e93a927441b9f11d42ad4e51dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 075/193] fix: parametric functions with an equal sign in the
 expression were refused

---
 pyx/graph/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index f923986..aeca454 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -576,7 +576,7 @@ class paramfunction(_data):
             self.title = expression
         else:
             self.title = title
-        varlist, expression = expression.split("=")
+        varlist, expression = expression.split("=", 1)
         expression = compile(expression.strip(), "<string>", "eval")
         keys = [key.strip() for key in varlist.split(",")]
         self.columns = dict([(key, []) for key in keys])
-- 
2.43.0


From b7f91ba94bc9ee3a2cbbb2a6ac918f1eaa776149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 076/193] fix: rectangles exceeding the graph at both sides or
 on reversed axes were not cut at the border

---
 pyx/graph/style.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1e4a308..2ccdbc0 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -960,17 +960,21 @@ class rect(_keygraphstyle):
         xvmax = sharedata.vrange[0][1]
         yvmin = sharedata.vrange[1][0]
         yvmax = sharedata.vrange[1][1]
-        if (xvmin is not None and xvmin < 1 and
-            xvmax is not None and xvmax > 0 and
-            yvmin is not None and yvmin < 1 and
-            yvmax is not None and yvmax > 0):
+        if xvmin is None or xvmax is None or yvmin is None or yvmax is None:
+            return
+        # the order might be exchanged on reversed axes
+        if xvmin > xvmax:
+            xvmin, xvmax = xvmax, xvmin
+        if yvmin > yvmax:
+            yvmin, yvmax = yvmax, yvmin
+        if xvmin < 1 and xvmax > 0 and yvmin < 1 and yvmax > 0:
             if xvmin < 0:
                 xvmin = 0
-            elif xvmax > 1:
+            if xvmax > 1:
                 xvmax = 1
             if yvmin < 0:
                 yvmin = 0
-            elif yvmax > 1:
+            if yvmax > 1:
                 yvmax = 1
             p = graph.vgeodesic(xvmin, yvmin, xvmax, yvmin)
             p.append(graph.vgeodesic_el(xvmax, yvmin, xvmax, yvmax))
-- 
2.43.0


From bb1b674cf4d30e2e203590b70f71e65535380eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 077/193] fix: error bars crossing the graph border on reversed
 axes were dropped

---
 pyx/graph/style.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 2ccdbc0..49ff357 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -774,17 +774,20 @@ class errorbar(_style):
                         mincap = 1
                     else:
                         mincap = 0
-                    if vminpos[i] > 1+self.epsilon:
-                        continue
-                    if vminpos[i] < -self.epsilon:
-                        vminpos[i] = 0
-                        mincap = 0
                     vmaxpos = sharedata.vpos[:]
                     if sharedata.vrange[i][1] is not None:
                         vmaxpos[i] = sharedata.vrange[i][1]
                         maxcap = 1
                     else:
                         maxcap = 0
+                    if vminpos[i] > vmaxpos[i]: # reversed axis
+                        vminpos, vmaxpos = vmaxpos, vminpos
+                        mincap, maxcap = maxcap, mincap
+                    if vminpos[i] > 1+self.epsilon:
+                        continue
+                    if vminpos[i] < -self.epsilon:
+                        vminpos[i] = 0
+                        mincap = 0
                     if vmaxpos[i] < -self.epsilon:
                         continue
                     if vmaxpos[i] > 1+self.epsilon:
-- 
2.43.0


From 132931925ef2a8dbc5c5beb790a4ac8fcf03a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 078/193] fix: fillable histograms starting at the baseline
 (fromvalue=None) raised an AttributeError

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 49ff357..ef3f94a 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1271,7 +1271,7 @@ class histogram(_style):
                 graph.layer("data").stroke(graph.axes[valueaxisname].vgridpath(privatedata.vfromvalue),
                                            self.defaultfrompathattrs + self.frompathattrs)
         else:
-            privatedata.vfromvalue = 0
+            privatedata.vfromvalue = privatedata.vfromvaluecut = 0
 
     def drawpoint(self, privatedata, sharedata, graph, point):
         if privatedata.autohistogram:
-- 
2.43.0


From d643e10763471905a7230d0a1f6fc9166b40abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 079/193] fix: infinite or not-a-number data were written into
 the output or broke the axis range instead of being skipped

---
 pyx/graph/axis/axis.py | 10 ++++++++++
 pyx/graph/style.py     | 33 ++++++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 9ddc8f6..1362873 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -56,6 +56,14 @@ class NoValidPartitionError(RuntimeError):
     pass
 
 
+def _isfinite(value):
+    "returns False for infinite values and for values being not a number"
+    try:
+        return math.isfinite(value)
+    except (TypeError, OverflowError): # e.g. datetimes or huge integers
+        return True
+
+
 class _regularaxis(_axis):
     """base implementation a regular axis
 
@@ -101,6 +109,8 @@ class _regularaxis(_axis):
                 except Exception:
                     pass
                 else:
+                    if not _isfinite(value):
+                        continue
                     if self.min is None and (data.min is None or value < data.min):
                         data.min = value
                     if self.max is None and (data.max is None or value > data.max):
diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index ef3f94a..ad6abfe 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -155,7 +155,7 @@ class _keygraphstyle(_style):
             privatedata.keygraph.plot(datamodule.values(x=data), [gradient(gradient=self.gradient)])
 
     def color(self, privatedata, c):
-        vc = privatedata.keygraph.axes["x"].convert(c)
+        vc = _convert(privatedata.keygraph.axes["x"], c)
         if vc < 0:
             logger.warning("gradient color range is exceeded (lower bound)")
             vc = 0
@@ -169,6 +169,17 @@ class _keygraphstyle(_style):
             graph.layer("key").insert(privatedata.keygraph, [graph.autokeygraphtrafo(privatedata.keygraph)])
 
 
+def _convert(axis, value):
+    """axis coordinates -> graph coordinates
+
+    Raises a ValueError for values which do not have a finite position on the
+    axis, i.e. they are handled like missing values."""
+    v = axis.convert(value)
+    if not math.isfinite(v):
+        raise ValueError("no finite axis position")
+    return v
+
+
 class pos(_style):
 
     providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
@@ -224,7 +235,7 @@ class pos(_style):
         sharedata.vposvalid = 1 # valid position inside the graph
         for columnname, index, axis in privatedata.pointpostmplist:
             try:
-                v = axis.convert(point[columnname])
+                v = _convert(axis, point[columnname])
             except (ArithmeticError, ValueError, TypeError):
                 sharedata.vposavailable = sharedata.vposvalid = 0
                 sharedata.vpos[index] = None
@@ -372,20 +383,20 @@ class range(_style):
         for usename, mask, index, axis in privatedata.rangepostmplist:
             try:
                 if mask & self.mask_min:
-                    sharedata.vrange[index][0] = axis.convert(point[usename + "min"])
+                    sharedata.vrange[index][0] = _convert(axis, point[usename + "min"])
                 if mask & self.mask_dmin:
-                    sharedata.vrange[index][0] = axis.convert(point[usename] - point["d" + usename + "min"])
+                    sharedata.vrange[index][0] = _convert(axis, point[usename] - point["d" + usename + "min"])
                 if mask & self.mask_d:
-                    sharedata.vrange[index][0] = axis.convert(point[usename] - point["d" + usename])
+                    sharedata.vrange[index][0] = _convert(axis, point[usename] - point["d" + usename])
             except (ArithmeticError, ValueError, TypeError):
                 sharedata.vrange[index][0] = None
             try:
                 if mask & self.mask_max:
-                    sharedata.vrange[index][1] = axis.convert(point[usename + "max"])
+                    sharedata.vrange[index][1] = _convert(axis, point[usename + "max"])
                 if mask & self.mask_dmax:
-                    sharedata.vrange[index][1] = axis.convert(point[usename] + point["d" + usename + "max"])
+                    sharedata.vrange[index][1] = _convert(axis, point[usename] + point["d" + usename + "max"])
                 if mask & self.mask_d:
-                    sharedata.vrange[index][1] = axis.convert(point[usename] + point["d" + usename])
+                    sharedata.vrange[index][1] = _convert(axis, point[usename] + point["d" + usename])
             except (ArithmeticError, ValueError, TypeError):
                 sharedata.vrange[index][1] = None
 
@@ -1418,13 +1429,13 @@ class barpos(_style):
                 sharedata.vbarrange[i][0] = privatedata.vfromvalue
                 sharedata.lastbarvalue = point[barname]
                 try:
-                    sharedata.vpos[i] = sharedata.vbarrange[i][1] = graph.axes[barname].convert(sharedata.lastbarvalue)
+                    sharedata.vpos[i] = sharedata.vbarrange[i][1] = _convert(graph.axes[barname], sharedata.lastbarvalue)
                 except (ArithmeticError, ValueError, TypeError):
                     sharedata.vpos[i] = sharedata.vbarrange[i][1] = None
             else:
                 for j in builtinrange(2):
                     try:
-                        sharedata.vbarrange[i][j] = graph.axes[barname[:-4]].convert(self.addsubvalue(point[barname], j))
+                        sharedata.vbarrange[i][j] = _convert(graph.axes[barname[:-4]], self.addsubvalue(point[barname], j))
                     except (ArithmeticError, ValueError, TypeError):
                         sharedata.vbarrange[i][j] = None
                 try:
@@ -1472,7 +1483,7 @@ class stackedbarpos(_style):
         else:
             sharedata.lastbarvalue = point[self.stackname]
         try:
-            sharedata.vpos[sharedata.barvalueindex] = sharedata.vbarrange[sharedata.barvalueindex][1] = graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]].convert(sharedata.lastbarvalue)
+            sharedata.vpos[sharedata.barvalueindex] = sharedata.vbarrange[sharedata.barvalueindex][1] = _convert(graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]], sharedata.lastbarvalue)
         except (ArithmeticError, ValueError, TypeError):
             sharedata.vpos[sharedata.barvalueindex] = sharedata.vbarrange[sharedata.barvalueindex][1] = None
             sharedata.vposavailable = sharedata.vposvalid = 0
-- 
2.43.0


From b19a68313c79ae6f5555420ffcbe46e4afc4b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 080/193] fix: rect and surface styles raised errors on missing
 color data instead of skipping them

---
 pyx/graph/style.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index ad6abfe..61152a4 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -990,12 +990,16 @@ class rect(_keygraphstyle):
                 yvmin = 0
             if yvmax > 1:
                 yvmax = 1
+            try:
+                c = self.color(privatedata, point["color"])
+            except (ArithmeticError, ValueError, TypeError):
+                return
             p = graph.vgeodesic(xvmin, yvmin, xvmax, yvmin)
             p.append(graph.vgeodesic_el(xvmax, yvmin, xvmax, yvmax))
             p.append(graph.vgeodesic_el(xvmax, yvmax, xvmin, yvmax))
             p.append(graph.vgeodesic_el(xvmin, yvmax, xvmin, yvmin))
             p.append(path.closepath())
-            privatedata.rectcanvas.fill(p, [self.color(privatedata, point["color"])])
+            privatedata.rectcanvas.fill(p, [c])
 
 
 class histogram(_style):
@@ -1858,12 +1862,15 @@ class surface(_keygraphstyle):
                     c2 = privatedata.colors[value1a][value2b]
                     c3 = privatedata.colors[value1b][value2a]
                     c4 = privatedata.colors[value1b][value2b]
-                    c5 = self.midcolor(c1, c2, c3, c4)
-                    c1a = c1b = self.color(privatedata, c1)
-                    c2a = c2c = self.color(privatedata, c2)
-                    c3b = c3d = self.color(privatedata, c3)
-                    c4c = c4d = self.color(privatedata, c4)
-                    c5a = c5b = c5c = c5d = self.color(privatedata, c5)
+                    try:
+                        c5 = self.midcolor(c1, c2, c3, c4)
+                        c1a = c1b = self.color(privatedata, c1)
+                        c2a = c2c = self.color(privatedata, c2)
+                        c3b = c3d = self.color(privatedata, c3)
+                        c4c = c4d = self.color(privatedata, c4)
+                        c5a = c5b = c5c = c5d = self.color(privatedata, c5)
+                    except (ArithmeticError, ValueError, TypeError):
+                        continue
                     if self.backcolor is not None and sign*graph.vangle(*(v1+v2+v5)) < 0:
                         c1a = c2a = c5a = self.backcolor
                     if self.backcolor is not None and sign*graph.vangle(*(v3+v1+v5)) < 0:
-- 
2.43.0


From ed8fedd7e1b0b6c27cb8397d81d2665448a3a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 081/193] fix: color data of points with a missing position
 overwrote the color of the previous cell in density and surface styles

---
 pyx/graph/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 61152a4..7c89639 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1776,7 +1776,7 @@ class surface(_keygraphstyle):
         privatedata.colors = {}
 
     def drawpoint(self, privatedata, sharedata, graph, point):
-        if privatedata.colorize:
+        if privatedata.colorize and sharedata.vposavailable:
             privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
 
     def donedrawpoints(self, privatedata, sharedata, graph):
@@ -1950,7 +1950,8 @@ class density(_keygraphstyle):
         privatedata.vfixed = [None]*len(graph.axesnames)
 
     def drawpoint(self, privatedata, sharedata, graph, point):
-        privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
+        if sharedata.vposavailable:
+            privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
         if len(privatedata.vfixed) > 2 and sharedata.vposavailable:
             for i, (v1, v2) in enumerate(list(zip(privatedata.vfixed, sharedata.vpos))):
                 if i != sharedata.index1 and i != sharedata.index2:
-- 
2.43.0


From 960a14dda3f1c8020ceb924a79513c4b8c0ba80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 082/193] fix: impulses and histogram styles raised a KeyError
 for columns assigned by the usenames of the pos style

---
 pyx/graph/style.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 7c89639..b937fca 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -182,7 +182,7 @@ def _convert(axis, value):
 
 class pos(_style):
 
-    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
+    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames", "posaxisnames"]
 
     def __init__(self, usenames={}, epsilon=1e-10):
         self.usenames = usenames
@@ -213,6 +213,7 @@ class pos(_style):
         # later, different pos style in the styles list (due to different
         # usenames).
         sharedata.poscolumnnames = privatedata.poscolumnnames
+        sharedata.posaxisnames = privatedata.axisnames
         sharedata.vposmissing = privatedata.vposmissing
         dataaxisnames.update(privatedata.axisnames)
         return [columnname for columnname in privatedata.poscolumnnames if columnname is not None]
@@ -679,7 +680,7 @@ class line(_line):
 
 class impulses(_styleneedingpointpos):
 
-    needsdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
+    needsdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames", "posaxisnames"]
 
     defaultlineattrs = [line.changelinestyle]
     defaultfrompathattrs = []
@@ -705,12 +706,12 @@ class impulses(_styleneedingpointpos):
                 pass
             else:
                 if i == self.valueaxisindex:
-                    graph.axes[sharedata.poscolumnnames[i]].adjustaxis([self.fromvalue])
+                    graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         privatedata.impulsescanvas = canvas.canvas()
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[self.valueaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[self.valueaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
@@ -1004,7 +1005,7 @@ class rect(_keygraphstyle):
 
 class histogram(_style):
 
-    needsdata = ["vpos", "vposmissing", "vrange", "vrangeminmissing", "vrangemaxmissing"]
+    needsdata = ["vpos", "vposmissing", "vrange", "vrangeminmissing", "vrangemaxmissing", "poscolumnnames", "posaxisnames"]
 
     defaultlineattrs = [deco.stroked]
     defaultfrompathattrs = []
@@ -1048,9 +1049,9 @@ class histogram(_style):
                 delta = data[1] - data[0]
                 min = data[0] - self.autohistogrampointpos * delta
                 max = data[-1] + (1-self.autohistogrampointpos) * delta
-                graph.axes[columnname].adjustaxis([min, max])
+                graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([min, max])
         elif self.fromvalue is not None and columnname == sharedata.poscolumnnames[1-privatedata.rangeaxisindex]:
-            graph.axes[columnname].adjustaxis([self.fromvalue])
+            graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.insertfrompath = selectindex == 0
@@ -1273,7 +1274,7 @@ class histogram(_style):
         privatedata.vcurrentpoint = None
         privatedata.count = 0
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[1-privatedata.rangeaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[1-privatedata.rangeaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
-- 
2.43.0


From 6aec6b1005b325b7489c23463da66e271363c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 083/193] fix: automatic histograms raised a TypeError on
 missing positions instead of skipping them

---
 pyx/graph/style.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index b937fca..65da56d 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1043,6 +1043,7 @@ class histogram(_style):
 
     def adjustaxis(self, privatedata, sharedata, graph, plotitem, columnname, data):
         if privatedata.autohistogram and columnname == sharedata.poscolumnnames[privatedata.rangeaxisindex]:
+            data = [value for value in data if value is not None]
             if len(data) == 1:
                 raise ValueError("several data points needed for automatic histogram width calculation")
             if len(data) > 1:
@@ -1292,6 +1293,8 @@ class histogram(_style):
     def drawpoint(self, privatedata, sharedata, graph, point):
         if privatedata.autohistogram:
             # automatic range handling
+            if sharedata.vpos[privatedata.rangeaxisindex] is None:
+                return
             privatedata.count += 1
             if privatedata.count == 2:
                 if privatedata.rangeaxisindex:
-- 
2.43.0


From efbca1e6cc05be1ef9ff3c92f8258d1d3fd55df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 084/193] fix: the text style typeset None for missing texts
 and raised a TypeError for missing text offsets

---
 pyx/graph/style.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 65da56d..a8df2bd 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -869,11 +869,10 @@ class text(_styleneedingpointpos):
     def drawpoint(self, privatedata, sharedata, graph, point):
         if privatedata.textattrs is not None and sharedata.vposvalid:
             x_pt, y_pt = graph.vpos_pt(*sharedata.vpos)
+            if point[self.textname] is None:
+                return
             try:
                 text = str(point[self.textname])
-            except Exception:
-                pass
-            else:
                 if self.dxname is None:
                     dx_pt = privatedata.textdx_pt
                 else:
@@ -882,6 +881,9 @@ class text(_styleneedingpointpos):
                     dy_pt = privatedata.textdy_pt
                 else:
                     dy_pt = float(point[self.dyname]) * privatedata.dyunit_pt
+            except Exception:
+                pass
+            else:
                 graph.layer("data").text_pt(x_pt + dx_pt, y_pt + dy_pt, text, privatedata.textattrs)
 
     def key_pt(self, privatedata, sharedata, graph, x_pt, y_pt, width_pt, height_pt):
-- 
2.43.0


From 1110e7da5d75721c459faa72f789181d0d798272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 085/193] fix: the color key never reached the end of its
 gradient

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index a8df2bd..fe665cc 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -2115,7 +2115,7 @@ class gradient(_style):
                 "/DeviceCMYK": "CMYK"}[self.gradient.getcolor(0).colorspacestring()]
         data = io.BytesIO()
         for i in builtinrange(self.resolution):
-            c = self.gradient.getcolor(i*1.0/self.resolution)
+            c = self.gradient.getcolor(i*1.0/(self.resolution-1))
             data.write(c.to8bitbytes())
         i = bitmap.image(self.resolution, 1, mode, data.getvalue())
 
-- 
2.43.0


From db296ae1699c5bda7823c859b730001dbf253765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 086/193] fix: surfaces without any drawable element raised a
 ValueError

---
 pyx/graph/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index fe665cc..a03d412 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1936,8 +1936,9 @@ class surface(_keygraphstyle):
                             elements.append(mesh.element((mesh.node_pt(graph.vpos_pt(*v3f), self.gridcolor),
                                                           mesh.node_pt(graph.vpos_pt(*v4), self.gridcolor),
                                                           mesh.node_pt(graph.vpos_pt(*v4f), self.gridcolor))))
-        m = mesh.mesh(elements, check=0)
-        graph.layer("filldata").insert(m)
+        if elements:
+            m = mesh.mesh(elements, check=0)
+            graph.layer("filldata").insert(m)
 
         if privatedata.colorize:
             _keygraphstyle.donedrawpoints(self, privatedata, sharedata, graph)
-- 
2.43.0


From d797aef800339490623fd315ac6b8705313ab634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 087/193] fix: stacked bars leaving the axis range kept a valid
 position and drew symbols outside of the graph

---
 pyx/graph/style.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index a03d412..d8bce05 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1498,14 +1498,13 @@ class stackedbarpos(_style):
             sharedata.vpos[sharedata.barvalueindex] = sharedata.vbarrange[sharedata.barvalueindex][1] = None
             sharedata.vposavailable = sharedata.vposvalid = 0
         else:
-            if not sharedata.vposavailable or not sharedata.vposvalid:
-                sharedata.vposavailable = sharedata.vposvalid = 1
-                for v in sharedata.vpos:
-                    if v is None:
-                        sharedata.vposavailable = sharedata.vposvalid = 0
-                        break
-                    if v < -self.epsilon or v > 1+self.epsilon:
-                        sharedata.vposvalid = 0
+            sharedata.vposavailable = sharedata.vposvalid = 1
+            for v in sharedata.vpos:
+                if v is None:
+                    sharedata.vposavailable = sharedata.vposvalid = 0
+                    break
+                if v < -self.epsilon or v > 1+self.epsilon:
+                    sharedata.vposvalid = 0
 
 
 class bar(_style):
-- 
2.43.0


From 03fd2cb6bf89d06f3034139d0966ecdc975ad2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 088/193] fix: ticks of x and y axes moved by xy12axesat did
 not point into the plane of the axes

---
 pyx/graph/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 8997b67..ccd4f35 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -1028,7 +1028,7 @@ class graphxyz(graph):
             xy12axesatv = 0
         if axisname == "x":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, self.xorder, 0, vx, 1-self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, self.xorder, xy12axesatv, vx, 1-self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py1show and not self.pz0show
@@ -1036,7 +1036,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
         elif axisname == "x2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, 1-self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, 0, vx, self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, xy12axesatv, vx, self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
@@ -1060,7 +1060,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py1show and not self.pz1show
         elif axisname == "y":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(self.yorder, vy, 0, 1-self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(self.yorder, vy, xy12axesatv, 1-self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px1show and not self.pz0show
@@ -1068,7 +1068,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
         elif axisname == "y2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(1-self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, 0, self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, xy12axesatv, self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
-- 
2.43.0


From 38075527debe1ebb217b168d2ea38274bf3c649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 089/193] fix: infinite or not-a-number text offsets, arrow
 angles and arrow sizes were written into the output

---
 pyx/graph/style.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index d8bce05..1f6214a 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -881,6 +881,8 @@ class text(_styleneedingpointpos):
                     dy_pt = privatedata.textdy_pt
                 else:
                     dy_pt = float(point[self.dyname]) * privatedata.dyunit_pt
+                if not math.isfinite(dx_pt) or not math.isfinite(dy_pt):
+                    raise ValueError("no finite text offset")
             except Exception:
                 pass
             else:
@@ -935,6 +937,8 @@ class arrow(_styleneedingpointpos):
             try:
                 angle = point["angle"] + 0.0
                 size = point["size"] + 0.0
+                if not math.isfinite(angle) or not math.isfinite(size):
+                    raise ValueError("no finite arrow angle or size")
             except Exception:
                 pass
             else:
-- 
2.43.0


From 9bab637c1ff4b43215f89574b2eb8173f5d268c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 090/193] fix: text boxes following a failed text() call got
 the output of other expressions (page mismatch), and texipc failed entirely
 when the first text failed

---
 pyx/dvi/dvifile.py | 10 +++++++---
 pyx/text.py        | 35 ++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..7f56720 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -400,12 +400,13 @@ class DVIfile:
             else:
                 raise DVIError
 
-    def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[]):
+    def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[], skippageids=[]):
         """ reads a page from the dvi file
 
         This routine reads a page from the dvi file which is
         returned as a canvas. When there is no page left in the
-        dvifile, None is returned and the file is closed properly."""
+        dvifile, None is returned and the file is closed properly.
+        Pages listed in skippageids are passed over."""
 
         self.singlecharmode = singlecharmode
 
@@ -416,7 +417,8 @@ class DVIfile:
                 pass
             elif cmd == _DVI_BOP:
                 ispageid = [self.file.readuint32() for i in range(10)]
-                if pageid is not None and ispageid != pageid:
+                skip = ispageid in skippageids
+                if pageid is not None and ispageid != pageid and not skip:
                     raise DVIError("invalid pageid")
                 if self.debug:
                     self.debugfile.write("%d: beginning of page %i\n" % (self.filepos, ispageid[0]))
@@ -461,6 +463,8 @@ class DVIfile:
                 self.flushtext(fontmap)
                 if self.debug:
                     self.debugfile.write("%d: eop\n \n" % self.filepos)
+                if skip:
+                    return self.readpage(pageid, fontmap, singlecharmode, attrs, skippageids)
                 return self.actpage
             elif cmd == _DVI_PUSH:
                 self.stack.append(list(self.pos))
diff --git a/pyx/text.py b/pyx/text.py
index 1c69854..3a4b62a 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -798,6 +798,11 @@ class MonitorOutput(threading.Thread):
 class textbox_pt(box.rect, baseclasses.canvasitem): pass
 
 
+def _pageid(page):
+    "counters of the dvi page of the given page number"
+    return [ord("P"), ord("y"), ord("X"), page, 0, 0, 0, 0, 0, 0]
+
+
 class textextbox_pt(textbox_pt):
 
     def __init__(self, x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, do_finish, fontmap, singlecharmode, fillstyles):
@@ -854,9 +859,9 @@ class textextbox_pt(textbox_pt):
             for trafo in trafos:
                 self._dvicanvas.trafo = trafo * self._dvicanvas.trafo
 
-    def readdvipage(self, dvifile, page):
-        self._dvicanvas = dvifile.readpage([ord("P"), ord("y"), ord("X"), page, 0, 0, 0, 0, 0, 0],
-                                           fontmap=self.fontmap, singlecharmode=self.singlecharmode, attrs=[self.texttrafo] + self.fillstyles)
+    def readdvipage(self, dvifile, page, skippages=[]):
+        self._dvicanvas = dvifile.readpage(_pageid(page), fontmap=self.fontmap, singlecharmode=self.singlecharmode, attrs=[self.texttrafo] + self.fillstyles,
+                                           skippageids=[_pageid(skippage) for skippage in skippages])
 
     @property
     def dvicanvas(self):
@@ -1019,7 +1024,8 @@ class SingleEngine:
         self.executeid = 0
         self.page = 0
 
-        self.needdvitextboxes = [] # when texipc-mode off
+        self.needdvitextboxes = [] # tuples of textbox and page when texipc-mode off
+        self.failedpages = [] # pages, which might be part of the dvi file, but belong to expressions raising an error
         self.dvifile = None
 
     def _cleanup(self):
@@ -1117,11 +1123,11 @@ class SingleEngine:
                         raise TexResultError("PyXPageOutMarker expected")
             else:
                 # check for "Output written on ...dvi (1 page, 220 bytes)."
-                if self.page:
+                if self.page > len(self.failedpages) or (self.page and "No pages of output." not in parsed):
                     parsed, m = remove_pattern(dvi_pattern, parsed)
                     if not m:
                         raise TexResultError("TeX dvifile messages expected")
-                    if m.group("page") != str(self.page):
+                    if not self.page - len(self.failedpages) <= int(m.group("page")) <= self.page:
                         raise TexResultError("wrong number of pages reported")
                 else:
                     parsed, m = remove_string("No pages of output.", parsed)
@@ -1133,6 +1139,8 @@ class SingleEngine:
             if parsed.replace(r"(Please type a command or say `\end')", "").replace(" ", "").replace("*\n", "").replace("\n", ""):
                 raise TexResultError("unhandled TeX response (might be an error)")
         except TexResultError as e:
+            if oldstate == newstate == STATE_TYPESET:
+                self.failedpages.append(self.page)
             if self.errordetail > errordetail.none:
                 def add(msg): e.args = (e.args[0] + msg,)
                 add("\nThe expression passed to TeX was:\n{}".format(indent_text(expr.rstrip())))
@@ -1241,11 +1249,9 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
-                box.readdvipage(self.dvifile, page)
-                page += 1
-        if self.dvifile is not None and self.dvifile.readpage(None) is not None:
+            for box, page in self.needdvitextboxes:
+                box.readdvipage(self.dvifile, page, self.failedpages)
+        if self.dvifile is not None and self.dvifile.readpage(None, skippageids=[_pageid(page) for page in self.failedpages]) is not None:
             raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
             atexit.unregister(self._cleanup)
@@ -1301,9 +1307,8 @@ class SingleEngine:
             expr = expr.tex
         for ta in textattrs[::-1]:
             expr = ta.apply(expr)
-        first = self.state < STATE_TYPESET
         left_pt, right_pt, height_pt, depth_pt = self.do_typeset(expr, self.texmessages_run_default + self.texmessages_run + texmessages)
-        if self.texipc and first:
+        if self.texipc and self.dvifile is None:
             self.dvifile = dvifile.DVIfile(os.path.join(self.tmpdir, "texput.dvi"), debug=self.dvitype)
         box = textextbox_pt(x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, self.do_finish, fontmap, singlecharmode, fillstyles)
         for t in trafos:
@@ -1311,9 +1316,9 @@ class SingleEngine:
                                 #       this is quite different from what we do elsewhere!!!
                                 #       see https://sourceforge.net/mailarchive/forum.php?thread_id=9137692&forum_id=23700
         if self.texipc:
-            box.readdvipage(self.dvifile, self.page)
+            box.readdvipage(self.dvifile, self.page, self.failedpages)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((box, self.page))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From f742d517a45d08ca2bc508a2d97f4cf49ff27ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 091/193] fix: a stalled or surviving TeX process made PyX hang
 at exit, and failures while finishing left the process running and lost the
 usefiles

---
 pyx/text.py | 54 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 3a4b62a..195538b 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -20,7 +20,7 @@
 
 
 import atexit, errno, functools, glob, inspect, io, itertools, logging, os
-import queue, re, shutil, sys, tempfile, textwrap, threading
+import queue, re, shutil, subprocess, sys, tempfile, textwrap, threading
 
 from pyx import config, unit, box, baseclasses, trafo, version, attr, style, path, canvas
 from pyx import bbox as bboxmodule
@@ -655,6 +655,11 @@ class MonitorOutput(threading.Thread):
         :type s: str or None
 
         """
+        try: # drop an expectation nobody is waiting for anymore
+            self._expect.get_nowait()
+        except queue.Empty:
+            pass
+        self._received.clear()
         self._expect.put_nowait(s)
 
     def read(self):
@@ -777,11 +782,10 @@ class MonitorOutput(threading.Thread):
         expect = None
         while True:
             line = self._readline()
-            if expect is None:
-                try:
-                    expect = self._expect.get_nowait()
-                except queue.Empty:
-                    pass
+            try:
+                expect = self._expect.get_nowait()
+            except queue.Empty:
+                pass
             if not line:
                 break
             self._output.put(line)
@@ -1036,20 +1040,12 @@ class SingleEngine:
 
         """
         try:
-            if self.state > STATE_START:
-                if self.state < STATE_DONE:
+            try:
+                if STATE_START < self.state < STATE_DONE:
                     self.do_finish(cleanup=False)
-                    if self.state < STATE_DONE: # cleanup while TeX is still running?
-                        self.texoutput.expect(None)
-                        self.force_done()
-                        for f, msg in [(self.texinput.close, "We tried to communicate to %s to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
-                                       (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
-                                       (self.popen.kill, "We tried very hard to get rid of the %s process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
-                            f()
-                            if self.texoutput.done():
-                                break
-                            logger.warning(msg)
-                self.popen.wait()
+            finally:
+                if self.state > STATE_START:
+                    self._stop()
                 for usefile in self.usefiles:
                     extpos = usefile.rfind(".")
                     try:
@@ -1064,6 +1060,26 @@ class SingleEngine:
         finally:
             shutil.rmtree(self.tmpdir, ignore_errors=True)
 
+    def _stop(self):
+        """Get rid of the TeX interpreter, when it does not quit itself."""
+        def quit():
+            try:
+                self.texoutput.expect(None)
+                self.force_done()
+                self.texinput.close()
+            except (OSError, ValueError): # TeX is gone or texinput is closed already
+                pass
+        for f, msg in [(quit, "We tried to communicate to {} to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
+                       (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
+                       (self.popen.kill, "We tried very hard to get rid of the {} process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
+            f()
+            try:
+                self.popen.wait(config.getint("text", "wait", 60))
+            except subprocess.TimeoutExpired:
+                logger.warning(msg)
+            else:
+                break
+
     def _execute(self, expr, texmessages, oldstate, newstate):
         """Execute TeX expression.
 
-- 
2.43.0


From 349d867b66e160cbec44ae6f8f4ca267d3b1e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 092/193] fix: a TeX command which could not be started left a
 temporary directory for each attempt and lost the usefiles

---
 pyx/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 195538b..b95105f 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1196,7 +1196,12 @@ class SingleEngine:
         cmd = self.cmd + ['--output-directory', tex_tmpdir]
         if self.texipc:
             cmd.append("--ipc")
-        self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        try:
+            self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        except OSError:
+            atexit.unregister(self._cleanup)
+            self._cleanup()
+            raise
         self.texinput = io.TextIOWrapper(self.popen.stdin, encoding=self.texenc)
         if self.copyinput:
             try:
-- 
2.43.0


From da3e92377ec24aea0702f2b8d975fe43d3cf208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 093/193] fix: calls following a failure of the TeX process
 raised AttributeError, queue.Full or BrokenPipeError instead of reporting the
 failure

---
 pyx/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index b95105f..c406f6b 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -871,6 +871,8 @@ class textextbox_pt(textbox_pt):
     def dvicanvas(self):
         if self._dvicanvas is None:
             self.do_finish()
+            if self._dvicanvas is None:
+                raise TexResultError("no output available as typesetting failed")
         return self._dvicanvas
 
     def marker(self, name):
@@ -1098,7 +1100,6 @@ class SingleEngine:
         assert newstate >= oldstate
         if newstate == STATE_DONE:
             self.texoutput.expect(None)
-            self.texinput.write(expr)
         else:
 
             # test to encode expr early to not pile up expected results
@@ -1112,8 +1113,11 @@ class SingleEngine:
             self.executeid += 1
             self.texoutput.expect("PyXInputMarker:executeid=%i:" % self.executeid)
             expr += "%%\n\\PyXInput{%i}%%\n" % self.executeid
+        try:
             self.texinput.write(expr)
-        self.texinput.flush()
+            self.texinput.flush()
+        except OSError as e:
+            raise TexResultError("{} does not accept input anymore ({})".format(self.name, e))
         self.state = newstate
         if newstate == STATE_DONE:
             wait_ok = self.texoutput.done()
-- 
2.43.0


From c833538edbeac0a4113c2a74ef091260a56e7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 094/193] fix: texmessage.load_graphics accepted a single
 graphics file per message only

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index c406f6b..78d974b 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From c8d80ff4782144e66c1611b3f26a1fcddcb3cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 095/193] fix: invalid dvi and vf files were reported by errors
 without any description

---
 pyx/dvi/dvifile.py | 8 ++++----
 pyx/dvi/vffile.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 7f56720..ef78525 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -367,7 +367,7 @@ class DVIfile:
             if cmd == _DVI_NOP:
                 pass
             elif cmd == _DVI_PRE:
-                if afile.readuchar() != _DVI_VERSION: raise DVIError
+                if afile.readuchar() != _DVI_VERSION: raise DVIError("unsupported dvi version")
                 num = afile.readuint32()
                 den = afile.readuint32()
                 self.mag = afile.readuint32()
@@ -398,7 +398,7 @@ class DVIfile:
                 comment = afile.read(afile.readuchar())
                 return
             else:
-                raise DVIError
+                raise DVIError("unexpected command %d in dvi file" % cmd)
 
     def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[], skippageids=[]):
         """ reads a page from the dvi file
@@ -428,7 +428,7 @@ class DVIfile:
                 self.file.close()
                 return None # nothing left
             else:
-                raise DVIError
+                raise DVIError("unexpected command %d in dvi file" % cmd)
 
         self.actpage = canvas.canvas(attrs)
         self.actpage.markers = {}
@@ -617,4 +617,4 @@ class DVIfile:
                                 afile.readint32(),
                                 afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
             else:
-                raise DVIError
+                raise DVIError("unexpected command %d in dvi file" % cmd)
diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 819bd40..2b8ddcb 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -45,12 +45,12 @@ class vffile:
 
         cmd = afile.readuchar()
         if cmd == _VF_PRE:
-            if afile.readuchar() != _VF_ID: raise VFError
+            if afile.readuchar() != _VF_ID: raise VFError("unsupported vf version")
             comment = afile.read(afile.readuchar())
             self.cs = afile.readuint32()
             self.ds = afile.readuint32()
         else:
-            raise VFError
+            raise VFError("unexpected command %d in vf file" % cmd)
 
         while True:
             cmd = afile.readuchar()
@@ -104,7 +104,7 @@ class vffile:
             elif cmd == _VF_POST:
                 break
             else:
-                raise VFError
+                raise VFError("unexpected command %d in vf file" % cmd)
 
     def getfonts(self):
         return self.fonts
-- 
2.43.0


From 76018dce481530a11b8895d5d569c3fb9620ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 096/193] fix: a dvi file ending within a page was reported as
 an IndexError

---
 pyx/dvi/dvifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ef78525..ee6c0ff 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -445,6 +445,8 @@ class DVIfile:
             except struct.error:
                 # we most probably (if the dvi file is not corrupt) hit the end of a dvi chunk,
                 # so we have to continue with the rest of the dvi file
+                if not self.statestack:
+                    raise DVIError("unexpected end of dvi file")
                 self._pop_dvistring(fontmap)
                 continue
             if cmd == _DVI_NOP:
-- 
2.43.0


From 8ad61ba30e81e2dd8c8321a33cc9968b44aced1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 097/193] fix: reading an integer beyond the end of a file was
 reported as a TypeError

---
 pyx/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..59bce21 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -42,7 +42,7 @@ class reader:
         first = 1
         result = 0
         while bytes:
-            value = ord(self.file.read(1))
+            value = self.readuchar()
             if first and signed and value > 127:
                 value -= 256
             first = 0
-- 
2.43.0


From 3ff0539b74cfaa23a0f8731f854208d74ffbaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 098/193] fix: font definitions between the pages of a dvi file
 were refused

---
 pyx/dvi/dvifile.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ee6c0ff..af70799 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -400,6 +400,23 @@ class DVIfile:
             else:
                 raise DVIError("unexpected command %d in dvi file" % cmd)
 
+    def _read_fntdef(self, afile, cmd):
+        if cmd == _DVI_FNTDEF1234:
+            num = afile.readuchar()
+        elif cmd == _DVI_FNTDEF1234+1:
+            num = afile.readuint16()
+        elif cmd == _DVI_FNTDEF1234+2:
+            num = afile.readuint24()
+        elif cmd == _DVI_FNTDEF1234+3:
+            # Cool, here we have according to docu a signed int. Why?
+            num = afile.readint32()
+        self.definefont(cmd-_DVI_FNTDEF1234+1,
+                        num,
+                        afile.readint32(),
+                        afile.readint32(),
+                        afile.readint32(),
+                        afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
+
     def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[], skippageids=[]):
         """ reads a page from the dvi file
 
@@ -427,6 +444,8 @@ class DVIfile:
             elif cmd == _DVI_POST:
                 self.file.close()
                 return None # nothing left
+            elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
+                self._read_fntdef(self.file, cmd)
             else:
                 raise DVIError("unexpected command %d in dvi file" % cmd)
 
@@ -603,20 +622,6 @@ class DVIfile:
             elif cmd >= _DVI_SPECIAL1234 and cmd < _DVI_SPECIAL1234 + 4:
                 self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii"), fontmap)
             elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
-                if cmd == _DVI_FNTDEF1234:
-                    num = afile.readuchar()
-                elif cmd == _DVI_FNTDEF1234+1:
-                    num = afile.readuint16()
-                elif cmd == _DVI_FNTDEF1234+2:
-                    num = afile.readuint24()
-                elif cmd == _DVI_FNTDEF1234+3:
-                    # Cool, here we have according to docu a signed int. Why?
-                    num = afile.readint32()
-                self.definefont(cmd-_DVI_FNTDEF1234+1,
-                                num,
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
+                self._read_fntdef(afile, cmd)
             else:
                 raise DVIError("unexpected command %d in dvi file" % cmd)
-- 
2.43.0


From 730d17398cedf390d929989f8662924abcffacfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 099/193] fix: a nop command within a page of a dvi file was
 refused

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index af70799..92ed6a4 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -470,7 +470,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From 043890c7aa53fe32e52abf1940a9d14446bb8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 100/193] fix: the advance of a rule in a virtual character was
 scaled twice

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 92ed6a4..1e82dc7 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From 7dcc7c83ea4e1a847e4ff0f8dcdc12b6576b8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 101/193] fix: virtual characters started with font number zero
 instead of the first font and with the spacing registers of the page

---
 pyx/dvi/dvifile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 1e82dc7..051c53b 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -346,7 +346,10 @@ class DVIfile:
         self.stack = []
         self.filepos = 0
 
-        self.usefont(0, 0, fontmap)
+        # the first font defined in the virtual font is selected at the beginning and w, x, y, and z are zero
+        self.flushtext(fontmap)
+        self.activefont = next(iter(fonts.values()), None)
+        self.pos = [self.pos[_POS_H], self.pos[_POS_V], 0, 0, 0, 0]
 
     def _pop_dvistring(self, fontmap):
         self.flushtext(fontmap)
-- 
2.43.0


From 111b71ceb1b9356ea918f4412c104922818d52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 102/193] fix: dvi pages with negative counters could not be
 selected

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 051c53b..c0f3874 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -436,7 +436,7 @@ class DVIfile:
             if cmd == _DVI_NOP:
                 pass
             elif cmd == _DVI_BOP:
-                ispageid = [self.file.readuint32() for i in range(10)]
+                ispageid = [self.file.readint32() for i in range(10)]
                 skip = ispageid in skippageids
                 if pageid is not None and ispageid != pageid and not skip:
                     raise DVIError("invalid pageid")
-- 
2.43.0


From bc2f7a41fe9083884627a26c076241cd1ddab61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 103/193] fix: dvi files with non-ascii specials were refused

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index c0f3874..f0de3c2 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -623,7 +623,7 @@ class DVIfile:
                 fntnum = afile.readint(cmd - _DVI_FNT1234 + 1, cmd == _DVI_FNT1234 + 3)
                 self.usefont(fntnum, cmd-_DVI_FNT1234+1, fontmap)
             elif cmd >= _DVI_SPECIAL1234 and cmd < _DVI_SPECIAL1234 + 4:
-                self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii"), fontmap)
+                self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("utf-8", "surrogateescape"), fontmap)
             elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
                 self._read_fntdef(afile, cmd)
             else:
-- 
2.43.0


From 4544b558fd7707c9f994da89b595cd5e2d36f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 104/193] fix: the font size ignored the magnification of a dvi
 file

---
 pyx/dvi/texfont.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/texfont.py b/pyx/dvi/texfont.py
index 33c148f..fec669a 100644
--- a/pyx/dvi/texfont.py
+++ b/pyx/dvi/texfont.py
@@ -61,10 +61,9 @@ class TeXfont:
 
     def getsize_pt(self):
         """ return size of font in (PS) points """
-        # The factor 16L/16777216L=2**(-20) converts a fix_word (here self.q)
-        # to the corresponding float. Furthermore, we have to convert from TeX
-        # points to points, hence the factor 72/72.27.
-        return 72/72.27 * 16*self.q/16777216
+        # self.q*self.tfmconv is the size in dvi units, which are subject to
+        # the magnification when being converted to points
+        return self.q*self.tfmconv * self.pyxconv
 
     def _convert_tfm_to_dvi(self, length):
         # doing the integer math with long integers will lead to different roundings
-- 
2.43.0


From 2c85221bfd65cabdf21132c47c4b71a20c93f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 105/193] fix: long character packets in vf files were misread

---
 pyx/dvi/vffile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 2b8ddcb..392aad5 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -90,7 +90,7 @@ class vffile:
                 # character packet (long form)
                 pl = afile.readuint32()   # packet length
                 cc = afile.readuint32()   # char code (assumed unsigned, but anyhow only 0 <= cc < 255 is actually used)
-                tfm = afile.readuint24()  # character width
+                tfm = afile.readint32()   # character width
                 dvi = afile.read(pl)      # dvi code of character
                 self.widths[cc] = tfm
                 self.chardefs[cc] = dvi
-- 
2.43.0


From 958129c9ccd00ffd3e8567d4a69925d341748809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 106/193] fix: characters at the beginning of a dvi page
 without a selected font were typeset in the last font of the page before

---
 pyx/dvi/dvifile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index f0de3c2..554c35a 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -157,6 +157,8 @@ class DVIfile:
             self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
+        if self.activefont is None:
+            raise DVIError("character without a font being selected")
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
 
         if self.debug:
@@ -455,6 +457,7 @@ class DVIfile:
         self.actpage = canvas.canvas(attrs)
         self.actpage.markers = {}
         self.pos = [0, 0, 0, 0, 0, 0]
+        self.activefont = None
 
         # tuple (hpos, vpos, codepoints) to be output, or None if no output is pending
         self.activetext = None
-- 
2.43.0


From f7ccdd5b3093fd699a9cb148c9d7f880a96eb6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 107/193] fix: a virtual font referring to a missing font was
 taken as an ordinary font

---
 pyx/dvi/dvifile.py | 8 ++++++--
 pyx/dvi/vffile.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 554c35a..bdd2d3c 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -204,9 +204,13 @@ class DVIfile:
 
         # check whether it's a virtual font by trying to open it. if this fails, it is an ordinary TeX font
         try:
-            with config.open(fontname, [config.format.vf]) as fontfile:
-                afont = texfont.virtualfont(fontname, fontfile, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
+            fontfile = config.open(fontname, [config.format.vf])
         except EnvironmentError:
+            fontfile = None
+        if fontfile is not None:
+            with fontfile:
+                afont = texfont.virtualfont(fontname, fontfile, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
+        else:
             afont = texfont.TeXfont(fontname, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
 
         self.fonts[num] = afont
diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 392aad5..09f7f9e 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -82,9 +82,13 @@ class vffile:
                 from pyx import config
                 from . import texfont
                 try:
-                    with config.open(fontname, [config.format.vf]) as fontfile:
-                        self.fonts[num] = texfont.virtualfont(fontname, fontfile, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
+                    fontfile = config.open(fontname, [config.format.vf])
                 except EnvironmentError:
+                    fontfile = None
+                if fontfile is not None:
+                    with fontfile:
+                        self.fonts[num] = texfont.virtualfont(fontname, fontfile, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
+                else:
                     self.fonts[num] = texfont.TeXfont(fontname, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
             elif cmd == _VF_LONG_CHAR:
                 # character packet (long form)
-- 
2.43.0


From 71160823c25f30b58a143f293e484f812b5e4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 108/193] fix: the contents of a dvi page were lost when a
 color, a rotation or a scaling was not ended within the page

---
 pyx/dvi/dvifile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index bdd2d3c..eaa6ef0 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -458,7 +458,7 @@ class DVIfile:
             else:
                 raise DVIError("unexpected command %d in dvi file" % cmd)
 
-        self.actpage = canvas.canvas(attrs)
+        page = self.actpage = canvas.canvas(attrs)
         self.actpage.markers = {}
         self.pos = [0, 0, 0, 0, 0, 0]
         self.activefont = None
@@ -494,6 +494,8 @@ class DVIfile:
                 self.flushtext(fontmap)
                 if self.debug:
                     self.debugfile.write("%d: eop\n \n" % self.filepos)
+                while self.actpage is not page:
+                    self.endsubpage()
                 if skip:
                     return self.readpage(pageid, fontmap, singlecharmode, attrs, skippageids)
                 return self.actpage
-- 
2.43.0


From fedf743bb75c7f3216c6b88d0cbff6838608359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 109/193] fix: read Type 1 fonts in PFA format

---
 pyx/font/t1file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..9315965 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1163,13 +1163,13 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(b" ", b"").replace(b"\r", b"").replace(b"\n", b""))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From 12a924d284e124e173a1bdb981f6976c23424c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 110/193] fix: do not round down divisions in Type 1
 charstrings

---
 pyx/font/t1file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 9315965..6896662 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -507,12 +507,12 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1 / num2)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1 / num2)
 
 T1div = _T1div()
 
-- 
2.43.0


From 0a3bee055fb73139c8ee80c558a3aaa178dd9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 111/193] fix: write Type 1 fonts in PFB format

---
 pyx/font/t1file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 6896662..3b43d36 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1116,17 +1116,17 @@ class T1File:
             l, x1 = divmod(l, 256)
             l, x2 = divmod(l, 256)
             x4, x3 = divmod(l, 256)
-            return chr(x1) + chr(x2) + chr(x3) + chr(x4)
-        file.write("\200\1")
-        file.write(pfblength(self.data1))
+            return bytes([x1, x2, x3, x4])
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data1))
         file.write(self.data1)
-        file.write("\200\2")
-        file.write(pfblength(data2eexec))
-        file.write(data2eexec)
-        file.write("\200\1")
-        file.write(pfblength(self.data3))
+        file.write_bytes(b"\200\2")
+        file.write_bytes(pfblength(data2eexec))
+        file.write_bytes(data2eexec)
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data3))
         file.write(self.data3)
-        file.write("\200\3")
+        file.write_bytes(b"\200\3")
 
     def outputPS(self, file, writer):
         """output the PostScript code for the T1File to the file file"""
-- 
2.43.0


From 7e61f6abdfd33d8c2ca9840576e9f8effb27fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 112/193] fix: ignore a closepath in a Type 1 charstring when
 there is nothing to close

---
 pyx/font/t1file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 3b43d36..9a6f7ef 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -233,6 +233,9 @@ class _T1closepath(T1cmd):
         return "closepath"
 
     def updatepath(self, path, trafo, context):
+        if isinstance(path.pathitems[-1], moveto_pt):
+            # there is nothing to be closed
+            return
         path.append(closepath())
         # The closepath in T1 is different from PostScripts in that it does
         # *not* modify the current position; hence we need to add an additional
-- 
2.43.0


From 64fefc773ec9a9b05e45cad6e7ad7a217019458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 113/193] fix: avoid signed integer overflows in the C eexec
 codec

---
 pyx/font/_t1code.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index eacb3fa..a554bc9 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -50,7 +50,7 @@ static PyObject *py_decoder(PyObject *self, PyObject *args)
       for (i=0; i<lcode; i++) {
         x = code[i];
         data[i] = x ^ ( r >> 8);
-        r = (x + r) * C1 + C2;
+        r = (x + r) * (uint32_t) C1 + C2;
       }
 
       /* convert result to string stripping first n chars */
@@ -91,12 +91,12 @@ static PyObject *py_encoder(PyObject *self, PyObject *args)
 
       for (i=0; i<lrandom; i++) {
         code[i] = random[i] ^ ( r >> 8);
-        r = (code[i] + r) * C1 + C2;
+        r = (code[i] + r) * (uint32_t) C1 + C2;
       }
 
       for (i=0; i<ldata; i++) {
         code[i+lrandom] = data[i] ^ ( r >> 8);
-        r = (code[i+lrandom] + r) * C1 + C2;
+        r = (code[i+lrandom] + r) * (uint32_t) C1 + C2;
       }
 
       result = PyBytes_FromStringAndSize((const char *)code, ldata + lrandom);
-- 
2.43.0


From 4dc7bed8ecc6ebb0fdb13e95b4a4383143d54b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 114/193] fix: do not read outside the buffer in the C eexec
 decoder

---
 pyx/font/_t1code.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index a554bc9..9d0e43f 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -39,13 +39,13 @@ static PyObject *py_decoder(PyObject *self, PyObject *args)
 
     if (PyArg_ParseTuple(args, "y#ii", (char **) &code, &lcode, &pr, &n)) {
       unsigned char *data;
-      Py_ssize_t i;
+      Py_ssize_t i, start;
       unsigned char x;
       uint16_t r=pr;
       PyObject *result;
 
-      if (! (data = (unsigned char *) malloc(lcode)) )
-          return NULL;
+      if (! (data = (unsigned char *) malloc(lcode ? lcode : 1)) )
+          return PyErr_NoMemory();
 
       for (i=0; i<lcode; i++) {
         x = code[i];
@@ -53,8 +53,12 @@ static PyObject *py_decoder(PyObject *self, PyObject *args)
         r = (x + r) * (uint32_t) C1 + C2;
       }
 
-      /* convert result to string stripping first n chars */
-      result = PyBytes_FromStringAndSize((const char *)data + n, lcode - n);
+      /* convert result to string stripping first n chars, i.e. data[n:] */
+      start = n;
+      if (start < 0) start += lcode;
+      if (start < 0) start = 0;
+      if (start > lcode) start = lcode;
+      result = PyBytes_FromStringAndSize((const char *)data + start, lcode - start);
       free(data);
       return result;
     }
@@ -86,8 +90,8 @@ static PyObject *py_encoder(PyObject *self, PyObject *args)
       uint16_t r=pr;
       PyObject *result;
 
-      if (! (code = (unsigned char *) malloc(ldata + lrandom)) )
-          return NULL;
+      if (! (code = (unsigned char *) malloc(ldata + lrandom ? ldata + lrandom : 1)) )
+          return PyErr_NoMemory();
 
       for (i=0; i<lrandom; i++) {
         code[i] = random[i] ^ ( r >> 8);
-- 
2.43.0


From 379e9f3371316115678005fbb5d6fb2a825308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 115/193] fix: do not transpose the font matrix of Type 1 fonts

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 9a6f7ef..b591e9f 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -665,7 +665,7 @@ class T1File:
         self.encoding = None
 
         self.name, = self.fontnamepattern.search(self.data1).groups()
-        m11, m12, m21, m22, v1, v2 = list(map(float, self.fontmatrixpattern.search(self.data1).groups()[:6]))
+        m11, m21, m12, m22, v1, v2 = list(map(float, self.fontmatrixpattern.search(self.data1).groups()[:6]))
         self.fontmatrix = trafo.trafo_pt(matrix=((m11, m12), (m21, m22)), vector=(v1, v2))
 
     def _eexecdecode(self, code):
-- 
2.43.0


From 76495e3d995f209e3403e114f075a453e963b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 116/193] fix: do not add the offset of the font matrix to the
 advance of Type 1 glyphs

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index b591e9f..e820b97 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -918,7 +918,7 @@ class T1File:
                 self.path = p
                 self.wx_pt = wx_pt
                 self.wy_pt = wy_pt
-        return glyphpath(p, *t.apply_pt(context.wx, context.wy))
+        return glyphpath(p, *trafo.trafo_pt(matrix=t.matrix).apply_pt(context.wx, context.wy))
 
     def getdata2(self, subrs=None, glyphs=None):
         """makes a data2 string
-- 
2.43.0


From 0278b49796eaf3d5cd9c986d9f6fe9b8e1a26121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 117/193] fix: position of the accent and width of composite
 Type 1 glyphs

---
 pyx/font/t1file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index e820b97..d330219 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,9 +183,14 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        # adx and ady refer to the left side bearing point of the composite
+        # character, whose width is not altered by its parts
+        sbx, sby, wx, wy = context.x, context.y, context.wx, context.wy
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
-        atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
+        atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, sby+ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx = wx
+        context.wy = wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From a44427413b1c11c4f6f6cd63a034a8d10e1fc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 118/193] fix: Type 1 fonts with noaccess def after the
 charstrings

---
 pyx/font/t1file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index d330219..05d9fb1 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -793,8 +793,13 @@ class T1File:
             self.glyphs[chartoken[1:]] = c.getbytes(size)
             if first:
                 self.glyphndtoken = c.gettoken()
+                if self.glyphndtoken == b"noaccess":
+                    self.glyphndtoken = self.glyphndtoken + b" " + c.gettoken()
             else:
-                token = c.gettoken(); assert token == self.glyphndtoken
+                token = c.gettoken()
+                if token == b"noaccess":
+                    token = token + b" " + c.gettoken()
+                assert token == self.glyphndtoken
             first = False
         self.charstringsend = c.pos
         assert not self.subrs or self.subrrdtoken == self.glyphrdtoken
-- 
2.43.0


From 6234d1482c9b8bdeb889d181abbb30a29b6bbd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 119/193] fix: encode Type 1 charstrings with more than 4
 random bytes

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 05d9fb1..7f8a711 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -687,7 +687,7 @@ class T1File:
 
     def _charstringencode(self, data):
         """eexec encoding of data"""
-        return encoder(data, self.charstringr, b"PyX!"[:self.lenIV])
+        return encoder(data, self.charstringr, (b"PyX!" * (self.lenIV//4 + 1))[:self.lenIV])
 
     def _encoding(self):
         """helper method to lookup the encoding in the font"""
-- 
2.43.0


From 9cee6a30a0d517e3734f948609a9103d512aae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 120/193] fix: do not truncate the glyph widths in PDF

---
 pyx/font/font.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 0d8f362..6a34736 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -197,9 +197,10 @@ class PDFfont(pdfwriter.PDFobject):
                     file.write(" ")
             if i in self.charcodes:
                 if self.metric is not None:
-                    file.write("%i" % self.metric.width_ds(encoding[i]))
+                    width = self.metric.width_ds(encoding[i])
                 else:
-                    file.write("%i" % self.fontdescriptor.fontfile.t1file.getglyphinfo(encoding[i])[0])
+                    width = self.fontdescriptor.fontfile.t1file.getglyphpath_pt(0, 0, encoding[i], 1000).wx_pt
+                file.write("%g" % round(width, 3))
             else:
                 file.write("0")
         file.write(" ]\n")
-- 
2.43.0


From 01125abfb7bb7f764ea0e333ea0b4625a6fc3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 121/193] fix: Type 1 fonts without subroutines

---
 pyx/font/t1file.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 7f8a711..8669c93 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -737,11 +737,16 @@ class T1File:
         self.emptysubr = self._charstringencode(b"\x0b") # 11, i.e. return
 
         # extract Subrs
-        c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
-        self.subrsstart = c.pos
-        arraycount = c.getint()
-        token = c.gettoken(); assert token == b"array"
         self.subrs = []
+        if b"/Subrs" in self._data2:
+            c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
+            self.subrsstart = c.pos
+            arraycount = c.getint()
+            token = c.gettoken(); assert token == b"array"
+        else:
+            # the Subrs are optional
+            self.subrsstart = self.subrsend = None
+            arraycount = 0
         for i in range(arraycount):
             token = c.gettoken(); assert token == b"dup"
             token = c.getint(); assert token == i
@@ -758,7 +763,8 @@ class T1File:
                 self.subrnptoken = token
             else:
                 assert token == self.subrnptoken
-        self.subrsend = c.pos
+        if self.subrsstart is not None:
+            self.subrsend = c.pos
 
         # hasflexhintsubrs is a boolean indicating that the font uses flex or
         # hint replacement subrs as specified by Adobe (tm). When it does, the
@@ -990,7 +996,11 @@ class T1File:
                     w.write_bytes(b"\n")
             w.write("end\n")
 
-        if self.subrsstart < self.charstringsstart:
+        if self.subrsstart is None:
+            w.write_bytes(self._data2[:self.charstringsstart])
+            addcharstrings(glyphs)
+            w.write_bytes(self._data2[self.charstringsend:])
+        elif self.subrsstart < self.charstringsstart:
             w.write_bytes(self._data2[:self.subrsstart])
             addsubrs(subrs)
             w.write_bytes(self._data2[self.subrsend:self.charstringsstart])
-- 
2.43.0


From a4b89549a4df4dafdeb2b06e1193c4e4cdf41ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 122/193] fix: do not use the same character for a glyph name
 and a character code in SVG fonts

---
 pyx/font/font.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 6a34736..2c80c8d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -337,7 +337,7 @@ class SVGT1mapping:
     def merge_glyphnames(self, glyphnames):
         for glyphname in glyphnames:
             if glyphname not in self.glyphnames:
-                if glyphname in _glyphnames:
+                if glyphname in _glyphnames and _glyphnames[glyphname] not in self.charcodes.values():
                     self.glyphnames[glyphname] = _glyphnames[glyphname]
                 else:
                     self.glyphnames[glyphname] = chr(self.private_glyphname)
@@ -346,7 +346,7 @@ class SVGT1mapping:
     def merge_charcodes(self, charcodes):
         for charcode in charcodes:
             if charcode not in self.charcodes:
-                if charcode in _charcodes:
+                if charcode in _charcodes and _charcodes[charcode] not in self.glyphnames.values():
                     self.charcodes[charcode] = _charcodes[charcode]
                 else:
                     self.charcodes[charcode] = chr(self.private_charcode)
-- 
2.43.0


From 3989a61cc2f4064df3df91556c769c92af976cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 123/193] fix: accept MetricsSets in AFM files

---
 pyx/font/afmfile.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c4821b3..3c9b9f4 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1032,8 +1032,6 @@ class AFMfile(metric.metric):
             return _READ_MAIN, None
         elif key == "MetricsSets":
             self.metricssets = _parseint(args)
-            if direction is not None:
-                raise AFMError("MetricsSets not allowed after first (implicit) StartDirection")
         elif key == "FontName":
             self.fontname = _parsestr(args)
         elif key == "FullName":
-- 
2.43.0


From 9dc64dc763476e2a52c6774cc2b09e8a0eff0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 124/193] fix: the AFM key is CharWidth

---
 pyx/font/afmfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 3c9b9f4..62a0c0c 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1082,7 +1082,7 @@ class AFMfile(metric.metric):
             else:
                 raise AFMError("Wrong direction number %d" % direction)
         elif (key == "UnderlinePosition" or key == "UnderlineThickness" or key == "ItalicAngle" or
-              key == "Charwidth" or key == "IsFixedPitch"):
+              key == "CharWidth" or key == "IsFixedPitch"):
             # we implicitly entered a direction section, so we should process the line again
             return self._processline_direction(line, 0)
         elif key == "StartCharMetrics":
@@ -1126,7 +1126,7 @@ class AFMfile(metric.metric):
             self.underlinethicknesses[direction] = _parsefloat(args)
         elif key == "ItalicAngle":
             self.italicangles[direction] = _parsefloat(args)
-        elif key == "Charwidth":
+        elif key == "CharWidth":
             self.charwidths[direction] = _parsefloats(args, 2)
         elif key == "IsFixedPitch":
             self.isfixedpitchs[direction] = _parsebool(args)
-- 
2.43.0


From 28e6848ba840339d2a140eb8359ec59b090903a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 125/193] fix: direction 2 in AFM files declares both
 directions

---
 pyx/font/afmfile.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 62a0c0c..52b5135 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1116,20 +1116,27 @@ class AFMfile(metric.metric):
         return _READ_MAIN, None
 
     def _processline_direction(self, line, direction):
+        # direction 2 means that the data applies to both directions
+        directions = (0, 1) if direction == 2 else (direction,)
         try:
             key, args = line.split(None, 1)
         except ValueError:
             key = line.strip()
         if key == "UnderlinePosition":
-            self.underlinepositions[direction] = _parsefloat(args)
+            for d in directions:
+                self.underlinepositions[d] = _parsefloat(args)
         elif key == "UnderlineThickness":
-            self.underlinethicknesses[direction] = _parsefloat(args)
+            for d in directions:
+                self.underlinethicknesses[d] = _parsefloat(args)
         elif key == "ItalicAngle":
-            self.italicangles[direction] = _parsefloat(args)
+            for d in directions:
+                self.italicangles[d] = _parsefloat(args)
         elif key == "CharWidth":
-            self.charwidths[direction] = _parsefloats(args, 2)
+            for d in directions:
+                self.charwidths[d] = _parsefloats(args, 2)
         elif key == "IsFixedPitch":
-            self.isfixedpitchs[direction] = _parsebool(args)
+            for d in directions:
+                self.isfixedpitchs[d] = _parsebool(args)
         elif key == "EndDirection":
             return _READ_MAIN, None
         else:
-- 
2.43.0


From 91ec87a1d23408512453b8a0ec9e17fa7af0ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 126/193] fix: keep the composites of an AFM file

---
 pyx/font/afmfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 52b5135..2a0c731 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1341,6 +1341,7 @@ class AFMfile(metric.metric):
                 raise AFMError("Unknown key '%s' in composite character data section" % key)
         if len(parts) != no:
             raise AFMError("Wrong number of composite characters")
+        self.composites.append(AFMcomposite(name, parts))
         return _READ_COMPOSITES, i+1
 
     def parse(self, f):
-- 
2.43.0


From 7e7de51cb3caa625a9622897586663057afb6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 127/193] fix: combine WX and WY in AFM files

---
 pyx/font/afmfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 2a0c731..b5b4943 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1170,13 +1170,13 @@ class AFMfile(metric.metric):
                     raise AFMError("Cannot define char code twice")
                 char = AFMcharmetrics(_parsehex(args))
             elif key == "WX" or key == "W0X":
-                char.widths[0] = _parsefloat(args), 0
+                char.widths[0] = _parsefloat(args), char.widths[0][1] if char.widths[0] else 0
             elif key == "W1X":
-                char.widths[1] = _parsefloat(args), 0
+                char.widths[1] = _parsefloat(args), char.widths[1][1] if char.widths[1] else 0
             elif key == "WY" or key == "W0Y":
-                char.widths[0] = 0, _parsefloat(args)
+                char.widths[0] = char.widths[0][0] if char.widths[0] else 0, _parsefloat(args)
             elif key == "W1Y":
-                char.widths[1] = 0, _parsefloat(args)
+                char.widths[1] = char.widths[1][0] if char.widths[1] else 0, _parsefloat(args)
             elif key == "W" or key == "W0":
                 char.widths[0] = _parsefloats(args, 2)
             elif key == "W1":
-- 
2.43.0


From fc29ee4949422c19baace835c56957adaa78ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 128/193] fix: the descent defaults to the bottom of the font
 bbox

---
 pyx/font/afmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index b5b4943..70b9700 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1441,7 +1441,7 @@ class AFMfile(metric.metric):
         if self.descender is not None:
             descent = self.descender
         elif self.fontbbox is not None:
-            descent = self.fontbbox[3]
+            descent = self.fontbbox[1]
         else:
             descent = -200 # guessed default
         file.write("/Descent %d\n" % descent)
-- 
2.43.0


From 47cf6d73ce57c57a7845e4f84c3e728afe30a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 129/193] fix: do not drop the last character of an AFM file
 without final newline

---
 pyx/font/afmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 70b9700..3ed0e4f 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1354,7 +1354,7 @@ class AFMfile(metric.metric):
          # without a corresponding StartDirection section and we thus
          # may need to reprocess a line in the context of the new state
          for line in f:
-            line = line[:-1].strip()
+            line = line.strip()
             mstate, sstate = state
             if mstate == _READ_START:
                 state = self._processline_start(line)
-- 
2.43.0


From cb5985e74cef9d6bdf998e6722f4d99c2929b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 130/193] fix: accept font bboxes in brackets

---
 pyx/font/pfmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/pfmfile.py b/pyx/font/pfmfile.py
index b1d3eee..849b32b 100644
--- a/pyx/font/pfmfile.py
+++ b/pyx/font/pfmfile.py
@@ -249,7 +249,7 @@ ansiglyphs = {"space": 32,
               "ydieresis":255}
 
 
-fontbboxpattern = re.compile(r"/FontBBox\s*\{\s*(?P<fontbbox>(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+))\s*\}\s*(readonly\s+)?def")
+fontbboxpattern = re.compile(r"/FontBBox\s*[\{\[]\s*(?P<fontbbox>(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+))\s*[\}\]]\s*(readonly\s+)?def")
 
 
 def _readNullString(file):
-- 
2.43.0


From 2768374ef40ddc44d56ef2d56c8c6fa1e0a2fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 131/193] fix: use the codes of space, hyphen and bullet in PFM
 files

---
 pyx/font/pfmfile.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyx/font/pfmfile.py b/pyx/font/pfmfile.py
index 849b32b..505241f 100644
--- a/pyx/font/pfmfile.py
+++ b/pyx/font/pfmfile.py
@@ -118,9 +118,7 @@ ansiglyphs = {"space": 32,
               "bar":124,
               "braceright":125,
               "asciitilde":126,
-              "bullet":127,
               "Euro":128,
-              "bullet":129,
               "quotesinglbase":130,
               "florin":131,
               "quotedblbase":132,
@@ -132,10 +130,7 @@ ansiglyphs = {"space": 32,
               "Scaron":138,
               "guilsinglleft":139,
               "OE":140,
-              "bullet":141,
               "Zcaron":142,
-              "bullet":143,
-              "bullet":144,
               "quoteleft":145,
               "quoteright":146,
               "quotedblleft":147,
@@ -148,10 +143,8 @@ ansiglyphs = {"space": 32,
               "scaron":154,
               "guilsinglright":155,
               "oe":156,
-              "bullet":157,
               "zcaron":158,
               "Ydieresis":159,
-              "space":160,
               "exclamdown":161,
               "cent":162,
               "sterling":163,
@@ -164,7 +157,6 @@ ansiglyphs = {"space": 32,
               "ordfeminine":170,
               "guillemotleft":171,
               "logicalnot":172,
-              "hyphen":173,
               "registered":174,
               "macron":175,
               "degree":176,
-- 
2.43.0


From 6f1a815c85be1e9662bedf75955270715c9e0460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 132/193] fix: allow for mathmode in the UnicodeEngine

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 78d974b..9111c64 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1777,7 +1777,7 @@ class UnicodeEngine:
         fillstyles = attr.getattrs(textattrs, [style.fillstyle])
         textattrs = attr.getattrs(textattrs, [textattr])
         mathmode = bool(attr.getattrs(textattrs, [_mathmode]))
-        if textattrs:
+        if [a for a in textattrs if not isinstance(a, _mathmode)]:
             raise ValueError("UnicodeEngine does not support textattrs")
 
         if isinstance(text, MultiEngineText):
-- 
2.43.0


From d0dc537cc919017a79d822729691ad1e8c41072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 133/193] fix: slanted text in SVG

---
 pyx/font/font.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 2c80c8d..e438bba 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -732,7 +732,8 @@ class T1text_pt(text_pt):
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                slanttrafo = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0))
+                slanttrafo.processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From 219feb424cfce879d1538fc6c9c856d7fd119d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 134/193] fix: slant the outlines of slanted text

---
 pyx/font/font.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index e438bba..1c80e0e 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -530,7 +530,11 @@ class T1text_pt(text_pt):
                     if i:
                         x_pt += self.spaced_pt
                     glyphpath = self.font.t1file.getglyphpath_pt(x_pt, y_pt, value, self.size_pt, convertcharcode=not self.decode)
-                    self._textpath += glyphpath.path
+                    if self.slant:
+                        slanttrafo = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0))
+                        self._textpath += glyphpath.path.transformed(slanttrafo)
+                    else:
+                        self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
         return self._textpath
-- 
2.43.0


From 50247424336dbb396fd8d7793b14a5e8c882dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 135/193] fix: slanted builtin fonts in PostScript

---
 pyx/font/font.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 1c80e0e..6b3cae6 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -568,6 +568,9 @@ class T1text_pt(text_pt):
                 newfontmatrix = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)))
                 if self.font.t1file is not None:
                     newfontmatrix = newfontmatrix * self.font.t1file.fontmatrix
+                else:
+                    # the glyphs of the builtin fonts are defined in units of 1/1000
+                    newfontmatrix = newfontmatrix * trafo.scale_pt(0.001, 0.001, 0, 0)
                 newfontname = "%s-slant%f" % (fontname, self.slant)
                 registry.add(_ChangeFontMatrix)
                 registry.add(PSchangefontmatrix(fontname, newfontname, newfontmatrix))
-- 
2.43.0


From 4cf3ab3b1e340e8cb2daf4fee77f723cb8dc6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 136/193] fix: preserve the spaces of text in SVG

---
 pyx/font/font.py | 1 +
 pyx/svgwriter.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 6b3cae6..18dfd0d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -735,6 +735,7 @@ class T1text_pt(text_pt):
                      "y": "%f" % -self.y_pt,
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
+                     "xml:space": "preserve",
                      "fill": context.fillcolor}
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index c188e72..a57ba8e 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -24,6 +24,7 @@ from . import bbox, config, style, version, unit, trafo
 
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
+xml_uri = "http://www.w3.org/XML/1998/namespace"
 
 class SVGregistry:
 
@@ -95,6 +96,8 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
             name = split[0]
         else:
             short_uri, name = split
+            if short_uri == "xml":
+                return xml_uri, name
             assert short_uri == "xlink"
             if not self.xlink_enabled:
                 raise ValueError("xlink namespace found but not enabled")
-- 
2.43.0


From 0750a815f5c2766efd90fa8a036e229139c73198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 137/193] fix: ignore what follows the font metrics in an AFM
 file

---
 pyx/font/afmfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 3ed0e4f..8d4f83a 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1376,6 +1376,9 @@ class AFMfile(metric.metric):
                     state = self._processline_kernpairs(line, sstate)
                 elif mstate == _READ_COMPOSITES:
                     state = self._processline_composites(line, sstate)
+                elif mstate == _READ_END:
+                    # ignore anything following the font metrics (like an end-of-file character)
+                    pass
                 else:
                     raise AFMError("Undefined state in AFM reader")
 
-- 
2.43.0


From b4f8fb32e004734b60b6647b61ca478e69aa5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 138/193] fix: center texts of the UnicodeEngine at their
 reference point

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 9111c64..04b2bed 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1664,7 +1664,7 @@ class unicodetextbox_pt(textbox_pt):
         bbox = self.canvas.bbox()
         bbox.includepoint_pt(0, 0)
         bbox.includepoint_pt(x_pt, 0)
-        box.rect_pt.__init__(self, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt-bbox.llx_pt, bbox.ury_pt-bbox.lly_pt, abscenter_pt = (0, 0))
+        box.rect_pt.__init__(self, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt-bbox.llx_pt, bbox.ury_pt-bbox.lly_pt, abscenter_pt = (-bbox.llx_pt, -bbox.lly_pt))
         box.rect.transform(self, self.texttrafo)
 
     def _extract_minus_properties(self):
-- 
2.43.0


From 1832bc743829d73f98ff734686482a436bbf995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 139/193] fix: text in builtin fonts within a text region in
 PDF when text is written as path

---
 pyx/font/font.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 18dfd0d..af7308a 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -656,6 +656,11 @@ class T1text_pt(text_pt):
             else:
                 slantvalue = self.slant
 
+            if writer.textaspath:
+                # the canvas did not start a text region
+                file.write("BT\n")
+                context.selectedfont = None
+
             # select font if necessary
             sf = selectedfont(fontname, self.size_pt)
             if context.selectedfont is None or sf != context.selectedfont:
@@ -696,6 +701,9 @@ class T1text_pt(text_pt):
                 file.write(")] TJ\n")
             else:
                 file.write(") Tj\n")
+            if writer.textaspath:
+                file.write("ET\n")
+                context.selectedfont = None
 
     def processSVG(self, xml, writer, context, registry, bbox):
         if not self.ignorebbox:
-- 
2.43.0


From ebbb90d66258833bef23054012d89ac4a1ff942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 140/193] fix: empty texts set in a font

---
 pyx/font/font.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index af7308a..5265ae2 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -472,7 +472,12 @@ class T1text_pt(text_pt):
         if self.ligatures:
             self.glyphnames = self.font.metric.resolveligatures(self.glyphnames)
 
+    def isempty(self):
+        return not (self.glyphnames if self.decode else self.charcodes)
+
     def bbox(self):
+        if self.isempty():
+            return bbox.empty()
         if self.font.metric is None:
             logger.warning("We are about to extract the bounding box from the path of the text. This is slow and differs from the font metric information. You should provide an afm file whenever possible.")
             return self.textpath().bbox()
@@ -540,6 +545,8 @@ class T1text_pt(text_pt):
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
+        if self.isempty():
+            return
         if not self.ignorebbox:
             bbox += self.bbox()
 
@@ -608,6 +615,8 @@ class T1text_pt(text_pt):
             file.write(") show\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
+        if self.isempty():
+            return
         if not self.ignorebbox:
             bbox += self.bbox()
 
@@ -706,6 +715,8 @@ class T1text_pt(text_pt):
                 context.selectedfont = None
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        if self.isempty():
+            return
         if not self.ignorebbox:
             bbox += self.bbox()
 
-- 
2.43.0


From 2ca9c15b4c80721aab3b59cdf005598fe70e958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 141/193] fix: metapost lines next to smooth knots, control
 curves and the ends of a path

---
 pyx/metapost/path.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 30a71c6..2026c38 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -221,12 +221,23 @@ class line(_link):
         right_knot.ltype = mp_endpoint
         left_knot.rx_pt, left_knot.ry_pt = None, None
         right_knot.lx_pt, right_knot.ly_pt = None, None
+        # adjust the other sides of the knots, but only when they belong to a
+        # curve which is still to be determined
         if self.keepangles:
             angle = atan2(right_knot.y_pt-left_knot.y_pt, right_knot.x_pt-left_knot.x_pt)
-            left_knot.ltype = mp_given
-            left_knot.set_left_given(angle)
-            right_knot.rtype = mp_given
-            right_knot.set_right_given(angle)
+            if left_knot.ltype > mp_explicit:
+                left_knot.ltype = mp_given
+                left_knot.set_left_given(angle)
+            if right_knot.rtype > mp_explicit:
+                right_knot.rtype = mp_given
+                right_knot.set_right_given(angle)
+        else:
+            if left_knot.ltype == mp_open:
+                left_knot.ltype = mp_curl
+                left_knot.set_left_curl(1)
+            if right_knot.rtype == mp_open:
+                right_knot.rtype = mp_curl
+                right_knot.set_right_curl(1)
 
 
 class controlcurve_pt(_link):
-- 
2.43.0


From 8d3e6a3b311377fa853235a232cc3b9b02957abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 142/193] fix: close metapost paths containing lines

---
 pyx/metapost/path.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 2026c38..b9cb2e8 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -313,15 +313,12 @@ class path(pathmodule.path):
         """elems should contain metapost knots or links"""
         if epsilon is None:
             epsilon = _epsilon
-        knots = []
-        is_closed = True
+        knots = [elem for elem in elems if isinstance(elem, _knot)]
+        # the links modify the knots, hence this needs to be checked beforehand
+        is_closed = not any(knot.ltype == mp_endpoint or knot.rtype == mp_endpoint for knot in knots)
         for i, elem in enumerate(elems):
             if isinstance(elem, _link):
                 elem.set_knots(elems[i-1], elems[(i+1)%len(elems)])
-            elif isinstance(elem, _knot):
-                knots.append(elem)
-                if elem.ltype == mp_endpoint or elem.rtype == mp_endpoint:
-                    is_closed = False
 
         # link the knots among each other
         for i in range(len(knots)):
@@ -356,11 +353,14 @@ class path(pathmodule.path):
                 prev = elem
 
         # close the path if necessary
-        if knots[0].ltype == mp_explicit:
-            elem = knots[0]
-            if do_lineto and is_closed:
+        elem = knots[0]
+        if do_lineto:
+            if is_closed:
                 self.append(pathmodule.closepath())
-            elif do_curveto:
+            else:
+                self.append(pathmodule.lineto_pt(elem.x_pt, elem.y_pt))
+        elif knots[0].ltype == mp_explicit:
+            if do_curveto:
                 self.append(pathmodule.curveto_pt(prev.rx_pt, prev.ry_pt, elem.lx_pt, elem.ly_pt, elem.x_pt, elem.y_pt))
                 if is_closed:
                     self.append(pathmodule.closepath())
-- 
2.43.0


From 5696cc0744a0de5bb316bfffd67f2d1b5f589a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 143/193] fix: metapost directions of more than a full turn

---
 pyx/metapost/mp_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/metapost/mp_path.py b/pyx/metapost/mp_path.py
index b3c9453..332870f 100644
--- a/pyx/metapost/mp_path.py
+++ b/pyx/metapost/mp_path.py
@@ -438,7 +438,7 @@ def mp_velocity(st, ct, sf, cf, t): # <<<
 # >>>
 def reduce_angle(A): # <<<
     """A macro in mp.c"""
-    if abs(A) > one_eighty_deg:
+    while abs(A) > one_eighty_deg:
         if A > 0:
             A -= three_sixty_deg
         else:
-- 
2.43.0


From ae676ef9fdf35251b156f60c0fe22220c18c88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 144/193] fix: atleast in linesmoothed deformer

---
 pyx/deformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index b068726..f3db90a 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -1774,11 +1774,11 @@ class linesmoothed(baseclasses.deformer): # <<<
 
         # intermediate points:
         for npelem in nsp[:-1]:
-            knots.append(mppath.tensioncurve(self.tension))
+            knots.append(mppath.tensioncurve(abs(self.tension), self.tension < 0))
             knots.append(mppath.smoothknot_pt(*npelem.atend_pt()))
 
         # last point
-        knots.append(mppath.tensioncurve(self.tension))
+        knots.append(mppath.tensioncurve(abs(self.tension), self.tension < 0))
         x_pt, y_pt = nsp.atend_pt()
         if nsp.closed:
             pass
-- 
2.43.0


From c3ab35375952bca35b5a3f58a26c1c449109ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 145/193] fix: closing point of parallels to smooth closed
 paths

---
 pyx/deformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index f3db90a..6604661 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -1537,8 +1537,8 @@ class parallel(baseclasses.deformer): # <<<
                                 if nsp_i == nsp_j:
                                     if nspitem_j == nspitem_i+1 and (npp_i.is_end_of_nspitem(epsilon) or npp_j.is_beg_of_nspitem(epsilon)):
                                         continue
-                                    if np[nsp_i].closed and ((npp_i.is_beg_of_nsp(epsilon) and npp_j.is_end_of_nsp(epsilon)) or
-                                                             (npp_j.is_beg_of_nsp(epsilon) and npp_i.is_end_of_nsp(epsilon))):
+                                    if (np[nsp_i].closed and nspitem_i == 0 and nspitem_j == len(np[nsp_j])-1 and
+                                        (npp_i.is_beg_of_nsp(epsilon) or npp_j.is_end_of_nsp(epsilon))):
                                         continue
 
                                 # correct the order of the pair, such that we can use it to continue on the path
-- 
2.43.0


From 5724f66face5bf5c006851e2a8350937237f4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 146/193] fix: cornersmoothed removing the beginning of paths
 without corners

---
 pyx/deformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 6604661..9396c44 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -576,6 +576,9 @@ class cornersmoothed(baseclasses.deformer): # <<<
             params[0] = pertinentnormsubpathitems[0].arclentoparam_pt([l1_pt, l2_pt], epsilon)
             l1_pt = min(radius_pt, arclens_pt[-1])
             l2_pt = arclens_pt[-1]
+            if len(pertinentnormsubpathitems) == 1:
+                # there is no corner at all
+                l1_pt = 0
             params[-1] = pertinentnormsubpathitems[-1].arclentoparam_pt([l1_pt, l2_pt], epsilon)
 
         newnormsubpath = normpath.normsubpath(epsilon=normsubpath.epsilon)
-- 
2.43.0


From 5f1f58595993152fa8e5d13c4a25abfdca135828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 147/193] fix: cornersmoothed overshooting at almost parallel
 tangents

---
 pyx/deformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 9396c44..5651fbf 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -664,8 +664,9 @@ class cornersmoothed(baseclasses.deformer): # <<<
                         # use a fallback
                         t, s = intersection(p1, p2, t1, t2)
                         if t is not None and s is not None:
-                            a = 0.65 * abs(t)
-                            d = 0.65 * abs(s)
+                            # the intersection might be far away for almost parallel tangents
+                            a = 0.65 * min(abs(t), radius_pt)
+                            d = 0.65 * min(abs(s), radius_pt)
                         else:
                             # if there is no useful result:
                             # take an arbitrary smoothing curve that does not obey
-- 
2.43.0


From 52176a1f38da2603059e05e5ff5841224529fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 148/193] fix: cornersmoothed overshooting at points of
 inflection

---
 pyx/deformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 5651fbf..f8d6c8a 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -659,6 +659,10 @@ class cornersmoothed(baseclasses.deformer): # <<<
                                 t > 0 and s < 0):
                                 a = min(a, abs(t))
                                 d = min(d, abs(s))
+                            else:
+                                dist = math.hypot(p1[0] - p2[0], p1[1] - p2[1])
+                                a = min(a, dist)
+                                d = min(d, dist)
 
                     else:
                         # use a fallback
-- 
2.43.0


From 7189436d852b35be92d53883e4d6bbb80299bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:05 +0000
Subject: [PATCH 149/193] fix: round colors to 8 bit instead of truncating them

---
 pyx/color.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/color.py b/pyx/color.py
index 8e1f0ca..a285838 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -102,7 +102,7 @@ class gray(color):
         return "/DeviceGray"
 
     def to8bitbytes(self):
-        return bytes((int(self.g*255),))
+        return bytes((int(self.g*255 + 0.5),))
 
 gray.black = gray(0.0)
 gray.white = gray(1.0)
@@ -159,7 +159,7 @@ class rgb(color):
         return "/DeviceRGB"
 
     def to8bitbytes(self):
-        return struct.pack("BBB", int(self.r*255), int(self.g*255), int(self.b*255))
+        return struct.pack("BBB", int(self.r*255 + 0.5), int(self.g*255 + 0.5), int(self.b*255 + 0.5))
 
     def tohexstring(self, cssstrip=1, addhash=1):
         hexstring = binascii.b2a_hex(self.to8bitbytes()).decode('ascii')
@@ -275,7 +275,7 @@ class cmyk(color):
         return "/DeviceCMYK"
 
     def to8bitbytes(self):
-        return struct.pack("BBBB", int(self.c*255), int(self.m*255), int(self.y*255), int(self.k*255))
+        return struct.pack("BBBB", int(self.c*255 + 0.5), int(self.m*255 + 0.5), int(self.y*255 + 0.5), int(self.k*255 + 0.5))
 
 cmyk.GreenYellow    = cmyk(0.15, 0, 0.69, 0)
 cmyk.Yellow         = cmyk(0, 0, 1, 0)
-- 
2.43.0


From 56acc245c145d72b5e551cb843defadffea51e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 150/193] fix: jpegimage taking the contents of segments for
 markers

---
 pyx/bitmap.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 2c244c1..c022cb7 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -171,6 +171,7 @@ class jpegimage(image):
                 data = f.read()
         pos = 0
         nestinglevel = 0
+        mode = None
         try:
             while True:
                 if data[pos] == 0o377 and data[pos+1] not in [0, 0o377]:
@@ -186,7 +187,7 @@ class jpegimage(image):
                         if not nestinglevel:
                             end = pos + 2
                             break
-                    elif data[pos+1] in [0o300, 0o302]:
+                    elif data[pos+1] in [0o300, 0o301, 0o302]:
                         l, bits, height, width, components = struct.unpack(">HBHHB", data[pos+2:pos+10])
                         if bits != 8:
                             raise ValueError("implementation limited to 8 bit per component only")
@@ -195,7 +196,7 @@ class jpegimage(image):
                         except KeyError:
                             raise ValueError("invalid number of components")
                         pos += l+1
-                    elif data[pos+1] == 0o340:
+                    elif data[pos+1] == 0o340 and data[pos+4:pos+9] == b"JFIF\0":
                         l, id, major, minor, dpikind, xdpi, ydpi = struct.unpack(">H5sBBBHH", data[pos+2:pos+16])
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
@@ -203,9 +204,15 @@ class jpegimage(image):
                             self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
                         # else do not provide dpi information
                         pos += l+1
+                    elif not 0o320 <= data[pos+1] <= 0o327 and data[pos+1] != 1:
+                        # the contents of all other segments might look like markers
+                        l, = struct.unpack(">H", data[pos+2:pos+4])
+                        pos += l+1
                 pos += 1
-        except IndexError:
+        except (IndexError, struct.error):
             raise ValueError("end marker expected")
+        if mode is None:
+            raise ValueError("frame marker expected")
         image.__init__(self, width, height, mode, data[begin:end], compressed="DCT")
 
     def save(self, file, format=None, **attrs):
-- 
2.43.0


From cccdee8c9c425cb07b265de367678174ed0432da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 151/193] fix: vertical resolution of jpeg images in dots per
 cm

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index c022cb7..1571d82 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -201,7 +201,7 @@ class jpegimage(image):
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
                         elif dpikind == 2:
-                            self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
+                            self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
                     elif not 0o320 <= data[pos+1] <= 0o327 and data[pos+1] != 1:
-- 
2.43.0


From a86f6847cd2ea1a2a3fe95eeedf7f1fd9538e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 152/193] fix: dctoptimize and dctprogression of bitmaps

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 1571d82..49f6815 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -425,7 +425,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         if self.compressmode == "Flate":
             data = zlib.compress(data.tobytes(), self.flatecompresslevel)
         elif self.compressmode == "DCT":
-            data = data.tobytes("jpeg", mode, self.dctquality, self.dctoptimize, self.dctprogression)
+            data = data.tobytes("jpeg", mode, self.dctquality, self.dctprogression, 0, self.dctoptimize)
         else:
             data = data.tobytes()
         if alpha and not interleavealpha:
@@ -433,7 +433,7 @@ class bitmap_trafo(baseclasses.canvasitem):
             if self.compressmode == "Flate":
                 alpha = zlib.compress(alpha.tobytes(), self.flatecompresslevel)
             elif self.compressmode == "DCT":
-                alpha = alpha.tobytes("jpeg", mode, self.dctquality, self.dctoptimize, self.dctprogression)
+                alpha = alpha.tobytes("jpeg", "L", self.dctquality, self.dctprogression, 0, self.dctoptimize)
             else:
                 alpha = alpha.tobytes()
 
-- 
2.43.0


From f50735e7a793d1c2729e7c2f6b79e9f4201ad760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 153/193] fix: meshes without width or height

---
 pyx/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/mesh.py b/pyx/mesh.py
index 61b0664..a5836a7 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -61,6 +61,8 @@ class element:
 
 
 def coords24bit_pt(coords_pt, min_pt, max_pt):
+    if max_pt == min_pt:
+        return b"\0\0\0"
     return struct.pack(">I", int((coords_pt-min_pt)*16777215.0/(max_pt-min_pt)))[1:]
 
 
-- 
2.43.0


From eaa3902d33a0e55353f5d4f303b519d6c27147b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 154/193] fix: precision of the image matrix of bitmaps in
 PostScript

---
 pyx/bitmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 49f6815..c5ba198 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -455,6 +455,10 @@ class bitmap_trafo(baseclasses.canvasitem):
     def processPS(self, file, writer, context, registry, bbox):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(True)
         pstrafo = trafo.translate_pt(0, -1.0).scaled(self.imagewidth, -self.imageheight)*self.pdftrafo.inverse()
+        # the elements are small for images with few but large pixels
+        pstrafo = "[%.10g %.10g %.10g %.10g %.10g %.10g]" % (pstrafo.matrix[0][0], pstrafo.matrix[1][0],
+                                                             pstrafo.matrix[0][1], pstrafo.matrix[1][1],
+                                                             pstrafo.vector[0], pstrafo.vector[1])
 
         PSstoreimage = self.PSstoreimage or not context.inlinedata
         PSsinglestring = PSstoreimage and len(data) < self.PSmaxstrlen
-- 
2.43.0


From c620bf553ef2518910790fb76b43b3b1c1384a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 155/193] fix: meshes without elements

---
 pyx/mesh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyx/mesh.py b/pyx/mesh.py
index a5836a7..d17bc63 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -98,6 +98,8 @@ class mesh(baseclasses.canvasitem):
                         raise ValueError("two dimensional coordinates expected")
 
     def bbox(self):
+        if not self.elements:
+            return bbox.empty()
         return bbox.bbox_pt(min([node.coords_pt[0] for element in self.elements for node in element.nodes]),
                             min([node.coords_pt[1] for element in self.elements for node in element.nodes]),
                             max([node.coords_pt[0] for element in self.elements for node in element.nodes]),
@@ -110,6 +112,8 @@ class mesh(baseclasses.canvasitem):
                          for element in self.elements for node in element.nodes])
 
     def processPS(self, file, writer, context, registry, bbox):
+        if not self.elements:
+            return
         if writer.meshasbitmap:
             from pyx import bitmap, canvas
             from PIL import Image
@@ -147,6 +151,8 @@ class mesh(baseclasses.canvasitem):
                 file.write(">\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
+        if not self.elements:
+            return
         if writer.meshasbitmap:
             from pyx import bitmap, canvas
             from PIL import Image
@@ -189,6 +195,8 @@ stream
             file.write("/%s sh\n" % name)
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        if not self.elements:
+            return
         from pyx import bitmap, canvas
         from PIL import Image
         c = canvas.canvas()
-- 
2.43.0


From 21e263bf781075477bd9a5e49cf7f857f7e79553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 156/193] fix: deprecated options of the PostScript and SVG
 writers

---
 pyx/pswriter.py  | 4 +++-
 pyx/svgwriter.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index b553c6f..f70498c 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index a57ba8e..3603ab1 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 xml_uri = "http://www.w3.org/XML/1998/namespace"
-- 
2.43.0


From 5440767e4caf8f677a10999429390e05af366439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 157/193] fix: box.tile moves the boxes by a multiple of the
 length of the direction vector

---
 pyx/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index c09ed7f..9b2e254 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -283,6 +283,8 @@ def tile_pt(polygons, a, dx, dy):
         if extent > maxextent:
             maxextent = extent
     delta = maxextent + a
+    n = math.hypot(dx, dy)
+    dx, dy = dx / n, dy / n
     d = 0
     for p in polygons:
         p.transform(trafo.translate_pt(d*dx, d*dy))
-- 
2.43.0


From 00d9d80ea4f1e5c89aadc90563f33510654020b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 158/193] fix: boxdistance of a box inside of another box does
 not raise a BoxCrossError

---
 pyx/box.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index 9b2e254..f972b2d 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -221,6 +221,10 @@ class polygon_pt:
     def pointdistance(self, x, y):
         return self.pointdistance_pt(unit.topt(x), unit.topt(y)) * unit.t_pt
 
+    def _contains_pt(self, x, y):
+        signs = [(p2[0]-p1[0])*(y-p1[1]) - (p2[1]-p1[1])*(x-p1[0]) > 0 for p1, p2 in self.successivepoints()]
+        return all(signs) or not any(signs)
+
     def boxdistance_pt(self, other, epsilon=1e-10):
         # XXX: boxes crossing and distance calculation is O(N^2)
         for p1, p2 in self.successivepoints():
@@ -232,6 +236,8 @@ class polygon_pt:
                     a / c > -epsilon and a / c < 1 + epsilon and
                     b / c > -epsilon and b / c < 1 + epsilon):
                     raise BoxCrossError
+        if self._contains_pt(*other.corners[0]) or other._contains_pt(*self.corners[0]):
+            raise BoxCrossError
         result = None
         for x, y in other.corners:
             new = self.pointdistance_pt(x, y)
-- 
2.43.0


From 4a4ecbe9480ab02c9ab900685b957fdb8983819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 159/193] fix: connectors fail for a first box distance larger
 than the connector

---
 pyx/connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/connector.py b/pyx/connector.py
index 3ff0faa..e73b5f0 100644
--- a/pyx/connector.py
+++ b/pyx/connector.py
@@ -58,7 +58,8 @@ class connector_pt(normpath.normpath):
             pass
         else:
             sp = self.intersect(cutpath)[0]
-            self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
+            if sp:
+                self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
 
         # cut off the end of self
         center = self.atend_pt()
-- 
2.43.0


From d26c7ba042eae8e657bcf77b0b772b6da2a33345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 160/193] fix: alignments of mirrored boxes use the wrong sides
 of the box

---
 pyx/box.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index f972b2d..9731ed6 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -65,6 +65,10 @@ class polygon_pt:
             if self.center is not None and not keep_anchor:
                 self.center = trafo.apply_pt(*self.center)
             self.corners = [trafo.apply_pt(*point) for point in self.corners]
+            (a, b), (c, d) = trafo.matrix
+            if a*d - b*c < 0:
+                # keep the corners in counter-clockwise order
+                self.corners.reverse()
 
     def reltransform(self, *trafos):
         if self.center is not None:
-- 
2.43.0


From c960ab7e895242f93942b86d786713395f6604e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:29 +0000
Subject: [PATCH 161/193] fix: calling an arrow without attrs restores cleared
 default attributes

---
 pyx/deco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 9944fa9..d2fd8c4 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -527,7 +527,8 @@ class arrow(deco, attr.attr):
 
     def __call__(self, attrs=None, pos=None, reversed=None, size=None, angle=None, constriction=_marker):
         if attrs is None:
-            attrs = self.attrs
+            # do not restore default attributes which have been cleared
+            attrs = [style.linestyle.clear, filled.clear] + self.attrs
         if pos is None:
             pos = self.pos
         if reversed is None:
-- 
2.43.0


From e8110a024bf2c9ca1842e7b7dfe27245498c87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:29 +0000
Subject: [PATCH 162/193] fix: paths shorter than the arrow head are stroked
 beyond their ends

---
 pyx/deco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index d2fd8c4..19f25c7 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -554,10 +554,11 @@ class arrow(deco, attr.attr):
         dp.ornaments.draw(arrowhead, self.attrs)
 
         # exlude part of the path from stroking when the arrow is strictly at the begin or the end
+        excludelen = min(self.size, self.constrictionlen, anormpath.arclen())
         if self.pos == 0 and self.reversed:
-            dp.excluderange(0, min(self.size, self.constrictionlen))
+            dp.excluderange(0, excludelen)
         elif self.pos == 1 and not self.reversed:
-            dp.excluderange(anormpath.end() - min(self.size, self.constrictionlen), anormpath.end())
+            dp.excluderange(anormpath.end() - excludelen, anormpath.end())
 
 arrow.clear = attr.clearclass(arrow)
 
-- 
2.43.0


From f41ed4cf07138648959d2e226f168e83195946e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:29 +0000
Subject: [PATCH 163/193] fix: colorgradient fails for closed paths

---
 pyx/deco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 19f25c7..dcb1840 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -916,10 +916,10 @@ class colorgradient(deco, attr.attr):
 
         c = canvas.canvas()
         # treat the end pieces separately
-        c.stroke(dp.path.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
+        c.stroke(dp.path.split([params[1], dp.path.end()])[1], attr.mergeattrs([colors[0]] + self.attrs))
         for n in range(1,self.steps-1):
             c.stroke(dp.path.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
-        c.stroke(dp.path.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
+        c.stroke(dp.path.split([dp.path.begin(), params[-2]])[1], attr.mergeattrs([colors[-1]] + self.attrs))
         dp.ornaments.insert(c)
 
 
-- 
2.43.0


From 8fd6909e3446b1f0af59dd6212fe7f341e5d1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:05 +0000
Subject: [PATCH 164/193] fix: excluded ranges beyond the ends of a path extend
 the stroked path

---
 pyx/deco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index dcb1840..a414478 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -111,7 +111,10 @@ class decoratedpath(baseclasses.canvasitem):
             for begin, end in self.nostrokeranges:
                 splitlist.append(begin)
                 splitlist.append(end)
-            split = self.path.split(splitlist)
+            # the path must not be extended beyond its ends
+            begin, end = self.path.begin(), self.path.end()
+            split = self.path.split([min(max(param, begin), end)
+                                     for param in self.path._convertparams(splitlist, self.path.arclentoparam)])
             # XXX properly handle closed paths?
             result = split[0]
             for i in range(2, len(split), 2):
-- 
2.43.0


From 584296cbf4c9a0aebb4f3df970c2de0c5a5e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 165/193] fix: fix: parsed SVG is clipped to a viewBox given in
 wrong units

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 18617e4..b3681a0 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -393,7 +393,7 @@ class svgHandler(svgBaseHandler):
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
                     if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect(inner_x, inner_y, inner_width, inner_height)))
+                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
-- 
2.43.0


From a5f4ebeb9cbb01eb79d409bffe1c44cebf4d4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 166/193] fix: fix: matrix and skew transformations of parsed
 SVG are transposed or applied in wrong order

---
 pyx/svgfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index b3681a0..3b51a9c 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -252,7 +252,7 @@ class svgHandler(svgBaseHandler):
                 d, args = self.toFloat(args, units=False)
                 e, args = self.toFloat(args)
                 f = self.toFloat(args, single=True)
-                t = t * trafo.trafo_pt(((a, b), (c, d)), (e, f))
+                t = trafo.trafo_pt(((a, c), (b, d)), (e, f)) * t
             elif cmd == "translate":
                 args = list(self.toFloats(args))
                 if len(args) == 1:
@@ -274,10 +274,10 @@ class svgHandler(svgBaseHandler):
                     b, c = 0, 0
                 t = t.rotated_pt(a, b, c)
             elif cmd == "skewX":
-                t = t * trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1)))
+                t = trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1))) * t
             else:
                 assert cmd == "skewY"
-                t = t * trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1)))
+                t = trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1))) * t
         return t
 
     def toColor(self, name, inherit):
-- 
2.43.0


From dc1bcade1fa57d5684828b6615d3668a021d58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 167/193] fix: fix: white space in SVG transformations and
 lists of numbers is not accepted

---
 pyx/svgfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 3b51a9c..1ed38de 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"\s*(?P<value>[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
@@ -123,7 +123,7 @@ class svgBaseHandler(xml.sax.ContentHandler):
         return value, arg[match.end():]
 
     def toFloats(self, args, units=True):
-        while args:
+        while args.strip():
             float, args = self.toFloat(args, units=units)
             yield float
 
@@ -242,7 +242,7 @@ class svgHandler(svgBaseHandler):
 
     def toTrafo(self, svgTrafo):
         t = trafo.identity
-        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\((?P<args>[^)]*)\)", svgTrafo))):
+        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\s*\((?P<args>[^)]*)\)", svgTrafo))):
             cmd = match.group("cmd")
             args = match.group("args")
             if cmd == "matrix":
-- 
2.43.0


From a453904fb25bf2c9d76a381a53270720ccf65ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 168/193] fix: fix: rotation angle of SVG arcs is scaled by the
 resolution, arcs without extent fail

---
 pyx/svgfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 1ed38de..e21faef 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -223,7 +223,7 @@ class svgHandler(svgBaseHandler):
                         while args:
                             rx, args = self.toFloat(args)
                             ry, args = self.toFloat(args)
-                            phi, args = self.toFloat(args)
+                            phi, args = self.toFloat(args, units=False)
                             fA, args = self.toBool(args)
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
@@ -232,7 +232,8 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                            if x1 != x2 or y1 != y2:
+                                p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
-- 
2.43.0


From fc4046630977a5ec0dd81639e610a184169bfc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 169/193] fix: fix: miter limit of parsed SVG is scaled by the
 resolution

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index e21faef..8c7e57b 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -377,7 +377,7 @@ class svgHandler(svgBaseHandler):
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
             if (None, "stroke-miterlimit") in attributes:
-                attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
+                attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False, single=True)))
             if (None, "stroke-width") in attributes:
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
             if (None, "fill-rule") in attributes:
-- 
2.43.0


From 59eb5b09abd597fd7a76b39bb9b02636be79fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 170/193] fix: fix: dash patterns of parsed SVG get lost after
 the first use

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 8c7e57b..1fc8627 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -365,7 +365,8 @@ class svgHandler(svgBaseHandler):
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
             if (None, "stroke-dasharray") in attributes:
-                attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
+                dasharray = attributes[None, "stroke-dasharray"]
+                attrs.append(style.dash([] if dasharray == "none" else list(self.toFloats(dasharray)),
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
             if (None, "stroke-linecap") in attributes:
-- 
2.43.0


From 1e17a8f96abffb1e551908d3583ada5ab2b6755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 171/193] fix: fix: default line width of parsed SVG is one
 unit, not one point

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 1fc8627..e865fa5 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -389,7 +389,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(1*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
-- 
2.43.0


From bddfd4a3a304ccf8232e8f70fa312b308a4ed4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 172/193] fix: fix: parsed SVG inherits line and fill styles
 from the surrounding canvas

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index e865fa5..9a3f75a 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -389,7 +389,8 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4), style.linestyle.solid,
+                                   style.linejoin.miter, style.fillrule.nonzero_winding])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
-- 
2.43.0


From 1bb2c215ecc9c8d542e68897e84ea9fdb2c1304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 173/193] fix: fix: fill and stroke of the root element of
 parsed SVG are ignored

---
 pyx/svgfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 9a3f75a..1dc9f67 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -415,6 +415,8 @@ class svgHandler(svgBaseHandler):
                     raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
+                self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
+                self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
                 self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
-- 
2.43.0


From d614a6e2bc9afd29e4e54c1177d5fa8967d914a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 174/193] fix: fix: transform attribute of shapes in parsed SVG
 does not apply to the stroke

---
 pyx/svgfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 1dc9f67..466034e 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -469,6 +469,11 @@ class svgHandler(svgBaseHandler):
                     p = self.toPath(attributes[None, "d"])
                 if p is not None:
                     attrs = pathAttrs()
+                    c = self.canvas
+                    if (None, "transform") in attributes:
+                        # the transformation applies to the line width and dashes as well
+                        c = c.insert(canvas.canvas(attrs))
+                        attrs = []
                     fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                     if fill:
                         attrs.append(deco.filled([fill]))
@@ -476,7 +481,7 @@ class svgHandler(svgBaseHandler):
                     if stroke:
                         attrs.append(deco.stroked([stroke]))
                     if stroke or fill:
-                        self.canvas.draw(p, attrs)
+                        c.draw(p, attrs)
 
     def endElementNS(self, name, qname):
         namespace, localname = name
-- 
2.43.0


From 358015ddb782e2d33ffe7ffa54bb9f274d1b8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 175/193] fix: smooth curves in SVG paths reflect control
 points of commands of other kind

---
 pyx/svgfile.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 466034e..f3aded2 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -145,6 +145,7 @@ class svgHandler(svgBaseHandler):
     def toPath(self, svgPath):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
+        lastcmd = ""
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
@@ -177,7 +178,9 @@ class svgHandler(svgBaseHandler):
                             x1, y1, x2, y2, x3, y3, *args = args
                         else:
                             x2, y2, x3, y3, *args = args
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd not in "CcSs":
+                                x1, y1 = 0, 0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 x1 = p[-1].x3_pt - p[-1].x2_pt
                                 y1 = p[-1].y3_pt - p[-1].y2_pt
                             elif isinstance(p[-1], path.rcurveto_pt):
@@ -191,6 +194,7 @@ class svgHandler(svgBaseHandler):
                                 y1 += y0
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "QqTt":
                     while args:
                         x0, y0 = p.atend_pt()
@@ -206,7 +210,9 @@ class svgHandler(svgBaseHandler):
                             if cmd == "t":
                                 x3 += x0
                                 y3 += y0
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd not in "QqTt":
+                                xq, yq = x0, y0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 xq = x0 + 3/2 * (p[-1].x3_pt - p[-1].x2_pt)
                                 yq = y0 + 3/2 * (p[-1].y3_pt - p[-1].y2_pt)
                             elif isinstance(p[-1], path.rcurveto_pt):
@@ -219,6 +225,7 @@ class svgHandler(svgBaseHandler):
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "aA":
                         while args:
                             rx, args = self.toFloat(args)
@@ -237,6 +244,7 @@ class svgHandler(svgBaseHandler):
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
+                lastcmd = cmd
             except svgValueError:
                 pass
         return p
-- 
2.43.0


From 23e185a18625fe42d115f78c99eb83c100bbd1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 176/193] fix: SVG arcs following a moveto get joined to the
 previous subpath

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index f3aded2..d795956 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -240,7 +240,8 @@ class svgHandler(svgBaseHandler):
                                 x2 += x1
                                 y2 += y1
                             if x1 != x2 or y1 != y2:
-                                p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                                for item in endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi).path()[1:]:
+                                    p.append(item)
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
-- 
2.43.0


From 3ac7e26364076ce8e0017ccf5cb6fe81d52d5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 177/193] fix: parsed SVG lines without all coordinates and
 shapes without points fail

---
 pyx/svgfile.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index d795956..c8628fa 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -433,7 +433,7 @@ class svgHandler(svgBaseHandler):
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
                 if localname == "line":
-                    p = path.line_pt(floatAttr("x1"), floatAttr("y1"), floatAttr("x2"), floatAttr("y2"))
+                    p = path.line_pt(floatAttr("x1", 0), floatAttr("y1", 0), floatAttr("x2", 0), floatAttr("y2", 0))
                 elif localname == "rect":
                     x, y = floatAttr("x", 0), floatAttr("y", 0)
                     width, height = floatAttr("width"), floatAttr("height")
@@ -466,16 +466,20 @@ class svgHandler(svgBaseHandler):
                     else:
                         p = None
                 elif localname == "polyline" or localname == "polygon":
-                    x, y, *args = self.toFloats(attributes[None, "points"])
-                    p = path.path(path.moveto_pt(x, y))
-                    while len(args) >= 2:
+                    args = list(self.toFloats(attributes[None, "points"]))
+                    if args:
                         x, y, *args = args
-                        p.append(path.lineto_pt(x, y))
-                    if localname == "polygon":
-                        p.append(path.closepath())
+                        p = path.path(path.moveto_pt(x, y))
+                        while len(args) >= 2:
+                            x, y, *args = args
+                            p.append(path.lineto_pt(x, y))
+                        if localname == "polygon":
+                            p.append(path.closepath())
+                    else:
+                        p = None
                 else:
                     assert localname == "path"
-                    p = self.toPath(attributes[None, "d"])
+                    p = self.toPath(attributes[None, "d"]) or None
                 if p is not None:
                     attrs = pathAttrs()
                     c = self.canvas
-- 
2.43.0


From a7ba924fe296f7e0fdc53df27b710f76dcd94c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 178/193] fix: parsed SVG rectangles with a single vanishing
 corner radius fail

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index c8628fa..f6535d0 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -441,7 +441,8 @@ class svgHandler(svgBaseHandler):
                         p = None
                     else:
                         rx, ry = floatAttr("rx", None), floatAttr("ry", None)
-                        if ((rx is None or rx < 1e-10) and (ry is None or ry < 1e-10)):
+                        if ((rx is None or rx < 1e-10 or (ry is not None and ry < 1e-10)) and
+                            (ry is None or ry < 1e-10 or (rx is not None and rx < 1e-10))):
                             p = path.rect_pt(x, y, width, height)
                         else:
                             if rx is None: rx = ry
-- 
2.43.0


From 9faa81db8d577c725ba8801152644fa86b4838fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 179/193] fix: EPS files with the bounding box in the trailer
 fail

---
 pyx/epsfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..df3f3cb 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From acdccec9f56212bd6f66b9b4610ce473ae813ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 180/193] fix: EPS files without final line end hide the end of
 the document

---
 pyx/epsfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index df3f3cb..c5a77e6 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -337,7 +337,8 @@ class epsfile(baseclasses.canvasitem):
         with self.open() as epsfile:
             file.write_bytes(epsfile.read())
 
-        file.write("%%EndDocument\n")
+        # the EPS file might not end with a line end
+        file.write("\n%%EndDocument\n")
         file.write("EndEPSF\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
-- 
2.43.0


From d416ee527dc001f7876cf7e05650038bf2d24fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 181/193] fix: header of an EPS file without EndComments
 extends into the program

---
 pyx/epsfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c5a77e6..33d8a4b 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import logging, os, string, tempfile
+import logging, os, tempfile
 from . import baseclasses, bbox, config, unit, trafo, pswriter
 
 logger = logging.getLogger("pyx")
@@ -159,7 +159,7 @@ def _readbbox(file):
                     raise IOError("invalid number of bounding box values")
                 return bbox.bbox_pt(*list(map(int, values)))
         elif (line.rstrip() == b"%%EndComments" or
-              (len(line) >= 2 and chr(line[0]) != "%" and chr(line[1]) not in string.whitespace)):
+              (line.strip() and not line.startswith(b"%"))):
             # implicit end of comments section
             break
     if not bboxatend:
-- 
2.43.0


From 856658c3a64fc6b8410a62cf7b092fc17dc92f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 182/193] fix: SVG arcs without extent following another arc
 become full ellipses

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index f6535d0..5876e0f 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -239,7 +239,7 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            if x1 != x2 or y1 != y2:
+                            if math.hypot(x2-x1, y2-y1) > 1e-8: # no arc between identical points
                                 for item in endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi).path()[1:]:
                                     p.append(item)
                 else:
-- 
2.43.0


From 8ce121a01282c6afbd6bb7e3c65a4f1654fbde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 183/193] fix: short SVG arcs of large radius are off their end
 point

---
 pyx/svgfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 5876e0f..c55a15a 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -74,9 +74,10 @@ def endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi):
         arc = path.path(path.arc_pt(0, 0, 1, theta1*180/math.pi, theta2*180/math.pi))
     else:
         arc = path.path(path.arcn_pt(0, 0, 1, theta1*180/math.pi, theta2*180/math.pi))
-    arc = arc.transformed(trafo.scale(rx, ry).rotated(phi))
+    # the arc of the unit circle might be much shorter than the final arc
+    arc = arc.normpath(epsilon=1e-12).transformed(trafo.scale(rx, ry).rotated(phi))
     x1p, y1p = arc.atbegin_pt()
-    return arc.transformed(trafo.translate_pt(x1-x1p, y1-y1p))
+    return arc.transformed(trafo.translate_pt(x1-x1p, y1-y1p)).path()
 
 
 class svgValueError(ValueError): pass
-- 
2.43.0


From 36c76ce2072c0b09af1e1d424383c0ddf698dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:38 +0000
Subject: [PATCH 184/193] fix: keys with keyattrs fail without any titled data

---
 pyx/graph/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/key.py b/pyx/graph/key.py
index 92ea984..637696f 100644
--- a/pyx/graph/key.py
+++ b/pyx/graph/key.py
@@ -106,7 +106,7 @@ class key:
             c.insert(subc, [trafo.translate_pt(x_pt, 0)])
             x_pt += unit.topt(subc.bbox().width()) + columndist_pt
             del plotitems[:itemspercolumn]
-        if self.keyattrs is not None:
+        if self.keyattrs is not None and len(c):
             newc = canvas.canvas()
             newc.draw(c.bbox().enlarged(self.border).path(), self.keyattrs)
             newc.insert(c)
-- 
2.43.0


From ee5ec15b2c153e9951b4d5137dbd884c164b94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 185/193] fix: the local locator tries only the last one of the
 possible filenames

---
 pyx/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..be353ea 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -86,7 +86,8 @@ class local:
     """locates files in the current directory"""
 
     def openers(self, filename, formats):
-        return [lambda: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
+        return [lambda full_filename=full_filename: builtinopen(full_filename, "rb")
+                for full_filename in full_filenames(filename, formats)]
 
 locator_classes["local"] = local
 
-- 
2.43.0


From d08d567b44fafa16d571feb6f7c6d738d53ce861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 186/193] fix: the pykpathsea extension, which is installed
 within the pyx package, is never found

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index be353ea..3edf9b8 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -29,7 +29,7 @@ logger_filelocator = logging.getLogger("pyx.filelocator")
 builtinopen = open
 
 try:
-    import pykpathsea as pykpathsea_module
+    from pyx import pykpathsea as pykpathsea_module
     has_pykpathsea = True
 except ImportError:
     has_pykpathsea = False
-- 
2.43.0


From a78ceb98ff3b0c373957cf53f7d5ffdf854b20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 187/193] fix: pykpathsea.find_file returns an error without an
 exception for the formats it does not know, which ends the whole search by a
 SystemError

---
 pyx/pykpathsea.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/pykpathsea.c b/pyx/pykpathsea.c
index 60a48d0..e9f85ca 100644
--- a/pyx/pykpathsea.c
+++ b/pyx/pykpathsea.c
@@ -67,13 +67,14 @@ static PyObject *py_kpse_find_file(PyObject *self, PyObject *args)
     if (!strcmp(format, "vf")) kpse_file_format = kpse_vf_format; else
     if (!strcmp(format, "dvips config")) kpse_file_format = kpse_dvips_config_format; else
     /* if (!strcmp(format, "ist")) kpse_file_format = kpse_ist_format; else */
-    /* if (!strcmp(format, "truetype fonts")) kpse_file_format = kpse_truetype_format; else */
-    /* if (!strcmp(format, "type42 fonts")) kpse_file_format = kpse_type42_format; else */
+    if (!strcmp(format, "truetype fonts")) kpse_file_format = kpse_truetype_format; else
+    if (!strcmp(format, "type42 fonts")) kpse_file_format = kpse_type42_format; else
+    if (!strcmp(format, "opentype fonts")) kpse_file_format = kpse_opentype_format; else
     /* if (!strcmp(format, "web2c files")) kpse_file_format = kpse_web2c_format; else */
     /* if (!strcmp(format, "other text files")) kpse_file_format = kpse_program_text_format; else */
     /* if (!strcmp(format, "other binary files")) kpse_file_format = kpse_program_binary_format; else */
     /* if (!strcmp(format, "misc fonts")) kpse_file_format = kpse_miscfonts_format; else */
-    return NULL;
+    Py_RETURN_NONE;
 
     completefilename = kpse_find_file(filename, kpse_file_format, 1);
     returnvalue = Py_BuildValue("s", completefilename);
-- 
2.43.0


From 2f20a42fc687dcfdf02d8e95593cd8866f0f231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 188/193] fix: the recursivedir locator replaces known files by
 files of the same name in later directories, and ignores the order of the
 extensions

---
 pyx/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 3edf9b8..d56050e 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -130,11 +130,14 @@ class recursivedir:
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
                 else:
-                    self.path_cache[item] = full_item
+                    self.path_cache.setdefault(item, full_item)
                     if item in filenames:
-                        found = item
+                        found = True
             if found:
-                return [lambda: builtinopen(self.path_cache[found], "rb")]
+                break
+        for filename in filenames:
+            if filename in self.path_cache:
+                return [lambda: builtinopen(self.path_cache[filename], "rb")]
         return []
 
 locator_classes["recursivedir"] = recursivedir
-- 
2.43.0


From c2e539f2f8a57f2ea920f6a52eb1d10197ff869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 189/193] fix: a missing directory of the recursivedir
 configuration ends the search for the first file

---
 pyx/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index d56050e..96664b9 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -125,7 +125,12 @@ class recursivedir:
         found = None
         while self.dirs:
             dir = self.dirs.pop(0)
-            for item in os.listdir(dir):
+            try:
+                items = os.listdir(dir)
+            except EnvironmentError:
+                logger.warning("directory '%s' of the recursivedir configuration is not available" % dir)
+                continue
+            for item in items:
                 full_item = os.path.join(dir, item)
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
-- 
2.43.0


From a3f0c63ff0af93a073bd7cc7c5958a1953ca0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 190/193] fix: the locate locator always fails by a NameError,
 and it needs the locate executable to be available

---
 pyx/config.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 96664b9..ad34424 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -281,14 +281,17 @@ class locate:
 
     def openers(self, filename, formats):
         full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
-                    for line in text_output:
-                        line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
-                            full_filename = line
-                            break
+        for located_filename in full_filenames(filename, formats):
+            try:
+                with Popen([self.locate, located_filename], stdout=subprocess.PIPE) as process:
+                    with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
+                        for line in text_output:
+                            line = line.rstrip()
+                            if os.path.basename(line) == located_filename:
+                                full_filename = line
+                                break
+            except OSError:
+                return []
             if full_filename:
                 break
         else:
@@ -302,7 +305,7 @@ class locate:
             except IOError:
                 logger.warning("'%s' should be available at '%s' according to the locate, "
                             "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
+                            "update your locate database" % (located_filename, full_filename))
         return [_opener]
 
 locator_classes["locate"] = locate
-- 
2.43.0


From fc31a27899493c72a991da47bf1e227b23fd9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 191/193] fix: a file found before is not searched again when
 it is not available anymore: open fails or returns None even when other
 locators find it

---
 pyx/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index ad34424..9863bc5 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -383,9 +383,13 @@ def open(filename, formats, ascii=False):
     """returns an open file searched according the list of formats"""
 
     names = tuple([format.name for format in formats])
+    file = None
     if (filename, names) in opener_cache:
-        file = opener_cache[(filename, names)]()
-    else:
+        try:
+            file = opener_cache[(filename, names)]()
+        except EnvironmentError:
+            pass
+    if not file:
         for method in methods:
             openers = method.openers(filename, formats)
             for opener in openers:
-- 
2.43.0


From ee64236a82171f4cb4c4aa728d4a1b5ccc52536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 192/193] fix: a missing file of the ls-R configuration ends
 every search

---
 pyx/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 9863bc5..8020049 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -159,7 +159,12 @@ class ls_R:
             for lsr in getlist("filelocator", "ls-R"):
                 base_dir = os.path.dirname(lsr)
                 first = True
-                with builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape") as lsrfile:
+                try:
+                    lsrfile = builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape")
+                except EnvironmentError:
+                    logger.warning("file '%s' of the ls-R configuration is not available" % lsr)
+                    continue
+                with lsrfile:
                     for line in lsrfile:
                         line = line.rstrip()
                         if first and line.startswith("%"):
-- 
2.43.0


From e90dd8f9864bb57859ad7297150fd55f0e452759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 193/193] fix: the ls-R and locate locators do not find files
 with non-ascii names

---
 pyx/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 8020049..22a5904 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import configparser, io, logging, os, pkgutil, subprocess, shutil
+import configparser, io, logging, os, pkgutil, subprocess, shutil, sys
 
 logger = logging.getLogger("pyx")
 logger_execute = logging.getLogger("pyx.execute")
@@ -160,7 +160,7 @@ class ls_R:
                 base_dir = os.path.dirname(lsr)
                 first = True
                 try:
-                    lsrfile = builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape")
+                    lsrfile = builtinopen(lsr, "r", encoding=sys.getfilesystemencoding(), errors="surrogateescape")
                 except EnvironmentError:
                     logger.warning("file '%s' of the ls-R configuration is not available" % lsr)
                     continue
@@ -289,7 +289,7 @@ class locate:
         for located_filename in full_filenames(filename, formats):
             try:
                 with Popen([self.locate, located_filename], stdout=subprocess.PIPE) as process:
-                    with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
+                    with io.TextIOWrapper(process.stdout, encoding=sys.getfilesystemencoding(), errors="surrogateescape") as text_output:
                         for line in text_output:
                             line = line.rstrip()
                             if os.path.basename(line) == located_filename:
-- 
2.43.0

