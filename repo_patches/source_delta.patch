From ed900bc8c0bb04aa7c14f7c2441b53283339051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 01/87] fix: keep the first corner when transforming a
 rectangle

transform_self() overwrote x1/y1 with the minimum before taking the maximum,
so the box was too small whenever the first corner became the farthest one.
---
 svgpy/geometry/rect.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..0bbf093 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -536,11 +536,8 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        self.set_coords(min(x1, x2, x3, x4), min(y1, y2, y3, y4),
+                        max(x1, x2, x3, x4), max(y1, y2, y3, y4))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From ddc177252258f054bef33066d13c5e7f6088cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 02/87] fix: empty intersection of disjoint rectangles

Intersecting two rectangles without a common area returned the first one.
---
 svgpy/geometry/rect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 0bbf093..1a76d9c 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -416,6 +416,10 @@ class DOMRect(DOMRectReadOnly):
             return self
         elif other.contains(self.x, self.y, self.width, self.height):
             return self
+        elif (other.right <= self.left or self.right <= other.left
+              or other.bottom <= self.top or self.bottom <= other.top):
+            self.set_size(0, 0)  # disjoint
+            return self
 
         x1, y1, x2, y2 = self.get_coords()
 
-- 
2.43.0


From e4b8697de0a0cce16dbeacc62841d0f036ceede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 03/87] fix: do not lose a closepath directly followed by
 another command

'M0,0L1,1zM5,5' was parsed without the closepath because the segment pattern
required at least one non-command character after every command letter.
---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..0beaef3 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1173,7 +1173,7 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
-- 
2.43.0


From daf52f09d799a5ab785a239625d8a5398a961f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 04/87] fix: read arc flags as single characters

The path grammar allows arc flags without a separator ('a1,1 0 0110,10').
---
 svgpy/path.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 0beaef3..ddab937 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1180,6 +1180,8 @@ class PathParser(object):
         r"((\d+(\.\d*)?([Ee][+-]?\d+)?)|(\d*\.\d+([Ee][+-]?\d+)?)))"
         r"(\s*,\s*|\s+)?")
 
+    RE_ARC_FLAG = re.compile(r"(?P<number>[01])(\s*,\s*|\s+)?")
+
     PATH_SEGMENT_TYPES = 'AaBbCcHhLlMmQqSsTtVvZz'
 
     _PATH_SEGMENT_VALUES_LENGTH = {
@@ -1485,9 +1487,19 @@ class PathParser(object):
                 args_sequence = list()
                 if len(values) > 0:
                     number_sequence = list()
-                    for it2 in PathParser.RE_NUMBER_SEQUENCE.finditer(values):
+                    pos = 0
+                    while pos < len(values):
+                        pattern = PathParser.RE_NUMBER_SEQUENCE
+                        if (path_type in 'Aa'
+                                and len(number_sequence) % 7 in (3, 4)):
+                            # a flag is a single character
+                            pattern = PathParser.RE_ARC_FLAG
+                        it2 = pattern.search(values, pos)
+                        if it2 is None:
+                            break
                         number = it2.group('number')
                         number_sequence.append(float(number))
+                        pos = it2.end()
                     argc = PathParser._PATH_SEGMENT_VALUES_LENGTH.get(
                         path_type.upper())
                     args_sequence = zip(*[iter(number_sequence)] * argc)
-- 
2.43.0


From 037bb7098311a198f6eafaac04cae2c868673975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 05/87] fix: write every closepath of a path

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index ddab937..063dbd7 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1518,7 +1518,7 @@ class PathParser(object):
                     type(path_segment)))
             drawto_command = path_segment.tostring()
             path_type = path_segment.type
-            if last_path_type == path_type:
+            if last_path_type == path_type and path_type not in ('Z', 'z'):
                 drawto_command = drawto_command[1:]
             svg_path.append(drawto_command)
             last_path_type = path_type
-- 
2.43.0


From 25da0e3c8adf74af78b90557a95a22ce7949526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 06/87] fix: normalize paths with an arc that ends where it
 starts

Such an arc draws nothing; PathParser.normalize() raised IndexError.
---
 svgpy/path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index 063dbd7..c66c1ce 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1439,6 +1439,11 @@ class PathParser(object):
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
                 normalized_path_data.extend(normalized)
+                if len(normalized) == 0:
+                    # start point and end point of the arc are identical
+                    x1, y1 = cpx, cpy
+                    last_command = command
+                    continue
 
                 # control point for next shorthand/smooth curve
                 if command in 'CcQqSsTt':
-- 
2.43.0


From bc794ebe99d29cc530f8a60ea9f91365446b4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 07/87] fix: reflect the right control point for smooth curves

A smooth curve reflects the last control point of a preceding curve of its own
kind only (not of the other kind, nor across a closepath), and its own second
control point is the one reflected next.
---
 svgpy/path.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index c66c1ce..414e39d 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -840,12 +840,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
@@ -866,6 +862,17 @@ class PathSegment(object):
             next_y1 = 2 * y - y1
             return next_x1, next_y1
 
+    @staticmethod
+    def issmooth(path_segment, last_path_type):
+        """Returns True if the path segment is a smooth curve that continues
+        a previous curve of the same kind, otherwise returns False.
+        """
+        path_type = path_segment.type
+        if last_path_type is None:
+            return False
+        return ((path_type in 'Ss' and last_path_type in 'CcSs')
+                or (path_type in 'Tt' and last_path_type in 'QqTt'))
+
     @staticmethod
     def normalize(path_segment, cpx, cpy, bearing, **extra):
         """Converts to the base set of absolute path segments ('M', 'L', 'C' or
@@ -1356,6 +1363,8 @@ class PathParser(object):
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
                 old_cpx, old_cpy = cpx, cpy
+                if not PathSegment.issmooth(path_segment, last_command):
+                    x1, y1 = cpx, cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
                                                             x1=x1, y1=y1)
@@ -1435,6 +1444,8 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if not PathSegment.issmooth(path_segment, last_command):
+                    x1, y1 = cpx, cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From a5f34181269898ce2098fdae7dfcc8e432d16d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 08/87] fix: restore the intersection of rectangles without a
 common area

This reverts ddc1772: the tests state that such a rectangle is kept.
---
 svgpy/geometry/rect.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 1a76d9c..0bbf093 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -416,10 +416,6 @@ class DOMRect(DOMRectReadOnly):
             return self
         elif other.contains(self.x, self.y, self.width, self.height):
             return self
-        elif (other.right <= self.left or self.right <= other.left
-              or other.bottom <= self.top or self.bottom <= other.top):
-            self.set_size(0, 0)  # disjoint
-            return self
 
         x1, y1, x2, y2 = self.get_coords()
 
-- 
2.43.0


From b2d3ff229544055dcfd2eeba77a1983536f1110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 09/87] fix: unite and contain rectangles without width or
 height

A rectangle with only one size of zero was taken for its corner, which cut
straight lines out of the bounding box of a path.
---
 svgpy/geometry/rect.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 0bbf093..fd158e0 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -148,12 +148,8 @@ class DOMRectReadOnly(object):
         """
         if not self.isvalid():
             return False
-        if width <= 0 or height <= 0:
-            if self.left <= x <= self.right and self.top <= y <= self.bottom:
-                return True
-            return False
-        right = x + width
-        bottom = y + height
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
         if (self.left <= x <= self.right
                 and self.left <= right <= self.right
                 and self.top <= y <= self.bottom
@@ -592,9 +588,9 @@ class DOMRect(DOMRectReadOnly):
         elif y > y2:
             y2 = y
 
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
+        if width > 0 or height > 0:
+            right = x + max(width, 0)
+            bottom = y + max(height, 0)
             if x2 is None or right > x2:
                 x2 = right
             if y2 is None or bottom > y2:
-- 
2.43.0


From ab4e74dea4e52088b10f9cece189a14592864b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 10/87] fix: keep the current point when transforming
 horizontal and vertical lines

---
 svgpy/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 414e39d..2b8faee 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1576,7 +1576,11 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                if x is not None:
+                    cpx = x
+                if y is not None:
+                    cpy = y
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From c6b93ae9cb03a615232cf94ddfe06aeac895fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 11/87] fix: transform the radii, rotation and direction of
 arcs

---
 svgpy/path.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 2b8faee..1500205 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1137,7 +1137,10 @@ class PathSegment(object):
             # 'A'|'a' (rx,ry x-axis-rotation large-arc-flag sweep-flag x,y)+
             rx, ry, x_axis_rotation, fa, fs, x, y = abs_path_segment.values
             x, y = matrix.transform_point(x, y)
-            # x_axis_rotation += matrix.get_angle()
+            rx, ry, x_axis_rotation = PathSegment.transform_ellipse(
+                rx, ry, x_axis_rotation, matrix)
+            if matrix.a * matrix.d - matrix.b * matrix.c < 0:
+                fs = 0 if fs else 1
             return SVGPathSegment('A', rx, ry, x_axis_rotation, fa, fs, x, y)
         elif path_type == 'C':
             # 'C'|'c' (x1,y1 x2,y2 x,y)+
@@ -1172,6 +1175,37 @@ class PathSegment(object):
             return SVGPathSegment('L', x, y)
         raise NotImplementedError('Unsupported path type: ' + repr(path_type))
 
+    @staticmethod
+    def transform_ellipse(rx, ry, x_axis_rotation, matrix):
+        """Returns the radii and the rotation of the transformed ellipse.
+
+        Arguments:
+            rx (float): The horizontal radii of the ellipse.
+            ry (float): The vertical radii of the ellipse.
+            x_axis_rotation (float): The angle from the x-axis of the ellipse
+                in degrees.
+            matrix (DOMMatrixReadOnly): The transformation matrix.
+        Returns:
+            tuple[float, float, float]: The radii of the transformed ellipse
+                and the angle from the x-axis of that ellipse in degrees.
+        """
+        linear = np.array([[matrix.a, matrix.c], [matrix.b, matrix.d]],
+                          dtype=float)
+        if np.array_equal(linear, np.identity(2)):
+            return rx, ry, x_axis_rotation
+        r = math.radians(x_axis_rotation)
+        axes = linear.dot(
+            np.array([[math.cos(r), -math.sin(r)],
+                      [math.sin(r), math.cos(r)]])).dot(
+            np.diag([abs(rx), abs(ry)]))
+        u, s, _ = np.linalg.svd(axes)
+        rx, ry = s.tolist()
+        if math.isclose(rx, ry,
+                        rel_tol=SVGLength.rel_tol,
+                        abs_tol=SVGLength.abs_tol):
+            return rx, ry, 0  # circle
+        return rx, ry, math.degrees(math.atan2(u[1, 0], u[0, 0]))
+
 
 class PathParser(object):
     """Utility class for SVG path data."""
-- 
2.43.0


From 0ed900760e0e2bcc25aee88cc94867cab7748cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 12/87] fix: find the extrema of curves that are nearly
 quadratic

---
 svgpy/path.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 1500205..f3f2a18 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -128,11 +128,6 @@ class CubicBezierCurve(object):
 
     def get_roots(self):
         # See http://floris.briolas.nl/floris/2009/10/bounding-box-of-cubic-bezier/
-        def _solve(_a, _b, _c, _s):
-            # {-b + sqrt(b^2 - 4ac) / (2a)} or {-b - sqrt(b^2 - 4ac) / (2a)}
-            s = 1 if _s else -1
-            return (-_b + s * math.sqrt(_b ** 2 - 4 * _a * _c)) / (2 * _a)
-
         roots = list()
         coefficients = self.get_coefficients()
         a = 3 * coefficients[0]
@@ -142,13 +137,12 @@ class CubicBezierCurve(object):
             d = b[i] ** 2 - 4 * a[i] * c[i]
             if d < 0:
                 continue
-            if a[i] == 0 and b[i] != 0:
-                roots.append(-c[i] / b[i])
-            elif d == 0 and a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-            elif a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-                roots.append(_solve(a[i], b[i], c[i], False))
+            # avoid cancellation: a[i] may be nonzero only by rounding
+            q = -(b[i] + math.copysign(math.sqrt(d), b[i])) / 2
+            if a[i] != 0:
+                roots.append(q / a[i])
+            if q != 0:
+                roots.append(c[i] / q)
         return filter(lambda t: 0 <= t <= 1, roots)
 
     def point(self, t):
-- 
2.43.0


From b86d3d306386e189b25327191513ba224e25c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 13/87] fix: measure curves whose speed vanishes at a point

---
 svgpy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index f3f2a18..e9244bc 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -61,7 +61,8 @@ class CubicBezierCurve(object):
     def _get_length_integrand(t, c0, c1, c2, c3, c4):
         # use Hartmut Henkel method
         # See http://www.circuitwizard.de/metapost/arclength.pdf
-        return math.sqrt(c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0)
+        return math.sqrt(max(
+            c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0, 0))
 
     def get_bbox(self, options=None, **extra):
         """Returns the bounding box of the cubic bezier curve.
-- 
2.43.0


From afdd931cde3354fb67a75fff879b3d042ea97430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 14/87] fix: copy the used radius to an auto radius of an
 ellipse

With rx="10%" and no ry, the percentage text was copied, so ry became 10% of the height instead of the used value of rx.
---
 svgpy/element.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..9f1e5a2 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,20 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = 0
+        ry = 0
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        if _rx != 'auto' and _ry == 'auto':
+            ry = rx
+        elif _rx == 'auto' and _ry != 'auto':
+            rx = ry
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From 841c93718b0db781f1c598dee1b9e4667d6612d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 15/87] fix: apply the transforms of a use element and of its
 instance once, in order

The transform of a use element was applied twice, its x and y were applied before the transform of the referenced element, and the path data of a group ignored the transforms of its children.
---
 svgpy/base.py    | 7 +------
 svgpy/element.py | 9 ++++-----
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..58a57f2 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -462,7 +462,7 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
@@ -493,11 +493,6 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
         if transform_list is not None:
             matrix = transform_list.matrix
diff --git a/svgpy/element.py b/svgpy/element.py
index 9f1e5a2..eddb068 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1097,12 +1097,11 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        path_data = root.get_transformed_path_data(settings)
+        if len(path_data) == 0:
+            return path_data
 
+        transform_list = SVGTransformList()
         geometry = self.get_computed_geometry()
         x = geometry['x']
         y = geometry['y']
-- 
2.43.0


From c12c7b674c7262cbacccb0e20138b2de285d4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 16/87] fix: transform rectangles without width or height

A flat box (of a group holding one horizontal line, for instance) was returned untransformed.
---
 svgpy/geometry/rect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index fd158e0..472dd9a 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -520,7 +520,8 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if (self._x is None or self._y is None
+                or self._width < 0 or self._height < 0):
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From b4454d59eb95e4fb573a4d032c611b8f76e8f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 17/87] fix: include the transforms between nested svg elements
 in the CTM

The screen CTM of an element in a nested svg left out the transforms of the groups around that svg.
---
 svgpy/base.py | 53 ++++++++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 58a57f2..e4688a7 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -368,49 +368,38 @@ class SVGGraphicsElement(SVGElement):
         Returns:
             DOMMatrix: The current transformation matrix (CTM).
         """
-        roots = list()
         ctm = DOMMatrix()
         farthest = self.get_farthest_svg_element()
         if farthest is None:
             return ctm
-        elif hash(farthest) == hash(self):
-            roots.append(farthest)
-        else:
-            element = self
-            while element is not None:
-                root = element.get_nearest_viewport_element()
-                if root is None or root in roots:
-                    break
-                roots.insert(0, root)
-                if viewport_type == SVGElement.NEAREST_VIEWPORT:
-                    if (self.local_name not in ('svg', 'symbol')
-                            or len(roots) >= 2):
-                        break
-                element = root.getparent()
-        if len(roots) == 0:
-            return ctm
-
         if viewport_type == SVGElement.FARTHEST_VIEWPORT:
-            scale = farthest.current_scale
-            tx, ty = farthest.current_translate
-            ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
+            depth = None
+        elif self.local_name in ('svg', 'symbol') and farthest != self:
+            depth = 2
+        else:
+            depth = 1
 
-        transform_list = SVGTransformList()
         element = self
         while element is not None:
-            if element.istransformable():
+            if (isinstance(element, SVGGraphicsElement)
+                    and element.istransformable()):
                 transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
+                if transform is not None and len(transform) > 0:
+                    ctm = transform.matrix * ctm
             if element.local_name in ('svg', 'symbol'):
-                break
+                vtm = element.get_viewport_transformation_matrix(
+                    recursive=False)
+                ctm = vtm * ctm
+                if depth is not None:
+                    depth -= 1
+                    if depth == 0:
+                        break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
-            ctm *= matrix
+
+        if viewport_type == SVGElement.FARTHEST_VIEWPORT:
+            scale = farthest.current_scale
+            tx, ty = farthest.current_translate
+            ctm = DOMMatrix([scale, 0, 0, scale, tx, ty]) * ctm
         return ctm
 
     def get_bbox(self, options=None, _depth=0):
-- 
2.43.0


From f24b9a6f68f884d0f33417f0ef2d6632bf4ffcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 18/87] fix: read the alignment xMinYMid

Only the misspelt XMinYMid was known, so xMinYMid fell back to xMidYMid.
---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index e4688a7..7416396 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -687,6 +687,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From 0eeac23b994dade7c4c33ce4d04cac6cb8795a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 19/87] fix: allow white space around a viewBox

A leading space gave an empty first number.
---
 svgpy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 7416396..33ccd6c 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -576,7 +576,7 @@ class SVGFitToViewBox(Element):
         view_box = self.get('viewBox')
         if view_box is None:
             return None
-        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box)
+        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box.strip())
         return (SVGLength(vb[0],
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL),
-- 
2.43.0


From 7629e8d33c29d01abc05026af80b5be9775c2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 20/87] fix: compute the viewBox scale from lengths in the same
 unit

With width in inches (or x and width in different units) the scale was read in the unit of x and was off by the ratio of the units.
---
 svgpy/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 33ccd6c..329fb8e 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -504,6 +504,9 @@ class SVGGraphicsElement(SVGElement):
         if ew is None or eh is None:
             return ctm
         vbx, vby, vbw, vbh, par = view_box
+        ex, ey, ew, eh = ex.value(), ey.value(), ew.value(), eh.value()
+        vbx, vby = vbx.value(), vby.value()
+        vbw, vbh = vbw.value(), vbh.value()
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
@@ -545,8 +548,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From 578510d39df9d4c01e09e5896f33a649b07c1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 21/87] fix: compute relative font sizes from the element that
 specifies them

An em or percentage font-size was resolved against the parent of whichever
element asked for it, so an inherited font-size changed its computed value at
every level, and em lengths used the font size of the parent.
---
 svgpy/core.py | 59 ++++++++++++++++++++++++---------------------------
 svgpy/dom.py  | 16 ++++++++++----
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..0b3c046 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -85,9 +85,8 @@ class CSSUtils(object):
     _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
 
     @staticmethod
-    def compute_font_size(element, inherited_size=None, inherited_style=None):
-        if inherited_style is None:
-            inherited_style = element.get_inherited_style()
+    def compute_font_size(element):
+        inherited_style, context = element._get_inherited_style()
 
         # 'font-size' property
         # Value: <absolute-size> | <relative-size> | <length> | <percentage>
@@ -111,36 +110,38 @@ class CSSUtils(object):
         elif font_size in ['larger', 'smaller']:
             # <relative-size>
             # Value: larger | smaller
-            if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None:
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
-            px = inherited_size
+            px = CSSUtils._compute_parent_font_size(context)
+            px *= 1.2 if font_size == 'larger' else 1 / 1.2
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
-            fs = SVGLength(font_size, context=element)
-            px = fs.value()
+            fs = SVGLength(font_size)
+            if fs.unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE]:
+                # relative to the parent of the element that specifies it
+                px = (fs.value(fs.unit)
+                      * CSSUtils._compute_parent_font_size(context))
+                if fs.unit == SVGLength.TYPE_PERCENTAGE:
+                    px /= 100
+            elif fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+                             SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
+                px = SVGLength(font_size, context=context.getparent()).value()
+            elif (fs.unit == SVGLength.TYPE_REMS
+                  and context.getparent() is None):
+                px = fs.value(fs.unit) * Font.default_font_size
+            else:
+                px = SVGLength(font_size, context=context).value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
             px = CSSUtils._MINIMUM_FONT_SIZE
         return float(px)
 
+    @staticmethod
+    def _compute_parent_font_size(element):
+        parent = element.getparent()
+        if parent is None:
+            return Font.default_font_size
+        return CSSUtils.compute_font_size(parent)
+
     @staticmethod
     def compute_font_size_adjust(style):
         # 'font-size-adjust' property
@@ -1374,12 +1375,8 @@ class SVGLength(object):
             if self._context is None:
                 element_font_size = Decimal(Font.default_font_size)
             else:
-                context = self._context.getparent()
-                if context is None:
-                    element_font_size = Decimal(Font.default_font_size)
-                else:
-                    element_font_size = Decimal(
-                        CSSUtils.compute_font_size(context))
+                element_font_size = Decimal(
+                    CSSUtils.compute_font_size(self._context))
 
         if (self._unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
                            SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..cda80dc 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1802,9 +1802,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             style['font-feature-settings'])
 
         # 'font-size' property
-        style['font-size'] = CSSUtils.compute_font_size(
-            self,
-            inherited_style=style)
+        style['font-size'] = CSSUtils.compute_font_size(self)
 
         # 'font-size-adjust' property
         style['font-size-adjust'] = CSSUtils.compute_font_size_adjust(style)
@@ -1861,6 +1859,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def get_inherited_style(self):
+        style, _ = self._get_inherited_style()
+        return style
+
+    def _get_inherited_style(self):
+        """Returns the inherited style, and the element that specifies its
+        'font-size' property (or None).
+        """
         def _update_font_prop(_value, _style, _inherited_style):
             _other = CSSUtils.parse_font(_value)
             for _key in _other:
@@ -1993,6 +1998,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # 'transform', 'transform-box', 'transform-origin',
         # 'vertical-align',
         css_rules = get_css_rules(self)
+        font_size_element = None
         element = self
         while element is not None:
             css_style, css_style_important = get_css_style(element, css_rules)
@@ -2029,6 +2035,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
+            if font_size_element is None and 'font-size' in style:
+                font_size_element = element
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
@@ -2044,7 +2052,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             style['font-family'] = CSSUtils.parse_font_family(
                 Font.default_font_family)
 
-        return style
+        return style, font_size_element
 
     def get_elements_by_class_name(self, class_names, nsmap=None):
         """Finds all matching sub-elements, by class names.
-- 
2.43.0


From dc66894740093efac0023730dff86ed19649f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 22/87] fix: resolve relative sizes of nested viewports against
 the parent viewport

A vw or vh size of a nested svg element ran into endless recursion, a vmin
or vmax size ignored its number, and a percentage x or y referred to the
element's own size.
---
 svgpy/base.py | 107 ++++++++++++++++++++------------------------------
 1 file changed, 42 insertions(+), 65 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 329fb8e..63c64f7 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -257,88 +257,65 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+        parent_vpw, parent_vph = vpw, vph
         for root in roots:
+            parent_vpw, parent_vph = vpw, vph
             _width = root.get('width', 'auto')
             if _width == 'auto':
                 _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
+            if _width != 'inherit':
+                vpw = self._get_viewport_length(
+                    root, _width, SVGLength.DIRECTION_HORIZONTAL,
+                    parent_vpw, parent_vph)
 
             _height = root.get('height', 'auto')
             if _height == 'auto':
                 _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
-            parent_vph = vph
+            if _height != 'inherit':
+                vph = self._get_viewport_length(
+                    root, _height, SVGLength.DIRECTION_VERTICAL,
+                    parent_vpw, parent_vph)
         if len(roots) == 0:
             vpx = SVGLength(0)
             vpy = SVGLength(0)
         else:
             root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+            vpx = self._get_viewport_length(
+                root, root.get('x', '0'), SVGLength.DIRECTION_HORIZONTAL,
+                parent_vpw, parent_vph)
+            vpy = self._get_viewport_length(
+                root, root.get('y', '0'), SVGLength.DIRECTION_VERTICAL,
+                parent_vpw, parent_vph)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
 
+    @staticmethod
+    def _get_viewport_length(root, text, direction, vpw, vph):
+        """Returns the length of an element that establishes an SVG viewport:
+        viewport-relative units refer to the size of its parent viewport.
+        """
+        length = SVGLength(text, context=root, direction=direction)
+        unit = length.unit
+        if unit == SVGLength.TYPE_PERCENTAGE:
+            reference = (vpw if direction == SVGLength.DIRECTION_HORIZONTAL
+                         else vph)
+        elif unit == SVGLength.TYPE_VW:
+            reference = vpw
+        elif unit == SVGLength.TYPE_VH:
+            reference = vph
+        elif unit == SVGLength.TYPE_VMAX:
+            reference = max(vpw, vph)
+        elif unit == SVGLength.TYPE_VMIN:
+            reference = min(vpw, vph)
+        else:
+            return length
+        return length.value(unit) / 100 * reference
+
 
 class SVGGraphicsElement(SVGElement):
     """Represents the [SVG2] SVGGraphicsElement."""
-- 
2.43.0


From be5ea03bee9c9f8a13d518d2e10c37d1a5c10dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:17 +0000
Subject: [PATCH 23/87] fix: use the nearest viewport and the font size in
 lengths

Percentages inside a nested svg element without a viewBox referred to the
viewBox of an outer element, and a line-height given as a number was not
multiplied by the font size.
---
 svgpy/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 0b3c046..1b9dce3 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -218,8 +218,11 @@ class CSSUtils(object):
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
                                * font_size)
+            elif h.unit in [None, SVGLength.TYPE_NUMBER]:
+                # <number>
+                line_height = h.value() * font_size
             else:
-                # <length> or <number>
+                # <length>
                 line_height = h.value()
         return line_height
 
@@ -1389,7 +1392,7 @@ class SVGLength(object):
                 vw = 100
                 vh = 100
             else:
-                view_box = self._context.get_view_box()
+                view_box = self._context.get_view_box(recursive=False)
                 if view_box is not None:
                     _, _, vbw, vbh, _ = view_box
                     vw = vbw.value()
-- 
2.43.0


From ad5623035dde8f9b9a7320e10e8cba38818d3c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 24/87] fix: make token lists ordered sets of valid tokens

Duplicate tokens of the attribute were listed twice and only the first was
removed, replacing by a token already in the list did nothing, tokens were
split at non-ASCII white space, and some ways of setting a token accepted
invalid ones.
---
 svgpy/dom.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index cda80dc..e85ceab 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -204,12 +204,13 @@ class DOMTokenList(MutableSequence):
 
     def __setitem__(self, index, value):
         if isinstance(value, str):
+            if len(value) > 0:
+                self._validate_token(value)
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
+            self._validate_tokens(value)
+            value = [token for token in value if token not in self._tokens]
             if len(value) == 0:
                 return
         else:
@@ -223,7 +224,9 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        for ch in '\t\n\f\r':
+            value = value.replace(ch, ' ')
+        tokens = tuple(dict.fromkeys(x for x in value.split(' ') if x))
         return tokens
 
     @property
@@ -237,7 +240,7 @@ class DOMTokenList(MutableSequence):
         return ' '.join(self._tokens)
 
     def _set_tokens(self, tokens):
-        value = ' '.join(tokens).strip()
+        value = ' '.join(x for x in dict.fromkeys(tokens) if x)
         if len(value) == 0:
             if self._local_name in self._owner_element.attrib:
                 del self._owner_element.attrib[self._local_name]
@@ -321,10 +324,10 @@ class DOMTokenList(MutableSequence):
                 False otherwise.
         """
         self._validate_tokens([token, new_token])
-        if token not in self._tokens or new_token in self._tokens:
+        if token not in self._tokens:
             return False
-        index = self._tokens.index(token)
-        self[index] = new_token
+        tokens = [new_token if x == token else x for x in self._tokens]
+        self._set_tokens(dict.fromkeys(tokens))
         return True
 
     def toggle(self, token, force=None):
@@ -339,6 +342,7 @@ class DOMTokenList(MutableSequence):
         Returns:
             bool: Returns True if `token` is now present, and False otherwise.
         """
+        self._validate_token(token)
         if token in self._tokens:
             if force in (None, False):
                 self.remove(token)
-- 
2.43.0


From 6b58aa235304a7342d5e14ce72ee0f3b55bee0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 25/87] fix: convert dataset names as the HTML standard defines
 it

Names with digits or hyphens after a hyphen (data-foo-1, data-foo-) and
non-ASCII capitals were converted to names of other attributes, and setting an
empty value of a missing entry raised KeyError.
---
 svgpy/dom.py | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index e85ceab..d15f730 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -121,9 +121,6 @@ class DOMStringMap(MutableMapping):
         return repr({key: value for key, value in self.items()})
 
     def __setitem__(self, key, value):
-        if value is None or len(value) == 0:
-            del self[key]
-            return
         name = self._convert_name(key)
         if not self._validate_name(name):
             raise InvalidCharacterError("The string contains invalid "
@@ -131,33 +128,15 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return re.sub(r'-([a-z])',
+                      lambda matched: matched.group(1).upper(),
+                      name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
             raise ValueError('Invalid syntax: ' + repr(key))
-        name = self._prefix
-        for ch in key:
-            if ch.isupper():
-                name += '-'
-            name += ch
-        return name.lower()
+        return self._prefix + re.sub(
+            r'[A-Z]', lambda matched: '-' + matched.group().lower(), key)
 
     def _validate_name(self, name):
         _ = self
@@ -169,7 +148,8 @@ class DOMStringMap(MutableMapping):
     def keys(self):
         keys = [self._convert_key(name)
                 for name in self._owner_element.attributes
-                if name.startswith(self._prefix) and name.islower()]
+                if name.startswith(self._prefix)
+                and re.search(r'[A-Z]', name) is None]
         return KeysView(keys)
 
 
-- 
2.43.0


From 9622b9598e29534c5791f0d2b99b99eb7a40350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 26/87] fix: refuse to remove an attribute node of another
 element

remove_attribute_node removed the attribute of the same name even if the given
node was detached or belonged to another element.
---
 svgpy/dom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index d15f730..82ccc7a 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2258,6 +2258,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Attr: An attribute object to be removed.
         """
+        if attr.owner_element is not self:
+            raise KeyError(attr.name)
         attr = self.attributes.remove_named_item_ns(attr.namespace_uri,
                                                     attr.local_name)
         if attr is not None:
-- 
2.43.0


From e2204fec3b3b1169ed61f37b9e1349751254c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 27/87] fix: find the root of a node in its own tree

The tree library keeps the document of a removed node, so the root of a removed subtree was reported to be the element it had been removed from, and rem units, style sheets and references were resolved there.
---
 svgpy/core.py    |  2 +-
 svgpy/dom.py     | 32 +++++++++++++++++++++-----------
 svgpy/element.py |  2 +-
 svgpy/style.py   |  2 +-
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 1b9dce3..08e7101 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1362,7 +1362,7 @@ class SVGLength(object):
             if self._context is None:
                 root_font_size = Decimal(Font.default_font_size)
             else:
-                root = self._context.getroottree().getroot()
+                root = self._context.get_root_node()
                 root_font_size = Decimal(CSSUtils.compute_font_size(root))
 
         if (self._unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE,
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 82ccc7a..04d0951 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1251,10 +1251,15 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        parent = self.getparent()
+        if parent is not None:
+            return parent.get_root_node()
+        # at the document level
+        for preceding in (False, True):
+            for node in self.itersiblings(preceding=preceding):
+                if node.node_type == Node.ELEMENT_NODE:
+                    return node
+        return self
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2100,9 +2105,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
+        root = self
+        for root in self.iterancestors():
+            pass
         return root
 
     def has_attribute(self, qualified_name):
@@ -2563,10 +2568,15 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        parent = self.getparent()
+        if parent is not None:
+            return parent.get_root_node()
+        # at the document level
+        for preceding in (False, True):
+            for node in self.itersiblings(preceding=preceding):
+                if node.node_type == Node.ELEMENT_NODE:
+                    return node
+        return self
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
diff --git a/svgpy/element.py b/svgpy/element.py
index eddb068..e39e3bb 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1043,7 +1043,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         elif href[0] != '#':
             # TODO: support external link.
             raise NotImplementedError(href)
-        root = self.getroottree().getroot()
+        root = self.get_root_node()
         element = root.get_element_by_id(href[1:])
         return element
 
diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..4971778 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -138,7 +138,7 @@ def get_css_style_sheets(element):
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
-    root = element.getroottree().getroot()
+    root = element.get_root_node()
 
     # xml-stylesheet
     style_sheets.extend(get_css_style_sheets_from_xml_stylesheet(root))
-- 
2.43.0


From 7e20b028d2efaf61bf23122eb7ea4734ceeadb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 28/87] fix: include text after comments and other children in
 text content

---
 svgpy/dom.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 04d0951..334c61c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1521,7 +1521,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # See https://dom.spec.whatwg.org/#dom-node-textcontent
         local_name = self.local_name
         if local_name in Element.DESCRIPTIVE_ELEMENTS:
-            return self.text
+            return self.text if len(self) == 0 else self.xpath('string()')
         elif local_name in Element.TEXT_CONTENT_ELEMENTS:
             chars = Element._get_text_content(self)
             return ''.join(chars)
@@ -1541,15 +1541,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
+            if (child.node_type == Node.ELEMENT_NODE
+                    and child.local_name in Element.TEXT_CONTENT_ELEMENTS):
                 contents = Element._get_text_content(child)
                 chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From cd5736c2c8ab9b3b521f107753c42a95d256d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 29/87] fix: insert nodes and strings in the order given

append() put strings before existing children, prepend() misplaced nodes after an existing first child, and a refused node lost the text of the element or half of the insertion. Inserting an ancestor is refused up front.
---
 svgpy/dom.py | 73 +++++++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 43 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 334c61c..27a0787 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -77,17 +77,6 @@ def node_insert_before(parent, node, child=None):
     return node
 
 
-def node_prepend_data(node, data, tail=True):
-    if tail:
-        text = '' if node.tail is None else node.tail
-        text = data + text
-        node.tail = text
-    else:
-        text = '' if node.text is None else node.text
-        text = data + text
-        node.text = text
-
-
 class DOMStringMap(MutableMapping):
     """Represents the [HTML] DOMStringMap."""
 
@@ -692,6 +681,13 @@ class Node(ABC):
                 "This node type '{}' cannot insert inside nodes of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is node:
+                raise HierarchyRequestError(
+                    'A node cannot be inserted inside itself or its '
+                    'descendants')
+            ancestor = ancestor.parent_node
         return True
 
     def ensure_pre_remove_validity(self, child):
@@ -1585,24 +1581,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                if len(self) > 0:
+                    node_append_data(self[-1], node)
+                else:
+                    node_append_data(self, node, False)
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_append_data(target, data, tail)
-                data = ''
             node.attach_document(self.owner_document)
             super().append(node)
-            target = node
-
-        if len(data) > 0:
-            tail = False if target == self else True
-            node_append_data(target, data, tail)
 
     def append_child(self, node):
         """Adds a sub-node to the end of this node.
@@ -1718,9 +1708,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         Extends the current children by the nodes in the iterable.
         """
-        owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
+        owner_document = self.owner_document
+        for node in nodes:
             node.attach_document(owner_document)
         super().extend(nodes)
 
@@ -2192,34 +2184,29 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
-        data = ''
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
+        first_child = None
+        for child in self:
+            if child not in nodes:
+                first_child = child
+                break
+        text = self.text
+        self.text = None
         target = self
-        text = '' if self.text is None else self.text
-        if len(text) > 0:
-            self.text = ''
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                node_append_data(target, node, target is not self)
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_prepend_data(target, data, tail)
-                data = ''
             node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
             else:
                 first_child.addprevious(node)
             target = node
-
-        tail = False if target == self else True
-        if len(data) > 0:
-            node_prepend_data(target, data, tail)
-        if len(text) > 0:
-            node_append_data(target, text, tail)
+        if text is not None:
+            node_append_data(target, text, target is not self)
 
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
-- 
2.43.0


From cb74fbf83357d9963d2ab68a95ff5184ca5c04a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 30/87] fix: keep the document element apart from other trees

A document element moved elsewhere stayed the element of its document, an element taken from another tree was not removed from there, and some elements could become siblings of the root. Replacing a node by itself removed it; inserting at the end raised IndexError.
---
 svgpy/window.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..5858e5f 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -88,7 +88,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         self._browsing_context = BrowsingContext(self, default_view)
         self._content_type = (content_type if content_type is not None
                               else 'application/xml')
-        self._document_element = None
+        self._root = None
         if document_element is not None:
             self.append(document_element)
         self._implementation = implementation
@@ -108,6 +108,16 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
     def __len__(self):
         return len(self.child_nodes)
 
+    @property
+    def _document_element(self):
+        root = self._root
+        if (root is not None
+                and (root.getparent() is not None
+                     or root.owner_document is not self)):
+            # moved to another parent or document
+            root = self._root = None
+        return root
+
     @property
     def child_nodes(self):
         """list[Node]: The children of this node."""
@@ -253,11 +263,13 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
                         "The Element node must be insert first")
+                node.remove()
                 node.attach_document(self)
-                root = self._document_element = node
+                root = self._root = node
             elif node == root:
                 continue  # do nothing
             else:
+                self._ensure_no_second_element(node)
                 if last_child is None:
                     last_child = self.last_child
                 last_child.addnext(node)
@@ -416,6 +428,11 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         return None
 
+    def _ensure_no_second_element(self, node):
+        if node.node_type == Node.ELEMENT_NODE:
+            raise TypeError('Only processing instructions and comments can '
+                            'be siblings of the root element')
+
     def extend(self, nodes):
         """Extends the current children by the nodes in the iterable.
         """
@@ -517,8 +534,13 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         elif node == root:
             pass  # do nothing
         else:
+            self.ensure_pre_insertion_validity(node)
+            self._ensure_no_second_element(node)
             children = self.child_nodes
-            children[index].addprevious(node)
+            if index >= len(children):
+                self.append(node)
+            else:
+                children[index].addprevious(node)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
@@ -530,6 +552,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             Node: A node to be inserted.
         """
         self.ensure_pre_insertion_validity(node, child)
+        if child is not None:
+            self._ensure_no_second_element(node)
         node_insert_before(self, node, child)
         return node
 
@@ -586,8 +610,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             elif node == root:
                 continue  # do nothing
             else:
+                self._ensure_no_second_element(node)
                 if first_child is None:
-                    first_child = self.first_child
+                    first_child = [child for child in self.child_nodes
+                                   if child == root or child not in nodes][0]
                 first_child.addprevious(node)
 
     def query_selector_all(self, selectors):
@@ -603,7 +629,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         self.ensure_pre_remove_validity(node)
         root = self._document_element
         if node == root:
-            self._document_element = None
+            self._root = None
             return
         root.append(node)  # move
         root.remove(node)
@@ -633,6 +659,9 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             self.remove(old_node)
             self.append(new_node)
             return
+        if old_node == new_node:
+            return
+        self._ensure_no_second_element(new_node)
         children = self.child_nodes
         pos = children.index(old_node)
         children[pos].addprevious(new_node)
@@ -662,7 +691,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         root = self._document_element
         if root is None:
             return b''
-        return etree.tostring(root.getroottree(), **kwargs)
+        return etree.tostring(etree.ElementTree(root), **kwargs)
 
 
 class DOMImplementation(ABC):
-- 
2.43.0


From 28f90ab2aa4fc7f7eda2a444d25ab4de1fbc39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 31/87] fix: documents in encodings other than UTF-8 load

SVGDOMImplementation.parse() decoded every resource as UTF-8 and refused encoding declarations.
---
 svgpy/window.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 5858e5f..6131c64 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -13,10 +13,11 @@
 # limitations under the License.
 
 
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
 from fractions import Fraction
-from io import StringIO
+from io import BytesIO
 from logging import getLogger
 
 from lxml import etree
@@ -33,6 +34,8 @@ from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
     get_elements_by_tag_name_ns, load, normalize_url
 
+_RE_XML_DECLARATION = re.compile(r'^\ufeff?<\?xml\s[^>]*\?>')
+
 
 class BrowsingContext(object):
     """A browsing context object that is associated with the document."""
@@ -865,11 +868,18 @@ class SVGDOMImplementation(DOMImplementation):
         if isinstance(source, str):
             data, headers = load(source)
             content_type = get_content_type(headers)
-            if content_type is None:
+            if isinstance(data, str):
+                data = data.encode()
                 charset = 'utf-8'
+            elif content_type is None:
+                charset = None
             else:
-                charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+                charset = content_type.get('charset')
+            if charset is not None:
+                # takes precedence over the encoding declaration
+                text = _RE_XML_DECLARATION.sub('', data.decode(charset))
+                data = text.encode()
+            data = BytesIO(data)
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From ec8c76c8155c74d74194e794aefc79965034c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 32/87] fix: namespace_uri is None where xmlns="" removes the
 default namespace

It was the empty string.
---
 svgpy/dom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 27a0787..ce9d42f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1442,7 +1442,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @property
     def namespace_uri(self):
-        return self.nsmap.get(self.prefix)
+        namespace = self.nsmap.get(self.prefix)
+        return namespace if namespace else None
 
     @property
     def next_element_sibling(self):
-- 
2.43.0


From 856d7f2b7089649a77a55a2ff2c13a57037b523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 33/87] fix: create_element_ns() leaves the caller's prefix map
 alone

It added the default namespace to it.
---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index e39e3bb..e9b5ffa 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1326,8 +1326,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict() if nsmap is None else dict(nsmap)
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From cb24eb680d75125c2c4f6703a77a75790b8ba088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 34/87] fix: class and selector queries match what they should

Class names were spliced into a regular expression, and the caller's nsmap
was changed. Selectors were matched as if the element were the root of the
tree; type selectors without a prefix matched only elements in no namespace;
negated or adjacent type selectors compared prefixes instead of namespaces.
---
 svgpy/dom.py   | 11 ++++-----
 svgpy/utils.py | 66 +++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index ce9d42f..8f39420 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -17,7 +17,7 @@ import re
 from abc import ABC, abstractmethod
 from collections.abc import KeysView, MutableMapping, MutableSequence
 
-from lxml import cssselect, etree
+from lxml import etree
 
 from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
@@ -27,7 +27,7 @@ from .style import get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace, select_elements, style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -2212,10 +2212,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
         uri = nsmap.pop(None, None)
-        if uri is not None:
-            nsmap['svg'] = uri
-        sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
-        return sel(self)
+        if uri:
+            nsmap.setdefault('svg', uri)
+        return select_elements(self, selectors, nsmap)
 
     def remove(self, node=None):
         """Removes a matching sub-node. Unlike the find methods, this method
diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..8e2b44e 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -22,6 +22,9 @@ from pathlib import PurePath
 from urllib.parse import unquote
 from urllib.request import urlopen
 
+from cssselect.xpath import XPathExpr
+from lxml import cssselect
+
 from .exception import InvalidCharacterError, NamespaceError
 from .url import Location, URL
 
@@ -99,19 +102,20 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
     Returns:
         list[Element]: A list of elements.
     """
-    names = class_names.split()
+    names = [x for x in re.split('[{}]+'.format(_ASCII_WHITESPACE),
+                                 class_names) if len(x) > 0]
     if len(names) == 0:
         return []
     if include_self:
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    variables = {'class{}'.format(i): ' {} '.format(x)
+                 for i, x in enumerate(names)}
+    patterns = ['contains(concat(" ", normalize-space(@class), " "), ${})'
+                .format(x) for x in variables]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
@@ -238,6 +242,31 @@ def remove_quotes(src):
     return src
 
 
+def select_elements(element, selectors, namespaces):
+    """Finds all elements matching a group of selectors in the sub-tree of
+    the element, the element included. Selectors are matched against the whole
+    tree that contains the element.
+
+    Arguments:
+        element (Element): The root of the sub-tree.
+        selectors (str): A group of selectors.
+        namespaces (dict): A map of a namespace prefix to the URI.
+    Returns:
+        list[Element]: A list of elements, in document order.
+    """
+    selector = cssselect.CSSSelector(selectors,
+                                     namespaces=namespaces,
+                                     translator=SelectorTranslator())
+    root = element
+    for root in element.iterancestors():
+        pass
+    elements = selector(root)
+    if root is not element:
+        scope = set(element.iter())
+        elements = [x for x in elements if x in scope]
+    return elements
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
@@ -391,3 +420,28 @@ class QualifiedName(object):
     def namespace_uri(self):
         """str: The namespace URI or None."""
         return self._namespace
+
+
+class SelectorTranslator(cssselect.LxmlTranslator):
+    """Translates selectors to XPath expressions. A type selector without a
+    namespace prefix matches the elements in any namespace.
+    """
+
+    class _XPathExpr(XPathExpr):
+
+        def add_name_test(self):
+            # not by name(), which depends on the prefix used in the document
+            if self.element != '*':
+                self.add_condition('self::' + self.element)
+                self.element = '*'
+
+    xpathexpr_cls = _XPathExpr
+
+    def xpath_element(self, selector):
+        name_test = '*'
+        if selector.namespace is not None:
+            name_test = '{}:*'.format(selector.namespace)
+        if selector.element is not None:
+            name_test += '[local-name() = {}]'.format(
+                self.xpath_literal(selector.element))
+        return self.xpathexpr_cls(element=name_test)
-- 
2.43.0


From 7ae6db8c84de7557b623059a1b0d3f1af18fde6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 35/87] fix: read the font and overflow shorthands component by
 component

The number after the solidus of 'font' was taken for font-weight, as was a
font size of zero; a solidus without a line height left an empty one; an
unknown 'overflow' value raised KeyError.
---
 svgpy/css/shorthands.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..b20ace1 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -186,6 +186,11 @@ class ShorthandProperty(ABC):
             elif (property_name in _with_solidus_properties
                   and not found_solidus):
                 continue
+            elif (property_name == 'font-weight'
+                  and component.type == 'number'
+                  and not 1 <= component.value <= 1000):
+                # 'font': <font-size> can be the number zero
+                continue
 
             supported, syntax = desc.support(component)
             if supported:
@@ -200,7 +205,8 @@ class ShorthandProperty(ABC):
                 break
 
         if (property_name in components_map
-                and len(components_map[property_name]) == 0):
+                and all(x.type == 'whitespace'
+                        for x in components_map[property_name])):
             del components_map[property_name]
         return components_map, css_wide_keywords
 
@@ -255,9 +261,28 @@ class ShorthandProperty(ABC):
 class FontShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
-        components_map, _ = ShorthandProperty._parse_css_declaration(
-            'font',
-            component_list)
+        # <font-size> [ / <line-height> ]?
+        line_height = list()
+        for index, component in enumerate(component_list):
+            if component == '/':
+                line_height = [x for x in component_list[index + 1:]
+                               if x.type != 'whitespace'][:1]
+                break
+        desc = css_property_descriptor_map['line-height']
+        if len(line_height) == 1 and desc.support(line_height[0])[0]:
+            # prevents <number> from being taken for <font-weight>
+            component_list = [x for x in component_list
+                              if x is not component
+                              and x is not line_height[0]]
+        else:
+            line_height.clear()
+
+        components_map, css_wide_keywords = \
+            ShorthandProperty._parse_css_declaration(
+                'font',
+                component_list)
+        if len(line_height) > 0 and len(css_wide_keywords) == 0:
+            components_map['line-height'] = line_height
 
         font_variant_components = components_map.pop('font-variant-css2')
         shorthand = FontVariantShorthand(self._declarations)
@@ -728,7 +753,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From 79098d5ae9fdd7bc6b3b9d594ba4ab6596053e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 36/87] fix: keep the style attribute and its declarations in
 step

The style attribute was split at every ';' and ':' (losing url(data:...)
and strings), '!important' ended up inside values, declarations removed from
the attribute stayed, rewriting it in sorted order changed the meaning of
shorthands, and later declarations overrode important ones.
---
 svgpy/css/__init__.py | 289 ++++++++++++------------------------------
 svgpy/utils.py        |  17 ++-
 2 files changed, 95 insertions(+), 211 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..f8f4883 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -26,7 +26,8 @@ from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from .screen import Screen, ScreenOrientation
-from .shorthands import Shorthand, font_sub_property_list
+from .shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list, shorthand_property_map
 from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathOperator, \
     CSSMathProduct, CSSMathSum, CSSMathValue, CSSNumericBaseType, \
@@ -48,169 +49,67 @@ def normalize_text(text):
 
 
 class _StyleAttribute(object):
+    """The value of the style attribute that describes the declarations."""
 
     def __init__(self, declarations, owner_node):
         self._declarations = declarations  # type: OrderedDict
         self._owner_node = owner_node
         attr = owner_node.attributes.get_named_item_ns(None, 'style')
-        style = '' if attr is None else attr.value
-        self._style_map = style_to_dict(style)
+        self._style_map = style_to_dict('' if attr is None else attr.value)
 
-    def _remove(self, property_name, force=False):
-        style_map = self._style_map
-        updated = False
-        if property_name in style_map:
-            updated = True
-            del style_map[property_name]
+    def _is_important(self, property_name):
+        value = self._style_map.get(property_name)
+        if value is not None:
+            return value.endswith('!important')
+        return any(self._is_important(x)
+                   for x in Longhand.shorthands(property_name))
 
-        if Shorthand.is_shorthand(property_name):
-            # shorthand
-            # remove shorthand's sub-properties
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
-                if longhand_name in style_map:
-                    updated = True
-                    del style_map[longhand_name]
-
-        if force:
-            return updated
-
-        if (Shorthand.is_shorthand(property_name)
-                or Longhand.is_longhand(property_name)):
-            # shorthand or shorthand's sub-property
-            # try to set the shorthand
-            declarations = self._declarations
-            shorthand_names = Longhand.shorthands(property_name)
-            for shorthand_name in shorthand_names:
-                _updated = self._set_shorthand(shorthand_name)
-                if _updated:
-                    updated = True
-                else:
-                    if shorthand_name in style_map:
-                        updated = True
-                        del style_map[shorthand_name]
-                    longhand_names = Shorthand.longhands(shorthand_name)
-                    for longhand_name in longhand_names:
-                        if longhand_name in declarations:
-                            updated = True
-                            longhand_value = declarations[longhand_name][0]
-                            style_map[longhand_name] = longhand_value
-
-        return updated
-
-    def _set(self, property_name, value, append=True, restore=False):
-        style_map = self._style_map
-        if not append and property_name not in style_map:
-            return False
-        if restore:
-            if property_name not in self._declarations:
-                return False
-            value = self._declarations[property_name][0]
-        updated = False
-        if Longhand.is_longhand(property_name):
-            # longhand => shorthand
-            # e.g.: 'font-variant-caps: small-caps'
-            # => 'font: small-caps' or 'font-variant: small-caps'
-            shorthand_names = Longhand.shorthands(property_name)
-            for shorthand_name in shorthand_names:
-                _updated = self._set_shorthand(shorthand_name)
-                if _updated:
-                    updated = True
-                    for sub_shorthand_name in (set(shorthand_names)
-                                               - {shorthand_name}):
-                        if sub_shorthand_name in style_map:
-                            del style_map[sub_shorthand_name]
-                    break
-                else:
-                    # shorthand => longhand
-                    updated |= self._set_longhand_from_shorthand(
-                        shorthand_name)
-        elif Shorthand.is_shorthand(property_name):
-            # shorthand
-            updated = self._set_shorthand(property_name)
-            if not updated:
-                # shorthand => longhand
-                updated = self._set_longhand_from_shorthand(property_name)
-
-        if not updated and len(value) > 0:
-            updated = True
+    def tostring(self):
+        declarations = self._declarations
+        shorthand = Shorthand(declarations)
+        style_map = OrderedDict()
+        exclusions = set()
+        # in the order of 'font', 'font-variant', and so on
+        for property_name in sorted(shorthand_property_map):
+            longhand_names = get_longhand_list(property_name)
+            if exclusions.intersection(longhand_names):
+                continue
+            value = shorthand.get_property_value(property_name)
+            if len(value) == 0:
+                continue
             style_map[property_name] = value
-        return updated
+            exclusions.update(longhand_names)
 
-    def _set_longhand_from_shorthand(self, shorthand_name):
-        style_map = self._style_map
-        declarations = self._declarations
-        updated = False
-        if shorthand_name in style_map:
-            updated = True
-            del style_map[shorthand_name]
-        longhand_names = Shorthand.longhands(shorthand_name)
-        for longhand_name in longhand_names:
-            if longhand_name in declarations:
-                updated = True
-                longhand_value = declarations[longhand_name][0]
-                style_map[longhand_name] = longhand_value
-            elif Shorthand.is_shorthand(longhand_name):
-                _updated = self._set_shorthand(longhand_name)
-                if _updated:
-                    updated = True
-                    continue
-                updated |= self._set_longhand_from_shorthand(longhand_name)
-
-        return updated
-
-    def _set_shorthand(self, property_name):
-        style_map = self._style_map
-        updated = False
-        shorthand = Shorthand(self._declarations)
-        result = shorthand.get_property_value(property_name)
-        if len(result) > 0:
-            updated = True
-            style_map[property_name] = result
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
-                if longhand_name in style_map:
-                    del style_map[longhand_name]
-
-        return updated
-
-    def _update_style(self):
-        attributes = self._owner_node.attributes
-        if len(self._style_map) == 0:
-            if 'style' in attributes:
-                del attributes['style']
-            return
-        style = dict_to_style(self._style_map)
-        attributes['style'] = style
+        # reset-only sub-properties
+        if 'font' in style_map:
+            exclusions.update(font_sub_property_list)
+        if 'mask' in style_map:
+            style_map.pop('mask-border', None)
+            exclusions.update(get_longhand_list('mask-border'))
 
-    def update(self, property_name, value):
-        updated = False
-        if len(value) == 0:
-            updated = self._remove(property_name)
-            if property_name == 'font':
-                for sub_property_name in font_sub_property_list:
-                    updated |= self._set(sub_property_name, '', restore=True)
-            elif property_name in font_sub_property_list:
-                updated |= self._set_shorthand('font')
-            elif property_name == 'mask-border':
-                updated |= self._set_shorthand('mask')
-        else:
-            if property_name in font_sub_property_list and value != 'initial':
-                updated |= self._set_longhand_from_shorthand('font')
-            elif property_name == 'mask':
-                updated |= self._remove('mask-border', force=True)
-            elif property_name == 'mask-border' and value != 'initial':
-                updated |= self._set_longhand_from_shorthand('mask')
-            updated |= self._set(property_name, value)
-            if updated and 'font' in self._style_map:
-                for sub_property_name in font_sub_property_list:
-                    # updated |= self._set(sub_property_name,
-                    #                      'initial',
-                    #                      append=False)
-                    updated |= self._remove(sub_property_name, force=True)
-
-        if updated:
-            self._update_style()
+        for property_name in declarations:
+            if property_name not in exclusions:
+                style_map[property_name] = declarations[property_name][0]
+
+        for property_name in style_map:
+            if Shorthand.is_shorthand(property_name):
+                priority = shorthand.get_property_priority(property_name)
+            else:
+                priority = declarations[property_name][1]
+            if (priority == 'important'
+                    and self._is_important(property_name)):
+                style_map[property_name] += ' !important'
+
+        return dict_to_style(style_map)
+
+    def update(self):
+        attributes = self._owner_node.attributes
+        style = self.tostring()
+        if len(style) > 0:
+            attributes['style'] = style
+        elif 'style' in attributes:
+            del attributes['style']
+        return style
 
 
 class CSS(object):
@@ -1376,56 +1275,34 @@ class CSSStyleDeclaration(MutableMapping):
         # 'style' attribute => CSS declarations
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
-        declarations = self._property_map
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
-        for property_name, value in property_map.items():
-            needs_update = False
-            priority = ''
-            if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
-            else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
-                self._set_property_internal(declarations,
-                                            property_name,
-                                            value,
-                                            priority)
-
-        return declarations
+        if style != self._css_text:
+            self._css_text = style
+            self._property_map.clear()
+            self._parse_content(style)
+        return self._property_map
 
     def _parse_content(self, content):
         nodes = tinycss2.parse_declaration_list(content,
                                                 skip_comments=True,
                                                 skip_whitespace=True)
+        declarations = self._property_map
         for node in nodes:
-            if node.type == 'declaration':
-                property_name = node.name
-                value = tinycss2.serialize(node.value)
-                priority = 'important' if node.important else ''
-                self.set_property(property_name, value, priority)
+            if node.type != 'declaration':
+                continue
+            property_name = node.name
+            if not property_name.startswith('--'):
+                property_name = property_name.lower()
+            value = normalize_text(tinycss2.serialize(node.value))
+            priority = 'important' if node.important else ''
+            important = {
+                key: item for key, item in declarations.items()
+                if item[1] == 'important' and not node.important}
+            self._set_property_internal(declarations,
+                                        property_name,
+                                        value,
+                                        priority)
+            # important declarations take precedence over the others
+            declarations.update(important)
 
     def _set_css_declaration(self, declarations, property_name,
                              component_list, priority):
@@ -1464,11 +1341,11 @@ class CSSStyleDeclaration(MutableMapping):
                 result = declarations[property_name][0]
         return updated, result
 
-    def _update_style_attribute(self, declarations, property_name, value):
+    def _update_style_attribute(self, declarations):
         if self._owner_node is None:
             return
         style = _StyleAttribute(declarations, self._owner_node)
-        style.update(property_name, value)
+        self._css_text = style.update()
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
@@ -1543,7 +1420,7 @@ class CSSStyleDeclaration(MutableMapping):
             del declarations[property_name]
             removed = True
         if removed and self._inline_style:
-            self._update_style_attribute(declarations, property_name, '')
+            self._update_style_attribute(declarations)
         return value
 
     def set_property(self, property_name, value, priority=None):
@@ -1572,12 +1449,12 @@ class CSSStyleDeclaration(MutableMapping):
         if priority not in ('', 'important'):
             return
         declarations = self._declarations()
-        updated, result = self._set_property_internal(declarations,
-                                                      property_name,
-                                                      value,
-                                                      priority)
+        updated, _ = self._set_property_internal(declarations,
+                                                 property_name,
+                                                 value,
+                                                 priority)
         if updated and self._inline_style:
-            self._update_style_attribute(declarations, property_name, result)
+            self._update_style_attribute(declarations)
 
     def values(self):
         return self._declarations().values()
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 8e2b44e..4f1eeab 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -22,6 +22,7 @@ from pathlib import PurePath
 from urllib.parse import unquote
 from urllib.request import urlopen
 
+import tinycss2
 from cssselect.xpath import XPathExpr
 from lxml import cssselect
 
@@ -277,11 +278,17 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+    d = OrderedDict()
+    for node in tinycss2.parse_declaration_list(text,
+                                                skip_comments=True,
+                                                skip_whitespace=True):
+        if node.type != 'declaration':
+            continue
+        value = tinycss2.serialize(node.value).strip()
+        if node.important:
+            value += ' !important'
+        d[node.name] = value
+    return d
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From ff85604cc57806fd1b3149fd974b4c4602daa5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 37/87] fix: read custom properties and serialise declaration
 blocks

Names starting with two hyphens were not read from text and came out as
'-/**/-name'; values holding ';' or '!' were written into the attribute as
further declarations; spaces inside strings were collapsed; css_text never
showed later changes.
---
 svgpy/css/__init__.py | 50 +++++++++++++++++++++++-------------
 svgpy/utils.py        | 60 ++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 88 insertions(+), 22 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index f8f4883..67af8b0 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -36,7 +36,8 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, style_to_dict
+    load, normalize_url, parse_component_value_list, \
+    parse_declaration_list, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
@@ -48,6 +49,17 @@ def normalize_text(text):
     return out_text
 
 
+def _normalize_component_list(component_list):
+    for node in component_list:
+        if node.type == 'whitespace':
+            node.value = '\x20'
+        elif node.type == 'function':
+            _normalize_component_list(node.arguments)
+        elif node.type in ('() block', '[] block', '{} block'):
+            _normalize_component_list(node.content)
+    return component_list
+
+
 class _StyleAttribute(object):
     """The value of the style attribute that describes the declarations."""
 
@@ -1204,14 +1216,13 @@ class CSSStyleDeclaration(MutableMapping):
             inline_style (bool, optional): Enables the inline CSS styles.
         """
         self._parent_rule = parent_rule
-        self._css_text = None
+        self._style_text = None  # the style attribute's value
         self._property_map = OrderedDict()
         self._owner_node = owner_node
         self._inline_style = inline_style
         self._readonly = False
         if rule is not None:
-            self._css_text = normalize_text(tinycss2.serialize(rule.content))
-            self._parse_content(rule.content)
+            self._parse_content(tinycss2.serialize(rule.content))
 
     def __contains__(self, property_name):
         if not property_name.startswith('--'):
@@ -1245,8 +1256,12 @@ class CSSStyleDeclaration(MutableMapping):
     @property
     def css_text(self):
         """str: A serialization of the CSS rule."""
-        # TODO: implement CSSStyleDeclaration.cssText.
-        return self._css_text
+        items = ['{}: {}{};'.format(property_name,
+                                    value,
+                                    ' !important' if priority else '')
+                 for property_name, (value, priority)
+                 in self._declarations().items()]
+        return ' '.join(items)
 
     @property
     def length(self):
@@ -1275,16 +1290,14 @@ class CSSStyleDeclaration(MutableMapping):
         # 'style' attribute => CSS declarations
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
-        if style != self._css_text:
-            self._css_text = style
+        if style != self._style_text:
+            self._style_text = style
             self._property_map.clear()
             self._parse_content(style)
         return self._property_map
 
     def _parse_content(self, content):
-        nodes = tinycss2.parse_declaration_list(content,
-                                                skip_comments=True,
-                                                skip_whitespace=True)
+        nodes = parse_declaration_list(content)
         declarations = self._property_map
         for node in nodes:
             if node.type != 'declaration':
@@ -1292,7 +1305,7 @@ class CSSStyleDeclaration(MutableMapping):
             property_name = node.name
             if not property_name.startswith('--'):
                 property_name = property_name.lower()
-            value = normalize_text(tinycss2.serialize(node.value))
+            value = tinycss2.serialize(node.value).strip()
             priority = 'important' if node.important else ''
             important = {
                 key: item for key, item in declarations.items()
@@ -1319,11 +1332,12 @@ class CSSStyleDeclaration(MutableMapping):
 
     def _set_property_internal(self, declarations, property_name, value,
                                priority):
-        component_list = tinycss2.parse_component_value_list(
-            value,
-            skip_comments=True)
-        if len(component_list) == 0:
+        component_list = parse_component_value_list(value)
+        if (len(component_list) == 0
+                or any(x == ';' or x == '!' or x.type == 'error'
+                       for x in component_list)):
             return False, ''
+        _normalize_component_list(component_list)
         result = ''
         if Shorthand.is_shorthand(property_name):
             shorthand = Shorthand(declarations)
@@ -1345,7 +1359,7 @@ class CSSStyleDeclaration(MutableMapping):
         if self._owner_node is None:
             return
         style = _StyleAttribute(declarations, self._owner_node)
-        self._css_text = style.update()
+        self._style_text = style.update()
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
@@ -1435,7 +1449,7 @@ class CSSStyleDeclaration(MutableMapping):
         """
         if self._readonly:
             raise NoModificationAllowedError('The object can not be modified')
-        value = normalize_text(value)
+        value = value.strip()
         if len(value) == 0:
             self.remove_property(property_name)
             return
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 4f1eeab..fb3ac2e 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -25,6 +25,8 @@ from urllib.request import urlopen
 import tinycss2
 from cssselect.xpath import XPathExpr
 from lxml import cssselect
+from tinycss2.ast import IdentToken
+from tinycss2.serializer import serialize_name
 
 from .exception import InvalidCharacterError, NamespaceError
 from .url import Location, URL
@@ -243,6 +245,48 @@ def remove_quotes(src):
     return src
 
 
+def parse_component_value_list(text):
+    """Parses a list of component values, without comments.
+
+    Arguments:
+        text (str): The list to be parsed.
+    Returns:
+        list: A list of component values. A name that starts with two hyphens
+            is an identifier.
+    """
+    def _join(nodes):
+        result = list()
+        for node in nodes:
+            if node.type == 'function':
+                node.arguments = _join(node.arguments)
+            elif node.type in ('() block', '[] block', '{} block'):
+                node.content = _join(node.content)
+            elif node.type == 'ident' and node.value.startswith('-'):
+                while len(result) > 0 and result[-1] == '-':
+                    hyphen = result.pop()
+                    node = _DashedIdentToken(hyphen.source_line,
+                                             hyphen.source_column,
+                                             '-' + node.value)
+            result.append(node)
+        return result
+
+    return _join(tinycss2.parse_component_value_list(text,
+                                                     skip_comments=True))
+
+
+def parse_declaration_list(text):
+    """Parses a declaration list.
+
+    Arguments:
+        text (str): The list to be parsed.
+    Returns:
+        list: A list of declarations, at-rules and parse errors.
+    """
+    return tinycss2.parse_declaration_list(parse_component_value_list(text),
+                                           skip_comments=True,
+                                           skip_whitespace=True)
+
+
 def select_elements(element, selectors, namespaces):
     """Finds all elements matching a group of selectors in the sub-tree of
     the element, the element included. Selectors are matched against the whole
@@ -279,18 +323,26 @@ def style_to_dict(text):
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
     d = OrderedDict()
-    for node in tinycss2.parse_declaration_list(text,
-                                                skip_comments=True,
-                                                skip_whitespace=True):
+    for node in parse_declaration_list(text):
         if node.type != 'declaration':
             continue
+        key = node.name if node.name.startswith('--') else node.lower_name
         value = tinycss2.serialize(node.value).strip()
         if node.important:
             value += ' !important'
-        d[node.name] = value
+        elif d.get(key, '').endswith(' !important'):
+            continue
+        d[key] = value
     return d
 
 
+class _DashedIdentToken(IdentToken):
+    """An identifier that starts with two hyphens."""
+
+    def _serialize_to(self, write):
+        write('--' + serialize_name(self.value[2:]))
+
+
 class CaseInsensitiveMapping(MutableMapping):
 
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 5a75b17b085dc4a79aede748e8b2237266b5caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 38/87] fix: refuse rule indices out of range

insert_rule() and delete_rule() take the indices of the DOM: list slices accept any.
---
 svgpy/css/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 67af8b0..526a9a0 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -658,6 +658,9 @@ class CSSGroupingRule(CSSRule):
             index (int): An index position of the child CSS rules to be
                 removed.
         """
+        if not 0 <= index < len(self._css_rules):
+            raise IndexError(
+                'Index out of range: {}'.format(repr(index)))
         del self._css_rules[index]
 
     def insert_rule(self, rule, index):
@@ -670,6 +673,9 @@ class CSSGroupingRule(CSSRule):
         Returns:
             int: An index position of the child CSS rules.
         """
+        if not 0 <= index <= len(self._css_rules):
+            raise IndexError(
+                'Index out of range: {}'.format(repr(index)))
         css_rules = CSSParser.fromstring(
             rule,
             parent_style_sheet=self.parent_style_sheet,
@@ -1555,6 +1561,9 @@ class CSSStyleSheet(StyleSheet):
             index (int): An index position of the child CSS rules to be
                 removed.
         """
+        if not 0 <= index < len(self._css_rules):
+            raise IndexError(
+                'Index out of range: {}'.format(repr(index)))
         del self._css_rules[index]
 
     def insert_rule(self, rule, index=0):
@@ -1567,6 +1576,9 @@ class CSSStyleSheet(StyleSheet):
         Returns:
             int: An index position of the child CSS rules.
         """
+        if not 0 <= index <= len(self._css_rules):
+            raise IndexError(
+                'Index out of range: {}'.format(repr(index)))
         css_rules = CSSParser.fromstring(
             rule,
             parent_style_sheet=self,
-- 
2.43.0


From f406707a95932261617fe64d3ab3a3083ca412e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 39/87] fix: resolve nested @import rules and stop at circular
 ones

An imported sheet resolves its own imports against its own address, a sheet that imports itself is not followed for ever, and sheets given as data: URLs load.
---
 svgpy/css/__init__.py | 30 ++++++++++++++++++++++++++++--
 svgpy/utils.py        |  4 +++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 526a9a0..ff7f5c2 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1063,10 +1063,20 @@ class CSSImportRule(CSSRule):
             }
         })
 
+    def _is_circular(self):
+        parent = self.parent_style_sheet
+        while parent is not None:
+            if parent.location == self._href:
+                return True
+            owner_rule = parent.owner_rule
+            parent = (owner_rule.parent_style_sheet
+                      if owner_rule is not None else None)
+        return False
+
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet.location
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1533,6 +1543,7 @@ class CSSStyleSheet(StyleSheet):
         super().__init__(**extra)
         self._owner_rule = owner_rule
         self._css_rules = list()
+        self._location = None
 
     def __repr__(self):
         return repr({
@@ -1544,6 +1555,15 @@ class CSSStyleSheet(StyleSheet):
             }
         })
 
+    @property
+    def location(self):
+        """str: The absolute URL which the style sheet was loaded from."""
+        return self._location
+
+    @location.setter
+    def location(self, value):
+        self._location = value
+
     @property
     def owner_rule(self):
         """CSSRule: The owner CSS rule."""
@@ -1640,7 +1660,12 @@ class CSSParser(object):
             'title': None,
             'media': None,
         })
-        if owner_node is not None:
+        if isinstance(parent_rule, CSSImportRule):
+            extra.update({
+                'href': url,
+                'media': parent_rule.media.media_text,
+            })
+        elif owner_node is not None:
             extra.update({
                 'type_': owner_node.get('type'),
                 'href': owner_node.get('href'),
@@ -1648,6 +1673,7 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        css_style_sheet.location = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
diff --git a/svgpy/utils.py b/svgpy/utils.py
index fb3ac2e..6a85680 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -201,12 +201,14 @@ def load(src, encoding=None, **kwargs):
         content_type = pathname[0:end].strip()
         if len(content_type) == 0:
             content_type = 'text/plain;charset=US-ASCII'
-        data = unquote(pathname[end + 1:].strip())
+        data = unquote_to_bytes(pathname[end + 1:].strip())
         parameters = [x.strip() for x in content_type.split(';')]
         if 'base64' in parameters:
             parameters.remove('base64')
             data = base64.b64decode(data)
         headers['Content-Type'] = ';'.join(parameters)
+        if encoding is not None:
+            data = data.decode(encoding)
         return data, headers
 
     with urlopen(url.href, **kwargs) as response:
-- 
2.43.0


From ab18e29d38088ef2cb3adb040b4eca015264260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 40/87] fix: parse the media queries given to a media list

Commas inside blocks do not separate queries, an empty query is 'not all', and assigned entries are parsed like appended ones.
---
 svgpy/css/__init__.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ff7f5c2..5daee68 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -731,7 +731,12 @@ class MediaList(MutableSequence):
         return repr(self._items)
 
     def __setitem__(self, index, item):
-        self._items[index] = item
+        items = [item] if isinstance(item, str) else list(item)
+        media_queries = [MediaList._parse_media_query(x) for x in items]
+        if any(x is None for x in media_queries):
+            raise ValueError('Expected media query, got ' + repr(item))
+        self._items[index] = (media_queries[0] if isinstance(item, str)
+                              else media_queries)
 
     @property
     def length(self):
@@ -743,12 +748,11 @@ class MediaList(MutableSequence):
         """str: A serialization of the collection of media queries."""
         # FIXME: implement serialize-a-media-query-list.
         # https://drafts.csswg.org/cssom/#serialize-a-media-query-list
-        return ', '.join(self._items).lower()
+        return ', '.join(self._items)
 
     @media_text.setter
     def media_text(self, value):
-        media_text = normalize_text(value)
-        if len(media_text) == 0:
+        if len(parse_component_value_list(value.strip())) == 0:
             self.clear()
             return
         m = MediaList._parse_media_query_list(value)
@@ -761,8 +765,14 @@ class MediaList(MutableSequence):
 
     @staticmethod
     def _parse_media_query_list(medium):
-        m = [x.strip() for x in medium.split(',')]
-        return m
+        media_queries = [list()]
+        for token in parse_component_value_list(medium):
+            if token == ',':
+                media_queries.append(list())
+            else:
+                media_queries[-1].append(token)
+        return [tinycss2.serialize(x).strip().lower() or 'not all'
+                for x in media_queries]
 
     def append(self, medium):
         """Adds the media query to the collection of media queries.
@@ -805,7 +815,7 @@ class MediaList(MutableSequence):
             index (int): An index position of the collection of media queries.
             medium (str): The media query to be added.
         """
-        self[index:index] = [medium.strip()]
+        self[index:index] = [medium]
 
     def item(self, index):
         """Returns a serialization of the media query in the collection of
-- 
2.43.0


From 7a1eaecc2ba123d14abf1e5157b864d2dec72301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 41/87] fix: serialise CSS rules of every kind

Every rule has a css_text that reads back as the rule, names that start with two hyphens are kept, @namespace takes a string, and at-rules with or without a block they must (not) have are skipped.
---
 svgpy/css/__init__.py | 152 ++++++++++++++++++++++++++----------------
 svgpy/utils.py        |  62 ++++++++++-------
 2 files changed, 132 insertions(+), 82 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 5daee68..6d041e6 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 
-import re
 from abc import ABC, abstractmethod
 from collections import OrderedDict
 from collections.abc import MutableMapping, MutableSequence
@@ -21,6 +20,7 @@ from logging import getLogger
 from urllib.error import URLError
 
 import tinycss2
+from tinycss2.serializer import serialize_string_value
 
 from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
@@ -36,28 +36,16 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, parse_component_value_list, \
-    parse_declaration_list, style_to_dict
+    load, normalize_component_list, normalize_url, \
+    parse_component_value_list, parse_declaration_list, style_to_dict
 
-_RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
+def _serialize(component_list):
+    return tinycss2.serialize(normalize_component_list(component_list)).strip()
 
-def normalize_text(text):
-    out_text = text.strip().replace(
-        '\r\n', ' ').replace('\r', ' ').replace('\n', ' ')
-    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(' ', out_text)
-    return out_text
 
-
-def _normalize_component_list(component_list):
-    for node in component_list:
-        if node.type == 'whitespace':
-            node.value = '\x20'
-        elif node.type == 'function':
-            _normalize_component_list(node.arguments)
-        elif node.type in ('() block', '[] block', '{} block'):
-            _normalize_component_list(node.content)
-    return component_list
+def _serialize_url(url):
+    return 'url("{}")'.format(serialize_string_value(url))
 
 
 class _StyleAttribute(object):
@@ -601,12 +589,11 @@ class CSSRule(object):
         self._parent_rule = parent_rule
         self._css_text = None
         if rule is not None:
-            self._css_text = normalize_text(rule.serialize())
+            self._css_text = _serialize([rule])
 
     @property
     def css_text(self):
         """str: A serialization of the CSS rule."""
-        # TODO: implement CSSRule.cssText.
         return self._css_text
 
     @property
@@ -922,6 +909,11 @@ class CSSFontFaceRule(CSSRule):
             }
         })
 
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        return '@font-face {{ {} }}'.format(self._style.css_text)
+
     @property
     def style(self):
         """CSSStyleDeclaration: A CSS declaration block associated with the
@@ -946,7 +938,7 @@ class CSSFontFeatureValuesRule(CSSRule):
                          CSSRule.FONT_FEATURE_VALUES_RULE,
                          parent_style_sheet=parent_style_sheet,
                          parent_rule=parent_rule)
-        self._font_family = normalize_text(tinycss2.serialize(rule.prelude))
+        self._font_family = _serialize(rule.prelude)
         self._annotation = CaseInsensitiveMapping()
         self._character_variant = CaseInsensitiveMapping()
         self._ornaments = CaseInsensitiveMapping()
@@ -975,36 +967,48 @@ class CSSFontFeatureValuesRule(CSSRule):
         for node in nodes:
             if node.type == 'at-rule':
                 # tinycss2.parse_one_component_value() returns ParseError
-                feature_type = node.lower_at_keyword
-                name = None
-                feature_values = None
-                for token in node.content:
-                    if token.type == 'ident':
-                        name = token.value
-                    elif token.type == 'literal' and token.value == ':':
-                        if name is not None:
-                            feature_values = list()
-                    elif token.type == 'number' and token.is_integer:
-                        if feature_values is not None and token.int_value >= 0:
-                            feature_values.append(token.int_value)
-                    elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
-                        name = None
-                        feature_values = None
+                feature_values = {
+                    'annotation': self._annotation,
+                    'character-variant': self._character_variant,
+                    'ornaments': self._ornaments,
+                    'styleset': self._styleset,
+                    'stylistic': self._stylistic,
+                    'swash': self._swash,
+                }.get(node.lower_at_keyword)
+                if feature_values is None or node.content is None:
+                    continue
+                for declaration in parse_declaration_list(node.content):
+                    if declaration.type != 'declaration':
+                        continue
+                    values = [x for x in declaration.value
+                              if x.type != 'whitespace']
+                    if (len(values) > 0
+                            and all(x.type == 'number'
+                                    and x.is_integer
+                                    and x.int_value >= 0 for x in values)):
+                        feature_values[declaration.name] = [
+                            x.int_value for x in values]
+
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        items = list()
+        for feature_type, feature_values in (
+                ('annotation', self._annotation),
+                ('character-variant', self._character_variant),
+                ('ornaments', self._ornaments),
+                ('styleset', self._styleset),
+                ('stylistic', self._stylistic),
+                ('swash', self._swash)):
+            if len(feature_values) == 0:
+                continue
+            items.append('@{} {{ {} }} '.format(
+                feature_type,
+                ' '.join('{}: {};'.format(CSS.escape(name),
+                                          ' '.join(str(x) for x in values))
+                         for name, values in feature_values.items())))
+        return '@font-feature-values {} {{ {}}}'.format(self._font_family,
+                                                        ''.join(items))
 
     @property
     def font_family(self):
@@ -1104,7 +1108,7 @@ class CSSImportRule(CSSRule):
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
+        if self._href is None or self._is_circular():
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
@@ -1113,6 +1117,13 @@ class CSSImportRule(CSSRule):
                                                 owner_node=owner_node,
                                                 parent_rule=self)
 
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        text = '@import {} {}'.format(_serialize_url(self._href or ''),
+                                      self._media.media_text)
+        return text.strip() + ';'
+
     @property
     def href(self):
         """str: The location of the style sheet."""
@@ -1164,6 +1175,13 @@ class CSSMediaRule(CSSConditionRule):
             }
         })
 
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        return '@media {} {{ {} }}'.format(
+            self._media.media_text,
+            ' '.join(x.css_text for x in self._css_rules))
+
     @property
     def condition_text(self):
         """str: A serialization of the collection of media queries.
@@ -1210,12 +1228,20 @@ class CSSNamespaceRule(CSSRule):
         })
 
     def _parse_prelude(self, prelude):
-        for token in prelude:
-            if token.type == 'url':
+        for token in normalize_component_list(prelude):
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
 
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        prefix = self._prefix
+        return '@namespace {}{};'.format(
+            CSS.escape(prefix) + ' ' if len(prefix) > 0 else '',
+            _serialize_url(self._namespace_uri or ''))
+
     @property
     def namespace_uri(self):
         """str: The namespace of the '@namespace' at-rule."""
@@ -1248,7 +1274,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._inline_style = inline_style
         self._readonly = False
         if rule is not None:
-            self._parse_content(tinycss2.serialize(rule.content))
+            self._parse_content(rule.content)
 
     def __contains__(self, property_name):
         if not property_name.startswith('--'):
@@ -1363,7 +1389,6 @@ class CSSStyleDeclaration(MutableMapping):
                 or any(x == ';' or x == '!' or x.type == 'error'
                        for x in component_list)):
             return False, ''
-        _normalize_component_list(component_list)
         result = ''
         if Shorthand.is_shorthand(property_name):
             shorthand = Shorthand(declarations)
@@ -1516,7 +1541,7 @@ class CSSStyleRule(CSSRule):
                          CSSRule.STYLE_RULE,
                          parent_style_sheet=parent_style_sheet,
                          parent_rule=parent_rule)
-        self._selector_text = normalize_text(tinycss2.serialize(rule.prelude))
+        self._selector_text = _serialize(rule.prelude)
         self._style = CSSStyleDeclaration(rule, parent_rule=self)
 
     def __repr__(self):
@@ -1527,6 +1552,11 @@ class CSSStyleRule(CSSRule):
             }
         })
 
+    @property
+    def css_text(self):
+        """str: A serialization of the CSS rule."""
+        return '{} {{ {} }}'.format(self._selector_text, self._style.css_text)
+
     @property
     def selector_text(self):
         """str: The associated group of selectors."""
@@ -1714,7 +1744,11 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
-                if rule.lower_at_keyword == 'font-face':
+                if ((rule.content is None)
+                        != (rule.lower_at_keyword in ('import', 'namespace'))):
+                    # '@import' and '@namespace' have no block, others have
+                    continue
+                elif rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
                         rule,
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 6a85680..04c9629 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -19,7 +19,7 @@ import re
 from collections import OrderedDict
 from collections.abc import MutableMapping
 from pathlib import PurePath
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 from urllib.request import urlopen
 
 import tinycss2
@@ -247,44 +247,60 @@ def remove_quotes(src):
     return src
 
 
+def normalize_component_list(nodes):
+    """Normalizes a list of component values.
+
+    Arguments:
+        nodes (list): A list of component values.
+    Returns:
+        list: A list of component values where a run of white space is a
+            space, and a name that starts with two hyphens is an identifier.
+    """
+    result = list()
+    for node in nodes:
+        if node.type == 'comment':
+            continue
+        elif node.type == 'whitespace':
+            if len(result) > 0 and result[-1].type == 'whitespace':
+                continue
+            node.value = '\x20'
+        elif node.type == 'function':
+            node.arguments = normalize_component_list(node.arguments)
+        elif node.type in ('() block', '[] block', '{} block'):
+            node.content = normalize_component_list(node.content)
+        elif node.type == 'ident' and node.value.startswith('-'):
+            while len(result) > 0 and result[-1] == '-':
+                hyphen = result.pop()
+                node = _DashedIdentToken(hyphen.source_line,
+                                         hyphen.source_column,
+                                         '-' + node.value)
+        result.append(node)
+    return result
+
+
 def parse_component_value_list(text):
     """Parses a list of component values, without comments.
 
     Arguments:
         text (str): The list to be parsed.
     Returns:
-        list: A list of component values. A name that starts with two hyphens
-            is an identifier.
+        list: A normalized list of component values.
     """
-    def _join(nodes):
-        result = list()
-        for node in nodes:
-            if node.type == 'function':
-                node.arguments = _join(node.arguments)
-            elif node.type in ('() block', '[] block', '{} block'):
-                node.content = _join(node.content)
-            elif node.type == 'ident' and node.value.startswith('-'):
-                while len(result) > 0 and result[-1] == '-':
-                    hyphen = result.pop()
-                    node = _DashedIdentToken(hyphen.source_line,
-                                             hyphen.source_column,
-                                             '-' + node.value)
-            result.append(node)
-        return result
-
-    return _join(tinycss2.parse_component_value_list(text,
-                                                     skip_comments=True))
+    nodes = tinycss2.parse_component_value_list(text, skip_comments=True)
+    return normalize_component_list(nodes)
 
 
 def parse_declaration_list(text):
     """Parses a declaration list.
 
     Arguments:
-        text (str): The list to be parsed.
+        text (str, list): The list to be parsed.
     Returns:
         list: A list of declarations, at-rules and parse errors.
     """
-    return tinycss2.parse_declaration_list(parse_component_value_list(text),
+    nodes = (parse_component_value_list(text) if isinstance(text, str)
+             else normalize_component_list(text))
+    return tinycss2.parse_declaration_list(nodes,
                                            skip_comments=True,
                                            skip_whitespace=True)
 
-- 
2.43.0


From f4ec730e49d26f074e6f25dfbe1c88d1fdb0537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 42/87] fix: resolve relative URLs as RFC 3986 prescribes

Queries, fragments, empty and protocol-relative references are resolved, absolute references with a bad host or port are refused, and the base URL given is left alone.
---
 svgpy/url.py | 56 ++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..7fe4950 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -240,37 +240,14 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
-        done = False
-        try:
-            self._parse_url(url)
-            done = True
-        except ValueError:
-            if parsed_base is None:
-                raise
-        if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
-            else:
-                if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
-                else:  # 'file:'
-                    parent_path = parsed_base.pathname
-                    if sys.platform.startswith('win'):
-                        parent_path = parent_path.lstrip('/')
-                    if not os.path.isdir(parent_path):
-                        parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
-            url = parsed_base.href
+        pr = urlsplit(url)
+        if parsed_base is None or len(pr.scheme) > 0:
             self._parse_url(url)
+        elif len(pr.netloc) > 0:
+            self._parse_url(parsed_base.protocol + url)
+        else:
+            self._parse_url(parsed_base.href)
+            self._resolve(pr, has_query='?' in url.partition('#')[0])
 
     def __repr__(self):
         return repr({'href': self.tostring(),
@@ -552,6 +529,25 @@ class URL(object):
         self.search = pr.query
         self.hash = pr.fragment
 
+    def _resolve(self, reference, has_query):
+        # See RFC 3986, 5.2.2. Transform References
+        pathname = reference.path.replace('\\', '/')
+        if pathname.startswith('/'):
+            self.pathname = pathname
+        elif len(pathname) > 0:
+            parent_path = self.pathname
+            if self._protocol == 'file:':
+                directory = unquote(parent_path)
+                if sys.platform.startswith('win'):
+                    directory = directory.lstrip('/')
+                if os.path.isdir(directory):
+                    parent_path += '/'
+            self.pathname = '{}/{}'.format(parent_path.rpartition('/')[0],
+                                           pathname)
+        if len(pathname) > 0 or has_query:
+            self.search = reference.query
+        self.hash = reference.fragment
+
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
 
-- 
2.43.0


From 36fa657205fc8b5a54115b46a830c953bd0bbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 43/87] fix: keep the percent-encoded bytes and empty segments
 of a URL

Decoding before encoding turned '%2F' into a separator, '%2541' of a fragment into '%41' and other bytes than UTF-8 into U+FFFD; normpath() joined empty segments and dropped the slash after a last dot segment.
---
 svgpy/url.py | 58 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 7fe4950..5eabfc3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -32,6 +32,46 @@ _SPECIAL_SCHEMES_PORT_NUMBERS = {
 _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
     r'(?P<prefix>&#)([0-9]{4}|x[0-9a-f]{4})(?P<suffix>;)',
     re.IGNORECASE)
+_RE_PERCENT_ENCODED_BYTE = re.compile('(%[0-9a-f]{2})', re.IGNORECASE)
+
+
+def percent_encode(text, safe='', decode=True):
+    """Percent-encodes a component of the URL. Percent-encoded bytes are kept.
+
+    Arguments:
+        text (str): The text to be encoded.
+        safe (str, optional): Characters that should not be encoded.
+        decode (bool, optional): If decode is True, percent-encoded unreserved
+            characters are decoded.
+    Returns:
+        str: The encoded text.
+    """
+    out_text = ''
+    for i, part in enumerate(_RE_PERCENT_ENCODED_BYTE.split(text)):
+        if i % 2 == 0:
+            out_text += quote(part, safe=safe)
+            continue
+        ch = chr(int(part[1:], 16))
+        if decode and ch.isascii() and (ch.isalnum() or ch in '-._~'):
+            out_text += ch
+        else:
+            out_text += part.upper()
+    return out_text
+
+
+def remove_dot_segments(path):
+    # See RFC 3986, 5.2.4. Remove Dot Segments
+    segments = path.split('/')
+    out_segments = list()
+    for i, segment in enumerate(segments):
+        if segment not in ['.', '..']:
+            out_segments.append(segment)
+            continue
+        if segment == '..' and out_segments not in [[], ['']]:
+            out_segments.pop()
+        if i == len(segments) - 1:
+            out_segments.append('')
+    return '/'.join(out_segments)
 
 
 def quote_numeric_character_references(query, quote_via=None, safe=''):
@@ -273,8 +313,9 @@ class URL(object):
         fragment = fragment.lstrip('#')
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
-        self._hash = quote(unquote(fragment),
-                           safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~')
+        self._hash = percent_encode(fragment,
+                                    safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~',
+                                    decode=False)
 
     @property
     def host(self):
@@ -337,7 +378,7 @@ class URL(object):
 
     @password.setter
     def password(self, password):
-        self._password = quote(unquote(password), safe='')
+        self._password = percent_encode(password)
 
     @property
     def pathname(self):
@@ -361,15 +402,12 @@ class URL(object):
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
         if self._protocol not in ['blob:', 'data:']:
-            pathname = unquote(pathname).replace('\\', '/')
+            pathname = pathname.replace('\\', '/')
             # U+0026 (&)
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
-            pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
-            pathname = os.path.normpath(pathname).replace('\\', '/')
-            if sep and not pathname.endswith('/'):
-                pathname += '/'
+            pathname = percent_encode(pathname, safe='&/:;=@[]_~')
+            pathname = remove_dot_segments(pathname)
         if (self._protocol not in ['about:', 'blob:', 'data:']
                 and not pathname.startswith('/')):
             pathname = '/' + pathname
@@ -463,7 +501,7 @@ class URL(object):
 
     @username.setter
     def username(self, username):
-        self._username = quote(unquote(username), safe='')
+        self._username = percent_encode(username)
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-- 
2.43.0


From 9ba053391b0c7f9dc88827ede862e39e62fbf240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 44/87] fix: derive the host of a URL from its host name and
 port

The stored host went stale when the scheme changed and a refused port or host was applied in part; bracketed hosts, Unicode digits, empty schemes and passwords without user name were mishandled.
---
 svgpy/url.py | 89 +++++++++++++++++++++-------------------------------
 1 file changed, 36 insertions(+), 53 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 5eabfc3..a535450 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -261,7 +261,6 @@ class URL(object):
         self._username = ''
         self._password = ''
         self._hostname = ''
-        self._host = ''
         self._port = ''
         self._pathname = ''
         self._search_params = URLSearchParams()
@@ -295,7 +294,7 @@ class URL(object):
                      'protocol': self._protocol,
                      'username': self._username,
                      'password': self._password,
-                     'host': self._host,
+                     'host': self.host,
                      'hostname': self._hostname,
                      'port': self._port,
                      'pathname': self._pathname,
@@ -322,11 +321,14 @@ class URL(object):
         """str: The URL's host and port (if different from the default port
         for the scheme).
         """
-        port = self.port
-        if len(port) > 0:
-            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
-                self._host = self._hostname
-        return self._host
+        host = self._hostname
+        port = self._port
+        if (len(host) > 0
+                and len(port) > 0
+                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
+                    self._protocol, '') != port):
+            host += ':' + port
+        return host
 
     @host.setter
     def host(self, host):
@@ -422,17 +424,12 @@ class URL(object):
     def port(self, port):
         if len(port) == 0:
             self._port = ''
-            self._host = self._hostname
             return
-        elif not port.isdigit() or int(port) > 2 ** 16 - 1:
+        elif (not port.isascii()
+              or not port.isdigit()
+              or int(port) > 2 ** 16 - 1):
             raise ValueError('Invalid port: ' + repr(port))
-        self._port = port
-        self._host = self._hostname
-        if (len(port) > 0
-                and len(self._host) > 0
-                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
-                    self._protocol, '') != port):
-            self._host += ':' + port
+        self._port = str(int(port))
 
     @property
     def protocol(self):
@@ -443,7 +440,8 @@ class URL(object):
     def protocol(self, protocol):
         if len(protocol) > 0:
             protocol = protocol.rstrip(':').lower()
-            if (not protocol[0].isalpha()
+            if (not protocol.isascii()
+                    or not protocol[:1].isalpha()
                     or (len(protocol) >= 2
                         and not all(ch.isalnum() or ch in '+-.'
                                     for ch in protocol[1:]))):
@@ -505,7 +503,7 @@ class URL(object):
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-            self._host = self._hostname = ''
+            self._hostname = ''
             if not hostname_state:
                 self._port = ''
             return
@@ -513,41 +511,26 @@ class URL(object):
             # allow U+003A (:), U+005B ([), or U+005D (]).
             raise ValueError('Invalid hostname: ' + repr(host))
         host = host.lower().encode('idna').decode()
-        colons = host.count(':')
-        if colons > 1:
+        port = ''
+        if host.startswith('['):
             # IPv6 address or IPv6 address with port
-            if host.startswith('['):
-                # IPv6 address or IPv6 address with port
-                if ']' not in host:
-                    raise ValueError('Invalid hostname: ' + repr(host))
-                end = host.rfind(']') + 1
-                self._host = self._hostname = host[:end]
-            else:
-                # IPv6 address
-                end = -1
-                self._host = self._hostname = '[{}]'.format(host)
-        elif colons == 1:
-            # ascii-domain with port or IPv4 address with port
-            end = host.rfind(':')
-            self._host = self._hostname = host[:end]
+            hostname, bracket, port = host.partition(']')
+            if len(bracket) == 0 or (len(port) > 0 and port[0] != ':'):
+                raise ValueError('Invalid hostname: ' + repr(host))
+            hostname += bracket
+            port = port[1:]
+        elif host.count(':') > 1:
+            # IPv6 address
+            hostname = '[{}]'.format(host)
         else:
-            # ascii-domain or IPv4 address
-            end = -1
-            self._host = self._hostname = host
-        if not hostname_state:
-            # host state
-            if end < 0:
-                self._port = ''
-            else:
-                self.port = host[end + 1:]
-        else:
-            # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
-                port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+            # ascii-domain, ascii-domain with port, IPv4 address or
+            # IPv4 address with port
+            hostname, _, port = host.partition(':')
+            if len(hostname) == 0:
+                raise ValueError('Invalid hostname: ' + repr(host))
+        if not hostname_state or len(port) > 0:
+            self.port = port
+        self._hostname = hostname
 
     def _parse_url(self, url):
         pr = urlsplit(url)
@@ -557,7 +540,7 @@ class URL(object):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-            self._host = self._hostname = self._port = ''
+            self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
             self.hostname = pr.hostname
@@ -604,7 +587,7 @@ class URL(object):
             if protocol not in ['about:', 'blob:', 'data:']:
                 parts.append('//')
             if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0:
+                if len(self.username) > 0 or len(self.password) > 0:
                     parts.append(self.username)
                     if len(self.password) > 0:
                         parts.append(':' + self.password)
-- 
2.43.0


From e035ef19fc7e79f7efff7ce6ba48a26e44f8a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 45/87] fix: write the host of every URL and refuse URLs
 without one

The host of 'file:' URLs and of URLs without scheme was dropped, an empty host raised TypeError, and a refused URL was assigned in part.
---
 svgpy/url.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index a535450..2eb5c1b 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -350,6 +350,7 @@ class URL(object):
 
     @href.setter
     def href(self, url):
+        URL(url)  # raises ValueError before any component is changed
         self._parse_url(url)
 
     @property
@@ -535,6 +536,7 @@ class URL(object):
     def _parse_url(self, url):
         pr = urlsplit(url)
         if ((len(pr.scheme) == 0 and len(pr.netloc) == 0)
+                or (len(pr.netloc) > 0 and pr.hostname is None)
                 or (pr.scheme in ['about', 'blob', 'data']
                     and len(pr.path) == 0)):
             raise ValueError('Invalid URL: ' + repr(url))
@@ -582,17 +584,17 @@ class URL(object):
         protocol = self.protocol
         host = self.host
         pathname = self.pathname
-        if len(protocol) > 0:
-            parts.append(protocol)
-            if protocol not in ['about:', 'blob:', 'data:']:
-                parts.append('//')
-            if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0 or len(self.password) > 0:
-                    parts.append(self.username)
-                    if len(self.password) > 0:
-                        parts.append(':' + self.password)
-                    parts.append('@')
-                parts.append(host)
+        parts.append(protocol)
+        if ((len(protocol) > 0 or len(host) > 0)
+                and protocol not in ['about:', 'blob:', 'data:']):
+            parts.append('//')
+        if len(host) > 0:
+            if len(self.username) > 0 or len(self.password) > 0:
+                parts.append(self.username)
+                if len(self.password) > 0:
+                    parts.append(':' + self.password)
+                parts.append('@')
+            parts.append(host)
         parts.append(pathname)
         if len(host) > 0 or len(pathname) > 0:
             parts.append(self.search)
-- 
2.43.0


From 114904e7e0f7d1926263968c04f79d1c5a296495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 46/87] fix: read and write the query of a URL as its search
 parameters

Percent-encoded parameters are decoded, values keep their '=', '+' and '%', empty pairs are skipped and the query of data: URLs stays as it is.
---
 svgpy/url.py   | 57 ++++++++++++++++++++++++++++++++++----------------
 svgpy/utils.py |  2 +-
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 2eb5c1b..f27477a 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -74,6 +74,11 @@ def remove_dot_segments(path):
     return '/'.join(out_segments)
 
 
+def _quote_query(text, safe=''):
+    text = re.sub(r'%(?=[0-9A-Fa-f]{2})', '%25', text)
+    return quote_plus(text, safe=safe, errors='surrogateescape')
+
+
 def quote_numeric_character_references(query, quote_via=None, safe=''):
     def _quote(_string):
         if quote_via is None:
@@ -263,6 +268,7 @@ class URL(object):
         self._hostname = ''
         self._port = ''
         self._pathname = ''
+        self._query = ''
         self._search_params = URLSearchParams()
         self._hash = ''
         if base is None:
@@ -309,7 +315,8 @@ class URL(object):
 
     @hash.setter
     def hash(self, fragment):
-        fragment = fragment.lstrip('#')
+        if fragment.startswith('#'):
+            fragment = fragment[1:]
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
         self._hash = percent_encode(fragment,
@@ -454,39 +461,40 @@ class URL(object):
     @property
     def search(self):
         """str: The URL's query (includes leading "?" if non-empty)."""
+        if (self._protocol in ['about:', 'blob:', 'data:']
+                and self._parse_query(self._query) == self._search_params):
+            query = percent_encode(self._query,
+                                   safe='!$%&()*+,-./:;=?@[\\]^_`{|}~',
+                                   decode=False)
+            return '?' + query if len(query) > 0 else ''
         if len(self._search_params) == 0:
             return ''
         queries = list()
         # unsafe:
-        # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        # U+0020 (SP), U+0023 (#), U+0026 (&), U+0027 ('), and U+002B (+)
+        # U+0025 (%) is unsafe before two hexadecimal digits.
+        # U+003D (=) is unsafe in keys.
+        safe = '!$%()*,-./:;?@[\\]^_`{|}~'
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._search_params):
             value = self._search_params[key]
             key = quote_numeric_character_references(key,
-                                                     quote_via=quote_plus,
+                                                     quote_via=_quote_query,
                                                      safe=safe)
             value = quote_numeric_character_references(value,
-                                                       quote_via=quote_plus,
-                                                       safe=safe)
+                                                       quote_via=_quote_query,
+                                                       safe=safe + '=')
             query = '{}={}'.format(key, value)
             queries.append(query)
         return '?' + '&'.join(queries)
 
     @search.setter
     def search(self, query):
-        query = query.lstrip('?')
+        if query.startswith('?'):
+            query = query[1:]
+        self._query = query
         self._search_params.clear()
-        if len(query) == 0:
-            return
-        pairs = query.split('&')
-        for pair in pairs:
-            kv = pair.split('=')
-            if len(kv) < 2:
-                kv.append('')
-            key = kv[0].replace('+', ' ')
-            value = kv[1].replace('+', ' ')
-            self._search_params[key] = value
+        self._search_params.update(self._parse_query(query))
 
     @property
     def search_params(self):
@@ -533,6 +541,18 @@ class URL(object):
             self.port = port
         self._hostname = hostname
 
+    @staticmethod
+    def _parse_query(query):
+        params = dict()
+        for pair in query.split('&'):
+            if len(pair) == 0:
+                continue
+            key, _, value = (unquote(x.replace('+', ' '),
+                                     errors='surrogateescape')
+                             for x in pair.partition('='))
+            params[key] = value
+        return params
+
     def _parse_url(self, url):
         pr = urlsplit(url)
         if ((len(pr.scheme) == 0 and len(pr.netloc) == 0)
@@ -643,6 +663,7 @@ class URLSearchParams(MutableMapping):
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._data):
             value = self.get(key)
-            query = urlencode({key: value}, safe='*-._')
+            query = urlencode({key: value}, safe='*-._',
+                              errors='surrogateescape')
             queries.append(query)
         return '&'.join(queries)
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 04c9629..cf4785a 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -194,7 +194,7 @@ def load(src, encoding=None, **kwargs):
     headers = CaseInsensitiveMapping()
     if scheme == 'data:':
         # data:[<MIME-type>][;charset=<encoding>][;base64],<data>
-        pathname = url.pathname
+        pathname = url.pathname + url.search
         end = pathname.find(',')
         if end < 0:
             return None, headers
-- 
2.43.0


From 8ccf38859cc3b1d5d193799e0c51322374b47c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 47/87] fix: keep a leading '?' or '#' inside the query and
 fragment

Only the mark that starts the component is not a part of it; the root directory has its slash already.
---
 svgpy/url.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index f27477a..00ae9c3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -569,8 +569,8 @@ class URL(object):
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
-        self.search = pr.query
-        self.hash = pr.fragment
+        self.search = '?' + pr.query
+        self.hash = '#' + pr.fragment
 
     def _resolve(self, reference, has_query):
         # See RFC 3986, 5.2.2. Transform References
@@ -583,13 +583,13 @@ class URL(object):
                 directory = unquote(parent_path)
                 if sys.platform.startswith('win'):
                     directory = directory.lstrip('/')
-                if os.path.isdir(directory):
+                if os.path.isdir(directory) and directory[-1] != '/':
                     parent_path += '/'
             self.pathname = '{}/{}'.format(parent_path.rpartition('/')[0],
                                            pathname)
         if len(pathname) > 0 or has_query:
-            self.search = reference.query
-        self.hash = reference.fragment
+            self.search = '?' + reference.query
+        self.hash = '#' + reference.fragment
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
-- 
2.43.0


From 91fc0321a90eb4b3d57ed41d7157bd8d9e23b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 48/87] fix: apply style rules by specificity and match
 selectors against the whole tree

Unprefixed type selectors match SVG elements, combinators see the ancestors, namespaces declared in a style sheet stay there, and a selector with an unknown prefix is skipped.
---
 svgpy/style.py | 94 ++++++++++++++++++++++++++++++++++++++------------
 svgpy/utils.py | 35 ++++++++++++++++++-
 2 files changed, 105 insertions(+), 24 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 4971778..70a042e 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -18,7 +18,7 @@ from logging import getLogger
 from lxml import cssselect, etree
 
 from .css import CSSParser, CSSRule, CSSStyleSheet
-from .utils import normalize_url
+from .utils import match_selectors, normalize_url
 
 
 _SVG_UA_CSS_STYLESHEET = '''
@@ -83,6 +83,20 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+_USER_AGENT, _AUTHOR = 0, 1
+
+
+class _UserAgentStyleSheet(CSSStyleSheet):
+    """The user-agent style sheet."""
+
+
+def _merge(*maps):
+    merged = dict()
+    for map_ in maps:
+        merged.update(map_)
+    return merged
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
@@ -134,7 +148,7 @@ def get_css_style_sheets(element):
     style_sheets = list()
 
     # user-agent style sheet
-    css_style_sheet = CSSStyleSheet()
+    css_style_sheet = _UserAgentStyleSheet()
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
@@ -277,29 +291,53 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 
 
 def get_css_style(element, css_rules):
-    style = dict()
-    style_important = dict()
-    namespaces = element.nsmap.copy()
-    uri = namespaces.pop(None, None)
-    if uri is not None:
-        namespaces['svg'] = uri
+    declarations, declarations_important = get_declarations(element, css_rules)
+    return (_merge(*declarations, *reversed(declarations_important)),
+            _merge(*reversed(declarations_important)))
+
+
+def get_declarations(element, css_rules):
+    """Returns the declarations of the style rules that match the element.
+
+    Arguments:
+        element (Element): The element to be matched.
+        css_rules (list[CSSRule]): A list of flattened CSS rules.
+    Returns:
+        tuple[list[dict], list[dict]]: The normal declarations and the
+            important ones. The former of the two items are of the user-agent
+            style sheet, the latter are of the document.
+    """
+    matched = list()
+    namespace_map = dict()
     for css_rule in css_rules:
+        css_style_sheet = css_rule.parent_style_sheet
+        namespaces = namespace_map.get(id(css_style_sheet))
+        if namespaces is None:
+            namespaces = element.nsmap.copy()
+            uri = namespaces.pop(None, None)
+            if uri is not None:
+                namespaces['svg'] = uri
+            namespace_map[id(css_style_sheet)] = namespaces
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
-                selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces)
-                matched = selector(element)
-                if len(matched) > 0 and element in matched:
-                    for key, (value, priority) in css_rule.style.items():
-                        style[key] = value
-                        if priority == 'important':
-                            style_important[key] = value
-            except cssselect.ExpressionError as exp:
-                logger.info('ExpressionError: {}: \'{}\''.format(
-                    exp,
-                    css_rule.selector_text))
-            except cssselect.SelectorSyntaxError as exp:
-                logger.info('SelectorSyntaxError: {}: \'{}\''.format(
+                origin = _AUTHOR
+                translator = None
+                if isinstance(css_style_sheet, _UserAgentStyleSheet):
+                    # a type selector without a namespace prefix matches the
+                    # elements in no namespace
+                    origin = _USER_AGENT
+                    translator = cssselect.LxmlTranslator()
+                specificity = match_selectors(element,
+                                              css_rule.selector_text,
+                                              namespaces,
+                                              translator=translator)
+                if specificity is not None:
+                    matched.append((specificity, origin, css_rule))
+            except (cssselect.ExpressionError,
+                    cssselect.SelectorSyntaxError,
+                    etree.XPathError) as exp:
+                logger.info('{}: {}: \'{}\''.format(
+                    exp.__class__.__name__,
                     exp,
                     css_rule.selector_text))
         elif css_rule.type == CSSRule.FONT_FACE_RULE:
@@ -314,4 +352,14 @@ def get_css_style(element, css_rules):
                 if len(prefix) == 0:
                     prefix = 'svg'
                 namespaces[prefix] = css_rule.namespace_uri
-    return style, style_important
+
+    # in order of specificity and of appearance
+    matched.sort(key=lambda x: x[0])
+    declarations = [dict(), dict()]
+    declarations_important = [dict(), dict()]
+    for _, origin, css_rule in matched:
+        for key, (value, priority) in css_rule.style.items():
+            target = (declarations_important if priority == 'important'
+                      else declarations)
+            target[origin][key] = value
+    return declarations, declarations_important
diff --git a/svgpy/utils.py b/svgpy/utils.py
index cf4785a..c959124 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -23,8 +23,9 @@ from urllib.parse import unquote_to_bytes
 from urllib.request import urlopen
 
 import tinycss2
+from cssselect.parser import CombinedSelector, parse as parse_selectors
 from cssselect.xpath import XPathExpr
-from lxml import cssselect
+from lxml import cssselect, etree
 from tinycss2.ast import IdentToken
 from tinycss2.serializer import serialize_name
 
@@ -305,6 +306,38 @@ def parse_declaration_list(text):
                                            skip_whitespace=True)
 
 
+def match_selectors(element, selectors, namespaces, translator=None):
+    """Matches an element against a group of selectors. Selectors are matched
+    against the whole tree that contains the element.
+
+    Arguments:
+        element (Element): The element to be matched.
+        selectors (str): A group of selectors.
+        namespaces (dict): A map of a namespace prefix to the URI.
+        translator (LxmlTranslator, optional): A translator of the selectors.
+    Returns:
+        tuple: The specificity of the most specific selector that matches the
+            element, or None.
+    """
+    if translator is None:
+        translator = SelectorTranslator()
+    specificity = None
+    for selector in parse_selectors(selectors):
+        path = translator.selector_to_xpath(selector, prefix='self::')
+        context = element
+        if isinstance(selector.parsed_tree, CombinedSelector):
+            path = translator.selector_to_xpath(selector)
+            for context in element.iterancestors():
+                pass
+        matched = element in etree.XPath(path, namespaces=namespaces)(context)
+        if (matched
+                and selector.pseudo_element is None
+                and (specificity is None
+                     or specificity < selector.specificity())):
+            specificity = selector.specificity()
+    return specificity
+
+
 def select_elements(element, selectors, namespaces):
     """Finds all elements matching a group of selectors in the sub-tree of
     the element, the element included. Selectors are matched against the whole
-- 
2.43.0


From d695e120a6a07d273294524881cec62f1ff28a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 49/87] fix: apply the cascade to the computed style

Author style sheets and inline styles override presentation attributes,
'!important' inline declarations, 'initial', 'unset' and 'inherit' are
honoured, shorthand properties are expanded in the order of the cascade and
relative values refer to the element that specifies them.
---
 svgpy/core.py  |  45 +++++---------
 svgpy/dom.py   | 157 ++++++++++++++++---------------------------------
 svgpy/style.py |  74 ++++++++++++++++++++++-
 svgpy/utils.py |   1 +
 4 files changed, 142 insertions(+), 135 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 08e7101..8c99156 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -86,7 +86,8 @@ class CSSUtils(object):
 
     @staticmethod
     def compute_font_size(element):
-        inherited_style, context = element._get_inherited_style()
+        inherited_style, contexts = element._get_inherited_style()
+        context = contexts.get('font-size')
 
         # 'font-size' property
         # Value: <absolute-size> | <relative-size> | <length> | <percentage>
@@ -155,10 +156,8 @@ class CSSUtils(object):
         return font_size_adjust
 
     @staticmethod
-    def compute_font_weight(element,
-                            inherited_weight=None, inherited_style=None):
-        if inherited_style is None:
-            inherited_style = element.get_inherited_style()
+    def compute_font_weight(element):
+        inherited_style, contexts = element._get_inherited_style()
 
         # 'font-weight' property
         # Value: normal | bold | bolder | lighter
@@ -170,28 +169,14 @@ class CSSUtils(object):
         if font_weight in ['bolder', 'lighter']:
             # <relative-weight>
             # Value: bolder | lighter
-            if inherited_weight is None:
-                inherited_weight = Font.default_font_weight
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None:
-                    continue
-                elif value in ['bolder', 'lighter']:
-                    xp = CSSUtils._INHERITED_WEIGHT_LIST
-                    fp = CSSUtils._BOLDER_WEIGHT_LIST if value == 'bolder' \
-                        else CSSUtils._LIGHTER_WEIGHT_LIST
-                    inherited_weight = np.interp(inherited_weight, xp, fp)
-                else:
-                    inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
-                        inherited_weight,
-                        {'font-weight': value})
-            weight = inherited_weight
+            # relative to the parent of the element that specifies it
+            parent = contexts['font-weight'].getparent()
+            inherited_weight = (Font.default_font_weight if parent is None
+                                else CSSUtils.compute_font_weight(parent))
+            xp = CSSUtils._INHERITED_WEIGHT_LIST
+            fp = CSSUtils._BOLDER_WEIGHT_LIST if font_weight == 'bolder' \
+                else CSSUtils._LIGHTER_WEIGHT_LIST
+            weight = np.interp(inherited_weight, xp, fp)
         else:
             # <absolute-weight>
             weight = CSSUtils._FONT_WEIGHT_MAP.get(font_weight, font_weight)
@@ -213,11 +198,13 @@ class CSSUtils(object):
         if value == 'normal':
             line_height = 1.2 * font_size
         else:
-            h = SVGLength(value, context=element)
+            _, contexts = element._get_inherited_style()
+            context = contexts['line-height']
+            h = SVGLength(value, context=context)
             if h.unit == SVGLength.TYPE_PERCENTAGE:
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
-                               * font_size)
+                               * CSSUtils.compute_font_size(context))
             elif h.unit in [None, SVGLength.TYPE_NUMBER]:
                 # <number>
                 line_height = h.value() * font_size
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 8f39420..577836a 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,11 +23,11 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_css_rules, get_css_style, \
+from .style import get_cascaded_style, get_css_rules, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, select_elements, style_to_dict
+    is_ascii_whitespace, select_elements
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -1774,7 +1774,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
     def get_computed_style(self):
         """Gets the presentation attributes from ancestor elements."""
         # TODO: implement Window.get_computed_style()
-        style = self.get_inherited_style()
+        style, contexts = self._get_inherited_style()
 
         # 'font-feature-settings' property
         style['font-feature-settings'] = CSSUtils.parse_font_feature_settings(
@@ -1795,9 +1795,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         style['font-synthesis'] = items
 
         # 'font-weight' property
-        style['font-weight'] = CSSUtils.compute_font_weight(
-            self,
-            inherited_style=style)
+        style['font-weight'] = CSSUtils.compute_font_weight(self)
 
         # 'line-height' property
         style['line-height'] = CSSUtils.compute_line_height(self, style)
@@ -1812,16 +1810,21 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         mode = SVGLength.DIRECTION_HORIZONTAL if writing_mode in [
             'horizontal-tb', 'lr', 'lr-tb', 'rl', 'rl-tb'
         ] else SVGLength.DIRECTION_VERTICAL
-        style['inline-size'] = SVGLength(inline_size).value(direction=mode)
+        style['inline-size'] = SVGLength(
+            inline_size,
+            context=self).value(direction=mode)
 
         # 'stroke-width' property
         # Value: <percentage> | <length>
         # Initial: 1
         # Percentages: refer to the size of the current SVG viewport
         stroke_width = style['stroke-width']
+        context = self
+        if not stroke_width.endswith('%'):
+            context = contexts.get('stroke-width', self)
         style['stroke-width'] = SVGLength(
             stroke_width,
-            context=self).value(direction=SVGLength.DIRECTION_UNSPECIFIED)
+            context=context).value(direction=SVGLength.DIRECTION_UNSPECIFIED)
 
         # 'tab-size' property
         # Value: <percentage> | <length>
@@ -1830,7 +1833,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         tab_size = style['tab-size']
         style['tab-size'] = SVGLength(
             tab_size,
-            context=self).value(direction=SVGLength.DIRECTION_UNSPECIFIED)
+            context=contexts.get('tab-size', self)
+        ).value(direction=SVGLength.DIRECTION_UNSPECIFIED)
 
         # geometry properties
         geometry = self.get_computed_geometry()
@@ -1842,45 +1846,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def _get_inherited_style(self):
-        """Returns the inherited style, and the element that specifies its
-        'font-size' property (or None).
-        """
-        def _update_font_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-                    if _key == 'font-variant':
-                        _update_font_variant_prop(_other[_key],
-                                                  _style,
-                                                  _inherited_style)
-            _inherited_style.pop('font-style', None)
-            _inherited_style.pop('font-variant', None)
-            _inherited_style.pop('font-weight', None)
-            _inherited_style.pop('font-stretch', None)
-            _inherited_style.pop('font-size', None)
-            _inherited_style.pop('line-height', None)
-            _inherited_style.pop('font-size-adjust', None)
-            _inherited_style.pop('font-kerning', None)
-            _inherited_style.pop('font-language-override', None)
-            _inherited_style.pop('font-family', None)
-            _inherited_style.pop('font', None)
-
-        def _update_font_variant_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font_variant(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-            _inherited_style.pop('font-variant-alternates', None)
-            _inherited_style.pop('font-variant-caps', None)
-            _inherited_style.pop('font-variant-east-asian', None)
-            _inherited_style.pop('font-variant-ligatures', None)
-            _inherited_style.pop('font-variant-numeric', None)
-            _inherited_style.pop('font-variant-position', None)
-            _inherited_style.pop('font-variant', None)
-
+        """Returns the inherited style, and a map of a property name to the
+        element that specifies it.
+        """
         # See https://svgwg.org/svg2-draft/propidx.html
-        style = dict()
         non_inherited_props = \
             {'alignment-baseline': 'baseline',
              'baseline-shift': '0',
@@ -1903,10 +1872,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
-
         inherited_props = \
             {'clip-rule': 'nonzero',
              'color': 'black',  # depends on user agent
@@ -1918,7 +1883,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'fill-opacity': '1',
              'fill-rule': 'nonzero',
              'font': None,
-             'font-family': None,
+             'font-family': Font.default_font_family,
              'font-feature-settings': 'normal',
              'font-kerning': Font.CSS_DEFAULT_FONT_KERNING,
              'font-language-override': Font.CSS_DEFAULT_FONT_LANGUAGE_OVERRIDE,
@@ -1937,10 +1902,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'font-weight': Font.CSS_DEFAULT_FONT_WEIGHT,
              # 'glyph-orientation-vertical': 'auto',  # deprecated
              'image-rendering': 'auto',
-             'lang': None,
              'letter-spacing': 'normal',
              'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
-             'marker': None,
              'marker-end': 'none',
              'marker-mid': 'none',
              'marker-start': 'none',
@@ -1963,7 +1926,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'white-space': 'normal',
              'word-spacing': 'normal',
              'writing-mode': 'horizontal-tb',
-             Element.XML_LANG: None,
              }
         # 'color-interpolation-filters', 'font-feature-settings',
         # 'gradientTransform', 'glyph-orientation-horizontal',
@@ -1977,61 +1939,46 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # 'transform', 'transform-box', 'transform-origin',
         # 'vertical-align',
         css_rules = get_css_rules(self)
-        font_size_element = None
+        style = dict()
+        contexts = dict()
+        pending_props = {**non_inherited_props, **inherited_props}
+        hidden = False
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
-            _style = css_style.pop('style', None)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
-            css_style.update(css_style_important)
-            for key in iter(list(inherited_props.keys())):
-                value = css_style.get(key)
-                if value is not None and value not in ['inherit']:
-                    if key == 'font':
-                        # 'font' shorthand property
-                        style[key] = value
-                        _update_font_prop(value, style, inherited_props)
-                    elif key == 'font-family':
-                        # 'font-family' property
-                        style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
-                    elif key == 'font-variant':
-                        # 'font-variant' shorthand property
-                        style[key] = value
-                        _update_font_variant_prop(value, style,
-                                                  inherited_props)
-                    elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
-                    else:
-                        if key in ['font-variant-alternates',
-                                   'font-variant-east-asian',
-                                   'font-variant-ligatures',
-                                   'font-variant-numeric']:
-                            style[key] = value.split()
-                        else:
-                            style[key] = value
-                        inherited_props.pop(key, None)
-            if font_size_element is None and 'font-size' in style:
-                font_size_element = element
-            # 'display' property
-            display = css_style.get('display')
-            if display is not None and display == 'none':
-                style['display'] = 'none'
-            element = element.getparent()
-
-        for key, value in iter(inherited_props.items()):
-            if value is not None:
+            specified = get_cascaded_style(element, css_rules)
+            if specified.get('display') == 'none':
+                hidden = True
+            for key in list(pending_props):
+                value = specified.get(key, 'unset')
+                if value == 'inherit' or (value == 'unset'
+                                          and key in inherited_props):
+                    continue  # to the parent element
+                elif value in ['initial', 'unset']:
+                    value = pending_props[key]
                 style[key] = value
+                contexts[key] = element
+                del pending_props[key]
+            for key in ['lang', Element.XML_LANG]:
+                value = element.get(key)
+                if value is not None:
+                    style.setdefault(key, value)
+            element = element.getparent()
+        style.update(pending_props)
 
-        font_family = style.get('font-family')
-        if font_family is None:
+        if hidden:
+            style['display'] = 'none'
+        if style['font'] is None:
+            del style['font']
+        if isinstance(style['font-family'], str):
             style['font-family'] = CSSUtils.parse_font_family(
-                Font.default_font_family)
-
-        return style, font_size_element
+                style['font-family'])
+        for key in ['font-variant-alternates',
+                    'font-variant-east-asian',
+                    'font-variant-ligatures',
+                    'font-variant-numeric']:
+            if isinstance(style[key], str):
+                style[key] = style[key].split()
+        return style, contexts
 
     def get_elements_by_class_name(self, class_names, nsmap=None):
         """Finds all matching sub-elements, by class names.
diff --git a/svgpy/style.py b/svgpy/style.py
index 70a042e..9f5b3b3 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -17,8 +17,12 @@ from logging import getLogger
 
 from lxml import cssselect, etree
 
+from .core import CSSUtils
 from .css import CSSParser, CSSRule, CSSStyleSheet
-from .utils import match_selectors, normalize_url
+from .css.props import css_wide_keyword_set
+from .css.shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list
+from .utils import match_selectors, normalize_url, style_to_dict
 
 
 _SVG_UA_CSS_STYLESHEET = '''
@@ -361,5 +365,73 @@ def get_declarations(element, css_rules):
         for key, (value, priority) in css_rule.style.items():
             target = (declarations_important if priority == 'important'
                       else declarations)
+            target[origin].pop(key, None)
             target[origin][key] = value
     return declarations, declarations_important
+
+
+def get_cascaded_style(element, css_rules):
+    """Returns the declarations that win the cascade for the element, where
+    the 'font', 'font-variant' and 'marker' properties are expanded.
+
+    Arguments:
+        element (Element): The element.
+        css_rules (list[CSSRule]): A list of flattened CSS rules.
+    Returns:
+        dict: A map of a property name to the value.
+    """
+    declarations, declarations_important = get_declarations(element, css_rules)
+    for block in declarations + declarations_important:
+        _combine_longhands(block)
+
+    # presentation attributes, in no particular order
+    attributes = dict(sorted(element.attrib.items()))
+    inline_style = style_to_dict(attributes.pop('style', None))
+    inline_style_important = dict()
+    for key, value in list(inline_style.items()):
+        value, mark, _ = value.rpartition('!important')
+        if len(mark) > 0:
+            inline_style_important[key] = value.strip()
+            del inline_style[key]
+
+    style = dict()
+    for block in [declarations[_USER_AGENT],
+                  attributes,
+                  declarations[_AUTHOR],
+                  inline_style,
+                  declarations_important[_AUTHOR],
+                  inline_style_important,
+                  declarations_important[_USER_AGENT]]:
+        for key, value in block.items():
+            style.update(_expand_shorthand(key, value))
+    return style
+
+
+def _combine_longhands(declarations):
+    items = {key: (value, '') for key, value in declarations.items()}
+    for key in ['font-synthesis', 'mask', 'overflow', 'text-decoration',
+                'white-space']:
+        value = Shorthand(items).get_property_value(key)
+        if len(value) > 0:
+            declarations[key] = value
+
+
+def _expand_shorthand(property_name, value):
+    style = {property_name: value}
+    if property_name == 'marker':
+        return {key: value
+                for key in ['marker-end', 'marker-mid', 'marker-start']}
+    elif property_name not in ['font', 'font-variant']:
+        return style
+    elif value in css_wide_keyword_set:
+        style.update((key, value) for key in get_longhand_list(property_name))
+        if property_name == 'font':
+            style['font-variant'] = value
+            style.update((key, value) for key in font_sub_property_list)
+    elif property_name == 'font':
+        style.update(CSSUtils.parse_font(value))
+        if 'font-variant' in style:
+            style.update(CSSUtils.parse_font_variant(style['font-variant']))
+    else:
+        style.update(CSSUtils.parse_font_variant(value))
+    return style
diff --git a/svgpy/utils.py b/svgpy/utils.py
index c959124..b4ad00a 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -383,6 +383,7 @@ def style_to_dict(text):
             value += ' !important'
         elif d.get(key, '').endswith(' !important'):
             continue
+        d.pop(key, None)
         d[key] = value
     return d
 
-- 
2.43.0


From 01789f022bdeeb849712697a68db1338e31d69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 50/87] fix: parse and evaluate media queries by the grammar

Nested conditions, ranges, or/not combinations and units were dropped or
misread by the token-position heuristics; parse the Media Queries grammar
with a small recursive-descent parser and evaluate the resulting tree.
---
 svgpy/css/mediaquery.py | 562 +++++++++++++++++-----------------------
 1 file changed, 231 insertions(+), 331 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..b5d96e4 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -31,32 +31,21 @@ DISCRETE_FEATURES = [
 ]
 
 # See https://drafts.csswg.org/mediaqueries-4/#mq-syntax
-_RE_MEDIA_QUERY = re.compile(
-    r"(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(?P<media_query>(not\s+|only\s+)?[^ \n\t]+(\s+and\s+(\(.+\))+)?)",
-    re.IGNORECASE | re.MULTILINE)
-
-_RE_MEDIA_IN_PARENS = re.compile(
-    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
-    r"|(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(\s+(?P<op>(and|or))\s+)",
-    re.IGNORECASE | re.MULTILINE)
+_RE_COMMENT = re.compile(r'/\*.*?\*/', re.DOTALL)
+
+_RE_MEDIA_TYPE = re.compile(
+    r'((?P<modifier>not|only)\s+)?(?P<media_type>[^\s()]+)'
+    r'(\s+and\b\s*(?P<condition>\(.*|not\b.*))?',
+    re.DOTALL)
+
+_RE_MF_BOOLEAN = re.compile(r'(?P<mf_name>[^\s():<>=]+)')
 
 _RE_MF_PLAIN = re.compile(
-    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+)\s*\))',
-    re.MULTILINE)
+    r'(?P<mf_name>[^\s():<>=]+)\s*:\s*(?P<mf_value>[^():<>=]+)')
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
-    re.MULTILINE)
-
-_RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
+    r'(?P<left>[^():<>=]+)(?P<op>[<>]=?|=)(?P<right>[^():<>=]+)'
+    r'((?P<op2>[<>]=?)(?P<right2>[^():<>=]+))?')
 
 _RE_NUMBER = re.compile(
     r'(^[+-]?(\d*\.\d+|\d+\.?\d*)([eE][+-]?\d+)?)',
@@ -64,6 +53,7 @@ _RE_NUMBER = re.compile(
 
 MQ_EXPR = 'expr'
 MQ_EXPR_COMPARE = 'Compare'
+MQ_EXPR_MEDIA = 'Media'
 MQ_EXPR_NAME = 'Name'
 MQ_EXPR_NUM = 'Num'
 MQ_EXPR_BOOL_OP = 'BoolOp'
@@ -75,6 +65,7 @@ MQ_COMPARATORS = 'comparators'
 MQ_VALUES = 'values'
 MQ_ID = 'id'
 MQ_LEFT = 'left'
+MQ_MEDIA = 'media'
 MQ_NUM = 'n'
 
 logger = getLogger(__name__)
@@ -82,14 +73,13 @@ logger = getLogger(__name__)
 
 def parse(query):
     node_list = list()
-    media_query_list = query.strip().lower().split(',')
-    for media_query in media_query_list:
+    query = _RE_COMMENT.sub(' ', query).strip().lower()
+    if len(query) == 0:
+        query = 'all'
+    for media_query in query.split(','):
         media_query = media_query.strip()
-        if len(media_query) == 0:
-            continue
-        node = dict()
-        _parse_media_query(media_query, node)
-        node_list.append(node)
+        if len(media_query) > 0:
+            node_list.append(_parse_media_query(media_query))
     return node_list
 
 
@@ -116,49 +106,40 @@ def match(node_list, conditions, compare_func, user_data=None):
 
 def _match_node(node, conditions, compare_func, not_op=False, user_data=None):
     expr = node[MQ_EXPR]
-    op = node.get(MQ_OP, 'or')
-    if expr == MQ_EXPR_UNARY_OP:
-        # <media-not>
+    if expr == MQ_EXPR_MEDIA:
+        # <media-type>
+        return _eval_expr_media(node, conditions)
+    elif expr == MQ_EXPR_NAME:
+        # <mf-boolean>
+        return _eval_expr_name(node, conditions), None
+    elif expr == MQ_EXPR_COMPARE:
+        # <mf-plain> | <mf-range>
+        return _eval_expr_compare(node, conditions, compare_func, user_data)
+    elif expr == MQ_EXPR_UNARY_OP:
+        # not <media-type> [and <media-condition-without-or>]? | <media-not>
         child = node[MQ_OPERAND]
-        result, media = _match_node(child, conditions, compare_func,
-                                    not_op=True, user_data=user_data)
+        result, media = _match_node(
+            child, conditions, compare_func,
+            not_op=child[MQ_EXPR] == MQ_EXPR_BOOL_OP and child[MQ_MEDIA],
+            user_data=user_data)
         return not result, media
-    assert expr == MQ_EXPR_BOOL_OP
-    ops = node.get(MQ_OPS, [])
-    if len(ops) > 0 and ops.count('and') > 0 and ops.count('or') > 0:
-        return False, None
-    result = True
+    elif expr != MQ_EXPR_BOOL_OP:
+        raise NotImplementedError('Unexpected value: ' + repr(expr))
+
+    op = node[MQ_OP]
+    result = op == 'and'
     matched_media = None
-    children = node[MQ_VALUES]
-    for child in children:
-        expr = child[MQ_EXPR]
-        if expr == MQ_EXPR_NAME:
-            # <media-type> | <mf-boolean>
-            result, media = _eval_expr_name(child, conditions)
-            if result and media and matched_media is None:
-                matched_media = media
-        elif expr == MQ_EXPR_COMPARE:
-            # <mf-plain> | <mf-range>
-            result, media = _eval_expr_compare(child, conditions, compare_func,
-                                               user_data)
-            if result and media and matched_media is None:
-                matched_media = media
-        elif expr == MQ_EXPR_UNARY_OP:
-            # <media-not>
-            result, media = _match_node(child, conditions, compare_func,
-                                        not_op=True, user_data=user_data)
-            if result and media and matched_media is None:
-                matched_media = media
-        else:
-            raise NotImplementedError('Unexpected value: ' + repr(expr))
+    for child in node[MQ_VALUES]:
+        result, media = _match_node(child, conditions, compare_func,
+                                    user_data=user_data)
+        if result and media and matched_media is None:
+            matched_media = media
         if ((op == 'and' and (not not_op) and not result)
                 or (op == 'and' and not_op and result)
-                or (op == 'or' and (not not_op) and result)
-                or (op == 'or' and not_op and not result)):
+                or (op == 'or' and result)):
             # (False) and (...)
-            # not ((...) and (...)) -> (True) or (...)
+            # not <media-type> and (...) -> not (<media-type> or (...))
             # (True) or (...)
-            # not ((...) or (...)) -> (False) and (...)
             break
     return result, matched_media
 
@@ -205,20 +186,22 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ['aspect-ratio', 'device-aspect-ratio']):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            try:
+                left_ratio = _parse_ratio(left_value)
+                right_ratio = _parse_ratio(right_value)
+            except (ValueError, ZeroDivisionError) as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
+            logger.debug('feature \'{}\': {} {} {}'.format(
+                name, repr(left_ratio), op, repr(right_ratio)))
+            if not ((left_ratio == right_ratio and op[-1] == '=')
+                    or (left_ratio > right_ratio and op[0] == '>')
+                    or (left_ratio < right_ratio and op[0] == '<')):
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
@@ -242,280 +225,197 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
     return True, None
 
 
-def _eval_expr_name(node, conditions):
-    result = False
-    matched_media = None
+def _eval_expr_media(node, conditions):
     name = node[MQ_ID]
-    if name in MEDIA_TYPES:
-        # <media-type>
-        if name == 'all' or conditions.get('media', '') == name:
-            result = True
-            matched_media = name
-        logger.debug('media \'{}\': result={}'.format(name, result))
-    else:
-        # <mf-boolean>
-        if name in DISCRETE_FEATURES:
-            if name in ['orientation', 'scan', 'color-gamut']:
-                result = name in conditions
-            elif name == 'grid':
-                result = int(conditions.get(name, 0)) == 1  # 0 or 1
-            else:
-                result = conditions.get(name, 'none') != 'none'
-        elif name in ['color', 'color-index', 'monochrome']:
-            result = conditions.get(name, 0) > 0
-        else:
-            result = name in conditions
-        logger.debug('feature \'{}\': {}: result={}'.format(
-            name, repr(conditions.get(name)), result))
-    return result, matched_media
+    result = (name == 'all'
+              or (name in MEDIA_TYPES and conditions.get('media') == name))
+    logger.debug('media \'{}\': result={}'.format(name, result))
+    return result, name if result else None
 
 
-def _parse_media_query(query, parent):
-    for it in _RE_MEDIA_QUERY.finditer(query):
-        # <media-not>
-        media_not = it.group('media_not')
-        if media_not:
-            _parse_media_not(media_not, parent)
-
-        # <media-in-parens>
-        media_in_parens = it.group('media_in_parens')
-        if media_in_parens:
-            _parse_media_in_parens(media_in_parens, parent)
-
-        # <media-query>
-        media_query = it.group('media_query')
-        if media_query:
-            start = 0
-            for it_media_query in _RE_WHITESPACE.finditer(media_query):
-                limit, end = it_media_query.span()
-                segment = media_query[start:limit]
-                if segment == 'only':
-                    pass  # skip
-                elif segment == 'not':
-                    node = dict({
-                        MQ_EXPR: MQ_EXPR_BOOL_OP,
-                        MQ_VALUES: [],
-                    })
-                    parent[MQ_EXPR] = MQ_EXPR_UNARY_OP
-                    parent[MQ_OP] = segment
-                    parent[MQ_OPERAND] = node
-                elif segment in ['and', 'or']:
-                    expr = parent.get(MQ_EXPR)
-                    if expr is None:
-                        # invalid grammar: treat as media type
-                        # e.g.: 'or and (color)'
-                        _parse_media_type(segment, parent)
-                    else:
-                        if expr == MQ_EXPR_UNARY_OP:
-                            node = parent[MQ_OPERAND]
-                            ops = node.setdefault(MQ_OPS, [])
-                            ops.append(segment)
-                        else:
-                            node = parent
-                        op = node.get(MQ_OP)
-                        if op is None:
-                            node[MQ_OP] = segment
-                else:
-                    if not segment.startswith('('):
-                        # <media-type>
-                        _parse_media_type(segment, parent)
-                    else:
-                        # <media-condition-without-or>
-                        remain = media_query[start:]
-                        _parse_media_query(remain, parent)
-                        break
-                start = end
-            else:
-                remain = media_query[start:]
-                if media_query[start] == '(':
-                    # <media-query>
-                    _parse_media_query(remain, parent)
-                else:
-                    # <media-type>
-                    _parse_media_type(remain, parent)
-            break
-    return parent
+def _eval_expr_name(node, conditions):
+    name = node[MQ_ID]
+    if name in DISCRETE_FEATURES:
+        if name in ['orientation', 'scan', 'color-gamut']:
+            result = name in conditions
+        elif name == 'grid':
+            result = int(conditions.get(name, 0)) == 1  # 0 or 1
+        else:
+            result = conditions.get(name, 'none') != 'none'
+    elif name in ['color', 'color-index', 'monochrome']:
+        result = conditions.get(name, 0) > 0
+    elif name == 'media':
+        result = False
+    else:
+        value = _RE_NUMBER.match(str(conditions.get(name, '0')))
+        result = float(value.group()) != 0
+    logger.debug('feature \'{}\': {}: result={}'.format(
+        name, repr(conditions.get(name)), result))
+    return result
+
+
+def _parse_ratio(value):
+    # <ratio> = <number> [ / <number> ]?
+    terms = [Fraction(x.strip()) for x in str(value).split('/')]
+    if len(terms) > 2 or any(x < 0 for x in terms):
+        raise ValueError('Expected <ratio>, got ' + repr(value))
+    return terms[0] if len(terms) == 1 else terms[0] / terms[1]
+
+
+def _split_in_parens(query):
+    # Splits a media condition into the keywords and the enclosed blocks.
+    items = list()
+    depth = 0
+    start = 0
+    for index, ch in enumerate(query):
+        if ch == '(':
+            if depth == 0:
+                items.extend(query[start:index].split())
+                start = index
+            depth += 1
+        elif ch == ')':
+            depth -= 1
+            if depth < 0:
+                return []
+            elif depth == 0:
+                items.append(query[start:index + 1])
+                start = index + 1
+    if depth > 0:
+        return []
+    items.extend(query[start:].split())
+    return items
+
+
+def _make_bool_op(op, values, media=False):
+    return dict({
+        MQ_EXPR: MQ_EXPR_BOOL_OP,
+        MQ_OP: op,
+        MQ_VALUES: values,
+        MQ_MEDIA: media,
+    })
 
 
-def _parse_media_type(query, parent):
-    # <media-type>
-    node = dict({
-        MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query,
+def _make_not(operand):
+    return dict({
+        MQ_EXPR: MQ_EXPR_UNARY_OP,
+        MQ_OP: 'not',
+        MQ_OPERAND: operand,
     })
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
-    values.append(node)
-    return parent
 
 
-def _parse_media_not(query, parent):
-    node = dict({
-        MQ_EXPR: MQ_EXPR_BOOL_OP,
-        MQ_VALUES: [],
-    })
-    parent[MQ_EXPR] = MQ_EXPR_UNARY_OP
-    parent[MQ_OP] = 'not'
-    parent[MQ_OPERAND] = node
-    matched = _RE_WHITESPACE.search(query)
-    remain = query[matched.end(0):]
-    _parse_media_query(remain, parent)
-    return parent
-
-
-def _parse_media_in_parens(query, parent):
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        node = parent[MQ_OPERAND]
-    else:
-        node = parent
-    node.setdefault(MQ_OPS, [])
-    for it in _RE_MEDIA_IN_PARENS.finditer(query):
-        # <mf-plain>
-        mf_plain = it.group('mf_plain')
-        if mf_plain:
-            _parse_mf_plain(mf_plain, parent)
+def _make_unknown():
+    return _make_bool_op('or', [])  # always false
+
+
+def _parse_media_query(query):
+    # <media-condition>
+    #  | [ not | only ]? <media-type> [ and <media-condition-without-or> ]?
+    matched = _RE_MEDIA_TYPE.fullmatch(query)
+    if matched is None or matched.group('media_type') in ['not', 'only']:
+        return _parse_media_condition(query)
+    name = matched.group('media_type')
+    if name in ['and', 'or']:
+        return _make_unknown()
+    values = [dict({
+        MQ_EXPR: MQ_EXPR_MEDIA,
+        MQ_ID: name,
+    })]
+    condition = matched.group('condition')
+    if condition:
+        child = _parse_media_condition(condition)
+        if child[MQ_OP] == 'or' and len(child[MQ_VALUES]) != 1:
+            return _make_unknown()
+        values.append(child)
+    node = _make_bool_op('and', values, media=True)
+    if matched.group('modifier') == 'not':
+        node = _make_not(node)
+    return node
 
-        # <mf-boolean>
-        mf_boolean = it.group('mf_boolean')
-        if mf_boolean:
-            _parse_mf_boolean(mf_boolean, parent)
-
-        # <mf-range>
-        mf_range = it.group('mf_range')
-        if mf_range:
-            _parse_mf_range(mf_range, parent)
-
-        # <media-not>
-        media_not = it.group('media_not')
-        if media_not:
-            _parse_media_not(media_not, parent)
-
-        # and | or
-        op = it.group('op')
-        if op:
-            if node.get(MQ_OP) is None:
-                node[MQ_OP] = op
-            node[MQ_OPS].append(op)
-    return parent
-
-
-def _parse_mf_boolean(query, parent):
+
+def _parse_media_condition(query):
+    # <media-not> | <media-in-parens> [ <media-and>* | <media-or>* ]
+    items = _split_in_parens(query)
+    if len(items) == 2 and items[0] == 'not':
+        return _make_not(_parse_media_in_parens(items[1]))
+    elif (len(items) % 2 == 0
+          or len(set(items[1::2])) > 1
+          or any(x not in ['and', 'or'] for x in items[1::2])):
+        return _make_unknown()
+    op = items[1] if len(items) > 1 else 'or'
+    return _make_bool_op(op, [_parse_media_in_parens(x) for x in items[::2]])
+
+
+def _parse_media_in_parens(query):
+    # ( <media-condition> ) | <media-feature> | <general-enclosed>
+    if not query.startswith('('):
+        return _make_unknown()
+    query = query[1:-1].strip()
+    if query.startswith('(') or re.match(r'not\b\s*\(', query):
+        return _parse_media_condition(query)
+    matched = _RE_MF_BOOLEAN.fullmatch(query)
+    if matched is not None:
+        return _parse_mf_boolean(matched)
+    matched = _RE_MF_PLAIN.fullmatch(query)
+    if matched is not None:
+        return _parse_mf_plain(matched)
+    matched = _RE_MF_RANGE.fullmatch(query)
+    if matched is not None:
+        return _parse_mf_range(matched)
+    return _make_unknown()
+
+
+def _parse_mf_boolean(matched):
     # e.g.: '(color)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
-    node = dict({
+    return dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: matched.group('mf_name'),
     })
-    values.append(node)
-    return node
 
 
-def _parse_mf_plain(query, parent):
+def _parse_mf_plain(matched):
     # e.g.: '(min-height: 600px)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
-    node = dict({
-        MQ_EXPR: MQ_EXPR_COMPARE,
-        MQ_OPS: [],
-        MQ_COMPARATORS: [],
-    })
-    values.append(node)
-    matched = _RE_MF_PLAIN.match(query)
     mf_name = matched.group('mf_name')
-    mf_value = matched.group('mf_value')
-    if ((mf_name.startswith('max-') or mf_name.startswith('min-'))
-            and mf_name[4:] in DISCRETE_FEATURES):
-        op = '=='
-    else:
-        if mf_name.startswith('max-'):
-            op = '<='
-            mf_name = mf_name[4:]
-        elif mf_name.startswith('min-'):
-            op = '>='
-            mf_name = mf_name[4:]
-        else:
-            op = '=='
-    node[MQ_OPS].append(op)
-    node[MQ_LEFT] = dict({
-        MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: mf_name,
+    mf_value = matched.group('mf_value').strip()
+    op = '=='
+    if mf_name[:4] in ['max-', 'min-'] and mf_name[4:] not in DISCRETE_FEATURES:
+        op = '<=' if mf_name.startswith('max-') else '>='
+        mf_name = mf_name[4:]
+    return dict({
+        MQ_EXPR: MQ_EXPR_COMPARE,
+        MQ_LEFT: dict({
+            MQ_EXPR: MQ_EXPR_NAME,
+            MQ_ID: mf_name,
+        }),
+        MQ_OPS: [op],
+        MQ_COMPARATORS: [dict({
+            MQ_EXPR: MQ_EXPR_NUM,
+            MQ_NUM: mf_value,
+        })],
     })
-    node[MQ_COMPARATORS].append(dict({
-        MQ_EXPR: MQ_EXPR_NUM,
-        MQ_NUM: mf_value,
-    }))
-    return node
 
 
-def _parse_mf_range(query, parent):
+def _parse_mf_range(matched):
     # e.g.: '(height >= 600px)', '(400px <= width <= 700px)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
-    node = dict({
-        MQ_EXPR: MQ_EXPR_COMPARE,
-        MQ_OPS: [],
-        MQ_COMPARATORS: [],
-    })
-    values.append(node)
-    matched = _RE_MF_RANGE.match(query)
-    left_value = matched.group('left')
-    right_value = matched.group('right')
-    op = matched.group('op')
-    node[MQ_OPS].append(op)
-    if _RE_NUMBER.match(left_value):
-        left = dict({
-            MQ_EXPR: MQ_EXPR_NUM,
-            MQ_NUM: left_value,
-        })
-    else:
-        left = dict({
-            MQ_EXPR: MQ_EXPR_NAME,
-            MQ_ID: left_value,
-        })
-    if _RE_NUMBER.match(right_value):
-        right = dict({
-            MQ_EXPR: MQ_EXPR_NUM,
-            MQ_NUM: right_value,
-        })
-    else:
-        right = dict({
-            MQ_EXPR: MQ_EXPR_NAME,
-            MQ_ID: right_value,
-        })
-    node[MQ_LEFT] = left
-    node[MQ_COMPARATORS].append(right)
-
-    right_value = matched.group('right2')
-    if right_value:
-        op = matched.group('op2')
-        node[MQ_OPS].append(op)
-        if _RE_NUMBER.match(right_value):
-            right = dict({
+    terms = list()
+    for key in ['left', 'right', 'right2']:
+        value = matched.group(key)
+        if value is None:
+            continue
+        value = value.strip()
+        if _RE_NUMBER.match(value):
+            terms.append(dict({
                 MQ_EXPR: MQ_EXPR_NUM,
-                MQ_NUM: right_value,
-            })
+                MQ_NUM: value,
+            }))
         else:
-            right = dict({
+            terms.append(dict({
                 MQ_EXPR: MQ_EXPR_NAME,
-                MQ_ID: right_value,
-            })
-        node[MQ_COMPARATORS].append(right)
-    return node
+                MQ_ID: value,
+            }))
+    ops = [matched.group('op'), matched.group('op2')]
+    return dict({
+        MQ_EXPR: MQ_EXPR_COMPARE,
+        MQ_LEFT: terms[0],
+        MQ_OPS: [op for op in ops if op is not None],
+        MQ_COMPARATORS: terms[1:],
+    })
-- 
2.43.0


From 1005f65671c38292d4e7b41af765e92563ecdc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 51/87] fix: keep the type algebra of CSS numeric values
 independent of operand order

Percentages were dropped by multiplication, addition compared only the
first operand, and CSSMathInvert changed the type of its operand.
---
 svgpy/css/types.py | 91 +++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..292f03c 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -152,6 +152,11 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
     def time(self, power):
         self[CSSNumericType.TIME] = power
 
+    def powers(self):
+        """Returns a map of a base type to the power that is not zero."""
+        return {key: power for key, power in self.items()
+                if key != CSSNumericType.PERCENT_HINT and power != 0}
+
     @staticmethod
     def add_types(type1, type2):
         """Adds two types `type1` and `type2`.
@@ -174,44 +179,34 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         elif percent_hint1 is None and percent_hint2 is not None:
             CSSNumericType.apply_percent_hint(type1, percent_hint2)
 
-        final_type = CSSNumericType()
-        base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
-                          CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
-        keys1 = {key for key in set(type1) & base_type_keys
-                 if type1[key] != 0}
-        keys2 = {key for key in set(type2) & base_type_keys
-                 if type2[key] != 0}
-        if (all(key in type2 for key in keys1)
-                and all(key in type1 for key in keys2)
-                and all(type1[key] == type2[key]
-                        for key in keys1 | keys2)):
-            final_type.update(type1)
-            for key in type2:
-                if key not in final_type:
-                    final_type[key] = type2[key]
-            return final_type
-
-        if (any([type1.percent, type2.percent])
-                and (any([type1[key] for key in type1
-                          if key != CSSNumericType.PERCENT])
-                     or any([type2[key] for key in type2
-                             if key != CSSNumericType.PERCENT]))):
-            for key in base_type_keys:
-                value1 = type1.get(key, 0)
-                value2 = type2.get(key, 0)
-                if any([value1, value2]) and value1 != value2:
-                    CSSNumericType.apply_percent_hint(type1, key)
-                    CSSNumericType.apply_percent_hint(type2, key)
-                if type1.get(key, 0) != type2.get(key, 0):
+        if type1.powers() != type2.powers():
+            if type1.percent is None and type2.percent is None:
+                return None
+            for hint in (CSSNumericType.LENGTH, CSSNumericType.ANGLE,
+                         CSSNumericType.TIME, CSSNumericType.FREQUENCY,
+                         CSSNumericType.RESOLUTION, CSSNumericType.FLEX):
+                if hint not in type1 and hint not in type2:
+                    continue
+                hinted1 = CSSNumericType.apply_percent_hint(
+                    type1.copy(), hint)
+                hinted2 = CSSNumericType.apply_percent_hint(
+                    type2.copy(), hint)
+                if hinted1.powers() == hinted2.powers():
+                    type1, type2 = hinted1, hinted2
+                    break
+            else:
+                # a number may be added to a percentage
+                number, percentage = {}, {CSSNumericType.PERCENT: 1}
+                if ([type1.powers(), type2.powers()]
+                        not in ([number, percentage], [percentage, number])):
                     return None
-            final_type.update(type1)
-            for key in set(type2) & base_type_keys:
-                if key not in final_type and type2[key] != 0:
-                    final_type[key] = type2[key]
-            return final_type
+                type1 = CSSNumericType(percentage)
 
-        return None
+        final_type = CSSNumericType(type1.powers())
+        percent_hint = type1.percent_hint or type2.percent_hint
+        if percent_hint is not None:
+            final_type.percent_hint = percent_hint
+        return final_type
 
     @staticmethod
     def apply_percent_hint(type_, hint):
@@ -322,17 +317,13 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         elif percent_hint1 is None and percent_hint2 is not None:
             CSSNumericType.apply_percent_hint(type1, percent_hint2)
 
-        final_type = CSSNumericType()
-        final_type.update(type1)
-        base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
-                          CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
-        for key in set(type2) & base_type_keys:
-            power = type2[key]
-            if key in final_type:
-                final_type[key] += power
-            else:
-                final_type[key] = power
+        powers = type1.powers()
+        for key, power in type2.powers().items():
+            powers[key] = powers.get(key, 0) + power
+        final_type = CSSNumericType(CSSNumericType(powers).powers())
+        percent_hint = type1.percent_hint or type2.percent_hint
+        if percent_hint is not None:
+            final_type.percent_hint = percent_hint
         return final_type
 
     @staticmethod
@@ -1263,8 +1254,8 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
-        for key in list(self._type):
+        self._type = self._value.type().copy()
+        for key in self._type.powers():
             self._type[key] *= -1
 
     @property
@@ -1568,7 +1559,7 @@ class CSSMathSum(CSSMathValue):
             type2 = CSSNumericType.create_type_from_unit_map(unit_map)
             if type2 is None:
                 return None
-            type1 = CSSNumericType.multiply_types(type1, type2)
+            type1 = CSSNumericType.add_types(type1, type2)
             if type1 is None:
                 return None
         return [(value, unit_map) for value, unit_map in values]
-- 
2.43.0


From cd30dbc7433a8016e2f550d2de6add8512848b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 52/87] fix: parse CSS math expressions with the usual
 precedence

Parentheses were rejected, '-' and '/' could attach to the wrong operand and
the arguments of min(), max() and clamp() could not be expressions.
---
 svgpy/css/types.py | 273 ++++++++++++++-------------------------------
 1 file changed, 81 insertions(+), 192 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 292f03c..cde776e 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -823,40 +823,6 @@ class CSSKeywordValue(CSSStyleValue):
         self._value = value
 
 
-class _MathExpression(object):
-
-    def __init__(self, parent, operator, values):
-        self._parent = parent
-        self._operator = operator
-        self._values = list(values)
-
-    def __repr__(self):
-        return repr({
-            'operator': self._operator,
-            'values': self._values
-        })
-
-    @property
-    def operator(self):
-        return self._operator
-
-    @operator.setter
-    def operator(self, operator):
-        self._operator = operator
-
-    @property
-    def parent(self):
-        return self._parent
-
-    @parent.setter
-    def parent(self, parent):
-        self._parent = parent
-
-    @property
-    def values(self):
-        return self._values
-
-
 class CSSNumericValue(CSSStyleValue):
     """Represents the base class of all numeric CSS values."""
 
@@ -864,138 +830,92 @@ class CSSNumericValue(CSSStyleValue):
         super().__init__()
 
     @staticmethod
-    def _parse_math_expression(css_text, token, root_node=None):
+    def _parse_math_expression(css_text, token):
+        # <calc()> = calc( <calc-sum> )
+        # <min()> = min( <calc-sum># )
+        # <max()> = max( <calc-sum># )
+        # <clamp()> = clamp( <calc-sum>#{3} )
+        arguments = list([list()])
+        for arg in token.arguments:
+            if arg.type == 'literal' and arg.value == ',':
+                arguments.append(list())
+            elif arg.type != 'whitespace':
+                arguments[-1].append(arg)
+        values = [CSSNumericValue._parse_math_sum(css_text, tokens)
+                  for tokens in arguments]
+
         function_name = token.lower_name
-        if function_name == 'calc':
-            operator = None
-        elif function_name == 'clamp':
-            operator = CSSMathOperator.CLAMP
+        if function_name == 'calc' and len(values) == 1:
+            if len(arguments[0]) == 1:
+                return CSSMathSum(values[0])
+            return values[0]
+        elif function_name == 'clamp' and len(values) == 3:
+            return CSSMathClamp(*values)
         elif function_name == 'max':
-            operator = CSSMathOperator.MAX
+            return CSSMathMax(*values)
         elif function_name == 'min':
-            operator = CSSMathOperator.MIN
-        else:
-            raise ValueError('Invalid math expression: ' + repr(token))
+            return CSSMathMin(*values)
+        raise ValueError('Invalid math expression: ' + repr(css_text))
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
-        if len(args) == 0:
-            raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
-        while len(args) > 0:
-            arg = args.pop(0)
-            operator = current_node.operator
-            if arg.type == 'literal':
-                literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.PRODUCT
-                    elif operator != CSSMathOperator.PRODUCT:
-                        previous_node = current_node
-                        previous_value = previous_node.values.pop(-1)
-                        current_node = _MathExpression(
-                            previous_node,
-                            CSSMathOperator.PRODUCT,
-                            [previous_value])
-                        previous_node.values.append(current_node)
-                elif literal == '+':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.SUM
-                    elif operator != CSSMathOperator.SUM:
-                        while True:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                break
-                            current_node = parent_node
-                        previous_node = current_node
-                        current_node = _MathExpression(
-                            previous_node.parent,
-                            CSSMathOperator.SUM,
-                            [previous_node])
-                        previous_node.parent = current_node
-                elif literal == '/':
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.INVERT,
-                        [next_value])
-                    if operator == CSSMathOperator.PRODUCT:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.PRODUCT
-                            current_node.values.append(next_node)
-                        else:
-                            previous_value = current_node.values.pop(-1)
-                            node = _MathExpression(
-                                current_node,
-                                CSSMathOperator.PRODUCT,
-                                [previous_value, next_node])
-                            current_node.values.append(node)
-                elif literal == '-':
-                    # TODO: fix process of a "negate" node.
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.NEGATE,
-                        [next_value])
-                    if operator == CSSMathOperator.SUM:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.SUM
-                            current_node.values.append(next_node)
-                        else:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                parent_node = _MathExpression(
-                                    None,
-                                    CSSMathOperator.SUM,
-                                    [current_node, next_node])
-                                current_node.parent = parent_node
-                                next_node.parent = parent_node
-                                current_node = parent_node
-                            else:
-                                previous_value = parent_node.values.pop(-1)
-                                node = _MathExpression(
-                                    current_node,
-                                    CSSMathOperator.SUM,
-                                    [previous_value, next_node])
-                                parent_node.values.append(node)
-                else:
-                    raise ValueError('Invalid math expression: ' + repr(arg))
+    @staticmethod
+    def _parse_math_product(css_text, tokens, negate=False, nested=False):
+        # <calc-product> = <calc-value> [ '*' <calc-value>
+        #  | '/' <number> ]*
+        value = CSSNumericValue._parse_math_value(css_text, tokens)
+        if negate:
+            value = CSSMathNegate(value)
+        values = list([value])
+        while (len(tokens) > 0 and tokens[0].type == 'literal'
+               and tokens[0].value in ('*', '/')):
+            operator = tokens.pop(0).value
+            value = CSSNumericValue._parse_math_value(css_text, tokens)
+            if nested and isinstance(values[-1], CSSMathInvert):
+                # a + b / c * d => a + (b / c) * d
+                values = [CSSMathProduct(*values)]
+            if operator == '/':
+                value = CSSMathInvert(value)
+            values.append(value)
+        return values[0] if len(values) == 1 else CSSMathProduct(*values)
+
+    @staticmethod
+    def _parse_math_sum(css_text, tokens):
+        # <calc-sum> = <calc-product> [ [ '+' | '-' ] <calc-product> ]*
+        tokens = list(tokens)
+        values = [CSSNumericValue._parse_math_product(css_text, tokens)]
+        while len(tokens) > 0:
+            token = tokens.pop(0)
+            if token.type != 'literal' or token.value not in ('+', '-'):
+                raise ValueError('Invalid math expression: '
+                                 + repr(css_text))
+            negate = token.value == '-'
+            value = CSSNumericValue._parse_math_product(
+                css_text, tokens, negate=negate, nested=True)
+            if (negate and len(values) > 1
+                    and isinstance(values[-1], CSSMathProduct)):
+                # a + b * c - d => a + (b * c - d)
+                values[-1] = CSSMathSum(values[-1], value)
             else:
-                node = CSSNumericValue._parse_numeric_value(
-                    css_text,
-                    arg,
-                    root_node=current_node)
-                current_node.values.append(node)
-
-        while True:
-            parent_node = current_node.parent
-            if (parent_node is None
-                    or (root_node is not None
-                        and parent_node is not None
-                        and parent_node == root_node)):
-                break
-            current_node = parent_node
-        return current_node
+                values.append(value)
+        return values[0] if len(values) == 1 else CSSMathSum(*values)
+
+    @staticmethod
+    def _parse_math_value(css_text, tokens):
+        # <calc-value> = <number> | <dimension> | <percentage>
+        #  | ( <calc-sum> )
+        if len(tokens) == 0:
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+        token = tokens.pop(0)
+        if token.type == 'literal' and token.value == '-':
+            # '-(...)'
+            return CSSMathNegate(
+                CSSNumericValue._parse_math_value(css_text, tokens))
+        elif token.type == '() block':
+            content = [x for x in token.content if x.type != 'whitespace']
+            return CSSNumericValue._parse_math_sum(css_text, content)
+        return CSSNumericValue._parse_numeric_value(css_text, token)
 
     @staticmethod
-    def _parse_numeric_value(css_text, token, root_node=None):
+    def _parse_numeric_value(css_text, token):
         if token.type == 'number':
             # <number-token>
             return CSSUnitValue(token.value, UnitType.NUMBER)
@@ -1007,39 +927,9 @@ class CSSNumericValue(CSSStyleValue):
             return CSSUnitValue(token.value, token.unit)
         elif token.type == 'function':
             # 'math function'
-            return CSSNumericValue._parse_math_expression(
-                css_text,
-                token,
-                root_node=root_node)
+            return CSSNumericValue._parse_math_expression(css_text, token)
         raise ValueError('Invalid math expression: ' + repr(token))
 
-    @staticmethod
-    def _reify_math_expression(node):
-        if isinstance(node, CSSNumericValue):
-            return node
-        assert isinstance(node, _MathExpression)
-        operator = node.operator
-        if operator is None or operator == CSSMathOperator.SUM:
-            expression = CSSMathSum
-        elif operator == CSSMathOperator.CLAMP:
-            expression = CSSMathClamp
-        elif operator == CSSMathOperator.INVERT:
-            expression = CSSMathInvert
-        elif operator == CSSMathOperator.MAX:
-            expression = CSSMathMax
-        elif operator == CSSMathOperator.MIN:
-            expression = CSSMathMin
-        elif operator == CSSMathOperator.NEGATE:
-            expression = CSSMathNegate
-        elif operator == CSSMathOperator.PRODUCT:
-            expression = CSSMathProduct
-        else:
-            raise ValueError('Invalid math expression: ' + repr(operator))
-        args = list()
-        for arg in node.values:
-            args.append(CSSNumericValue._reify_math_expression(arg))
-        return expression(*args)
-
     def add(self, *values):
         values = CSSNumericValue.rectify_values(values)
         if isinstance(self, CSSMathSum):
@@ -1115,8 +1005,7 @@ class CSSNumericValue(CSSStyleValue):
         """
         token = tinycss2.parse_one_component_value(css_text,
                                                    skip_comments=True)
-        node = CSSNumericValue._parse_numeric_value(css_text, token)
-        value = CSSNumericValue._reify_math_expression(node)
+        value = CSSNumericValue._parse_numeric_value(css_text, token)
         value._css_text = css_text
         return value
 
-- 
2.43.0


From ad39729ac7fef7853cc73789aaf153a3336d5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 53/87] fix: write nested CSS math expressions with the
 parentheses they need

---
 svgpy/css/types.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index cde776e..30aa2e1 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1173,7 +1173,7 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        s += '1 / ' + self._value.tostring(nested=True)
         if not paren_less:
             s += ')'
         return s
@@ -1321,8 +1321,12 @@ class CSSMathNegate(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '-'
-        s += self._value.tostring(**kwargs)
+        value = self._value.tostring(nested=True)
+        if value.startswith('(') or (isinstance(self._value, CSSUnitValue)
+                                     and not value.startswith('-')):
+            s += '-' + value
+        else:
+            s += '-(' + value + ')'
         if not paren_less:
             s += ')'
         return s
@@ -1382,8 +1386,7 @@ class CSSMathProduct(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        kwargs2 = kwargs.copy()
-        kwargs2['nested'] = True
+        kwargs2 = {**kwargs, 'nested': True, 'paren_less': False}
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1462,8 +1465,7 @@ class CSSMathSum(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        kwargs2 = kwargs.copy()
-        kwargs2['nested'] = True
+        kwargs2 = {**kwargs, 'nested': True, 'paren_less': False}
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From 84940d1bde1b04e03d1bc60cb999a3221d404da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 54/87] fix: convert and compare nested CSS math values

Sums matched terms by unit names without their powers, to() and to_sum()
failed with TypeError, and negate, invert and clamp values were never equal.
---
 svgpy/css/types.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 30aa2e1..cd7a6db 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -971,6 +971,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
@@ -1031,15 +1043,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
@@ -1048,6 +1052,8 @@ class CSSNumericValue(CSSStyleValue):
         for unit in units:
             _ = CSSNumericType.create_type(unit)
         sum_value = self.create_sum_value()
+        if sum_value is None:
+            raise ValueError('Cannot convert to ' + repr(units))
         values = list()
         for item in sum_value:
             values.append(CSSUnitValue.create_from_sum_value_item(item))
@@ -1434,9 +1440,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
-- 
2.43.0


From 40f765c361e941ca523a6dae3b3fbc10b0dbf2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 55/87] fix: write the changed value of a parsed CSS unit value

---
 svgpy/css/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index cd7a6db..5d5c0af 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1577,6 +1577,7 @@ class CSSUnitValue(CSSNumericValue):
     @value.setter
     def value(self, value):
         self._value = Decimal(value)
+        self._css_text = None
 
     @staticmethod
     def create_from_sum_value_item(item):
-- 
2.43.0


From 66afee1df97dbe6be9bcb64d4e32ef73c025f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 56/87] fix: take the terms of to_sum() by identity

list.remove() compares values, which fails for incompatible units.
---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 5d5c0af..f670319 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1071,7 +1071,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    values = [x for x in values if x is not value]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From b0f551309b8c96a4eb13a2f1fe6002b906a86d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 57/87] fix: edit unparsed CSS values like lists

Assigning to an index inserted a member, and writing a value printed it.
---
 svgpy/css/types.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index f670319..db76e0d 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1659,6 +1659,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
 
     def __delitem__(self, index):
         del self._tokens[index]
+        self._css_text = None
 
     def __getitem__(self, index):
         return self._tokens[index]
@@ -1671,26 +1672,29 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
 
     def __setitem__(self, index, value):
         if isinstance(index, int):
-            values = [value]
+            self._check_members([value])
         else:  # elif isinstance(index, slice):
-            values = value
-        for item in values:
-            if not isinstance(item, (str, CSSVariableReferenceValue)):
-                raise TypeError("Expected str or CSSVariableReferenceValue,"
-                                " got " + repr(type(item)))
-
-        if isinstance(index, int):
-            self._tokens.insert(index, value)
-        else:
-            self._tokens[index] = value
+            value = list(value)
+            self._check_members(value)
+        self._tokens[index] = value
+        self._css_text = None
 
     @property
     def length(self):
         """int: The number of str and CSSVariableReferenceValue objects."""
         return len(self)
 
+    @staticmethod
+    def _check_members(members):
+        for item in members:
+            if not isinstance(item, (str, CSSVariableReferenceValue)):
+                raise TypeError("Expected str or CSSVariableReferenceValue,"
+                                " got " + repr(type(item)))
+
     def insert(self, index, value):
-        self[index] = value
+        self._check_members([value])
+        self._tokens.insert(index, value)
+        self._css_text = None
 
     def tostring(self, **kwargs):
         if self._css_text is not None:
@@ -1699,7 +1703,6 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
         return ''.join(s)
 
-- 
2.43.0


From 1ed22777fd69016ddf4192ae407aa83b72815f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 58/87] fix: keep the old value when a style map is given an
 invalid one

Also let 'in' agree with has(), and clear() work for any declared value.
---
 svgpy/css/types.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index db76e0d..5f2ea38 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1779,6 +1779,9 @@ class StylePropertyMapReadOnly(Mapping):
         """
         self._declarations = declaration  # type: dict
 
+    def __contains__(self, property_name):
+        return self.has(property_name)
+
     def __getitem__(self, property_name):
         return self.get_all(property_name)
 
@@ -1835,6 +1838,10 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
         # TODO: implement StylePropertyMap.append().
         pass
 
+    def clear(self):
+        for property_name in list(self._declarations):
+            self.delete(property_name)
+
     def delete(self, property_name):
         if not property_name.startswith('--'):
             property_name = property_name.lower()
@@ -1867,10 +1874,6 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
             raise TypeError('Invalid type for property: '
                             + repr(property_name))
 
-        props = self._declarations
-        if property_name in props:
-            del props[property_name]
-
         values_to_set = list()
         for value in values:
             # TODO: create an underlying value.
@@ -1880,4 +1883,6 @@ class StylePropertyMap(StylePropertyMapReadOnly, MutableMapping):
                 values_to_set.append(value.tostring())
 
         delimiter = ', ' if property_name in list_valued_properties else ' '
-        props[property_name] = delimiter.join(values_to_set)
+        self._declarations.set_property(property_name,
+                                        delimiter.join(values_to_set),
+                                        '')
-- 
2.43.0


From 4cd306fb11fbaf45e5d7541d8abc5937df7d3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 59/87] fix: read and write quoted CSS url values

---
 svgpy/css/types.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 5f2ea38..25e4512 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1712,11 +1712,9 @@ class CSSURLImageValue(CSSImageValue):
 
     def __init__(self, value):
         super().__init__()
-        matched = _RE_URL_FUNCTION.fullmatch(value)
-        if matched:
-            value = matched.group('value')
-        if value[0] == '"' and value[-1] == '"':
-            value = value.strip('"')
+        token = tinycss2.parse_one_component_value(value)
+        if token.type in ('string', 'url'):
+            value = token.value
         self._value = value
 
     def tostring(self, **kwargs):
@@ -1725,7 +1723,8 @@ class CSSURLImageValue(CSSImageValue):
         # <url-modifier> = <ident> | <function>
         if self._css_text is not None:
             return self._css_text
-        s = 'url("{}")'.format(self._value)
+        s = 'url("{}")'.format(
+            tinycss2.serializer.serialize_string_value(self._value))
         return s
 
 
-- 
2.43.0


From fb36ae9d17f874095626c7b9b432887268a65694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 60/87] fix: write the changed value of a parsed CSS keyword

---
 svgpy/css/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 25e4512..06db3c7 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -821,6 +821,7 @@ class CSSKeywordValue(CSSStyleValue):
         if value is None or len(value) == 0:
             raise ValueError('Expected non-empty string')
         self._value = value
+        self._css_text = None
 
 
 class CSSNumericValue(CSSStyleValue):
-- 
2.43.0


From b9db2048a712f834e06dbb928a2c519d26d87fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 61/87] fix: find references in nested blocks of unparsed CSS
 values

Text around references was split or joined without the separators it needs,
and an empty fallback was dropped.
---
 svgpy/css/types.py | 95 ++++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 06db3c7..09d6034 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -28,14 +28,11 @@ import tinycss2
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from ..formatter import format_number_sequence
+from ..utils import parse_component_value_list
 
 _RE_REAL_NUMBER = re.compile(r'[+-]?[0-9]*\.?[0-9]+(e[+-]?[0-9]+)?',
                              re.IGNORECASE)
 
-_RE_URL_FUNCTION = re.compile(r'^url\((?P<value>[^)]+)\)$')
-
-_RE_VAR_FUNCTION = re.compile(r'(^|\s|\t|\*|/|\(|,)var\(')
-
 list_valued_properties = [
     'animation', 'animation-delay', 'animation-direction',
     'animation-duration', 'animation-fill-mode', 'animation-iteration-count',
@@ -488,9 +485,8 @@ class CSSStyleValue(object):
 
         css_wide_keywords = 0
         reified_values = list()
-        tokens = tinycss2.parse_component_value_list(css_text,
-                                                     skip_comments=True)
-        if (_RE_VAR_FUNCTION.search(css_text)
+        tokens = parse_component_value_list(css_text)
+        if (CSSStyleValue._has_var_function(tokens)
                 or (property_name.startswith('--')
                     and property_name not in context.registered_property_set)):
             # unregistered custom property or
@@ -571,48 +567,65 @@ class CSSStyleValue(object):
 
         return reified_values
 
+    @staticmethod
+    def _has_var_function(tokens):
+        for token in tokens:
+            if token.type == 'function':
+                if (token.lower_name == 'var'
+                        or CSSStyleValue._has_var_function(token.arguments)):
+                    return True
+            elif (token.type in ('() block', '[] block', '{} block')
+                  and CSSStyleValue._has_var_function(token.content)):
+                return True
+        return False
+
     @staticmethod
     def _reify_component_values(tokens):
         members = list()
+        remaining = list()
         single_string = ''
         for token in tokens:
-            if token.type == 'function':
-                if token.lower_name == 'var':
-                    if len(single_string) > 0:
-                        members.append(single_string)
-                        single_string = ''
-                    variable = ''
-                    args = list(token.arguments)
-                    while len(args) > 0:
-                        arg = args.pop(0)
-                        if arg.type == 'literal' and arg.value == ',':
-                            break
-                        variable += tinycss2.serialize([arg])
-                    variable = variable.strip()
-                    if len(args) == 0:
-                        fallback = None
-                    else:
-                        fallback = CSSStyleValue._reify_component_values(args)
-                    unparsed_value = CSSVariableReferenceValue(variable,
-                                                               fallback)
-                    members.append(unparsed_value)
-                else:
-                    single_string += token.name + '('
-                    unparsed_value = CSSStyleValue._reify_component_values(
-                        token.arguments)
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[0], str)):
-                        single_string += unparsed_value.pop(0)
+            if not CSSStyleValue._has_var_function([token]):
+                remaining.append(token)
+                continue
+            # includes a separator between the token and the preceding one
+            single_string += tinycss2.serialize(
+                remaining + [token])[:-len(token.serialize())]
+            remaining = list()
+            if token.type == 'function' and token.lower_name == 'var':
+                if len(single_string) > 0:
                     members.append(single_string)
                     single_string = ''
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[-1], str)):
-                        single_string = unparsed_value.pop(-1)
-                    members.extend(unparsed_value)
-                    single_string += ')'
+                variable = ''
+                fallback = None
+                for index, arg in enumerate(token.arguments):
+                    if arg.type == 'literal' and arg.value == ',':
+                        fallback = CSSStyleValue._reify_component_values(
+                            token.arguments[index + 1:])
+                        break
+                    variable += tinycss2.serialize([arg])
+                members.append(CSSVariableReferenceValue(variable.strip(),
+                                                         fallback))
             else:
-                single_string += tinycss2.serialize([token])
-
+                if token.type == 'function':
+                    content = token.arguments
+                    single_string += token.name + '('
+                    closing = ')'
+                else:
+                    content = token.content
+                    single_string += token.type[0]
+                    closing = token.type[1]
+                unparsed_value = CSSStyleValue._reify_component_values(content)
+                if isinstance(unparsed_value[0], str):
+                    single_string += unparsed_value.pop(0)
+                members.append(single_string)
+                single_string = ''
+                if isinstance(unparsed_value[-1], str):
+                    single_string = unparsed_value.pop(-1)
+                members.extend(unparsed_value)
+                single_string += closing
+
+        single_string += tinycss2.serialize(remaining)
         if len(single_string) > 0:
             members.append(single_string)
         unparsed_value = CSSUnparsedValue(members)
-- 
2.43.0


From 858b18606ea1cfa66413084714e24b23684d8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 62/87] fix: read family names token by token

A multi-word unquoted family in 'font' raised an error or was taken for a
font size, and commas inside of quoted names split them.
---
 svgpy/core.py | 77 +++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 8c99156..18ce0b8 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -17,7 +17,6 @@ import copy
 import html
 import math
 import re
-import shlex
 import unicodedata
 from decimal import Decimal, InvalidOperation
 
@@ -27,6 +26,7 @@ from .css.screen import Screen
 from .fontconfig import FontConfig
 from .formatter import format_number_sequence
 from .freetype import FreeType, FTFace
+from .utils import parse_component_value_list
 
 
 class CSSUtils(object):
@@ -332,14 +332,16 @@ class CSSUtils(object):
         #  || <font-weight> || <font-stretch> ]? <font-size>
         #  [ / <line-height> ]? <font-family> ]
         #  | caption | icon | menu | message-box | small-caption | status-bar
-        items = shlex.split(value)
+        nodes = parse_component_value_list(value)
+        items = [node.serialize() for node in nodes
+                 if node.type != 'whitespace']
         if len(items) == 0:
             return {}
-        for item in iter(items):
+        elif (len(items) == 1
+              and items[0] in ['caption', 'icon', 'menu', 'message-box',
+                               'small-caption', 'status-bar']):
             # system font
-            if item in ['caption', 'icon', 'menu', 'message-box',
-                        'small-caption', 'status-bar']:
-                return {}
+            return {}
 
         style = dict({
             'font-family': [],
@@ -354,35 +356,6 @@ class CSSUtils(object):
             'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
         })
 
-        # 'font-family' property
-        font_family = list([items.pop()])
-        delimiter = False
-        while len(items) > 0:
-            item = items[-1]
-            if item == ',':
-                # 'a_,_b' -> ['a', ',', 'b']
-                delimiter = True
-            elif delimiter or item.endswith(','):
-                font_family.insert(0, item)
-                delimiter = False
-            else:
-                break
-            items.pop()
-        style['font-family'] = CSSUtils.parse_font_family(font_family)
-
-        # 'font-size' and 'line-height' properties
-        try:
-            item = items.pop()
-        except IndexError:
-            return {}
-        if item.find('/') != -1:
-            # 'font-size' [/ 'line-height']
-            parts = item.split('/')
-            style['font-size'] = parts[0]
-            style['line-height'] = parts[1]
-        else:
-            style['font-size'] = item
-
         while len(items) > 0:
             item = items.pop(0)
             if item == 'normal':
@@ -403,8 +376,21 @@ class CSSUtils(object):
                 # 'font-stretch' property
                 style['font-stretch'] = item
             else:
+                items.insert(0, item)
                 break
 
+        # 'font-size' and 'line-height' properties
+        if len(items) < 2:
+            return {}
+        style['font-size'] = items.pop(0)
+        if items[0] == '/':
+            if len(items) < 3:
+                return {}
+            style['line-height'] = items[1]
+            items = items[2:]
+
+        # 'font-family' property
+        style['font-family'] = CSSUtils.parse_font_family(' '.join(items))
         return style
 
     @staticmethod
@@ -425,19 +411,24 @@ class CSSUtils(object):
         if isinstance(value, list):
             items = value
         elif isinstance(value, str):
-            if '"' in value or '\'' in value:
-                items = shlex.split(value)
-            else:
-                items = [value]
+            items = [value]
         else:
             raise TypeError('Expected str or list, got {}'.format(
                 type(value)))
         font_family = list()
         for item in iter(items):
-            for name in iter(item.split(',')):
-                name = name.strip()
-                if len(name) > 0:
-                    font_family.append(name)
+            names = list([list()])
+            for node in parse_component_value_list(item):
+                if node == ',':
+                    names.append(list())
+                elif node.type == 'string':
+                    names[-1].append(node.value)
+                elif node.type != 'whitespace':
+                    names[-1].append(
+                        node.value if node.type == 'ident'
+                        else node.serialize())
+            font_family.extend(' '.join(name) for name in names
+                               if len(name) > 0)
         return font_family
 
     @staticmethod
-- 
2.43.0


From 2f79c1393c8a397e935f2cba071dce894a71e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 63/87] fix: let font-feature-settings win over font-variant

'font-feature-settings' was applied before the other font properties, spaces
and commas in its value were not read, and jis04 asked for the feature
'jis04'.
---
 svgpy/core.py     | 33 ++++++++++++++++++++-------------
 svgpy/opentype.py |  7 ++++++-
 svgpy/text.py     |  4 +++-
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 18ce0b8..80092bd 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -440,12 +440,16 @@ class CSSUtils(object):
         features = dict()
         if value == 'normal':
             return features
-        tags = value.split(',')
-        for tag_value in tags:
-            items = tag_value.split()
-            tag = items[0]
-            if tag[0] == tag[-1] and tag[0] in '"\'':
-                tag = tag[1:-1]
+        tags = list([list()])
+        for node in parse_component_value_list(value):
+            if node == ',':
+                tags.append(list())
+            elif node.type != 'whitespace':
+                tags[-1].append(node)
+        for items in tags:
+            if len(items) == 0 or items[0].type not in ('string', 'ident'):
+                continue
+            tag = items[0].value
             if len(tag) != 4:
                 continue  # invalid tag
             invalid_tag = False
@@ -455,13 +459,16 @@ class CSSUtils(object):
                     break
             if invalid_tag:
                 continue
-            if len(items) >= 2:
-                if items[1].isdigit():
-                    sw = int(items[1])
-                elif items[1] == 'on':
-                    sw = 1
-                elif items[1] == 'off':
-                    sw = 0
+            if len(items) > 2:
+                continue  # invalid value
+            elif len(items) == 2:
+                if (items[1].type == 'number'
+                        and items[1].is_integer
+                        and items[1].value >= 0):
+                    sw = int(items[1].value)
+                elif (items[1].type == 'ident'
+                      and items[1].lower_value in ('on', 'off')):
+                    sw = 1 if items[1].lower_value == 'on' else 0
                 else:
                     continue  # invalid value
             else:
diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index 0d815c1..fe1b537 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -625,7 +625,7 @@ language_tag_to_iso639_codes_map = {
 
 
 def features_from_style(style):
-    features = style['font-feature-settings'].copy()  # type: dict
+    features = dict()
 
     font_kerning = style['font-kerning']
     if font_kerning == 'none':
@@ -671,6 +671,8 @@ def features_from_style(style):
         features['jp83'] = 1
     elif 'jis90' in font_variant_east_asian:
         features['jp90'] = 1
+    elif 'jis04' in font_variant_east_asian:
+        features['jp04'] = 1
     elif 'simplified' in font_variant_east_asian:
         features['smpl'] = 1
     elif 'traditional' in font_variant_east_asian:
@@ -747,6 +749,9 @@ def features_from_style(style):
     elif font_variant_position == 'super':
         features['sups'] = 1
 
+    # 'font-feature-settings' overrides the features of other properties
+    features.update(style['font-feature-settings'])
+
     return ['{}={}'.format(tag, value) for tag, value in features.items()]
 
 
diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..a5303f0 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -250,7 +250,9 @@ class SVGTextContentElement(SVGGraphicsElement):
         hb_features = list()
         features = features_from_style(style)
         for feature in features:
-            hb_features.append(HBFeature.fromstring(feature))
+            hb_feature = HBFeature.fromstring(feature)
+            if hb_feature is not None:
+                hb_features.append(hb_feature)
 
         font_synthesis = style['font-synthesis']
         force_embolden = True if (style['font-weight'] > Font.WEIGHT_NORMAL
-- 
2.43.0


From 1ece20160a67071f096e6416c396a91a4cb27cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 64/87] fix: accept the components of font-variant in any order

The components of a longhand property were dropped when those of another
one stood between them.
---
 svgpy/css/shorthands.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index b20ace1..78bda66 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -216,11 +216,18 @@ class ShorthandProperty(ABC):
         components_map = OrderedDict()
         css_wide_keywords = list()
         longhand_names = shorthand_property_map[property_name]
-        for longhand_name in longhand_names:
-            ShorthandProperty._parse_component_list(longhand_name,
-                                                    component_list,
-                                                    components_map,
-                                                    css_wide_keywords)
+        count = -1
+        while len(component_list) != count:
+            count = len(component_list)
+            for longhand_name in longhand_names:
+                ShorthandProperty._parse_component_list(longhand_name,
+                                                        component_list,
+                                                        components_map,
+                                                        css_wide_keywords)
+            if property_name != 'font-variant':
+                # 'font-variant': the components of a longhand property need
+                # not be adjacent
+                break
 
         if len(css_wide_keywords) > 0:
             components_map.clear()
-- 
2.43.0


From 93164a3d8642c35d865adf4e099605024b8cd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 65/87] fix: keep the text around and between the children of a
 text

A space was made up at the boundary of adjacent spans and spaces of
preserved white space were dropped. A comment or an empty span made the text
unusable, and the text that follows other children was lost.
---
 svgpy/core.py | 27 ++++++++++-----------------
 svgpy/text.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 80092bd..a482a65 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -81,8 +81,8 @@ class CSSUtils(object):
 
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_TAB_WHITESPACE_AROUND_SEGMENT_BREAK = re.compile(
+        r'[\x20\t]*(\r\n|\r|\n)[\x20\t]*')
 
     @staticmethod
     def compute_font_size(element):
@@ -294,28 +294,21 @@ class CSSUtils(object):
 
         # FIXME: fix white-space processing.
         if white_space in ['normal', 'nowrap', 'pre-line']:
-            out_text = CSSUtils._RE_PRECEDING_TAB_WHITESPACE.sub(
-                '', out_text)
-            out_text = CSSUtils._RE_FOLLOWING_TAB_WHITESPACE.sub(
-                '', out_text)
+            out_text = CSSUtils._RE_TAB_WHITESPACE_AROUND_SEGMENT_BREAK.sub(
+                r'\1', out_text)
             out_text = _transform_segment_break(out_text, style)
             out_text = out_text.replace('\t', ' ')
             out_text = CSSUtils._RE_COLLAPSIBLE_WHITESPACE.sub(
                 ' ', out_text)
+            if first or (prev_text is not None
+                         and prev_text.endswith((' ', '\n'))):
+                out_text = out_text.lstrip(' ')
+            # if len(element) == 0:
+            if tail:
+                out_text = out_text.rstrip(' ')
         if white_space in ['pre', 'pre-wrap']:
             out_text = _transform_segment_break(out_text, style)
 
-        if prev_text is not None:
-            if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
-        if first:
-            out_text = out_text.lstrip(' ')
-        # if len(element) == 0:
-        if tail:
-            out_text = out_text.rstrip(' ')
-
         return out_text
 
     @staticmethod
diff --git a/svgpy/text.py b/svgpy/text.py
index a5303f0..56956da 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -108,14 +108,13 @@ class SVGTextContentElement(SVGGraphicsElement):
                 child_chars_info, out_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
+            if child.tail is not None:
                 out_text = CSSUtils.normalize_text_content(
-                    child,
+                    element,
                     child.tail,
                     style,
                     prev_text,
@@ -150,12 +149,16 @@ class SVGTextContentElement(SVGGraphicsElement):
                 <list of path segments>, <list of advance measure>,
                 <bbox> and <element object>.
         """
+        # keep the proxies of the elements, the hash values refer to them
+        elements = list(root.iter())
         chars_info, _ = SVGTextContentElement._get_descendant_chars(
             root, first=first, **kwargs)
         if len(chars_info) > 0:
             item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
+            style = item[SVGTextContentElement._CHARS_STYLE]
+            if style['white-space'] not in ['pre', 'pre-wrap']:
+                text = item[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                item[SVGTextContentElement._CHARS_TEXT] = text
 
             is_render = kwargs.get('is_render', False)
             if is_render:
@@ -189,6 +192,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                         advance_list
                     info[SVGTextContentElement._CHARS_BBOX] = bbox
 
+        del elements
         return chars_info
 
     @staticmethod
-- 
2.43.0


From 537da7d01f7ea3c5a7bc795abeb197f26559c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 66/87] fix: measure the whole span and nothing but the span

The number of characters and the length of a span left out nested spans and
the text after them, and its bounding box and path data were those of the
whole text.
---
 svgpy/text.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 56956da..19e430b 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -39,6 +39,11 @@ class SVGTextContentElement(SVGGraphicsElement):
     _CHARS_BBOX = 5
     _CHARS_ELEMENT = 6
 
+    def _contains(self, element):
+        """Returns True if the element is self or a descendant of self."""
+        return element is self or any(x is self
+                                      for x in element.iterancestors())
+
     def _get_chars_info(self):
         root = self.get_nearest_text_element()
         if root is None:
@@ -46,7 +51,8 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
             root, first=True, is_display=True, is_render=True)
-        return chars_info
+        return [x for x in chars_info
+                if self._contains(x[SVGTextContentElement._CHARS_ELEMENT])]
 
     @staticmethod
     def _get_descendant_chars(element, style_map=None,
@@ -635,10 +641,10 @@ class SVGTextContentElement(SVGGraphicsElement):
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
             out = [x[SVGTextContentElement._CHARS_TEXT]
                    for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
+                   if self._contains(x[SVGTextContentElement._CHARS_ELEMENT])]
             if len(out) == 0:
                 return None
-            return out[0]
+            return ''.join(out)
         return None
 
     def get_nearest_text_element(self):
@@ -700,12 +706,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             for item in iter(chars_info):
                 advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
+            for item in iter(chars_info):
+                if self._contains(item[SVGTextContentElement._CHARS_ELEMENT]):
+                    advance_list += item[
+                        SVGTextContentElement._CHARS_ADVANCE_LIST]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 5e2339764d49a171f20d41c2bccb5c1431db88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 67/87] fix: check the index of UBreakIterator.get_available

ICU reads beyond its table for an index that is out of range.
---
 svgpy/icu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/icu.py b/svgpy/icu.py
index 97e0d80..46648b6 100644
--- a/svgpy/icu.py
+++ b/svgpy/icu.py
@@ -702,6 +702,8 @@ class UBreakIterator(Iterator, Reversible):
 
     @staticmethod
     def get_available(index):
+        if not 0 <= index < ubrk_count_available():
+            return None
         locale = ubrk_get_available(index)
         if locale == ffi.NULL:
             return None
-- 
2.43.0


From b46021171743295f363ee4ca46d830bbcbb55db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 68/87] fix: measure text character by character

Advances were counted by glyph, so that a part of a text with ligatures or of
a right-to-left run had the length of another one. Runs of text with
supplementary characters were cut at wrong places, lists of positions with
white space around them raised an error, as did malformed language tags.
---
 svgpy/text.py | 137 ++++++++++++++++++++++++++------------------------
 1 file changed, 72 insertions(+), 65 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 19e430b..5f031b1 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -318,7 +318,12 @@ class SVGTextContentElement(SVGGraphicsElement):
                 locale = ULocale(xml_lang)
         if locale is None:
             locale = ULocale.get_default()
-        hb_language = HBLanguage.fromstring(locale.get_language())
+        language = locale.get_language()
+        if language is None:
+            # malformed language tag
+            locale = ULocale.get_default()
+            language = locale.get_language()
+        hb_language = HBLanguage.fromstring(language)
         buf.set_language(hb_language)
         script = locale.get_script()
         if script is not None and len(script) == 4:
@@ -344,12 +349,15 @@ class SVGTextContentElement(SVGGraphicsElement):
                       UBiDi.UBIDI_DEFAULT_LTR if ltr
                       else UBiDi.UBIDI_DEFAULT_RTL)
         max_limit = para.get_processed_length()
+        source = out_text.encode('utf-16-le')
         bi = UBreakIterator(UBreakIterator.UBRK_LINE, locale.locale)
         logical_start = 0
         while logical_start < max_limit:
             limit, para_level = para.get_logical_run(logical_start)
             para_level &= 1
-            paragraph = out_text[logical_start:limit]
+            # the positions are in UTF-16 code units
+            paragraph = source[logical_start * 2:limit * 2].decode('utf-16-le')
+            paragraph_advances = list()
             bi.set_text(paragraph)
             if ((not ltr and para_level == UBiDi.UBIDI_LTR)
                     or (ltr and para_level == UBiDi.UBIDI_RTL)):
@@ -370,68 +378,59 @@ class SVGTextContentElement(SVGGraphicsElement):
                     positions = list(reversed(positions))
 
                 # re-positioning
-                if len(infos) != len(line):
-                    clusters = [x.cluster for x in infos]
-                    cluster_min = min(clusters)
-                    cluster_max = max(clusters)
-                    cluster_inc = max(
-                        (cluster_max - cluster_min) // len(clusters), 1)
-                    # try to find ligatures
-                    last_cluster = None
-                    for offset, cluster in enumerate(clusters):
-                        if last_cluster is None:
-                            pass
-                        elif last_cluster == cluster:
-                            pass  # decompose
-                        elif last_cluster + cluster_inc == cluster:
-                            pass  # do nothing
-                        else:
-                            # ligature
-                            index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
-                            rotate_length = len(rotate_list)
-                            if rotate_length > 1 and index < rotate_length:
-                                _ = rotate_list.pop(index)
-                        last_cluster = cluster
+                # the first byte of each character in UTF-8
+                offsets = list()
+                offset = 0
+                for ch in line:
+                    offsets.append(offset)
+                    offset += len(ch.encode())
+                clusters = {x.cluster for x in infos}
+                for index in reversed(range(len(line))):
+                    if offsets[index] in clusters:
+                        continue
+                    # ligature
+                    if index < len(x_list):
+                        _ = x_list.pop(index)
+                    if index < len(y_list):
+                        _ = y_list.pop(index)
+                    dx_length = len(dx_list)
+                    if index < dx_length:
+                        dx = dx_list.pop(index)
+                        if index < dx_length - 1:
+                            dx_list[index] += dx
+                    dy_length = len(dy_list)
+                    if index < dy_length:
+                        dy = dy_list.pop(index)
+                        if index < dy_length - 1:
+                            dy_list[index] += dy
+                    rotate_length = len(rotate_list)
+                    if rotate_length > 1 and index < rotate_length:
+                        _ = rotate_list.pop(index)
 
                 # render line
                 line_path_data = list()
                 line_bbox = DOMRect()
+                line_advances = dict()
                 for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
-                    rotate_length = len(rotate_list)
-                    if rotate_length == 1:
-                        rotate = rotate_list[0]
-                    elif rotate_length > 1:
-                        rotate = rotate_list.pop(0)
+                    x = current_x
+                    y = current_y
+                    dx = 0
+                    dy = 0
+                    if info.cluster not in line_advances:
+                        # the first glyph of a character
+                        if len(x_list) > 0:
+                            x = x_list.pop(0)
+                        if len(y_list) > 0:
+                            y = y_list.pop(0)
+                        if len(dx_list) > 0:
+                            dx = dx_list.pop(0)
+                        if len(dy_list) > 0:
+                            dy = dy_list.pop(0)
+                        rotate_length = len(rotate_list)
+                        if rotate_length == 1:
+                            rotate = rotate_list[0]
+                        elif rotate_length > 1:
+                            rotate = rotate_list.pop(0)
 
                     x_offset = position.x_offset / 64
                     y_offset = position.y_offset / 64
@@ -462,7 +461,8 @@ class SVGTextContentElement(SVGGraphicsElement):
                                                  advance)
                         x_advance = 0
                         y_advance = advance
-                    advance_list.append(advance)
+                    line_advances.setdefault(info.cluster, 0)
+                    line_advances[info.cluster] += advance
                     if rotate != 0:
                         matrix.clear()
                         matrix.translate_self(x, y)
@@ -510,7 +510,14 @@ class SVGTextContentElement(SVGGraphicsElement):
                             current_x = line_bbox.right
                 path_data_list += line_path_data
                 text_bbox |= line_bbox
+                # the advance measure of each character in logical order
+                advances = [line_advances.get(x, 0) for x in offsets]
+                if iterable is bi:
+                    paragraph_advances = paragraph_advances + advances
+                else:
+                    paragraph_advances = advances + paragraph_advances
 
+            advance_list += paragraph_advances
             logical_start = limit
 
         return path_data_list, advance_list, text_bbox, (current_x, current_y)
@@ -551,7 +558,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x.strip())
             ]
         geometry['x'] = x
 
@@ -568,7 +575,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y.strip())
             ]
         geometry['y'] = y
 
@@ -583,7 +590,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx.strip())
             ]
         geometry['dx'] = dx
 
@@ -598,7 +605,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy.strip())
             ]
         geometry['dy'] = dy
 
@@ -611,7 +618,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         else:
             rotate = [
                 float(t) for t in
-                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate)
+                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate.strip())
             ]
         geometry['rotate'] = rotate
 
-- 
2.43.0


From f8186955f3e98ab6dc93cb036b7bb4591909fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 69/87] fix: leave the rest in place where a style sheet URL is
 invalid

An @import of an invalid URL, or of a data: URL without data, raised.
---
 svgpy/css/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 6d041e6..357a47b 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1099,16 +1099,21 @@ class CSSImportRule(CSSRule):
             owner_node = None
             base_url = None
         mediums = list()
+        url = None
         for token in prelude:
             if self._href is None:
                 if token.type in ('string', 'url'):
-                    url = normalize_url(token.value, base_url)
-                    self._href = url.href
+                    try:
+                        url = normalize_url(token.value, base_url)
+                        self._href = url.href
+                    except ValueError:
+                        # there is no style sheet at an invalid URL
+                        self._href = token.value
             else:
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None or self._is_circular():
+        if url is None or self._is_circular():
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
@@ -1725,7 +1730,7 @@ class CSSParser(object):
                 else:
                     encoding = content_type.get('charset', 'utf-8')
             rules, encoding = tinycss2.parse_stylesheet_bytes(
-                css_bytes=data,
+                css_bytes=data if data is not None else b'',
                 protocol_encoding=encoding,
                 skip_comments=True,
                 skip_whitespace=True)
-- 
2.43.0


From 888165824fd4472790f05a66fa3e4a0b77160910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 70/87] fix: read all text of style elements and refuse links
 without a URL

An empty or invalid href raised, text after a comment was lost, and types and link types were compared case-sensitively.
---
 svgpy/style.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 9f5b3b3..1c00600 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -182,8 +182,8 @@ def get_css_style_sheet_from_element(element, doc=None):
         base_url = None
 
     if local_name == 'link':
-        rel_list = element.rel_list
-        as_ = element.as_
+        rel_list = [x.lower() for x in element.rel_list]
+        as_ = element.as_.lower()
         if ('alternate' in rel_list
                 or ('stylesheet' not in rel_list
                     and not ('preload' in rel_list and as_ == 'style'))
@@ -192,7 +192,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if len(href) == 0 or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -206,17 +206,26 @@ def get_css_style_sheet_from_element(element, doc=None):
                 logger.debug('media not matched: {} media={}'.format(
                     element, repr(media)))
                 return None
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.info('invalid URL: {} href={}: {}'.format(
+                element, repr(href), exp))
+            return None
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element)
         return css_style_sheet
     else:  # 'style'
-        if element.type != 'text/css' or element.text is None:
+        text = ''.join(x for x in [element.text]
+                       + [child.tail for child in element]
+                       if x is not None)
+        if (element.type.lower() not in ['', 'text/css']
+                or len(text) == 0):
             logger.debug(
                 'not a style sheet: {} type={} size={}'.format(
                     element,
                     repr(element.type),
-                    0 if element.text is None else len(element.text)))
+                    len(text)))
             return None
         media = element.media
         if media not in ['', 'all']:
@@ -232,7 +241,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                                         owner_node=element,
                                         title=element.title,
                                         media=element.media)
-        css_rules = CSSParser.fromstring(element.text,
+        css_rules = CSSParser.fromstring(text,
                                          parent_style_sheet=css_style_sheet)
         css_style_sheet.css_rules.extend(css_rules)
         return css_style_sheet
@@ -271,6 +280,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
             continue
         href = element.get('href')
         if (href is None
+                or len(href) == 0
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
@@ -286,7 +296,12 @@ def get_css_style_sheets_from_xml_stylesheet(root):
                     repr(media)))
                 continue
         encoding = element.get('charset')
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.info('invalid URL: {} href={}: {}'.format(
+                element, repr(href), exp))
+            continue
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element,
                                           encoding=encoding)
-- 
2.43.0


From 2b16a748f01275998b918d0d33dedd917161b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 71/87] fix: the tags of an outline are as many as its points

FTOutline.tags read the tags as a NUL terminated string, and so stopped at the first conic control point (tag 0).
---
 svgpy/freetype.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index aa9fdf4..9322a1e 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -776,8 +776,7 @@ class FTOutline(object):
 
     @property
     def tags(self):
-        tags = ffi.string(self._outline.tags)
-        return list(tags)
+        return list(ffi.buffer(self._outline.tags, self.n_points)[:])
 
     def decompose(self, move_to_func, line_to_func, conic_to_func,
                   cubic_to_func, shift=0, delta=0, user=None):
-- 
2.43.0


From 79f50ba6690c5833e6a7f73648fca5fe349df964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 72/87] fix: the initial value of mask is none

get_computed_style() and get_inherited_style() gave the value 'no', which the property does not have.
---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 577836a..cf9d748 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1862,7 +1862,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'flood-opacity': '1',
              'inline-size': '0',
              'lighting-color': 'white',
-             'mask': 'no',
+             'mask': 'none',
              'opacity': '1',
              'overflow': 'visible',
              'stop-color': 'black',
-- 
2.43.0


From 567579036a05e92e21084bcc880527fce7038887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 73/87] fix: lengths in cap units are relative

SVGLength.isrelative() did not know the unit, which is then neither absolute nor relative.
---
 svgpy/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index a482a65..caa7a5d 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1227,8 +1227,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
-            SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
             SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From 6e80bdc9f4d385bb67c493db3d74835290f1be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 74/87] fix: draw what a link contains

SVGAElement.get_path_data() gave no segments, so links inside a group that is re-used or measured by its path data vanished.
---
 svgpy/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index e9b5ffa..225edc1 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -164,7 +164,7 @@ class SVGAElement(SVGGraphicsElement, SVGURIReference,
     """Represents the [SVG2] <a> element."""
 
     def get_path_data(self, settings=None):
-        return []
+        return self.get_descendant_path_data(settings)
 
 
 class SVGCircleElement(SVGGeometryElement):
-- 
2.43.0


From fda47ee94b3e941f1768fd9861e9fcb36e1f6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 75/87] fix: a use element that refers to itself draws nothing

A use element whose reference leads back to itself, directly, through an ancestor or through other use elements, recursed without end.
---
 svgpy/element.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/svgpy/element.py b/svgpy/element.py
index 225edc1..92fddcb 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1047,6 +1047,25 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         element = root.get_element_by_id(href[1:])
         return element
 
+    def _has_circular_reference(self):
+        visited = list()
+        roots = [self.instance_root]
+        while len(roots) > 0:
+            root = roots.pop()
+            for element in root.iter():
+                if element is self:
+                    return True
+                elif (not isinstance(element, SVGUseElement)
+                      or element in visited):
+                    continue
+                visited.append(element)
+                href = element.href
+                if href is not None and href.startswith('#'):
+                    target = element.instance_root
+                    if target is not None:
+                        roots.append(target)
+        return False
+
     def get_computed_geometry(self):
         geometry = dict()
 
@@ -1097,6 +1116,8 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
+        if self._has_circular_reference():
+            return []  # not rendered
         path_data = root.get_transformed_path_data(settings)
         if len(path_data) == 0:
             return path_data
-- 
2.43.0


From 6b988beb31911736bc519c0d18d28852e13f4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 76/87] fix: documents with marker and view elements can be
 read

SVGMarkerElement and SVGViewElement left get_path_data() abstract, so that
walking a document that has one of them raised a TypeError.
---
 svgpy/base.py    |  2 +-
 svgpy/element.py | 26 ++++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 63c64f7..414df7c 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -391,7 +391,7 @@ class SVGGraphicsElement(SVGElement):
         # TODO: implement SVGBoundingBoxOptions option.
         _depth += 1
         bbox = DOMRect()
-        if self.local_name in ('defs', 'symbol'):
+        if self.local_name in ('defs', 'marker', 'pattern', 'symbol'):
             return bbox  # not rendered directly
         if self.iscontainer():
             for child in iter(self):
diff --git a/svgpy/element.py b/svgpy/element.py
index 92fddcb..babb9dc 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -473,7 +473,18 @@ class SVGLineElement(SVGGeometryElement):
 class SVGMarkerElement(SVGGraphicsElement):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGMeshElement(SVGGeometryElement):
@@ -1154,7 +1165,18 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
 class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGElementClassLookup(etree.CustomElementClassLookup):
-- 
2.43.0


From 9fb6eae61e2abf44a6e0d3d7a17dc1588fd95863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 77/87] fix: parse the values of registered custom properties
 by their syntax

The registered syntax was ignored when such a value was parsed.
---
 svgpy/css/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 09d6034..c4d8040 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -496,7 +496,10 @@ class CSSStyleValue(object):
         else:
             # registered custom property or
             # single property in CSS
-            desc = css_property_descriptor_map.get(property_name)
+            if property_name.startswith('--'):
+                desc = context.registered_property_set[property_name]
+            else:
+                desc = css_property_descriptor_map.get(property_name)
             if desc is None:
                 desc = PropertyDescriptor(
                     name=property_name,
-- 
2.43.0


From c9d6b2609e2bc5477a09fc4b53490a94230201da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 78/87] fix: return a new type object from
 CSSNumericValue.type()

Changing the returned object changed the type of the value.
---
 svgpy/css/types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index c4d8040..3c752cd 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1156,7 +1156,7 @@ class CSSMathClamp(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathInvert(CSSMathValue):
@@ -1202,7 +1202,7 @@ class CSSMathInvert(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathMax(CSSMathValue):
@@ -1256,7 +1256,7 @@ class CSSMathMax(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathMin(CSSMathValue):
@@ -1310,7 +1310,7 @@ class CSSMathMin(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathNegate(CSSMathValue):
@@ -1355,7 +1355,7 @@ class CSSMathNegate(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathProduct(CSSMathValue):
@@ -1423,7 +1423,7 @@ class CSSMathProduct(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSMathSum(CSSMathValue):
@@ -1501,7 +1501,7 @@ class CSSMathSum(CSSMathValue):
         return s
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSUnitValue(CSSNumericValue):
@@ -1656,7 +1656,7 @@ class CSSUnitValue(CSSNumericValue):
         return s + self._unit
 
     def type(self):
-        return self._type
+        return self._type.copy()
 
 
 class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
-- 
2.43.0


From 8e130e840074c1ca8f7e4c1823cf8e67a1c46e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 79/87] fix: keep the document and the location when a
 navigation fails

The URL was replaced and the root element was removed before the page was
loaded, so that a page that could not be loaded left an empty document with
the URL of another page. A change of the fragment alone loaded the page again
and dropped what had been changed in it.
---
 svgpy/url.py    | 43 ++++++++++++++++++++++++-------------------
 svgpy/window.py |  8 +++++---
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 00ae9c3..47c7b9e 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -17,6 +17,7 @@ import os
 import re
 import sys
 from collections.abc import MutableMapping
+from copy import deepcopy
 from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
@@ -125,8 +126,7 @@ class Location(object):
 
     @hash.setter
     def hash(self, fragment):
-        self._url.hash = fragment
-        self._navigate()
+        self._update('hash', fragment)
 
     @property
     def host(self):
@@ -138,8 +138,7 @@ class Location(object):
 
     @host.setter
     def host(self, host):
-        self._url.host = host
-        self._navigate()
+        self._update('host', host)
 
     @property
     def hostname(self):
@@ -150,8 +149,7 @@ class Location(object):
 
     @hostname.setter
     def hostname(self, hostname):
-        self._url.hostname = hostname
-        self._navigate()
+        self._update('hostname', hostname)
 
     @property
     def href(self):
@@ -162,8 +160,7 @@ class Location(object):
 
     @href.setter
     def href(self, url):
-        self._url.href = url
-        self._navigate()
+        self._update('href', url)
 
     @property
     def origin(self):
@@ -179,8 +176,7 @@ class Location(object):
 
     @pathname.setter
     def pathname(self, pathname):
-        self._url.pathname = pathname
-        self._navigate()
+        self._update('pathname', pathname)
 
     @property
     def port(self):
@@ -191,8 +187,7 @@ class Location(object):
 
     @port.setter
     def port(self, port):
-        self._url.port = port
-        self._navigate()
+        self._update('port', port)
 
     @property
     def protocol(self):
@@ -203,8 +198,7 @@ class Location(object):
 
     @protocol.setter
     def protocol(self, protocol):
-        self._url.protocol = protocol
-        self._navigate()
+        self._update('protocol', protocol)
 
     @property
     def search(self):
@@ -215,18 +209,29 @@ class Location(object):
 
     @search.setter
     def search(self, search):
-        self._url.search = search
-        self._navigate()
+        self._update('search', search)
 
-    def _navigate(self):
+    def _navigate(self, url):
         if self._browsing_context is not None:
-            url = self._url
             if ((len(url.protocol) == 0 and len(url.host) == 0)
                     or url.protocol in ['blob:', 'data:']
                     or (url.protocol in ['about:', 'file:']
                         and len(url.pathname) == 0)):
                 raise ValueError('Invalid URL: ' + repr(url.href))
             self._browsing_context.document.navigate(url)
+        self._url = url
+
+    def _update(self, name, value):
+        # the current URL is replaced after the page has been loaded
+        url = deepcopy(self._url)
+        setattr(url, name, value)
+        if ((name == 'hash' or len(url.hash) > 0)
+                and (url.tostring(exclude_fragment=True)
+                     == self._url.tostring(exclude_fragment=True))):
+            # navigates to the fragment of the current page
+            self._url = url
+            return
+        self._navigate(url)
 
     def assign(self, url):
         """Navigates to the given URL.
@@ -238,7 +243,7 @@ class Location(object):
 
     def reload(self):
         """Reloads the current page."""
-        self._navigate()
+        self._navigate(self._url)
 
     def tostring(self, exclude_fragment=False):
         """Serializes a Location object.
diff --git a/svgpy/window.py b/svgpy/window.py
index 6131c64..17724e0 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -584,12 +584,14 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         resource = url.href
         logger = getLogger('{}.{}'.format(__name__, self.__class__.__name__))
         logger.debug('navigate to \'{}\''.format(resource))
+        new_root = None
+        if url.protocol != 'about:':
+            new_root = self._implementation.parse(resource)
         root = self._document_element
         if root is not None:
             self.remove(root)
-        if url.protocol != 'about:':
-            root = self._implementation.parse(resource)
-            self.append(root)
+        if new_root is not None:
+            self.append(new_root)
         return self
 
     def prepend(self, *nodes):
-- 
2.43.0


From ab733fd52187151d7d7071205bbaa7e3c9f94eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 80/87] fix: add UTF-16 and UTF-32 text to a buffer without a
 byte order mark

The mark became a character of the buffer and moved the clusters by one.
---
 svgpy/harfbuzz.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 51c7101..973630d 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -14,12 +14,17 @@
 
 
 import array
+import sys
 
 from ._ffi_api import dlopen, ffi
 from .freetype import FTFace
 
 lib = dlopen(ffi, ['harfbuzz', 'libharfbuzz-0'])
 
+# native byte order, without a byte order mark
+_UTF16 = 'utf-16-le' if sys.byteorder == 'little' else 'utf-16-be'
+_UTF32 = 'utf-32-le' if sys.byteorder == 'little' else 'utf-32-be'
+
 
 def hb_shape(font, buffer, features=None):
     if features is None:
@@ -464,12 +469,12 @@ class HBBuffer(object):
         return self._buffer
 
     def add_utf16(self, text):
-        arr = array.array('H', text.encode('utf-16'))
+        arr = array.array('H', text.encode(_UTF16))
         buf = ffi.new('uint16_t[]', arr.tolist())
         lib.hb_buffer_add_utf16(self._buffer, buf, len(buf), 0, -1)
 
     def add_utf32(self, text):
-        arr = array.array('I', text.encode('utf-32'))
+        arr = array.array('I', text.encode(_UTF32))
         buf = ffi.new('uint32_t[]', arr.tolist())
         lib.hb_buffer_add_utf32(self._buffer, buf, len(buf), 0, -1)
 
-- 
2.43.0


From de2413561d02e77fd5dd822b81d4f6171a6678cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 81/87] fix: keep what HarfBuzz objects are made from

Blobs, faces and fonts refer to memory of the object they were made from,
which was freed with it, and HBFont.get_face() released a reference that it
did not hold.
---
 svgpy/harfbuzz.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 973630d..84d3764 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -99,13 +99,14 @@ class HBDirection(object):
 class HBFace(object):
     """Represents the 'hb_face_t' data type."""
 
-    def __init__(self, hb_face, reference=False):
+    def __init__(self, hb_face, reference=False, _source=None):
         """Constructs a HBFace object.
 
         Arguments:
             hb_face (cdata): A pointer of C type <cdata 'hb_face_t *'>.
         """
         self._face = hb_face
+        self._source = _source  # keep a reference
         if reference:
             self.reference()
 
@@ -126,7 +127,7 @@ class HBFace(object):
             HBFace: A new HBFace object.
         """
         face = lib.hb_face_create(blob.hb_blob, index)
-        return HBFace(face)
+        return HBFace(face, _source=blob)
 
     def get_glyph_count(self):
         glyph_count = lib.hb_face_get_glyph_count(self._face)
@@ -168,7 +169,7 @@ class HBFTFace(HBFace):
             HBFTFace: A new HBFTFace object.
         """
         hb_face = lib.hb_ft_face_create(face.ft_face, ffi.NULL)
-        return HBFTFace(hb_face)
+        return HBFTFace(hb_face, _source=face)
 
 
 class HBFeature(object):
@@ -245,13 +246,14 @@ class HBFeature(object):
 class HBFont(object):
     """Represents the 'hb_font_t' data type."""
 
-    def __init__(self, hb_font, reference=False):
+    def __init__(self, hb_font, reference=False, _source=None):
         """Constructs a HBFont object.
 
         Arguments:
             hb_font (cdata): A pointer of C type <cdata 'hb_font_t *'>.
         """
         self._font = hb_font
+        self._source = _source  # keep a reference
         if reference:
             self.reference()
 
@@ -273,11 +275,11 @@ class HBFont(object):
             HBFont: A new HBFont object.
         """
         font = lib.hb_font_create(face.hb_face)
-        return HBFont(font)
+        return HBFont(font, _source=face)
 
     def get_face(self):
         face = lib.hb_font_get_face(self._font)
-        return HBFace(face)
+        return HBFace(face, reference=True, _source=self._source)
 
     def get_glyph(self, unicode, variation_selector=0):
         glyph = ffi.new('hb_codepoint_t *')
@@ -322,6 +324,7 @@ class HBFont(object):
 
     def set_face(self, face):
         lib.hb_font_set_face(self._font, face.hb_face)
+        self._source = (self._source, face)
 
 
 class HBFTFont(HBFont):
@@ -336,11 +339,11 @@ class HBFTFont(HBFont):
             HBFTFont: A new HBFTFont object.
         """
         hb_font = lib.hb_ft_font_create(face.ft_face, ffi.NULL)
-        return HBFTFont(hb_font)
+        return HBFTFont(hb_font, _source=face)
 
     def get_face(self):
         face = lib.hb_ft_font_get_face(self._font)
-        return FTFace(face, reference=True)
+        return FTFace(face, reference=True, _memory_base=self._source)
 
     def get_load_flags(self):
         load_flags = lib.hb_ft_font_get_load_flags(self._font)
@@ -395,13 +398,14 @@ class HBBlob(object):
     HB_MEMORY_MODE_WRITABLE = 3
     HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 4
 
-    def __init__(self, hb_blob, reference=False):
+    def __init__(self, hb_blob, reference=False, _source=None):
         """Constructs a HBBlob object.
 
         Arguments:
             hb_blob (cdata): A pointer of C type <cdata 'hb_blob_t *'>.
         """
         self._blob = hb_blob
+        self._source = _source  # keep a reference
         if reference:
             self.reference()
 
@@ -422,7 +426,7 @@ class HBBlob(object):
                                   mode,
                                   ffi.NULL,
                                   ffi.NULL)
-        return HBBlob(blob)
+        return HBBlob(blob, _source=data)
 
     def get_data(self):
         length = ffi.new('unsigned int *')
-- 
2.43.0


From 2c4098b25f6bbf59159926897be2c80f638cab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 82/87] fix: match fonts by family, style, width and weight as
 the styles ask

Escape the pattern characters of a family name, skip families that are not installed, follow the CSS order for width and weight, accept percentages and oblique angles, and scale the ascent and descent of a font by its own metrics.
---
 svgpy/core.py       | 96 +++++++++++++++++++++++++++------------------
 svgpy/fontconfig.py |  8 ++--
 svgpy/text.py       |  1 +
 3 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index caa7a5d..1c4a96b 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -638,7 +638,7 @@ class Font(object):
 
     @property
     def ascent(self):
-        return self._face.ascender / 64
+        return self._face.size.metrics.ascender / 64
 
     @property
     def attributes(self):
@@ -651,7 +651,7 @@ class Font(object):
             if index != 0:
                 self._face.load_char(ch, FreeType.FT_LOAD_NO_BITMAP)
                 return self._face.glyph.metrics.vert_advance / 64
-        return self._face.size.height / 64
+        return self._face.size.metrics.height / 64
 
     @property
     def ch_advance(self):
@@ -674,7 +674,7 @@ class Font(object):
 
     @property
     def descent(self):
-        return self._face.descender / 64
+        return self._face.size.metrics.descender / 64
 
     @property
     def face(self):
@@ -732,15 +732,35 @@ class FontManager(object):
         # print('----')
         pass
 
+    @staticmethod
+    def _escape(family):
+        # '-', ':' and ',' have a meaning in a pattern of the fontconfig
+        return re.sub(r'[\\\-:,]', r'\\\g<0>', family)
+
+    @staticmethod
+    def _find_family(font_family_name):
+        if len(FontManager.list(font_family_name)) > 0:
+            return font_family_name
+        name = FontManager.match(font_family_name)
+        if (font_family_name not in Font.generic_font_family
+                and name == FontManager.match(' ')):
+            # neither installed nor an alias of a font that is installed
+            return None
+        return name
+
     @staticmethod
     def _find_face(style, text=None):
         font_family_names = list()
-        for font_family_name in iter(style['font-family']):
-            name = FontManager.match(font_family_name)
+        for font_family_name in (list(style['font-family'])
+                                 + [Font.default_font_family]):
+            name = FontManager._find_family(font_family_name)
             if name is not None and name not in font_family_names:
                 font_family_names.append(name)
         font_stretch = style['font-stretch']
-        fc_width = FontConfig.FC_WIDTH_MAP.get(font_stretch)
+        if font_stretch.endswith('%'):
+            fc_width = float(font_stretch[:-1])
+        else:
+            fc_width = FontConfig.FC_WIDTH_MAP.get(font_stretch, 100)
         font_style = style['font-style']
         font_weight = style['font-weight']
         font_size = style['font-size']
@@ -756,24 +776,19 @@ class FontManager(object):
             # narrow down by 'font-stretch' property (fontconfig width)
             # font-stretch : normal | ultra-condensed
             #  | extra-condensed | condensed | semi-condensed | semi-expanded
-            #  | expanded | extra-expanded | ultra-expanded
+            #  | expanded | extra-expanded | ultra-expanded | <percentage>
             group = [x for x in iter(matched) if
-                     fc_width == x[FontConfig.FC_WIDTH]]
-            if len(group) == 0 and fc_width is not None:
-                # narrow down by nearest font width
-                fc_width_table = set(
-                    [x[FontConfig.FC_WIDTH] for x in iter(matched)])
-                if (font_stretch == 'normal'
-                        or font_stretch.endswith('condensed')):
-                    # 'normal' or '*condensed'
-                    fc_width_table = sorted(fc_width_table)
-                elif font_stretch.endswith('expanded'):
-                    # '*expanded'
-                    fc_width_table = sorted(fc_width_table, reverse=True)
-                index = np.abs(
-                    np.asarray(fc_width_table) - fc_width).argmin()
+                     abs(fc_width - x[FontConfig.FC_WIDTH]) <= 0.5]
+            if len(group) == 0:
+                # See https://drafts.csswg.org/css-fonts-4/#font-style-matching
+                fc_widths = [x[FontConfig.FC_WIDTH] for x in iter(matched)]
+                narrower = sorted([x for x in fc_widths if x < fc_width],
+                                  reverse=True)
+                wider = sorted([x for x in fc_widths if x > fc_width])
+                order = (narrower + wider if fc_width <= 100
+                         else wider + narrower)
                 group = [x for x in iter(matched) if
-                         fc_width_table[index] == x[FontConfig.FC_WIDTH]]
+                         order[0] == x[FontConfig.FC_WIDTH]]
             if len(group) == 0:
                 continue
             else:
@@ -781,10 +796,10 @@ class FontManager(object):
                 FontManager.__debug_print(matched)
 
             # narrow down by 'font-style' property (fontconfig slant)
-            # font-style: normal | italic | oblique
+            # font-style: normal | italic | oblique <angle>?
             if font_style == 'italic':
                 order = ['italic', 'oblique', 'normal']
-            elif font_style == 'oblique':
+            elif font_style.startswith('oblique'):
                 order = ['oblique', 'italic', 'normal']
             else:
                 order = ['normal', 'oblique', 'italic']
@@ -803,18 +818,20 @@ class FontManager(object):
             group = [x for x in iter(matched) if
                      font_weight == x[FontConfig.FC_WEIGHT]]
             if len(group) == 0:
-                # FIXME: narrow down by nearest font weight.
-                fc_weight_table = set(
-                    [x[FontConfig.FC_WEIGHT] for x in iter(matched)])
-                if font_weight < Font.WEIGHT_NORMAL:  # <400
-                    fc_weight_table = sorted(fc_weight_table, reverse=True)
-                else:  # >=400
-                    fc_weight_table = sorted(fc_weight_table)
-                index = np.abs(
-                    np.asarray(fc_weight_table) - font_weight).argmin()
+                # See https://drafts.csswg.org/css-fonts-4/#font-style-matching
+                fc_weights = [x[FontConfig.FC_WEIGHT] for x in iter(matched)]
+                lighter = sorted([x for x in fc_weights if x < font_weight],
+                                 reverse=True)
+                heavier = sorted([x for x in fc_weights if x > font_weight])
+                if font_weight < 400:
+                    order = lighter + heavier
+                elif font_weight <= 500:
+                    order = ([x for x in heavier if x <= 500] + lighter
+                             + [x for x in heavier if x > 500])
+                else:
+                    order = heavier + lighter
                 group = [x for x in iter(matched) if
-                         fc_weight_table[index] == x[
-                             FontConfig.FC_WEIGHT]]
+                         x[FontConfig.FC_WEIGHT] == order[0]]
             if len(group) == 0:
                 continue
             else:
@@ -874,11 +891,13 @@ class FontManager(object):
                         # if glyph_not_found:
                         #     break
                 if not glyph_not_found:
+                    face.font_weight = fc[FontConfig.FC_WEIGHT]
                     return face
 
         # fallback font
         filename = FontConfig.match(Font.default_font_family, '%{file}')[0]
         face = FTFace.new_face(filename)
+        face.font_weight = Font.default_font_weight
         return face
 
     @staticmethod
@@ -909,7 +928,8 @@ class FontManager(object):
                        FontConfig.FC_PIXEL_SIZE, FontConfig.FC_SLANT,
                        FontConfig.FC_WEIGHT, FontConfig.FC_WIDTH]
         fc_format = '\t'.join(['%{{{}}}'.format(x) for x in fc_elements])
-        matched = FontConfig.list(family, fc_elements, fc_format)
+        matched = FontConfig.list(FontManager._escape(family), fc_elements,
+                                  fc_format)
         style_sequence = list()
         for line in iter(matched):
             items = line.split('\t')
@@ -922,14 +942,14 @@ class FontManager(object):
             style[FontConfig.FC_PIXEL_SIZE] = pixel_size
             style[FontConfig.FC_SLANT] = int(items[5])
             style[FontConfig.FC_WEIGHT] = FontConfig.weight_to_open_type(
-                int(items[6]))
+                float(items[6]))
             style[FontConfig.FC_WIDTH] = int(items[7])
             style_sequence.append(style)
         return style_sequence
 
     @staticmethod
     def match(family):
-        matched = FontConfig.match(family, '%{family[0]}')
+        matched = FontConfig.match(FontManager._escape(family), '%{family[0]}')
         if len(matched) == 0:
             return None
         return matched[0]
diff --git a/svgpy/fontconfig.py b/svgpy/fontconfig.py
index 1d30b4d..9fdc169 100644
--- a/svgpy/fontconfig.py
+++ b/svgpy/fontconfig.py
@@ -109,8 +109,8 @@ void FcStrListDone(FcStrList *list);
 void FcStrListFirst(FcStrList *list);
 FcChar8 * FcStrListNext(FcStrList *list);
 
-int FcWeightFromOpenType(int ot_weight);
-int FcWeightToOpenType(int fc_weight);
+double FcWeightFromOpenTypeDouble(double ot_weight);
+double FcWeightToOpenTypeDouble(double fc_weight);
 """
 
 ffi = FFI()
@@ -259,8 +259,8 @@ class FontConfig(object):
 
     @staticmethod
     def weight_from_open_type(ot_weight):
-        return lib.FcWeightFromOpenType(ot_weight)
+        return lib.FcWeightFromOpenTypeDouble(ot_weight)
 
     @staticmethod
     def weight_to_open_type(fc_weight):
-        return lib.FcWeightToOpenType(fc_weight)
+        return lib.FcWeightToOpenTypeDouble(fc_weight)
diff --git a/svgpy/text.py b/svgpy/text.py
index 5f031b1..ba8bce5 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -266,6 +266,7 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         font_synthesis = style['font-synthesis']
         force_embolden = True if (style['font-weight'] > Font.WEIGHT_NORMAL
+                                  and style['font-weight'] > face.font_weight
                                   and 'weight' in font_synthesis
                                   and (face.style_flags
                                        & FreeType.FT_STYLE_FLAG_BOLD) == 0
-- 
2.43.0


From 7e660ad8bf8a4d2628b5233f1be90d3913d52304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 83/87] fix: take the aspect ratio of an empty or fractional
 viewport

MediaQueryList.matches raised ZeroDivisionError for a viewport of height 0 and truncated fractional sizes.
---
 svgpy/css/mediaquery.py |  7 ++++++-
 svgpy/window.py         | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index b5d96e4..7916b1d 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import math
 import pprint
 import re
 from fractions import Fraction
@@ -259,7 +260,11 @@ def _parse_ratio(value):
     terms = [Fraction(x.strip()) for x in str(value).split('/')]
     if len(terms) > 2 or any(x < 0 for x in terms):
         raise ValueError('Expected <ratio>, got ' + repr(value))
-    return terms[0] if len(terms) == 1 else terms[0] / terms[1]
+    if len(terms) == 1:
+        return terms[0]
+    elif terms[1] == 0 and terms[0] > 0:
+        return math.inf
+    return terms[0] / terms[1]
 
 
 def _split_in_parens(query):
diff --git a/svgpy/window.py b/svgpy/window.py
index 17724e0..a7f4528 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -745,6 +745,12 @@ class MediaQueryList(object):
         self._query = query
         self._tree = mq.parse(self._query)
 
+    @staticmethod
+    def _get_ratio(width, height):
+        if height == 0:
+            return '{:d}/0'.format(width > 0)  # infinite or degenerate
+        return Fraction(str(width)) / Fraction(str(height))
+
     @property
     def matches(self):
         """bool: The matches state of the associated media query list."""
@@ -758,9 +764,10 @@ class MediaQueryList(object):
         else:
             width = win.inner_width
             height = win.inner_height
-        aspect_ratio = Fraction(int(width), int(height))
+        aspect_ratio = MediaQueryList._get_ratio(width, height)
         screen = win.screen
-        device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
+        device_aspect_ratio = MediaQueryList._get_ratio(screen.width,
+                                                        screen.height)
         conditions = {
             'media': screen.media,
             'width': '{}px'.format(width),
-- 
2.43.0


From 016d48e670693df79abf541fff02c47b6ad5506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 84/87] fix: write both mask boxes when only one of them is
 initial

The mask shorthand left out the box that was not initial, so that the text read back differently.
---
 svgpy/css/shorthands.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 78bda66..ad27e68 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -723,6 +723,17 @@ class MaskShorthand(ShorthandProperty):
             # <position> [ / <bg-size> ]?
             return ''
 
+        if ('initial' in (mask_origin, mask_clip)
+                and mask_origin != mask_clip
+                and mask_clip != 'no-clip'):
+            # a single <geometry-box> would set both properties
+            for property_name in ['mask-origin', 'mask-clip']:
+                if property_map[property_name] == 'initial':
+                    desc = css_property_descriptor_map[property_name]
+                    property_map[property_name] = desc.initial_value
+            mask_origin = property_map['mask-origin']
+            mask_clip = property_map['mask-clip']
+
         values = list()
         for property_name in shorthand_property_map['mask']:
             value = property_map[property_name]
-- 
2.43.0


From 5a437a63f875be9878a096405c467bee24fb938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 85/87] fix: pass the tag to Document.iter() once

Document.iter(tag, *tags) raised TypeError for more than one tag.
---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index a7f4528..70055ae 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -567,7 +567,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         nodes = list()
         for node in self.child_nodes:
-            children = node.iter(tag=tag, *tags)
+            children = node.iter(tag, *tags)
             for child in children:
                 nodes.append(child)
         return iter(nodes)
-- 
2.43.0


From 8fe141e9fef6f2fefa1210f92fa3a060caaecb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 86/87] fix: take the encoding of a style sheet in the order of
 css-syntax

The charset of the content type comes before @charset, and that before the advisory encoding; the quotes of a parameter value are no part of it.
---
 svgpy/css/__init__.py | 18 +++++++++++-------
 svgpy/utils.py        |  3 ++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 357a47b..56ebf97 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -20,6 +20,7 @@ from logging import getLogger
 from urllib.error import URLError
 
 import tinycss2
+import webencodings
 from tinycss2.serializer import serialize_string_value
 
 from .longhands import Longhand
@@ -1723,15 +1724,18 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
-            if encoding is None:
-                content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
+            # the charset parameter comes before '@charset', '@charset' before
+            # the advisory character encoding
+            content_type = get_content_type(headers)
+            if content_type is None:
+                charset = None
+            else:
+                charset = content_type.get('charset')
             rules, encoding = tinycss2.parse_stylesheet_bytes(
                 css_bytes=data if data is not None else b'',
-                protocol_encoding=encoding,
+                protocol_encoding=charset,
+                environment_encoding=(None if encoding is None
+                                      else webencodings.lookup(encoding)),
                 skip_comments=True,
                 skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
diff --git a/svgpy/utils.py b/svgpy/utils.py
index b4ad00a..7e95349 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -72,7 +72,8 @@ def get_content_type(headers):
     for parameter in parameters:
         items = parameter.split('=')
         if len(items) == 2:
-            result[items[0]] = items[1]
+            # value := token / quoted-string
+            result[items[0]] = items[1].strip('"')
     return result
 
 
-- 
2.43.0


From 5d3d270f6b0008c51705dc71f421fac94364dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 87/87] fix: resolve an inherited inline-size where it was
 declared

A relative inline-size that an element takes with 'inherit' was resolved
against the font of that element instead of the font of the element that
declares it.
---
 svgpy/dom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index cf9d748..e37cc94 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1810,9 +1810,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         mode = SVGLength.DIRECTION_HORIZONTAL if writing_mode in [
             'horizontal-tb', 'lr', 'lr-tb', 'rl', 'rl-tb'
         ] else SVGLength.DIRECTION_VERTICAL
+        context = self
+        if not inline_size.endswith('%'):
+            context = contexts.get('inline-size', self)
         style['inline-size'] = SVGLength(
             inline_size,
-            context=self).value(direction=mode)
+            context=context).value(direction=mode)
 
         # 'stroke-width' property
         # Value: <percentage> | <length>
-- 
2.43.0

