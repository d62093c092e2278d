From 285eeeb98a7127510ca9fe4153c0c5c18979889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 01/89] fix: reject path commands that lack their numbers
 instead of skipping or crashing

h, H and v without a number failed with a TypeError or stored a None
coordinate, V, a and A without arguments were skipped silently, and A did
not check its flags the way a does, so malformed flags invented an arc.
---
 svgio/path.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..2146154 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -176,25 +176,35 @@ class PathLexicalParser:
             elif cmd == "h":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
+                while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
@@ -292,7 +302,7 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -308,8 +318,10 @@ class PathLexicalParser:
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
+                    if not self._more():
+                        break
             elif cmd == "A":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -318,11 +330,15 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if sweep is None:
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=False)
+                    if not self._more():
+                        break
         self.parser.end()
 
 
-- 
2.43.0


From 5d95628f9bcfe21ee9eeef5a61e83727b4b5b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 02/89] fix: smooth commands only reflect the control point of
 the same kind of curve

S/s after a quadratic and T/t after a cubic reflected the control point of
the other curve type. SVG 2 9.3.6/9.3.7 requires the current point then,
which is also what is_smooth_from() assumes when writing path data.
---
 svgio/path.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2146154..aa053ad 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2448,6 +2448,13 @@ class Path(MutableSequence):
             return previous_control.reflected_across(start_pos)
         return start_pos
 
+    def _smooth_control(self, curve_type):
+        """Implied control point of a smooth command of the given curve type. The control point of the last segment
+        is only reflected if that segment was the same type of curve, otherwise it coincides with the current point."""
+        if len(self._segments) != 0 and isinstance(self._segments[-1], curve_type):
+            return self.smooth_point
+        return self.current_point
+
     def start(self):
         pass
 
@@ -2512,7 +2519,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(QuadraticBezier)
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2546,7 +2553,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(CubicBezier)
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From e8637b501ea69bff54f63c7ee8e08379506304b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 03/89] fix: Path(path) and copy(path) gave an empty path,
 Path(subpath) shared its segments

---
 svgio/path.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index aa053ad..221ba33 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1987,8 +1987,9 @@ class Path(MutableSequence):
             self._segments.extend(args)
         else:
             s = args[0]
-            if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+            if isinstance(s, (Path, Subpath)):
+                # Segments exist only once in each path.
+                self._segments.extend(map(copy, s))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
-- 
2.43.0


From 993875d4c9582428d40086a0305f44153ba74e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 04/89] fix: Path.d(), str(path), path slices by string and
 path * matrix relied on a transform that Path does not have

d() took abs() of the path, segments(True) and @= read a missing attribute,
and * was not defined although Subpath and the segments have it. A Path is
always reified, so its segments are used directly; a matrix is applied to
them and the cached lengths are dropped. Subpath.d() also ignored smooth.
---
 svgio/path.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 221ba33..3f9782b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2041,9 +2041,11 @@ class Path(MutableSequence):
     # __add__ = __iadd__
 
     def __matmul__(self, other):
-        m = copy(self)
-        m.__imatmul__(other)
-        return m
+        if isinstance(other, (Matrix, str)):
+            m = copy(self)
+            m.__imatmul__(other)
+            return m
+        return NotImplemented
 
     def __rmatmul__(self, other):
         m = copy(other)
@@ -2052,13 +2054,21 @@ class Path(MutableSequence):
 
     def __imatmul__(self, other):
         """
-        The % operation with a matrix works much like multiplication except that it automatically reifies the shape.
+        Applies the matrix to every segment. A path has no transform of its own, it is always reified.
         """
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
-        return self
+            for segment in self._segments:
+                segment *= other
+            self._length = None
+            self._lengths = None
+            return self
+        return NotImplemented
+
+    __mul__ = __matmul__
+    __rmul__ = __matmul__
+    __imul__ = __imatmul__
 
     def __setitem__(self, index, new_element):
         if isinstance(new_element, str):
@@ -2776,14 +2786,9 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2934,12 +2939,7 @@ class Subpath:
         return not self == other
 
     def segments(self, transformed=True):
-        path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
-        return path._segments[self._start : self._end + 1]
+        return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
         if index < 0:
@@ -2977,7 +2977,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From 548172d576a1acc639a638fc0596b9ca24595e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 05/89] fix: arc path data kept only six digits of the radii
 and rotation

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3f9782b..5bd46d7 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1942,7 +1942,7 @@ class Arc(Curve):
             or (relative is None and self.relative)
             or (relative is not None and not relative)
         ):
-            return "A %G,%G %G %d,%d %s" % (
+            return "A %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
@@ -1951,7 +1951,7 @@ class Arc(Curve):
                 self.end,
             )
         else:
-            return "a %G,%G %G %d,%d %s" % (
+            return "a %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
-- 
2.43.0


From 1d2bc1b1085406920ce881511ba419b33ab74fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 06/89] fix: arcs with a negative radius must use its absolute
 value

SVG 2 9.5.1 drops the sign of the radii; a single negative radius moved the
center to the wrong side.
---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 5bd46d7..f1596b2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1607,6 +1607,9 @@ class Arc(Curve):
 
         large_arc_flag = bool(large_arc_flag)
         sweep_flag = bool(sweep_flag)
+        # Out of range radii: the sign of a radius is dropped.
+        rx = abs(rx)
+        ry = abs(ry)
         start = Point(start)
         self.start = start
         end = Point(end)
-- 
2.43.0


From c5d4cb12614b3c396686d95c5b4fddf3c3900758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 07/89] fix: arcs with a zero radius are straight lines

SVG 2 9.5.1. Their points, length, bounding box and curve approximations
were those of a single point.
---
 svgio/path.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f1596b2..f8aec6a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1490,6 +1490,9 @@ class Arc(Curve):
             if self.start == self.end and self.sweep == 0:
                 # This is equivalent of omitting the segment
                 return [self.start] * len(positions)
+            if self.sweep == 0:
+                # Zero radius, this is a straight line.
+                return [Point.towards(self.start, self.end, pos) for pos in positions]
 
             start_t = self.get_start_t()
             return [
@@ -1513,6 +1516,10 @@ class Arc(Curve):
 
         if self.start == self.end and self.sweep == 0:
             xy[:, 0], xy[:, 1] = self.start
+        elif self.sweep == 0:
+            # Zero radius, this is a straight line.
+            xy[:, 0] = self.start.x + (self.end.x - self.start.x) * positions
+            xy[:, 1] = self.start.y + (self.end.y - self.start.y) * positions
         else:
             t = self.get_start_t() + self.sweep * positions
 
@@ -1569,11 +1576,12 @@ class Arc(Curve):
         integration, and in that case it's simpler to just do a geometric
         approximation, as for cubic bezier curves.
         """
-        if self.sweep == 0:
-            return 0
         if self.start == self.end and self.sweep == 0:
             # This is equivalent of omitting the segment
             return 0
+        if self.sweep == 0:
+            # Zero radius, this is a straight line.
+            return Point.distance(self.start, self.end)
         a = self.rx
         b = self.ry
         d = abs(a - b)
@@ -1698,6 +1706,12 @@ class Arc(Curve):
         self.sweep = Angle.degrees(delta).as_radians
 
     def as_quad_curves(self, arc_required=None):
+        if self.sweep == 0:
+            if self.start != self.end:
+                # Zero radius, this is a straight line.
+                mid = Point.towards(self.start, self.end, 0.5)
+                yield QuadraticBezier(self.start, mid, self.end)
+            return
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
@@ -1733,6 +1747,13 @@ class Arc(Curve):
             current_t = next_t
 
     def as_cubic_curves(self, arc_required=None):
+        if self.sweep == 0:
+            if self.start != self.end:
+                # Zero radius, this is a straight line.
+                c1 = Point.towards(self.start, self.end, 1.0 / 3.0)
+                c2 = Point.towards(self.start, self.end, 2.0 / 3.0)
+                yield CubicBezier(self.start, c1, c2, self.end)
+            return
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
@@ -1910,7 +1931,12 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return (
+                min(self.start.x, self.end.x),
+                min(self.start.y, self.end.y),
+                max(self.start.x, self.end.x),
+                max(self.start.y, self.end.y),
+            )
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From 48f1733e4897ea45b26d8701fe1d35f03b0434a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 08/89] fix: item assignment, deletion, insertion and extension
 of paths left segments unlinked

---
 svgio/path.py | 58 ++++++---------------------------------------------
 1 file changed, 6 insertions(+), 52 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f8aec6a..e13d775 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2112,26 +2112,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2297,33 +2283,6 @@ class Path(MutableSequence):
         self._calc_lengths(error, min_depth)
         return self._length
 
-    def _validate_subpath(self, index):
-        """ensure the subpath containing this index is valid."""
-        if index < 0 or index + 1 >= len(self._segments):
-            return  # This connection doesn't exist.
-        for j in range(index, len(self._segments)):
-            close_search = self._segments[j]
-            if isinstance(close_search, Move):
-                return  # Not a closed path, subpath is valid.
-            if isinstance(close_search, Close):
-                for k in range(index, -1, -1):
-                    move_search = self._segments[k]
-                    if isinstance(move_search, Move):
-                        self._segments[j].end = Point(move_search.end)
-                        return
-                self._segments[j].end = Point(self._segments[0].end)
-                return
-
-    def _validate_move(self, index):
-        """ensure the next closed point from this index points to a valid location."""
-        for i in range(index + 1, len(self._segments)):
-            segment = self._segments[i]
-            if isinstance(segment, Move):
-                return  # Not a closed path, the move is valid.
-            if isinstance(segment, Close):
-                segment.end = Point(self._segments[index].end)
-                return
-
     def _validate_close(self, index):
         """ensure the close element at this position correctly links to the previous move"""
         for i in range(index, -1, -1):
@@ -2679,21 +2638,16 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
+        elif iterable is self:
+            iterable = copy(self)  # Segments exist only once in each path.
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From 3f9a33cf60dd3d7b058ede363703be18ce86864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 09/89] fix: subpaths escaped their window, lost track of its
 end, and left the path unlinked or with stale lengths after writes

---
 svgio/path.py | 53 +++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e13d775..e948707 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2821,23 +2821,29 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end += len(self._path) - size
 
     def __iadd__(self, other):
+        size = len(self._path)
+        last = self._end + 1
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[last:last] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[last:last] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(last, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
@@ -2850,7 +2856,7 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
@@ -2865,6 +2871,8 @@ class Subpath:
         if isinstance(other, Matrix):
             for e in self:
                 e *= other
+            self._path._length = None
+            self._path.validate_connections()
         return self
 
     def __mul__(self, other):
@@ -2925,6 +2933,9 @@ class Subpath:
         return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
+        size = len(self)
+        if not -size <= index < size:
+            raise IndexError("subpath index out of range")
         if index < 0:
             return self._end + index + 1
         else:
@@ -2932,22 +2943,18 @@ class Subpath:
 
     def index_to_path_index(self, index):
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
-            return slice(start, stop, step)
+            start, stop, step = index.indices(len(self))
+            if step < 0 and start < 0:
+                return slice(0, 0, step)  # Empty
+            if step < 0 and stop < 0 and self._start == 0:
+                return slice(start, None, step)
+            return slice(self._start + start, self._start + stop, step)
         return self._numeric_index(index)
 
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
@@ -2965,8 +2972,8 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        s = self._start + start
+        e = self._start + end
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2977,10 +2984,9 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
-        self._path._validate_connection(start - 1, prefer_second=True)
-        self._path._validate_connection(end)
+        self._path._length = None
+        self._path._validate_connection(self._start + start - 1, prefer_second=True)
+        self._path._validate_connection(self._start + end)
 
     def reverse(self):
         size = len(self)
@@ -2999,10 +3005,11 @@ class Subpath:
             if isinstance(self[0], Move):
                 self[0].end = Point(self[1].start)
         last = self[-1]
-        if isinstance(last, Close):
+        if size > 1 and isinstance(last, Close):
             last.reverse()
             if last.start != self[-2].end:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+        self._path.validate_connections()
         return self
-- 
2.43.0


From 286d15c93fd5251cc74fbc993e0fb706c761eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 10/89] fix: Path.npoint skipped segments, returned
 uninitialised points and failed on lists and zero length paths

---
 svgio/path.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e948707..cf1b69b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2209,35 +2209,39 @@ class Path(MutableSequence):
         segments = self.segments(False)
         if len(segments) == 0:
             return None
+        positions = np.asarray(positions, dtype=float)
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for i, position in enumerate(positions):
+                xy[i] = list(self.point(position, error=error))
             return xy
 
+        # The ends of the path.
+        before = positions <= 0.0
+        if before.any():
+            xy[before] = [list(p) for p in segments[0].npoint(positions[before])]
+        after = positions >= 1.0
+        if after.any():
+            xy[after] = [list(p) for p in segments[-1].npoint(positions[after])]
+        remaining = ~(before | after)
+
         # Find which segment the point we search for is located on:
         segment_start = 0
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-            position_subset = (segment_start <= positions) & (positions < segment_end)
+            position_subset = remaining & (positions <= segment_end)
             v0 = positions[position_subset]
-            if not len(v0):
-                continue  # Nothing matched.
-            d = segment_end - segment_start
-            if d == 0:  # This segment is 0 length.
-                segment_pos = 0.0
-            else:
-                segment_pos = (v0 - segment_start) / d
-            c = segment.npoint(segment_pos)
-            xy[position_subset] = c[:]
+            if len(v0):
+                segment_pos = (v0 - segment_start) / (segment_end - segment_start)
+                xy[position_subset] = segment.npoint(segment_pos)
+                remaining &= ~position_subset
             segment_start = segment_end
-
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # The sum of the lengths may fall short of 1 by some rounding.
+        if remaining.any():
+            xy[remaining] = list(segments[-1].point(1.0))
         return xy
 
     def point(self, position, error=ERROR):
@@ -2258,7 +2262,7 @@ class Path(MutableSequence):
             if position >= 1.0:
                 return segments[-1].point(position)
         except ValueError:
-            return self.npoint([position], error=error)[0]
+            return self.npoint(position, error=error)
 
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
@@ -2268,7 +2272,7 @@ class Path(MutableSequence):
             return segments[i].point(0.0)
         # Find which segment the point we search for is located on:
         segment_start = 0
-        segment_pos = 0
+        segment_pos = 1  # The sum of the lengths may fall short of 1 by some rounding.
         segment = segments[0]
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-- 
2.43.0


From 49bcc4fba2fba4e8f2a7dc3ededa464a6e7bc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 11/89] fix: arcs under reflections, quarter turns and skews
 kept the wrong sweep or stale axes

---
 svgio/path.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index cf1b69b..4760bbf 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1445,12 +1445,31 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if self.sweep is not None and other.determinant < 0:
+                # The orientation of the plane is inverted.
                 self.sweep = -self.sweep
+            self._restore_axes()
         return self
 
+    def _restore_axes(self):
+        """
+        After a skew or a non-uniform scale the points prx and pry are still on the ellipse but, in general, they are
+        merely conjugate to each other. Replaces them with the axis points of the same ellipse.
+        """
+        if self.center is None or self.prx is None or self.pry is None:
+            return
+        ux, uy = self.prx.x - self.center.x, self.prx.y - self.center.y
+        vx, vy = self.pry.x - self.center.x, self.pry.y - self.center.y
+        u_sq, v_sq = ux * ux + uy * uy, vx * vx + vy * vy
+        uv = ux * vx + uy * vy
+        if abs(uv) > 1e-10 * sqrt(u_sq * v_sq):
+            t = atan2(2 * uv, u_sq - v_sq) / 2.0
+            cos_t, sin_t = cos(t), sin(t)
+            ux, vx = ux * cos_t + vx * sin_t, vx * cos_t - ux * sin_t
+            uy, vy = uy * cos_t + vy * sin_t, vy * cos_t - uy * sin_t
+            self.prx = Point(self.center.x + ux, self.center.y + uy)
+            self.pry = Point(self.center.x + vx, self.center.y + vy)
+
     def __len__(self):
         return 5
 
-- 
2.43.0


From f86c6557c141ec3afa5f9a687d9aab652e5a10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 12/89] fix: adding segments shared and modified the operands

---
 svgio/path.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4760bbf..db6ab4a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -391,10 +391,12 @@ class PathSegment:
 
     def __iadd__(self, other):
         if isinstance(other, PathSegment):
-            path = Path(self, other)
+            path = Path(copy(self))
+            path += copy(other)
             return path
         elif isinstance(other, str):
-            path = Path(self) + other
+            path = Path(copy(self))
+            path += other
             return path
         return NotImplemented
 
@@ -2150,6 +2152,8 @@ class Path(MutableSequence):
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, Subpath, PathSegment)):
             n = copy(self)
             n += other
@@ -2163,7 +2167,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
@@ -2870,6 +2874,8 @@ class Subpath:
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, PathSegment)):
             n = copy(self)
             n += other
@@ -2883,7 +2889,7 @@ class Subpath:
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 9e9c30d1ebd2192e1130621f82bff0bd25f8626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 13/89] fix: arcs with sweeps a full turn apart compared equal

---
 svgio/path.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index db6ab4a..f1a2944 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1425,9 +1425,15 @@ class Arc(Curve):
             and self.prx == other.prx
             and self.pry == other.pry
             and self.center == other.center
-            and self.sweep == other.sweep
+            and self._same_sweep(other)
         )
 
+    def _same_sweep(self, other):
+        """The sweep is an amount, unlike an angle it is not equal to itself plus a turn."""
+        if self.sweep is None or other.sweep is None:
+            return self.sweep is other.sweep
+        return abs(float(self.sweep) - float(other.sweep)) <= 1e-11
+
     def __ne__(self, other):
         if not isinstance(other, Arc):
             return NotImplemented
-- 
2.43.0


From 558141b6d6976400591bb944011477ec87612b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 14/89] fix: bounding box of cubic curves that are quadratic in
 x or y

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index f1a2944..d76f485 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1079,7 +1079,12 @@ class CubicBezier(Curve):
                 if 0 < r2 < 1:
                     local_extremizers.append(r2)
         else:
-            local_extremizers.append(0.5)
+            # The derivative is linear.
+            slope = 2 * (a[0] - 2 * a[1] + a[2])
+            if slope != 0:
+                r = (a[0] - a[1]) / slope
+                if 0 < r < 1:
+                    local_extremizers.append(r)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From e3bfb6798b72d07dfdcf00be3da4b058c3f3a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 15/89] fix: lengths compared equal to any length of a
 convertible unit, pt and pc converted the wrong way

---
 svgio/basic.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..cd3a9c4 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -308,14 +308,16 @@ class Length(object):
             other = Length(other)
         if self.amount == other.amount and self.units == other.units:
             return True
+        if self.amount == 0 and other.amount == 0:
+            return True  # Zero is zero in any units.
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
@@ -327,9 +329,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From 0519b6b58b917a7c923726850f82c786017ec8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 16/89] fix: vmin and vmax lengths ignored the width of the
 viewbox

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index cd3a9c4..69c05e5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -465,13 +465,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From 531deae7fa8be81f708238ef6d21d1c271ef81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 17/89] fix: aliceblue had the wrong red

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 69c05e5..8e70985 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -686,8 +686,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From ddd832a67a74b50193e690773a0897125682d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 18/89] fix: hue, saturation and lightness setters took degrees
 for turns and dropped the alpha

---
 svgio/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 8e70985..19b8f1c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -629,6 +629,7 @@ class Color(object):
 
     @staticmethod
     def hsl_to_int(h, s, l, opacity=1.0):
+        h %= 1.0
         def hue_2_rgb(v1, v2, vh):
             if vh < 0:
                 vh += 1
@@ -1414,10 +1415,11 @@ class Color(object):
     def hsl(self, value):
         if not isinstance(value, (tuple, list)):
             return
-        h = value[0]
+        h = Angle.degrees(value[0]).as_turns
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        self.value = Color.hsl_to_int(h, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From 8b3daed1ce7055bfb7bdd82b3398857d6137b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 19/89] fix: Color.over and blend failed on colours given as
 text

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 19b8f1c..ff7aff3 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1330,11 +1330,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 00d3e17005e886a3a8667c29cdaaf4830868d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 20/89] fix: colour distance shifted red and green out of the
 sum

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index ff7aff3..5f9f05e 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1393,9 +1393,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From c1dbeb691048a599d6edfa3db0364d349db888c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 21/89] fix: rgb() with fractional channels raised ValueError

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 5f9f05e..caaf88a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1009,9 +1009,9 @@ class Color(object):
     @staticmethod
     def parse_color_rgb(values):
         """Parse SVG Color, RGB value declarations """
-        r = int(values[0])
-        g = int(values[1])
-        b = int(values[2])
+        r = round(float(values[0]))
+        g = round(float(values[1]))
+        b = round(float(values[2]))
         if values[3] is not None:
             opacity = float(values[3])
         else:
-- 
2.43.0


From c5d3797fbc948048d46a6aa6c7d6e445e3215c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 22/89] fix: Color.distinct repeated colours at perfect cubes

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index caaf88a..f591c89 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1059,7 +1059,9 @@ class Color(object):
         """
 
         def _pattern(pattern: int):
-            n = int(pattern ** (1.0 / 3.0))
+            n = int(round(pattern ** (1.0 / 3.0)))
+            if n * n * n > pattern:
+                n -= 1
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From daecb9019201955bc8acc779b372c247dde3f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 23/89] fix: iterating a Matrix never ended, indices past the
 sixth entry raise IndexError

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index f591c89..ce752cd 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2026,6 +2026,8 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        else:
+            raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
@@ -2040,6 +2042,8 @@ class Matrix:
             self.e = value
         elif key == 5:
             self.f = value
+        else:
+            raise IndexError
 
     def __repr__(self):
         return "Matrix(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 1a291139edfc36d15ad9001312a101ab137358b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 24/89] fix: text times Matrix raised AttributeError

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index ce752cd..3bb90d0 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1997,6 +1997,8 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
+        if isinstance(other, str):
+            other = Matrix(other)
         m = copy(other)
         m.__imatmul__(self)
         return m
-- 
2.43.0


From f7bac14260c1808a434d6414f0a9cdb4f30a13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 25/89] fix: preserveAspectRatio with extra blanks lost its
 meet or slice

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3bb90d0..bb97c4c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2636,7 +2636,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 0d76e30ec86a2e490d457603fce4460d3ada1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 26/89] fix: angles either side of a full turn compared unequal
 and != contradicted ==

---
 svgio/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index bb97c4c..1aa0c99 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1846,8 +1846,11 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        c1 = (self - other) % tau
+        return min(c1, tau - c1) <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From af09afae060631c635f5daa317d8ce5000dbdfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 27/89] fix: as_positive_degrees never returned for large
 negative angles

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 1aa0c99..e0fd0cb 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1901,8 +1901,8 @@ class Angle(float):
     @property
     def as_positive_degrees(self):
         v = self.as_degrees
-        while v < 0:
-            v += 360.0
+        if v < 0:
+            v %= 360.0
         return v
 
     @property
-- 
2.43.0


From 67cc76697fd9c6ca2ee532c0c2b926febceb93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 28/89] fix: convex_hull lost corners or never ended with
 points in a line

---
 svgio/basic.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e0fd0cb..7fc06cd 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1794,16 +1794,23 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
+        points = sorted(set(pts), key=lambda p: (p[0], p[1]))
         first_point_on_hull = points[0]
         point_on_hull = first_point_on_hull
         while True:
             yield point_on_hull
             endpoint = point_on_hull
             for t in points:
-                if (
-                    point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
+                if t is point_on_hull:
+                    continue
+                if point_on_hull is endpoint:
+                    endpoint = t
+                    continue
+                orientation = Point.orientation(point_on_hull, t, endpoint)
+                if orientation == 2 or (
+                    orientation == 0
+                    and Point.distance(point_on_hull, t)
+                    > Point.distance(point_on_hull, endpoint)
                 ):
                     endpoint = t
             point_on_hull = endpoint
-- 
2.43.0


From 59673f586ce89d05d966110ec8c5ee53bf1befb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 29/89] fix: argument of points left of or on the y axis

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7fc06cd..c9172fd 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1742,7 +1742,7 @@ class Point:
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From 69d0235240af43ea435405bffe64f9cc23fe6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 30/89] fix: transforms read ex lengths as user units

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From 1c9f0c5db4a28d629153a1d07d2ea9787b6ebcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 31/89] fix: arcs from end, center and sweep had no start and
 moved their end

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d76f485..ff5e32d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1398,7 +1398,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 1495285484feffed371cac4a14b3b319e10eb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 32/89] fix: Arc with six keywords that include the rotation
 raised TypeError

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index ff5e32d..aaae501 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1196,7 +1196,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From 9ff2b439f5b3b87a6d0cd19af41121aa35c174ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 33/89] fix: half circles by radius ran counterclockwise by
 default

---
 svgio/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index aaae501..33918c7 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1325,9 +1325,9 @@ class Arc(Curve):
                     mid.x + sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
                     mid.y + sqrt(r ** 2 - hq ** 2) * (self.end.x - self.start.x) / q,
                 )
-                cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "ccw" in kwargs and kwargs["ccw"] and cw or not cw:
-                    # ccw arg exists, is true, and we found the cw center, or we didn't find the cw center.
+                if "ccw" in kwargs and kwargs["ccw"]:
+                    # ccw arg exists, is true, and this is the cw center.
+                    cw = False
                     self.center = Point(
                         mid.x
                         - sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
-- 
2.43.0


From 6e0266dc18e11a163af1ccd97af032208e33762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 34/89] fix: counterclockwise quarter arcs by rx and ry missed
 their end

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 33918c7..6efa48b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1342,10 +1342,10 @@ class Arc(Curve):
                 self.sweep = tau / 4.0
                 self.center = Point(self.start.x, self.end.y)
                 cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "scooped" in kwargs and kwargs["scooped"]:
+                if kwargs.get("scooped") or kwargs.get("ccw"):
                     self.sweep = -self.sweep
                     cw = not cw
-                if ("ccw" in kwargs and kwargs["ccw"] and cw) or not cw:
+                if not cw:
                     self.center = Point(self.end.x, self.start.y)
 
         if self.center is None:
-- 
2.43.0


From 405ceae79c7662b64961e89ce6252925b59a0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 35/89] fix: arcs by control point or bulge were off when a
 chord was nearly level

---
 svgio/path.py | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6efa48b..73bc0d5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1272,44 +1272,21 @@ class Arc(Curve):
             if control is not None:
                 delta_a = control - self.start
                 delta_b = self.end - control
-                try:
-                    slope_a = delta_a.y / delta_a.x
-                except ZeroDivisionError:
-                    slope_a = float("inf")
-                try:
-                    slope_b = delta_b.y / delta_b.x
-                except ZeroDivisionError:
-                    slope_b = float("inf")
                 ab_mid = Point.towards(self.start, control, 0.5)
                 bc_mid = Point.towards(control, self.end, 0.5)
-                if delta_a.y == 0:  # slope_a == 0
-                    cx = ab_mid.x
-                    if delta_b.x == 0:  # slope_b == inf
-                        cy = bc_mid.y
-                    else:
-                        cy = bc_mid.y + (bc_mid.x - cx) / slope_b
-                elif delta_b.y == 0:  # slope_b == 0
-                    cx = bc_mid.x
-                    if delta_a.y == 0:  # slope_a == inf
-                        cy = ab_mid.y
-                    else:
-                        cy = ab_mid.y + (ab_mid.x - cx) / slope_a
-                elif delta_a.x == 0:  # slope_a == inf
-                    cy = ab_mid.y
-                    cx = slope_b * (bc_mid.y - cy) + bc_mid.x
-                elif delta_b.x == 0:  # slope_b == inf
-                    cy = bc_mid.y
-                    cx = slope_a * (ab_mid.y - cy) + ab_mid.x
-                elif slope_a == slope_b:
+                cross = delta_a.x * delta_b.y - delta_a.y * delta_b.x
+                if cross == 0:
+                    # In line, there is no circle through these.
                     cx = ab_mid.x
                     cy = ab_mid.y
                 else:
-                    cx = (
-                        slope_a * slope_b * (ab_mid.y - bc_mid.y)
-                        - slope_a * bc_mid.x
-                        + slope_b * ab_mid.x
-                    ) / (slope_b - slope_a)
-                    cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    # The bisectors of start-control and control-end meet at the center.
+                    k = (
+                        (bc_mid.x - ab_mid.x) * delta_b.x
+                        + (bc_mid.y - ab_mid.y) * delta_b.y
+                    ) / cross
+                    cx = ab_mid.x - k * delta_a.y
+                    cy = ab_mid.y + k * delta_a.x
                 self.center = Point(cx, cy)
                 cw = bool(Point.orientation(self.start, control, self.end) == 2)
             elif "r" in kwargs:
-- 
2.43.0


From 8f8936dcbf3740c3fcf31bda8c4e90f1c528df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 36/89] fix: writing nodes as XML imported a module removed
 from Python

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..d632a08 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
         return self._name().lower()
 
     def xml(self, context=None):
-        from xml.etree.cElementTree import Element, SubElement, tostring
+        from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
             context = Element(self.tag())
-- 
2.43.0


From a5aaece56902ea48f06c77bf2a005776c536c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 37/89] fix: defs, symbol, marker, switch, style, metadata and
 gradients could not be loaded

---
 svgio/nodes.py | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d632a08..90c55e5 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1802,9 +1802,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1857,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1897,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1933,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 6a0c07191b9fe06943f4c3d6f5a4599cd1c40713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 38/89] fix: a mask was not a node, loading one with children
 failed

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 90c55e5..a1a3262 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
-- 
2.43.0


From fa5f56d19eb2b11b120fca4351e98373787cda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 39/89] fix: image nodes had no attributes and could not be
 built

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index a1a3262..ea511b9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
-- 
2.43.0


From 855b30f3d5a4b63543168592467c24bfe3ba439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 40/89] fix: the data of an embedded image could not be read

---
 svgio/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ea511b9..789f65a 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1653,13 +1653,13 @@ class Image(Element, GraphicalElement, Transformable):
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 050e1604fbdd21d67c1f115a369b913ada99c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 41/89] fix: clipPath, gradient, a and switch elements had
 other names or classes than in SVG

---
 svgio/nodes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 789f65a..ea0294f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1385,7 +1385,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1921,6 +1921,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1934,11 +1937,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
@@ -2306,8 +2315,12 @@ BOOTSTRAP = {
     "desc": Desc,
     "metadata": Metadata,
     "clip-path": ClipPath,
+    "clipPath": ClipPath,
     "mask": Mask,
+    "switch": Switch,
     "lineargradient": LinearGradient,
+    "linearGradient": LinearGradient,
     "radialgradient": RadialGradient,
+    "radialGradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From 260634665cad61ab0ea752eed806c082935036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 42/89] fix: elements without a class of their own were saved
 as <node>

---
 svgio/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ea0294f..1741cc8 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -46,6 +46,7 @@ class Node(list):
         self.parent = None
         self.attributes = dict()
         self.attributes.update(kwargs)
+        self._tag = None  # Tag of an element without a class of its own.
 
     def __str__(self):
         return self.xml()
@@ -66,6 +67,8 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
+        if self._tag is not None:
+            return self._tag
         return self._name().lower()
 
     def xml(self, context=None):
@@ -109,6 +112,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                    node._tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
-- 
2.43.0


From f6fd1885940cbcbe3247d85d7ff6bafae8fed116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 43/89] fix: the text of elements was lost on loading

---
 svgio/nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 1741cc8..c193536 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -47,6 +47,8 @@ class Node(list):
         self.attributes = dict()
         self.attributes.update(kwargs)
         self._tag = None  # Tag of an element without a class of its own.
+        self._text = None  # Text before the first child.
+        self._tail = None  # Text between this node and the next.
 
     def __str__(self):
         return self.xml()
@@ -78,6 +80,8 @@ class Node(list):
             context = Element(self.tag())
         else:
             context = SubElement(context, self.tag())
+            context.tail = self._tail
+        context.text = self._text
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
@@ -124,6 +128,10 @@ class Node(list):
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
             elif event == "end":
+                # Text is only complete at the end of an element.
+                node._text = elem.text
+                for child, child_elem in zip(node, elem):
+                    child._tail = child_elem.tail
                 # event is 'end', pop values.
                 node = node.parent  # Parent is now node.
 
-- 
2.43.0


From aa510853ab1aa5fb8f3bb3c329eaa49730dc6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 44/89] fix: parsing elements with an id into a node without a
 document failed

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c193536..91ad6ab 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -123,7 +123,8 @@ class Node(list):
 
                 siblings.append(node)  # siblings now includes this node.
 
-                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
+                if document is not None and SVG_ATTR_ID in attributes:
+                    # If we have an ID, we save the node.
                     document.objects[
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
-- 
2.43.0


From 83d264a19e3509c3c4b4b639161d792d61476057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 45/89] fix: the siblings of a node were those of the first
 equal node

---
 svgio/nodes.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 91ad6ab..bae1e91 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -178,11 +178,20 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
-            return self.parent[index + 1]
-        except (AttributeError, IndexError):
+            return self.parent[self._sibling_index() + 1]
+        except (TypeError, IndexError):
             return None
 
+    def _sibling_index(self):
+        """
+        Position of this very node in its parent, other nodes may be equal to it.
+        """
+        if self.parent is not None:
+            for index, node in enumerate(self.parent):
+                if node is self:
+                    return index
+        return None
+
     @property
     def node_type(self):
         """
@@ -221,13 +230,10 @@ class Node(list):
         null if the specified node is the first in that list.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            if index == 0:
-                return None
-            return self.parent[index - 1]
-        except (AttributeError, IndexError):
+        index = self._sibling_index()
+        if not index:
             return None
+        return self.parent[index - 1]
 
     @property
     def text_content(self):
-- 
2.43.0


From 81df26d98f66cdb731e4826a7bc4eb9a7efd345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 46/89] fix: previous_element_sibling was the next sibling

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index bae1e91..e6381a4 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -395,7 +395,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From e709938304c92f6a283054e245b220c2ae7603b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 47/89] fix: is_equal_node ignored the tags and attributes of
 the nodes

---
 svgio/nodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index e6381a4..942c954 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -291,7 +291,16 @@ class Node(list):
         and so on. The specific set of data points that must match varies depending on the types of the nodes.
         :return:
         """
-        return self == node
+        return (
+            isinstance(node, Node)
+            and self.tag() == node.tag()
+            and self.attributes == node.attributes
+            and self._text == node._text
+            and len(self) == len(node)
+            and all(
+                a.is_equal_node(b) and a._tail == b._tail for a, b in zip(self, node)
+            )
+        )
 
     def is_same_node(self, node):
         """
-- 
2.43.0


From db2ed6d412d2011136269c6cebc79c1b07ad01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 48/89] fix: the stroke of an element with a stroke-opacity
 recursed for ever

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 942c954..a08f6e4 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -563,11 +563,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 75ff70d0788296020505909da4b560e0abd63d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:53 +0000
Subject: [PATCH 49/89] fix: elements took geometry, transforms and links from
 their ancestors

---
 svgio/constants.py | 54 ++++++++++++++++++++++++++++++++++++++++++++++
 svgio/nodes.py     |  4 +++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index eaf72ed..e61ff3b 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -91,6 +91,60 @@ SVG_ATTR_PATTERN_UNITS = "patternUnits"
 
 SVG_ATTR_VECTOR_EFFECT = "vector-effect"
 
+# Properties an element without a value of its own takes from its ancestors.
+# https://www.w3.org/TR/SVG11/propidx.html
+SVG_INHERITED = frozenset(
+    (
+        "clip-rule",
+        "color",
+        "color-interpolation",
+        "color-interpolation-filters",
+        "color-profile",
+        "color-rendering",
+        "cursor",
+        "direction",
+        "fill",
+        "fill-opacity",
+        "fill-rule",
+        "font",
+        "font-face",
+        "font-family",
+        "font-size",
+        "font-size-adjust",
+        "font-stretch",
+        "font-style",
+        "font-variant",
+        "font-weight",
+        "glyph-orientation-horizontal",
+        "glyph-orientation-vertical",
+        "image-rendering",
+        "kerning",
+        "letter-spacing",
+        "marker",
+        "marker-end",
+        "marker-mid",
+        "marker-start",
+        "paint-order",
+        "pointer-events",
+        "shape-rendering",
+        "stroke",
+        "stroke-dasharray",
+        "stroke-dashoffset",
+        "stroke-linecap",
+        "stroke-linejoin",
+        "stroke-miterlimit",
+        "stroke-opacity",
+        "stroke-width",
+        "text-anchor",
+        "text-rendering",
+        "visibility",
+        "word-spacing",
+        "writing-mode",
+        "{http://www.w3.org/XML/1998/namespace}lang",
+        "{http://www.w3.org/XML/1998/namespace}space",
+    )
+)
+
 SVG_UNIT_TYPE_USERSPACEONUSE = "userSpaceOnUse"
 SVG_UNIT_TYPE_OBJECTBOUNDINGBOX = "objectBoundingBox"
 
diff --git a/svgio/nodes.py b/svgio/nodes.py
index a08f6e4..3291194 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -464,7 +464,9 @@ class Document(Node):
     def get_values(node):
         values = dict()
         for n in reversed(list(Document.get_ancestors(node))):
-            values.update(n.attributes)
+            for key, value in n.attributes.items():
+                if n is node or key in SVG_INHERITED:
+                    values[key] = value
         return values
 
     def add(self, node):
-- 
2.43.0


From 7d40c25c3cacdcefa981d6b59a7df8c7a57586fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:53 +0000
Subject: [PATCH 50/89] fix: circles built with a center had x and y instead of
 cx and cy

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3291194..6ec7058 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1111,8 +1111,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From 521356400fce49c647fcbffd175f4e8d29b1464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:53 +0000
Subject: [PATCH 51/89] fix: nodes built into a document could not be found by
 their id

---
 svgio/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 6ec7058..e5104a8 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -422,6 +422,8 @@ class ElementBuilder:
         node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        if self.document is not None and SVG_ATTR_ID in node.attributes:
+            self.document.objects[node.attributes[SVG_ATTR_ID]] = node
 
 
 class Document(Node):
-- 
2.43.0


From fc1f247fb7e20bee44158cfd56e4d8f97748a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:53 +0000
Subject: [PATCH 52/89] fix: nodes added to a document had no parent, document
 or known ids

---
 svgio/nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index e5104a8..4ff8dfa 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -472,7 +472,15 @@ class Document(Node):
         return values
 
     def add(self, node):
+        node.parent = self
         self.append(node)
+        nodes = [node]
+        while nodes:
+            n = nodes.pop()
+            n.document = self
+            if SVG_ATTR_ID in n.attributes:
+                self.objects[n.attributes[SVG_ATTR_ID]] = n
+            nodes.extend(n)
 
     def get_element_by_id(self, id):
         return self.objects.get(id)
-- 
2.43.0


From 585d14a424dc94ec21aa9b66befb72a76a0b5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:53 +0000
Subject: [PATCH 53/89] fix: str and repr of text elements raised
 AttributeError

---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 4ff8dfa..5ead84f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1567,24 +1567,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 263b4f1cd37739413c4b5648e523beaa099fda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 54/89] fix: documents were written as their representation and
 not as SVG

---
 svgio/nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5ead84f..fc911b4 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -73,7 +73,7 @@ class Node(list):
             return self._tag
         return self._name().lower()
 
-    def xml(self, context=None):
+    def xml(self, context=None, **attributes):
         from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
@@ -85,6 +85,8 @@ class Node(list):
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
+        for k in attributes:
+            context.set(k, attributes[k])
         for c in self:
             c.xml(context)
         return tostring(context, encoding="unicode")
@@ -493,8 +495,9 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        with io.open(filename, mode="w", encoding="utf-8") as output:
+            for node in self:
+                output.write(node.xml(xmlns=SVG_VALUE_XMLNS))
 
     def render(self):
         pass
-- 
2.43.0


From 0cf32933c95a9cf9fc4b64a82f918d135882ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 55/89] fix: the data of an image without a link raised
 AttributeError

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index fc911b4..705891b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1673,7 +1673,7 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
-        if url.startswith("data:image/"):
+        if url is not None and url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
-- 
2.43.0


From 55a6cf3d557844927a976b030ad5365de12ce7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 56/89] fix: building several relative segments kept only the
 first one relative

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 73bc0d5..2d8fead 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2498,7 +2498,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2542,7 +2542,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2559,7 +2559,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2580,7 +2580,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2600,7 +2600,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2618,7 +2618,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From f2129c9907b14fb21f4b0fac5eef2b8c1e06e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 57/89] fix: numbers with an exponent ending in zero were
 written without the zero

---
 svgio/basic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index c9172fd..a7f001e 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1533,11 +1533,7 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
-            x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
-            y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
     def __imul__(self, other):
-- 
2.43.0


From 0b19ca75e0c5471de2ede6e51492cf3954697b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 58/89] fix: the repr of the colour none was that of black

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index a7f001e..4cfd9df 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -583,7 +583,7 @@ class Color(object):
 
     def __repr__(self):
         if self.value is None:
-            return "Color('%s')" % self.value
+            return "Color('%s')" % SVG_VALUE_NONE
         return "Color('%s')" % self.hex
 
     def __eq__(self, other):
-- 
2.43.0


From 9846151f2aebc99b75c44100235fa2a8e2349158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 59/89] fix: the repr of a path was not an expression

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2d8fead..8efe29e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2167,7 +2167,10 @@ class Path(MutableSequence):
         return self.d()
 
     def __repr__(self):
-        return "%s(%s)" % (self.__class__.__name__, self.d())
+        return "%s(%s)" % (
+            self.__class__.__name__,
+            ", ".join(repr(x) for x in self._segments),
+        )
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From 9026f9d332703b89391c92f4a08efe20b934d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 60/89] fix: segments wrote themselves in the opposite of their
 own form

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8efe29e..780795b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -617,7 +617,7 @@ class Move(PathSegment):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "M %s" % self.end
@@ -736,7 +736,7 @@ class Close(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "Z"
@@ -755,7 +755,7 @@ class Line(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "L %s" % self.end
@@ -925,7 +925,7 @@ class QuadraticBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "T %s" % self.end
@@ -934,7 +934,7 @@ class QuadraticBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "Q %s %s" % (self.control, self.end)
@@ -1128,7 +1128,7 @@ class CubicBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "S %s %s" % (self.control2, self.end)
@@ -1140,7 +1140,7 @@ class CubicBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "C %s %s %s" % (self.control1, self.control2, self.end)
@@ -1977,7 +1977,7 @@ class Arc(Curve):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "A %.12G,%.12G %.12G %d,%d %s" % (
-- 
2.43.0


From 65521da25ec1e8b8d0453ba50165f2590c59b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 61/89] fix: points were converted to pixels with five digits,
 72pt was not 96px

---
 svgio/basic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 4cfd9df..1ea862c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -67,7 +67,7 @@ class Length(object):
         if self.amount is None:
             return None
         if self.units == "pt":
-            return self.amount * 1.3333
+            return self.amount * 4.0 / 3.0
         elif self.units == "pc":
             return self.amount * 16.0
         return self.amount
@@ -112,7 +112,7 @@ class Length(object):
             if other.units == "px" or other.units == "":
                 self.amount += other.amount
             elif other.units == "pt":
-                self.amount += other.amount * 1.3333
+                self.amount += other.amount * 4.0 / 3.0
             elif other.units == "pc":
                 self.amount += other.amount * 16.0
             else:
@@ -120,7 +120,7 @@ class Length(object):
             return self
         if self.units == "pt":
             if other.units == "px" or other.units == "":
-                self.amount += other.amount / 1.3333
+                self.amount += other.amount * 3.0 / 4.0
             elif other.units == "pc":
                 self.amount += other.amount * 12.0
             else:
@@ -182,14 +182,14 @@ class Length(object):
             if other.units == "px" or other.units == "":
                 return self.amount / other.amount
             elif other.units == "pt":
-                return self.amount / (other.amount * 1.3333)
+                return self.amount / (other.amount * 4.0 / 3.0)
             elif other.units == "pc":
                 return self.amount / (other.amount * 16.0)
             else:
                 raise ValueError
         if self.units == "pt":
             if other.units == "px" or other.units == "":
-                return self.amount / (other.amount / 1.3333)
+                return self.amount / (other.amount * 3.0 / 4.0)
             elif other.units == "pc":
                 return self.amount / (other.amount * 12.0)
             else:
@@ -329,7 +329,7 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount * 1.3333
+            return self.amount * 4.0 / 3.0
         if self.units == "pc":
             return self.amount * 16.0
         return None
@@ -440,7 +440,7 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount * 1.3333
+            return self.amount * 4.0 / 3.0
         if self.units == "pc":
             return self.amount * 16.0
         if self.units == "em":
-- 
2.43.0


From a906a146732b034078a008272e9abbc20175e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 62/89] fix: the closest point of a line without length was 0

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 780795b..4ec7d12 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -703,7 +703,7 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
-- 
2.43.0


From 01e7d32e24fbc2b7835ffde67ef542c13a862663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 63/89] fix: Move(point, relative=True) had no end point

---
 svgio/path.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4ec7d12..47b800e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -557,15 +557,12 @@ class Move(PathSegment):
             if "start" in kwargs:
                 self.start = kwargs["start"]
         elif len(args) == 1:
-            if len(kwargs) == 0:
-                self.end = args[0]
+            if "end" in kwargs:
+                self.start = args[0]
+                self.end = kwargs["end"]
             else:
-                if "end" in kwargs:
-                    self.start = args[0]
-                    self.end = kwargs["end"]
-                elif "start" in kwargs:
-                    self.start = kwargs["start"]
-                    self.end = args[0]
+                self.start = kwargs.get("start")
+                self.end = args[0]
         elif len(args) == 2:
             self.start = args[0]
             self.end = args[1]
-- 
2.43.0


From 3ae68d7de7fca45111592f887b633caf635818ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 64/89] fix: the closest point of a line beyond its ends was an
 end with numpy

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 47b800e..71c6e8d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -707,7 +707,7 @@ class Linear(PathSegment):
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From 270c646ae706e4a4ff0baa6b27211c9d10552c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 65/89] fix: the second control point of a cubic was lost
 without the first

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 71c6e8d..127d8a4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -948,7 +948,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From 368d9d00248c9b381d05617894b5e8978b0268e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 66/89] fix: matrix * point, segment, path or subpath raised
 AttributeError

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 1ea862c..2e68baf 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1998,6 +1998,8 @@ class Matrix:
         return m.inverse()
 
     def __matmul__(self, other):
+        if not isinstance(other, (Matrix, str)):
+            return NotImplemented  # Points, segments and paths know how to be transformed.
         m = copy(self)
         m.__imatmul__(other)
         return m
-- 
2.43.0


From 7d76ae5272ee0af5e711e8d432d43fb30d11f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 67/89] fix: text @ path and matrix @ path raised
 AttributeError

---
 svgio/path.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 127d8a4..139f4b2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2082,11 +2082,6 @@ class Path(MutableSequence):
             return m
         return NotImplemented
 
-    def __rmatmul__(self, other):
-        m = copy(other)
-        m.__imatmul__(self)
-        return m
-
     def __imatmul__(self, other):
         """
         Applies the matrix to every segment. A path has no transform of its own, it is always reified.
@@ -2101,6 +2096,7 @@ class Path(MutableSequence):
             return self
         return NotImplemented
 
+    __rmatmul__ = __matmul__
     __mul__ = __matmul__
     __rmul__ = __matmul__
     __imul__ = __imatmul__
-- 
2.43.0


From 23a85c78d1648bb7729462f1976a5a332e1e9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 68/89] fix: iterating over a segment twice at once mixed the
 two iterations up

---
 svgio/path.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 139f4b2..12e33aa 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -417,21 +417,9 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            if self[i] is not None:
+                yield self[i]
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 626ddcbe8825452e31de4a0509d93ddc6214a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 69/89] fix: the iterator of a subpath could not be iterated
 over

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 12e33aa..8d44f29 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2891,6 +2891,9 @@ class Subpath:
                 self.n = subpath._start - 1
                 self.subpath = subpath
 
+            def __iter__(self):
+                return self
+
             def __next__(self):
                 self.n += 1
                 try:
-- 
2.43.0


From f83c73f12b35767190b8b57294730de6f12a5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 70/89] fix: the length of a quadratic that is nearly a line
 was wrong by up to half

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 8d44f29..bf247e3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -867,6 +867,9 @@ class QuadraticBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         a = self.start - 2 * self.control + self.end
         b = 2 * (self.control - self.start)
+        if abs(a) < 1e-6 * abs(b):
+            # Nearly a line at even speed, the terms below would cancel out.
+            return abs(self.end - self.start)
         try:
             # For an explanation of this case, see
             # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-- 
2.43.0


From 6dfb98152327b2c213ea0542e72e81fae105b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 71/89] fix: arcs that are flat for their radius were drawn
 wrongly, down to full circles

---
 svgio/path.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index bf247e3..ff32c81 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1672,18 +1672,8 @@ class Arc(Curve):
         #     theta = -theta
         # theta = theta % 360
 
-        n = sqrt((ux * ux + uy * uy) * (vx * vx + vy * vy))
-        p = ux * vx + uy * vy
-        d = p / n
-        # In certain cases the above calculation can through inaccuracies
-        # become just slightly out of range, f ex -1.0000000000000002.
-        if d > 1.0:
-            d = 1.0
-        elif d < -1.0:
-            d = -1.0
-        delta = degrees(acos(d))
-        if (ux * vy - uy * vx) < 0:
-            delta = -delta
+        # The arc cosine of nearly 1 would lose the angle of an arc that is flat.
+        delta = degrees(atan2(ux * vy - uy * vx, ux * vx + uy * vy))
         delta = delta % 360
         if not sweep_flag:
             delta -= 360
-- 
2.43.0


From 4edb700b84aefaaf4b81bf9ffffc10d412e696af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 72/89] fix: the bounding box of a cubic that is nearly a
 quadratic was too small

---
 svgio/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ff32c81..c2dbce8 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1060,8 +1060,10 @@ class CubicBezier(Curve):
             if delta >= 0:  # otherwise no local extrema
                 sqdelta = sqrt(delta)
                 tau = a[0] - 2 * a[1] + a[2]
-                r1 = (tau + sqdelta) / denom
-                r2 = (tau - sqdelta) / denom
+                # Of the two sums only the one that does not cancel out is used.
+                q = tau + sqdelta if tau >= 0 else tau - sqdelta
+                r1 = q / denom
+                r2 = (a[0] - a[1]) / q if q != 0 else 0
                 if 0 < r1 < 1:
                     local_extremizers.append(r1)
                 if 0 < r2 < 1:
-- 
2.43.0


From 2603de87516724a4322ddba3d26f392ccefe3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 73/89] fix: the length of a path asked for with a small error
 was that of an earlier, coarser measurement

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c2dbce8..c2197ef 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1999,6 +1999,7 @@ class Path(MutableSequence):
 
     def __init__(self, *args, **kwargs):
         self._length = None
+        self._length_error = None
         self._lengths = None
         self._segments = list()
         if len(args) != 1:
@@ -2178,10 +2179,11 @@ class Path(MutableSequence):
         """
         if segments is None:
             segments = self.segments(False)
-        if self._length is not None:
+        if self._length is not None and self._length_error <= error:
             return
         lengths = [each.length(error=error, min_depth=min_depth) for each in segments]
         self._length = sum(lengths)
+        self._length_error = error
         if self._length == 0:
             self._lengths = lengths
         else:
@@ -2194,15 +2196,14 @@ class Path(MutableSequence):
         try:
             import numpy as np
         except ImportError:
-            return [self.point(pos) for pos in positions]
+            return [self.point(pos, error=error) for pos in positions]
 
         segments = self.segments(False)
         if len(segments) == 0:
             return None
         positions = np.asarray(positions, dtype=float)
         # Shortcuts
-        if self._length is None:
-            self._calc_lengths(error=error, segments=segments)
+        self._calc_lengths(error=error, segments=segments)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
             for i, position in enumerate(positions):
@@ -2254,8 +2255,7 @@ class Path(MutableSequence):
         except ValueError:
             return self.npoint(position, error=error)
 
-        if self._length is None:
-            self._calc_lengths(error=error, segments=segments)
+        self._calc_lengths(error=error, segments=segments)
 
         if self._length == 0:
             i = int(round(position * (len(segments) - 1)))
-- 
2.43.0


From ad096997d1ce324e79d65c9a54801c7729186ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 74/89] fix: the transform of a viewbox that is large for its
 viewport lost digits of its scale, down to scale(0, 0)

---
 svgio/basic.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 2e68baf..e8a4b92 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2603,6 +2603,13 @@ class Viewbox:
             self.preserve_aspect_ratio,
         )
 
+    @staticmethod
+    def _factor(scale):
+        """A scale has 12 digits, however small it is: it is multiplied by the size of the viewbox."""
+        if abs(scale) < 1:
+            return "%.12G" % scale
+        return Length.str(scale)
+
     @staticmethod
     def viewbox_transform(
         e_x, e_y, e_width, e_height, vb_x, vb_y, vb_width, vb_height, aspect
@@ -2692,7 +2699,10 @@ class Viewbox:
             if scale_x == 1 and scale_y == 1:
                 return ""  # Nothing happens.
             else:
-                return "scale(%s, %s)" % (Length.str(scale_x), Length.str(scale_y))
+                return "scale(%s, %s)" % (
+                    Viewbox._factor(scale_x),
+                    Viewbox._factor(scale_y),
+                )
         else:
             if scale_x == 1 and scale_y == 1:
                 return "translate(%s, %s)" % (
@@ -2703,6 +2713,6 @@ class Viewbox:
                 return "translate(%s, %s) scale(%s, %s)" % (
                     Length.str(translate_x),
                     Length.str(translate_y),
-                    Length.str(scale_x),
-                    Length.str(scale_y),
+                    Viewbox._factor(scale_x),
+                    Viewbox._factor(scale_y),
                 )
-- 
2.43.0


From ff3a4a3c18e323f6fe7c3a92454b881293fdba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 75/89] fix: the box of a shape does not include moves, which
 draw nothing

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 705891b..bd17f81 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -702,7 +702,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From ecda2218cde44f850b05921f1cfdffa77aefe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 76/89] fix: elements of a namespace that only begins like that
 of SVG lost their namespace and part of their name

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index bd17f81..52f8d50 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -100,7 +100,7 @@ class Node(list):
             if event == "start":
                 tag = elem.tag
                 try:
-                    if tag.startswith("{http://www.w3.org/2000/svg"):
+                    if tag.startswith("{http://www.w3.org/2000/svg}"):
                         tag = tag[
                             28:
                         ]  # Removing namespace. http://www.w3.org/2000/svg:
-- 
2.43.0


From 527757035bbe287d84bed6a9f7ee98a8c7f3caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 77/89] fix: reversing a path that does not begin with a move
 lost its start and bent its last segment

---
 svgio/path.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c2197ef..cd1fe50 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2670,16 +2670,22 @@ class Path(MutableSequence):
     def reverse(self):
         if len(self._segments) == 0:
             return
-        prepoint = self._segments[0].start
-        self._segments[0].start = None
+        prepoint = None
+        if isinstance(self._segments[0], Move):
+            prepoint = self._segments[0].start
+            self._segments[0].start = None
         p = Path()
         subpaths = list(self.as_subpaths())
         for subpath in subpaths:
             subpath.reverse()
         for subpath in reversed(subpaths):
+            if len(p) != 0 and not isinstance(subpath[0], Move):
+                # Fragment without initial move, no longer the first.
+                p.append(Move(None, Point(subpath[0].start)))
             p += subpath
         self._segments = p._segments
-        self._segments[0].start = prepoint
+        if isinstance(self._segments[0], Move):
+            self._segments[0].start = prepoint
         return self
 
     def subpath(self, index):
-- 
2.43.0


From c995468f3c1280e0160b00fc953050c009fee815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 78/89] fix: line elements could not be drawn without a
 transform or with a coordinate left out

---
 svgio/nodes.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 52f8d50..ae0be43 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -681,6 +681,23 @@ class Shape(Element, GraphicalElement, Transformable):
         """
         raise NotImplementedError
 
+    def _user_units(self, value):
+        """
+        Converts the value of a geometric property to user units, no value is zero.
+        """
+        if value is None:
+            return 0.0
+        return float(Length(value).value(ppi=DEFAULT_PPI))
+
+    def _transformed(self, segments):
+        """
+        Applies the transform of the shape, if it has one, to the segments.
+        """
+        if self.transform is None:
+            return segments
+        matrix = Matrix(self.transform)
+        return [s * matrix for s in segments]
+
     def d(self, relative=False, transformed=True):
         """
         Returns the path_d string of the shape.
@@ -1252,12 +1269,12 @@ class Line(Shape):
         """
         from svgio import path
 
-        start = Point(self.x1, self.y1)
-        end = Point(self.x2, self.y2)
-        if transformed:
-            start *= self.transform
-            end *= self.transform
-        return path.Move(None, start), path.Line(start, end)
+        start = Point(self._user_units(self.x1), self._user_units(self.y1))
+        end = Point(self._user_units(self.x2), self._user_units(self.y2))
+        segments = (path.Move(None, start), path.Line(start, end))
+        if not transformed:
+            return segments
+        return self._transformed(segments)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 77d0991add6eead50de06b4e2e010674c6f287d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 79/89] fix: rect elements could not be drawn

---
 svgio/nodes.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ae0be43..3280546 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -823,18 +823,17 @@ class Rect(Shape):
         """
         from svgio import path
 
-        x = self.x
-        y = self.y
-        width = self.width
-        height = self.height
-        if self.is_degenerate():
+        x = self._user_units(self.x)
+        y = self._user_units(self.y)
+        width = self._user_units(self.width)
+        height = self._user_units(self.height)
+        if width <= 0 or height <= 0:
             return ()  # a computed value of zero for either dimension disables rendering.
-        rx = self.rx
-        ry = self.ry
-        if rx < 0 < width or ry < 0 < height:
-            rx = 0
-            ry = 0
-        if rx == ry == 0:
+        rx = self.rx if self.rx is not None else self.ry
+        ry = self.ry if self.ry is not None else self.rx
+        rx = min(self._user_units(rx), width / 2.0)
+        ry = min(self._user_units(ry), height / 2.0)
+        if rx <= 0 or ry <= 0:
             segments = (
                 path.Move(None, (x, y)),
                 path.Line((x, y), (x + width, y)),
@@ -870,10 +869,9 @@ class Rect(Shape):
                 path.Arc((x, y + ry), (x + rx, y), rx=rx, ry=ry),
                 path.Close((x + rx, y), (x + rx, y)),
             )
-        if not transformed or self.transform.is_identity():
+        if not transformed:
             return segments
-        else:
-            return [s * self.transform for s in segments]
+        return self._transformed(segments)
 
 
 class _RoundShape(Shape):
-- 
2.43.0


From 21fff5349b4be9cf17b33a066c1bc4152872222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 80/89] fix: circle and ellipse elements could not be drawn

---
 svgio/nodes.py | 76 ++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3280546..dcc347c 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -877,6 +877,8 @@ class Rect(Shape):
 class _RoundShape(Shape):
     # rehome class
 
+    rotation = 0.0  # circles and ellipses have no rotation of their own.
+
     def unit_matrix(self):
         """
         return the unit matrix which could would transform the unit circle into this ellipse.
@@ -888,7 +890,7 @@ class _RoundShape(Shape):
         """
         # TODO: REHOME THIS FUNCTION
         m = Matrix()
-        m.post_scale(self.rx, self.ry)
+        m.post_scale(self._user_units(self.rx), self._user_units(self.ry))
         m.post_rotate(self.rotation)
         center = self.center
         m.post_translate(center.x, center.y)
@@ -909,8 +911,8 @@ class _RoundShape(Shape):
             self.point_at_t(t0),
             self.point_at_t(t1),
             self.center,
-            rx=self.rx,
-            ry=self.ry,
+            rx=self._user_units(self.rx),
+            ry=self._user_units(self.ry),
             rotation=self.rotation,
             sweep=t1 - t0,
         )
@@ -934,8 +936,8 @@ class _RoundShape(Shape):
             self.point_at_angle(a0),
             self.point_at_angle(a1),
             self.center,
-            rx=self.rx,
-            ry=self.ry,
+            rx=self._user_units(self.rx),
+            ry=self._user_units(self.ry),
             rotation=self.rotation,
             ccw=ccw,
         )
@@ -949,8 +951,8 @@ class _RoundShape(Shape):
         :return: point found
         """
         # TODO: REHOME THIS FUNCTION
-        a = self.rx
-        b = self.ry
+        a = self._user_units(self.rx)
+        b = self._user_units(self.ry)
         if a == b:
             return self.point_at_t(angle)
         angle -= self.rotation
@@ -969,11 +971,7 @@ class _RoundShape(Shape):
         :return: angle to given point.
         """
         # TODO: REHOME FUNCTION
-        if not self.transform.is_identity():
-            return self.center.angle_to(p)
-        else:
-            center = Point(self.cx, self.cy)
-            return center.angle_to(p)
+        return self.center.angle_to(p)
 
     def t_at_point(self, p):
         """
@@ -985,8 +983,8 @@ class _RoundShape(Shape):
         # TODO: REHOME FUNCTION
         angle = self.angle_at_point(p)
         angle -= self.rotation
-        a = self.rx
-        b = self.ry
+        a = self._user_units(self.rx)
+        b = self._user_units(self.ry)
         t = atan2(a * tan(angle), b)
         tau_1_4 = tau / 4.0
         tau_3_4 = 3 * tau_1_4
@@ -1006,8 +1004,8 @@ class _RoundShape(Shape):
         """
         # TODO: REHOME FUNCTION
         rotation = self.rotation
-        a = self.rx
-        b = self.ry
+        a = self._user_units(self.rx)
+        b = self._user_units(self.ry)
         center = self.center
         cx = center.x
         cy = center.y
@@ -1032,8 +1030,8 @@ class _RoundShape(Shape):
         return self.point_at_t(tau * position)
 
     def _ramanujan_length(self):
-        a = self.rx
-        b = self.ry
+        a = self._user_units(self.rx)
+        b = self._user_units(self.ry)
         if b > a:
             a, b = b, a
         h = (a - b) ** 2 / (a + b) ** 2
@@ -1082,7 +1080,7 @@ class Ellipse(_RoundShape):
         values = Document.get_values(self)
         cx = values.get(SVG_ATTR_CENTER_X)
         cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
+        return Point(self._user_units(cx), self._user_units(cy))
 
     def segments(self, transformed=True):
         """
@@ -1101,16 +1099,13 @@ class Ellipse(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx = self._user_units(self.rx)
+        ry = self._user_units(self.ry)
+        if rx <= 0 or ry <= 0:
+            return ()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1126,7 +1121,9 @@ class Ellipse(_RoundShape):
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if not transformed:
+            return p.segments()
+        return self._transformed(p.segments())
 
 
 class Circle(_RoundShape):
@@ -1151,6 +1148,14 @@ class Circle(_RoundShape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_RADIUS)
 
+    @property
+    def rx(self):
+        return self.r
+
+    @property
+    def ry(self):
+        return self.r
+
     @property
     def cx(self):
         values = Document.get_values(self)
@@ -1166,7 +1171,7 @@ class Circle(_RoundShape):
         values = Document.get_values(self)
         cx = values.get(SVG_ATTR_CENTER_X)
         cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
+        return Point(self._user_units(cx), self._user_units(cy))
 
     def segments(self, transformed=True):
         """
@@ -1185,16 +1190,13 @@ class Circle(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx = self._user_units(self.rx)
+        ry = self._user_units(self.ry)
+        if rx <= 0 or ry <= 0:
+            return ()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1210,7 +1212,9 @@ class Circle(_RoundShape):
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if not transformed:
+            return p.segments()
+        return self._transformed(p.segments())
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From b6e0eaae6d72bdce5670cfb2bcd87189a3e8f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 81/89] fix: polyline and polygon elements could not be drawn

---
 svgio/nodes.py | 47 +++++++++++------------------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index dcc347c..3e46b72 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1301,45 +1301,18 @@ class _Polyshape(Shape):
         Note:  For a polygon/polyline made from n points, the resulting path will
         be composed of n lines (even if some of these lines have length zero).
         """
-        # TODO: Parse points get segments.
         from svgio import path
 
-        if len(self.points) != 0:
-            return
-        if points is None:
-            self.points = list()
-            return
-        if isinstance(points, dict):
-            if SVG_ATTR_POINTS in points:
-                points = points[SVG_ATTR_POINTS]
-            else:
-                self.points = list()
-                return
-        try:
-            if len(points) == 1:
-                points = points[0]
-        except TypeError:
-            pass
+        points = self.points
         if isinstance(points, str):
-            findall = REGEX_COORD_PAIR.findall(points)
-            self.points = [Point(float(j), float(k)) for j, k in findall]
-        elif isinstance(points, (list, tuple)):
-            if len(points) == 0:
-                self.points = list()
+            values = list(map(float, REGEX_FLOAT.findall(points)))
+            points = list(map(Point, zip(*[iter(values)] * 2)))
+        elif isinstance(points, (list, tuple)) and len(points) != 0:
+            if isinstance(points[0], (float, int)):
+                points = list(map(Point, zip(*[iter(points)] * 2)))
             else:
-                first_point = points[0]
-                if isinstance(first_point, (float, int)):
-                    self.points = list(map(Point, zip(*[iter(points)] * 2)))
-                elif isinstance(first_point, (list, tuple, complex, str, Point)):
-                    self.points = list(map(Point, points))
-        else:
-            self.points = list()
-
-        if self.transform.is_identity() or not transformed:
-            points = self.points
-        else:
-            points = list(map(self.transform.point_in_matrix_space, self.points))
-        if self.is_degenerate():
+                points = list(map(Point, points))
+        if not points:
             return []
         segments = [path.Move(None, points[0])]
         last = points[0]
@@ -1349,7 +1322,9 @@ class _Polyshape(Shape):
             last = current
         if isinstance(self, Polygon):
             segments.append(path.Close(last, points[0]))
-        return segments
+        if not transformed:
+            return segments
+        return self._transformed(segments)
 
 
 class Polyline(_Polyshape):
-- 
2.43.0


From 2c95a3b37549ff961108c5ec6542411f1708d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 82/89] fix: path elements were drawn without their transform

---
 svgio/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3e46b72..c249378 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1381,7 +1381,10 @@ class Path(Shape):
     def segments(self, transformed=True):
         from svgio import path
 
-        return path.Path(self.d)
+        p = path.Path(self.d)
+        if transformed and self.transform is not None:
+            p *= Matrix(self.transform)
+        return p
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 4f178fee6b1dee17328cdf1b27292b3ed8a3f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 83/89] fix: viewbox_transform of svg, image and pattern
 elements raised AttributeError

---
 svgio/nodes.py | 55 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c249378..8a6302f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -562,6 +562,36 @@ class Transformable:
         return self
 
 
+class FitToViewBox:
+    """Any element that fits the contents of its viewBox into its position and size."""
+
+    @property
+    def viewbox_transform(self):
+        viewbox = Viewbox(self.attributes)
+        viewport = []
+        for value, default in (
+            (self.x, 0),
+            (self.y, 0),
+            (self.width, None),
+            (self.height, None),
+        ):
+            if value is not None:
+                value = Length(value).value(ppi=DEFAULT_PPI)
+            if isinstance(value, Length):
+                value = None  # Relative to something unknown.
+            elif value is None:
+                value = default
+            viewport.append(value)
+        return Viewbox.viewbox_transform(
+            *viewport,
+            viewbox.x,
+            viewbox.y,
+            viewbox.width,
+            viewbox.height,
+            viewbox.preserve_aspect_ratio
+        )
+
+
 class GraphicalElement:
     """Any drawn element."""
 
@@ -1459,7 +1489,7 @@ class Mask(ContainerElement, Element):
         return self.__class__.__name__
 
 
-class Pattern(ContainerElement, Element):
+class Pattern(ContainerElement, Element, FitToViewBox):
     # def __init__(self, document, parent, tag, *args, **kwargs):
     #     super().__init__(document, parent, tag, *args, **kwargs)
     #     self.viewbox = None
@@ -1473,12 +1503,6 @@ class Pattern(ContainerElement, Element):
     def __int__(self):
         return 0
 
-    @property
-    def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
-
     @property
     def x(self):
         values = Document.get_values(self)
@@ -1653,7 +1677,7 @@ class TSpan(Text):
         return self.__class__.__name__
 
 
-class Image(Element, GraphicalElement, Transformable):
+class Image(Element, GraphicalElement, Transformable, FitToViewBox):
     """
     SVG Images are defined in SVG 2.0 12.3
 
@@ -1719,12 +1743,6 @@ class Image(Element, GraphicalElement, Transformable):
     def preserveAspectRatio(self):
         return self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO)
 
-    @property
-    def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
-
     def load(self, directory=None):
         try:
             from PIL import Image
@@ -1829,7 +1847,7 @@ class Metadata(DescriptiveElement, Element):
         return self.__class__.__name__
 
 
-class SVG(Group, ContainerElement, StructuralElement):
+class SVG(Group, ContainerElement, StructuralElement, FitToViewBox):
     """
     SVG Document and Parsing.
 
@@ -1865,13 +1883,6 @@ class SVG(Group, ContainerElement, StructuralElement):
     def preserveAspectRatio(self):
         return self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO)
 
-    @property
-    def viewbox_transform(self):
-        viewbox = self.viewBox
-        if viewbox is None:
-            return ""
-        return viewbox.transform(self)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From ebe62b40a22ad1aaff1672e9a5f193747dac4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 84/89] fix: reversing a subpath that goes on after its close
 without a move drew something else

---
 svgio/path.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index cd1fe50..2593cfb 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2667,9 +2667,19 @@ class Path(MutableSequence):
                     self.insert(i, line)
         return self
 
+    def _move_after_closes(self):
+        """A close ends its subpath, if no move follows the next subpath begins where the closed one did."""
+        for i in range(len(self._segments) - 1, 0, -1):
+            close = self._segments[i - 1]
+            if not isinstance(close, Close) or close.end is None:
+                continue
+            if not isinstance(self._segments[i], Move):
+                self._segments.insert(i, Move(Point(close.end), Point(close.end)))
+
     def reverse(self):
         if len(self._segments) == 0:
             return
+        self._move_after_closes()
         prepoint = None
         if isinstance(self._segments[0], Move):
             prepoint = self._segments[0].start
@@ -2997,6 +3007,14 @@ class Subpath:
         size = len(self)
         if size == 0:
             return
+        if any(isinstance(segment, Close) for segment in self[:-1]) or any(
+            isinstance(segment, Move) for segment in self[1:]
+        ):
+            # A close ended the subpath and it went on without a move, or moves were added.
+            path = Path(*self)
+            path.reverse()
+            self[:] = list(path)
+            return self
         start = 0
         end = size - 1
         if isinstance(self[-1], Close):
-- 
2.43.0


From 63de219c4896b70038a1740a031fa58fed36fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 85/89] fix: reversing a path of closes without a place
 recursed without end

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2593cfb..842d08e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -3007,7 +3007,10 @@ class Subpath:
         size = len(self)
         if size == 0:
             return
-        if any(isinstance(segment, Close) for segment in self[:-1]) or any(
+        if any(
+            isinstance(segment, Close) and segment.end is not None
+            for segment in self[:-1]
+        ) or any(
             isinstance(segment, Move) for segment in self[1:]
         ):
             # A close ended the subpath and it went on without a move, or moves were added.
-- 
2.43.0


From 726cb6702d82fa49655c1a798810f095fdaabbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 86/89] fix: Arc.get_ellipse() raised NameError

---
 svgio/path.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 842d08e..c1297e3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1913,7 +1913,16 @@ class Arc(Curve):
         return Point(px, py)
 
     def get_ellipse(self):
-        return Ellipse(self.center, self.rx, self.ry, self.get_rotation())
+        from svgio.nodes import Ellipse
+
+        cx, cy = self.center
+        return Ellipse(
+            cx,
+            cy,
+            self.rx,
+            self.ry,
+            transform="rotate(%r, %r, %r)" % (self.get_rotation().as_degrees, cx, cy),
+        )
 
     def bbox(self):
         """Find the bounding box of a arc.
-- 
2.43.0


From b3d563639cfcd2eb6af90fa3a37fc01c4c1ec74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 87/89] fix: npoint of a move, and of an arc without numpy,
 answered the segment's own points

---
 svgio/path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c1297e3..c22befa 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -494,7 +494,7 @@ class PathSegment:
         :param positions: N-sized sequence of t value between 0 and 1
         :return: N-sized sequence of 2-sized sequence of float
         """
-        return [self.end] * len(positions)
+        return [Point(self.end) for _ in positions]
 
     def length(self, error=ERROR, min_depth=MIN_DEPTH):
         """
@@ -1488,16 +1488,16 @@ class Arc(Curve):
         except ImportError:
             if self.start == self.end and self.sweep == 0:
                 # This is equivalent of omitting the segment
-                return [self.start] * len(positions)
+                return [Point(self.start) for _ in positions]
             if self.sweep == 0:
                 # Zero radius, this is a straight line.
                 return [Point.towards(self.start, self.end, pos) for pos in positions]
 
             start_t = self.get_start_t()
             return [
-                self.start
+                Point(self.start)
                 if pos == 0
-                else self.end
+                else Point(self.end)
                 if pos == 1
                 else self.point_at_t(start_t + self.sweep * pos)
                 for pos in positions
-- 
2.43.0


From 493b61c40c2d2a68ec4173fa0fad4d88826bd9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 88/89] fix: z_point answered the end point of the move itself

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index c22befa..19a77f2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2426,7 +2426,7 @@ class Path(MutableSequence):
                 end_pos = self._segments[0].end
             except IndexError:
                 pass  # entire path is "z".
-        return end_pos
+        return Point(end_pos) if end_pos is not None else None
 
     @property
     def smooth_point(self):
-- 
2.43.0


From aa81d22ffcc1ec12738bc07f089156e466c65cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 89/89] fix: a failed += or -= of a point half moved it

---
 svgio/basic.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e8a4b92..50a59ac 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1597,21 +1597,19 @@ class Point:
     __rmul__ = __mul__
 
     def __iadd__(self, other):
+        # Both sums are made before either coordinate changes, so that what fails changes nothing.
         try:
-            self.x += other.x
-            self.y += other.y
+            self.x, self.y = self.x + other.x, self.y + other.y
             return self
         except AttributeError:
             pass
         try:
-            self.y += other[1]
-            self.x += other[0]
+            self.x, self.y = self.x + other[0], self.y + other[1]
             return self
         except (TypeError, IndexError):
             pass
         try:
-            self.x += other.real
-            self.y += other.imag
+            self.x, self.y = self.x + other.real, self.y + other.imag
             return self
         except AttributeError:
             pass
@@ -1648,21 +1646,19 @@ class Point:
     __radd__ = __add__
 
     def __isub__(self, other):
+        # Both sums are made before either coordinate changes, so that what fails changes nothing.
         try:
-            self.x -= other.x
-            self.y -= other.y
+            self.x, self.y = self.x - other.x, self.y - other.y
             return self
         except AttributeError:
             pass
         try:
-            self.y -= other[1]
-            self.x -= other[0]
+            self.x, self.y = self.x - other[0], self.y - other[1]
             return self
         except (TypeError, IndexError):
             pass
         try:
-            self.x -= other.real
-            self.y -= other.imag
+            self.x, self.y = self.x - other.real, self.y - other.imag
             return self
         except AttributeError:
             pass
-- 
2.43.0

