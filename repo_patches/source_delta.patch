From 2b7f979273f7560eac01ba6c9c41eb78ec0e5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 01/92] fix: aperture macro vector line is a rectangle ending
 at its end points

---
 gerber/am_statements.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..7613208 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,21 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # The line is a rectangle of the given width whose ends are centered on
+        # the start and end points
+        dx = self.end[0] - self.start[0]
+        dy = self.end[1] - self.start[1]
+        length = math.hypot(dx, dy)
+        half_width = self.width / 2.0
+        if length > 0:
+            nx, ny = -dy * half_width / length, dx * half_width / length
+        else:
+            nx, ny = 0.0, half_width
+
+        vertices = [(self.start[0] + nx, self.start[1] + ny),
+                    (self.start[0] - nx, self.start[1] - ny),
+                    (self.end[0] - nx, self.end[1] - ny),
+                    (self.end[0] + nx, self.end[1] + ny)]
 
         aperture = Circle((0, 0), 0)
 
@@ -328,6 +340,7 @@ class AMVectorLinePrimitive(AMPrimitive):
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 24f2974d1ad479d711225d3d7dc3e9a64338facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 02/92] fix: rotate aperture macro center lines and polygons
 around the macro origin

---
 gerber/am_statements.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 7613208..76c1aeb 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -508,7 +508,8 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        position = rotate_point(primitive.position, -primitive.rotation)
+        return cls(5, 'on', primitive.sides, position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -560,7 +561,9 @@ class AMPolygonPrimitive(AMPrimitive):
         return fmt.format(**data)
 
     def to_primitive(self, units):
-        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
+        # The rotation is around the origin of the macro, not the polygon's center
+        position = rotate_point(self.position, self.rotation)
+        return Polygon(position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
 
 
 class AMMoirePrimitive(AMPrimitive):
@@ -802,6 +805,9 @@ class AMThermalPrimitive(AMPrimitive):
 
     def to_primitive(self, units):
 
+        # The rotation is around the origin of the macro, not the thermal's center
+        position = rotate_point(self.position, self.rotation)
+
         # We start with calculating the top right section, then duplicate it
 
         inner_radius = self.inner_diameter / 2.0
@@ -821,8 +827,8 @@ class AMThermalPrimitive(AMPrimitive):
         outlines = []
         aperture = Circle((0, 0), 0)
 
-        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
-                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
+        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, position)
+                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, position))))
         # Add in the last point since outlines should be closed
         points.append(points[0])
 
@@ -830,13 +836,12 @@ class AMThermalPrimitive(AMPrimitive):
         for rotation in [0, 90.0, 180.0, 270.0]:
 
             lines = []
-            prev_point = rotate_point(points[0], rotation, self.position)
+            prev_point = rotate_point(points[0], rotation, position)
             for point in points[1:]:
-                cur_point = rotate_point(point, rotation, self.position)
+                cur_point = rotate_point(point, rotation, position)
 
                 lines.append(Line(prev_point, cur_point, aperture))
-
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -949,11 +954,13 @@ class AMCenterLinePrimitive(AMPrimitive):
         aperture = Circle((0, 0), 0)
 
         lines = []
-        prev_point = rotate_point(points[3], self.rotation, self.center)
+        # The rotation is around the origin of the macro, not the line's center
+        prev_point = rotate_point(points[3], self.rotation)
         for point in points:
-            cur_point = rotate_point(point, self.rotation, self.center)
+            cur_point = rotate_point(point, self.rotation)
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 0d85039605c6012cc16469632e8c4907eba3aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 03/92] fix: subtraction in aperture macro expressions always
 gave zero

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From 65934211b278d975920ff9b514b19697d4364a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 04/92] fix: unary minus, subtraction and comments in aperture
 macros

---
 gerber/am_read.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..8324d50 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -131,10 +131,14 @@ def read_macro(macro):
         equation_left_side = 0
         primitive_code = 0
 
+        # a minus is unary where an operand is expected
         unary_minus_allowed = False
         unary_minus = False
 
-        if Token.EQUALS in block:
+        # comments may contain anything, "=" included
+        is_comment = block.lstrip().startswith("0")
+
+        if Token.EQUALS in block and not is_comment:
             is_equation = True
         else:
             is_primitive = True
@@ -179,9 +183,16 @@ def read_macro(macro):
                     instructions.append((token_to_opcode(pop()), None))
 
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.LEFT_PARENS:
+                if unary_minus:
+                    unary_minus = False
+                    instructions.append((OpCode.PUSH, -1))
+                    push(Token.MULT[0])
+
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -199,10 +210,17 @@ def read_macro(macro):
                 if is_equation and not found_equation_left_side:
                     equation_left_side = n
                 else:
+                    if unary_minus:
+                        unary_minus = False
+                        instructions.append((OpCode.PUSH, -1))
+                        push(Token.MULT[0])
+
                     instructions.append((OpCode.LOAD, n))
+                    unary_minus_allowed = False
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
             elif c == "0":
                 if is_primitive and not found_primitive_code:
@@ -210,8 +228,10 @@ def read_macro(macro):
                     found_primitive_code = True
                 else:
                     # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
+                    if scanner.peek() not in string.digits + ".":
                         instructions.append((OpCode.PUSH, 0))
+                        unary_minus = False
+                        unary_minus_allowed = False
 
             elif c in "123456789.":
                 scanner.ungetc()
@@ -225,6 +245,7 @@ def read_macro(macro):
                         n *= -1
 
                     instructions.append((OpCode.PUSH, n))
+                    unary_minus_allowed = False
             else:
                 # whitespace or unknown char
                 pass
-- 
2.43.0


From ce0664ac2541d1924d47ccc43951f3e78966dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 05/92] fix: center of counterclockwise single-quadrant arcs
 that pass angle zero

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..8aee439 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -757,7 +757,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 54c149816ae9cd55dd6309cae40d43ee0c182737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 06/92] fix: extents and sweep of arcs drawn in single-quadrant
 mode

---
 gerber/primitives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..85a4651 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -400,7 +400,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
@@ -412,7 +412,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -467,7 +467,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From ec58f4d3c60da11226ea5d5c72b1a1284c08baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 07/92] fix: aperture macros whose name starts with C were
 taken for circles

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8aee439..4833494 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From 9af35cad7cbc3b621eb5ec3cb297b33b2c0df862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 08/92] fix: region contours of one full-circle arc were
 dropped before a move

---
 gerber/rs274x.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 4833494..0c9b541 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,8 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                # (a contour may consist of a single full circle arc)
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 1ba3509c9ffdfc14681c88fa0e36048b631c4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 09/92] fix: aperture definitions followed by another parameter
 in the same block

---
 gerber/rs274x.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0c9b541..eaca953 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,11 +188,11 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%*]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
     IF = r"(?P<param>IF)(?P<filename>.*)"
-- 
2.43.0


From d7b5ef4b24810d5e58ee277e86787254987dedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 10/92] fix: Gerber files could not be copied, so
 gerber.operations failed on them

GerberFile.apertures was a view of the parser's dictionary, which copy.deepcopy rejects.
---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index eaca953..8065308 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -274,7 +274,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 41df0d357569ffee3bc69dd832f3ac8c19dde1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 11/92] fix: unit conversion skipped the apertures no line or
 arc is drawn with

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8065308..589b477 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -161,6 +161,8 @@ class GerberFile(CamFile):
                 statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
+            for aperture in self.apertures:
+                aperture.to_inch()
 
     def to_metric(self):
         if self.units != 'metric':
@@ -169,6 +171,8 @@ class GerberFile(CamFile):
                 statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
+            for aperture in self.apertures:
+                aperture.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-- 
2.43.0


From f1b3942708ba8c40a9257da62e4f564e7cb17809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 12/92] fix: outlines of macro apertures were not converted
 with their document

The lines of an outline had no units, so to_inch/to_metric left them as they were.
---
 gerber/am_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 76c1aeb..465bcc9 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -339,7 +339,7 @@ class AMVectorLinePrimitive(AMPrimitive):
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
@@ -456,7 +456,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0), units=units))
 
             prev_point = cur_point
 
@@ -840,7 +840,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
                 prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
@@ -959,7 +959,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         for point in points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
-- 
2.43.0


From 947f7210134b66bbccf8e9284685c147515b9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 13/92] fix: regions, outlines and macros with a single part
 were not converted

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 85a4651..b07554b 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From c4f90e4cd3b32e572a88ae5de3542f5c71d967e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 14/92] fix: extents of lines and arcs drawn with polygon,
 rectangle, obround or macro apertures

Polygon and macro apertures raised AttributeError, and an arc's extents
grew by the whole width of a rectangle or obround instead of half of it.
---
 gerber/primitives.py | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index b07554b..0be47ec 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -202,6 +202,24 @@ class Primitive(object):
         for attr in self._memoized:
             setattr(self, attr, None)
 
+def aperture_extents(aperture):
+    """ Extents of an aperture around the point it is drawn at
+
+    Returns
+    -------
+    extents : ((<float>, <float>), (<float>, <float>))
+        ((min x, max x), (min y, max y)) relative to the current point
+    """
+    if hasattr(aperture, 'radius'):
+        width_2 = height_2 = aperture.radius
+    elif isinstance(aperture, AMGroup):
+        return aperture.bounding_box
+    else:
+        width_2 = aperture.width / 2.
+        height_2 = aperture.height / 2.
+    return ((-width_2, width_2), (-height_2, height_2))
+
+
 class Line(Primitive):
     """
     """
@@ -246,16 +264,11 @@ class Line(Primitive):
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
-                width_2 = self.aperture.radius
-                height_2 = width_2
-            else:
-                width_2 = self.aperture.width / 2.
-                height_2 = self.aperture.height / 2.
-            min_x = min(self.start[0], self.end[0]) - width_2
-            max_x = max(self.start[0], self.end[0]) + width_2
-            min_y = min(self.start[1], self.end[1]) - height_2
-            max_y = max(self.start[1], self.end[1]) + height_2
+            ap_x, ap_y = aperture_extents(self.aperture)
+            min_x = min(self.start[0], self.end[0]) + ap_x[0]
+            max_x = max(self.start[0], self.end[0]) + ap_x[1]
+            min_y = min(self.start[1], self.end[1]) + ap_y[0]
+            max_y = max(self.start[1], self.end[1]) + ap_y[1]
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
 
@@ -446,16 +459,11 @@ class Arc(Primitive):
                         or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
                         points.append((self.center[0], self.center[1] - self.radius))
             x, y = zip(*points)
-            if hasattr(self.aperture, 'radius'):
-                min_x = min(x) - self.aperture.radius
-                max_x = max(x) + self.aperture.radius
-                min_y = min(y) - self.aperture.radius
-                max_y = max(y) + self.aperture.radius
-            else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+            ap_x, ap_y = aperture_extents(self.aperture)
+            min_x = min(x) + ap_x[0]
+            max_x = max(x) + ap_x[1]
+            min_y = min(y) + ap_y[0]
+            max_y = max(y) + ap_y[1]
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From 1dd94be7e5cecc985cd84d1910ff8803948ce5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 15/92] fix: outline of lines drawn with a polygon aperture
 raised TypeError

---
 gerber/primitives.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 0be47ec..dadb482 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -303,7 +303,10 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
+                # the aperture's vertices around the current point
+                center = self.aperture.position or (0, 0)
+                points = [(point[0] + vertex[0] - center[0],
+                           point[1] + vertex[1] - center[1])
                           for vertex in self.aperture.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
@@ -1239,11 +1242,13 @@ class Polygon(Primitive):
 
         offset = self.rotation
         delta_angle = 360.0 / self.sides
+        # an aperture has no position, its vertices are around the origin
+        position = self.position if self.position is not None else (0.0, 0.0)
 
         points = []
         for i in range(self.sides):
             points.append(
-                rotate_point((self.position[0] + self.radius, self.position[1]), offset + delta_angle * i, self.position))
+                rotate_point((position[0] + self.radius, position[1]), offset + delta_angle * i, position))
         return points
 
 
-- 
2.43.0


From 62c3905c9311ba76bb26074941195e039d7234ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 16/92] fix: shifting a Gerber file distorted its arcs and
 shifted twice with OF

GerberFile.offset moved the I/J centre offsets of arcs, which are relative to
the start point, and the image offset (OF) and scale factor (SF) in addition
to the coordinates.  Unit conversion scaled the scale factor, reading lost it,
LN/IN/SF swallowed parameters that follow in the same block, and OF/MI with a
single axis raised TypeError.
---
 gerber/gerber_statements.py | 12 ++++++------
 gerber/rs274x.py            | 23 +++++++++++++++++------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..84b12a7 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -620,8 +620,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -668,8 +668,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -742,8 +742,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 589b477..5e0ca82 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -158,7 +158,9 @@ class GerberFile(CamFile):
         if self.units != 'inch':
             self.units = 'inch'
             for statement in self.statements:
-                statement.to_inch()
+                # a scale factor has no units
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
             for aperture in self.apertures:
@@ -168,7 +170,9 @@ class GerberFile(CamFile):
         if self.units != 'metric':
             self.units = 'metric'
             for statement in self.statements:
-                statement.to_metric()
+                # a scale factor has no units
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
             for aperture in self.apertures:
@@ -176,7 +180,14 @@ class GerberFile(CamFile):
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-            statement.offset(x_offset, y_offset)
+            if isinstance(statement, CoordStmt):
+                # i and j are relative to the start of the arc, which moves too
+                i, j = statement.i, statement.j
+                statement.offset(x_offset, y_offset)
+                statement.i, statement.j = i, j
+            elif not isinstance(statement, (OFParamStmt, SFParamStmt)):
+                # the coordinates move, the image offset and scale stay
+                statement.offset(x_offset, y_offset)
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
@@ -204,13 +215,13 @@ class GerberParser(object):
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*%]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
+    LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From 1a4fd8e56efb01985b171d41f468b8007ac33b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 17/92] fix: small numbers were written with their exponent cut
 off

decimal_string(0.00003937) gave '3.93700'.
---
 gerber/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..640c605 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -185,6 +185,9 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        # exponents are not allowed in Gerber and Excellon numbers
+        floatstr = '%0.10f' % value
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From 975de1265137339c383a8822fe483074bab519e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 18/92] fix: coordinates that do not fit the number format were
 written as other numbers

write_gerber_value emitted more digits than the format has, which read back as
a value ten or more times smaller; it raises ValueError instead.
---
 gerber/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 640c605..b4249dd 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -147,6 +147,9 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     # Format string for padding out in both directions
     fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
+    if len(digits) > MAX_DIGITS:
+        raise ValueError('%f does not fit the number format %d:%d' %
+                         (value, integer_digits, decimal_digits))
 
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
-- 
2.43.0


From 0e4de35d9eee15233744a4531a64dd3064856cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 19/92] fix: a Gerber that cannot be written destroyed the
 existing file

---
 gerber/rs274x.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 5e0ca82..0a67f97 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -149,10 +149,13 @@ class GerberFile(CamFile):
     def write(self, filename, settings=None):
         """ Write data out to a gerber file.
         """
+        settings = settings or self.settings
+        # generate everything first: a document that cannot be written must
+        # not destroy an existing file
+        data = ''.join([statement.to_gerber(settings) + '\n'
+                        for statement in self.statements])
         with open(filename, 'w') as f:
-            for statement in self.statements:
-                f.write(statement.to_gerber(settings or self.settings))
-                f.write("\n")
+            f.write(data)
 
     def to_inch(self):
         if self.units != 'inch':
-- 
2.43.0


From f0ff74b3bac24a4735659deee7be64d0f601654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 20/92] fix: macro dimensions were rounded to four digits or
 written with an exponent

---
 gerber/am_statements.py | 84 +++++++++++++++++++++++------------------
 gerber/utils.py         | 22 +++++++++++
 2 files changed, 70 insertions(+), 36 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 465bcc9..716d581 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -20,7 +20,7 @@ from math import asin
 import math
 
 from .primitives import *
-from .utils import validate_coordinates, inch, metric, rotate_point
+from .utils import validate_coordinates, inch, metric, rotate_point, number_string
 
 
 
@@ -31,6 +31,17 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _number(value):
+    """ A number as text, without exponent """
+    text = str(value)
+    return number_string(value) if 'e' in text else text
+
+
+def _point(point):
+    """ The coordinates of a point as text """
+    return ','.join([number_string(x) for x in point])
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -120,7 +131,8 @@ class AMCommentPrimitive(AMPrimitive):
     def from_gerber(cls, primitive):
         primitive = primitive.strip()
         code = int(primitive[0])
-        comment = primitive[1:]
+        # a comma separates the code from the comment in evaluated macros
+        comment = primitive[2:] if primitive[1:2] == ',' else primitive[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
@@ -212,9 +224,9 @@ class AMCirclePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(code=self.code,
                     exposure='1' if self.exposure == 'on' else 0,
-                    diameter=self.diameter,
-                    x=self.position[0],
-                    y=self.position[1])
+                    diameter=_number(self.diameter),
+                    x=_number(self.position[0]),
+                    y=_number(self.position[1]))
         return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
 
     def to_primitive(self, units):
@@ -301,11 +313,11 @@ class AMVectorLinePrimitive(AMPrimitive):
         fmtstr = '{code},{exp},{width},{startx},{starty},{endx},{endy},{rotation}*'
         data = dict(code=self.code,
                     exp=1 if self.exposure == 'on' else 0,
-                    width=self.width,
-                    startx=self.start[0],
-                    starty=self.start[1],
-                    endx=self.end[0],
-                    endy=self.end[1],
+                    width=_number(self.width),
+                    startx=_number(self.start[0]),
+                    starty=_number(self.start[1]),
+                    endx=_number(self.end[0]),
+                    endy=_number(self.end[1]),
                     rotation=self.rotation)
         return fmtstr.format(**data)
 
@@ -439,9 +451,9 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=_point(self.start_point),
+            points=",\n".join([_point(point) for point in self.points]),
+            rotation=_number(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
 
@@ -553,9 +565,9 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
-            rotation=str(self.rotation)
+            position=_point(self.position),
+            diameter=number_string(self.diameter),
+            rotation=_number(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
         return fmt.format(**data)
@@ -664,14 +676,14 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            diameter=self.diameter,
-            ring_thickness=self.ring_thickness,
-            gap=self.gap,
+            position=_point(self.position),
+            diameter=_number(self.diameter),
+            ring_thickness=_number(self.ring_thickness),
+            gap=_number(self.gap),
             max_rings=self.max_rings,
-            crosshair_thickness=self.crosshair_thickness,
-            crosshair_length=self.crosshair_length,
-            rotation=self.rotation
+            crosshair_thickness=_number(self.crosshair_thickness),
+            crosshair_length=_number(self.crosshair_length),
+            rotation=_number(self.rotation)
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
         return fmt.format(**data)
@@ -757,11 +769,11 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            outer_diameter=self.outer_diameter,
-            inner_diameter=self.inner_diameter,
-            gap=self.gap,
-            rotation=self.rotation
+            position=_point(self.position),
+            outer_diameter=_number(self.outer_diameter),
+            inner_diameter=_number(self.inner_diameter),
+            gap=_number(self.gap),
+            rotation=_number(self.rotation)
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
         return fmt.format(**data)
@@ -930,10 +942,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            center="%.4g,%.4g" % self.center,
-            rotation=self.rotation
+            width = _number(self.width),
+            height = _number(self.height),
+            center=_point(self.center),
+            rotation=_number(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
         return fmt.format(**data)
@@ -1038,10 +1050,10 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
-            rotation=self.rotation
+            width = _number(self.width),
+            height = _number(self.height),
+            lower_left=_point(self.lower_left),
+            rotation=_number(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
diff --git a/gerber/utils.py b/gerber/utils.py
index b4249dd..51b9084 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -211,6 +211,28 @@ def decimal_string(value, precision=6, padding=False):
         return int(floatstr)
 
 
+def number_string(value, precision=10):
+    """ Convert a number to the shortest decimal string, without exponent
+
+    Parameters
+    ----------
+    value : float
+        A number
+
+    precision : int
+        Maximum number of decimal places
+
+    Returns
+    -------
+    value : string
+        The specified value as a string.
+    """
+    text = '%.*f' % (precision, value)
+    if '.' in text:
+        text = text.rstrip('0').rstrip('.')
+    return '0' if text == '-0' else text
+
+
 def detect_file_format(data):
     """ Determine format of a file
 
-- 
2.43.0


From 825f8c90a9217aa3263ff2228547f21d10c0736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 21/92] fix: aperture macros with parameters lost them when
 written, and sizes were rounded

---
 gerber/gerber_statements.py | 78 +++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 84b12a7..9cc5f75 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -21,7 +21,7 @@ Gerber (RS-274X) Statements
 
 """
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
-                    inch, metric)
+                    number_string, inch, metric)
 
 from .am_statements import *
 from .am_read import read_macro
@@ -358,18 +358,30 @@ class ADParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert_modifiers(inch)
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert_modifiers(metric)
+
+    def _convert_modifiers(self, convert):
+        if self.shape in ('C', 'R', 'O'):
+            lengths = lambda i: True
+        elif self.shape == 'P':
+            # the number of vertices and the rotation are not lengths
+            lengths = lambda i: i not in (1, 2)
+        else:
+            # What the parameters of a macro mean is up to the macro, which is
+            # written with the conversion in its body.
+            return
+        self.modifiers = [tuple([convert(x) if lengths(i) else x
+                                 for i, x in enumerate(modifier)])
+                          for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join([number_string(x) for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
@@ -420,12 +432,16 @@ class AMParamStmt(ParamStmt):
 
         self.instructions = self.read(macro)
         self.primitives = []
+        self._source_units = None
+        self._parameterised = False
 
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
         self.primitives = []
+        if len(modifiers[0]) > 0:
+            self._parameterised = True
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
             if primitive[0] == '0':
@@ -455,18 +471,66 @@ class AMParamStmt(ParamStmt):
 
     def to_inch(self):
         if self.units == 'metric':
+            self._source_units = self._source_units or self.units
             self.units = 'inch'
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
+            self._source_units = self._source_units or self.units
             self.units = 'metric'
             for primitive in self.primitives:
                 primitive.to_metric()
 
     def to_gerber(self, settings=None):
-        return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
+        if self.primitives and not self._parameterised:
+            body = "".join([primitive.to_gerber() for primitive in self.primitives])
+        else:
+            # The primitives are those of the last aperture that uses the macro
+            # (if any), whose parameters are not those of the others.
+            body = self._convert_source()
+        return '%AM{0}*{1}%'.format(self.name, body)
+
+    # Which fields of a primitive are lengths, the primitive code being field 0
+    _LENGTHS = {1: lambda i, n: 2 <= i <= 4,
+                2: lambda i, n: 2 <= i <= 6,
+                20: lambda i, n: 2 <= i <= 6,
+                21: lambda i, n: 2 <= i <= 5,
+                22: lambda i, n: 2 <= i <= 5,
+                4: lambda i, n: 3 <= i <= n - 2,
+                5: lambda i, n: 3 <= i <= 5,
+                6: lambda i, n: 1 <= i <= 8 and i != 6,
+                7: lambda i, n: 1 <= i <= 5}
+
+    def _convert_source(self):
+        """ The source of the macro, in the current units
+        """
+        converted = self._source_units not in (None, self.units)
+        blocks = []
+        for block in self.macro.split('*'):
+            block = block.strip()
+            if not block:
+                continue
+            if converted and not block.startswith('0') and '=' not in block:
+                fields = block.split(',')
+                try:
+                    lengths = self._LENGTHS.get(int(fields[0]))
+                except ValueError:
+                    lengths = None
+                if lengths is not None:
+                    fields = [self._convert_field(f) if lengths(i, len(fields)) else f
+                              for i, f in enumerate(fields)]
+                block = ','.join(fields)
+            blocks.append(block + '*')
+        return ''.join(blocks)
+
+    def _convert_field(self, field):
+        try:
+            value = float(field)
+        except ValueError:
+            return '({0}){1}25.4'.format(field.strip(), 'x' if self.units == 'metric' else '/')
+        return number_string(metric(value) if self.units == 'metric' else inch(value))
 
     def __str__(self):
         return '<Aperture Macro %s: %s>' % (self.name, self.macro)
-- 
2.43.0


From d0d7411f207540393bf6a19a7c1597f8578e3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 22/92] fix: unit conversion did not convert the positions of
 drill hits and slots

---
 gerber/excellon.py | 69 ++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..fcd9268 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -84,6 +84,17 @@ def loads(data, filename=None, settings=None, tools=None):
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
+def _tool_units(tool):
+    settings = tool.settings if tool is not None else None
+    return settings.units if settings is not None else None
+
+
+def _convert_point(point, from_units, to_units):
+    if from_units == to_units or from_units is None or to_units is None:
+        return point
+    return tuple(map(inch if to_units == 'inch' else metric, point))
+
+
 class DrillHit(object):
     """Drill feature that is a single drill hole.
 
@@ -92,22 +103,28 @@ class DrillHit(object):
     tool : ExcellonTool
         Tool to drill the hole. Defines the size of the hole that is generated.
     position : tuple(float, float)
-        Center position of the drill.
+        Center position of the drill, in the units of the tool (which is
+        usually shared with other hits).
 
     """
     def __init__(self, tool, position):
         self.tool = tool
         self.position = position
 
+    @property
+    def position(self):
+        return _convert_point(self._position, self._units, _tool_units(self.tool))
+
+    @position.setter
+    def position(self, value):
+        self._position = value
+        self._units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.position = tuple(map(inch, self.position))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.position = tuple(map(metric, self.position))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -140,17 +157,29 @@ class DrillSlot(object):
         self.end = end
         self.slot_type = slot_type
 
+    @property
+    def start(self):
+        return _convert_point(self._start, self._start_units, _tool_units(self.tool))
+
+    @start.setter
+    def start(self, value):
+        self._start = value
+        self._start_units = _tool_units(self.tool)
+
+    @property
+    def end(self):
+        return _convert_point(self._end, self._end_units, _tool_units(self.tool))
+
+    @end.setter
+    def end(self, value):
+        self._end = value
+        self._end_units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.start = tuple(map(inch, self.start))
-            self.end = tuple(map(inch, self.end))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.start = tuple(map(metric, self.start))
-            self.end = tuple(map(metric, self.end))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -288,10 +317,8 @@ class ExcellonFile(CamFile):
                 statement.to_inch()
             for tool in iter(self.tools.values()):
                 tool.to_inch()
-            #for primitive in self.primitives:
-            #    primitive.to_inch()
-            #for hit in self.hits:
-            #    hit.to_inch()
+            for hit in self.hits:
+                hit.to_inch()
             self.units = 'inch'
 
     def to_metric(self):
@@ -302,10 +329,6 @@ class ExcellonFile(CamFile):
                 statement.to_metric()
             for tool in iter(self.tools.values()):
                 tool.to_metric()
-            #for primitive in self.primitives:
-            #    print("Converting to metric: {}".format(primitive))
-            #    primitive.to_metric()
-            #    print(primitive)
             for hit in self.hits:
                 hit.to_metric()
             self.units = 'metric'
-- 
2.43.0


From bafd4297c57a9c66cbac79a6e0a6be7c6640b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 23/92] fix: drill tools defined before the units were declared
 kept the default units

---
 gerber/excellon.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index fcd9268..8d12f2b 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -619,11 +619,13 @@ class ExcellonParser(object):
             self.zeros = stmt.zeros
             if stmt.format:
                 self.format = stmt.format
+            self._set_tool_units()
             self.statements.append(stmt)
 
         elif line[:3] == 'M71' or line[:3] == 'M72':
             stmt = MeasuringModeStmt.from_excellon(line)
             self.units = stmt.units
+            self._set_tool_units()
             self.statements.append(stmt)
 
         elif line[:3] == 'ICI':
@@ -773,6 +775,15 @@ class ExcellonParser(object):
         return FileSettings(units=self.units, format=self.format,
                             zeros=self.zeros, notation=self.notation)
 
+    def _set_tool_units(self):
+        """
+        The units may be declared after the tools they apply to
+        """
+        if not self.hits:
+            for tool in iter(self.tools.values()):
+                if tool.settings is not None:
+                    tool.settings.units = self.units
+
     def _add_comment_tool(self, tool):
         """
         Add a tool that was defined in the comments to this file.
-- 
2.43.0


From 0c4395019550a749d52ff242361aaf70e6f8d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 24/92] fix: drill files with tools in Holesize comments could
 not be read

---
 gerber/excellon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 8d12f2b..ef64f33 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -497,7 +497,8 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
+                    tool.settings = self._settings()
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
@@ -817,6 +818,11 @@ class ExcellonParser(object):
         if not tool:
             tool = self.comment_tools.get(toolid)
             if tool:
+                # The size was converted to the units at the comment
+                if self.units == 'inch':
+                    tool.to_inch()
+                else:
+                    tool.to_metric()
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From 8e813098c523991a8fd6fc7c9a1d9278bfc4dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 25/92] fix: slots with modal or incremental coordinates were
 misplaced

---
 gerber/excellon.py            | 34 +++++++++++++++++-----------------
 gerber/excellon_statements.py |  9 +++++----
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index ef64f33..1a79094 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -709,30 +709,18 @@ class ExcellonParser(object):
         elif line[0] in ['X', 'Y']:
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
-
-                # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
-
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
+                # The slot ends up where the second point is
+                self._move(stmt.x_start, stmt.y_start)
+                start = tuple(self.pos)
+                self._move(stmt.x_end, stmt.y_end)
 
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
@@ -772,6 +760,18 @@ class ExcellonParser(object):
         else:
             self.statements.append(UnknownStmt.from_excellon(line))
 
+    def _move(self, x, y):
+        if self.notation == 'absolute':
+            if x is not None:
+                self.pos[0] = x
+            if y is not None:
+                self.pos[1] = y
+        else:
+            if x is not None:
+                self.pos[0] += x
+            if y is not None:
+                self.pos[1] += y
+
     def _settings(self):
         return FileSettings(units=self.units, format=self.format,
                             zeros=self.zeros, notation=self.notation)
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..a93eb4e 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -861,10 +861,11 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        if settings.notation != 'incremental':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 844127889bb20bf64fcff775f37b0a78275563c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 26/92] fix: drill report and path length failed on slots and
 unused tools, and hit counts missed modal slots

---
 gerber/excellon.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 1a79094..a91076b 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -273,16 +273,16 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
+        rprt += '  Data Mode         %s\n' % ('Absolute'
                  if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
+        rprt += '  Units             %s\n' % ('Inches'
                  if self.settings.units == 'inch' else 'Millimeters')
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count, self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
@@ -352,9 +352,11 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            points = ((hit.start, hit.end) if isinstance(hit, DrillSlot)
+                      else (hit.position,))
+            for point in points:
+                lengths[num] += math.hypot(*tuple(map(operator.sub, positions[num], point)))
+                positions[num] = point
 
         if tool_number is None:
             return lengths
@@ -747,6 +749,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From 07f235c4ff594b561b81590914ef73b467ad230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 27/92] fix: drill files had no bounds

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index a91076b..0856112 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -262,6 +262,10 @@ class ExcellonFile(CamFile):
             ymax = max(bbox[1][1], ymax)
         return ((xmin, xmax), (ymin, ymax))
 
+    @property
+    def bounds(self):
+        return self.bounding_box
+
     def report(self, filename=None):
         """ Print or save drill report
         """
-- 
2.43.0


From 9acacd9d53c8830380262a9c95ba1d2467033d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 28/92] fix: drill data in strings with CR line ends was read
 as one line

---
 gerber/excellon.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 0856112..a92d3d7 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -25,6 +25,7 @@ This module provides Excellon file classes and parsing utilities
 
 import math
 import operator
+import re
 
 from .cam import CamFile, FileSettings
 from .excellon_statements import *
@@ -33,13 +34,6 @@ from .primitives import Drill, Slot
 from .utils import inch, metric
 
 
-try:
-    from cStringIO import StringIO
-except(ImportError):
-    from io import StringIO
-
-
-
 def read(filename):
     """ Read data from filename and return an ExcellonFile
     Parameters
@@ -460,7 +454,7 @@ class ExcellonParser(object):
         return self.parse_raw(data, filename)
 
     def parse_raw(self, data, filename=None):
-        for line in StringIO(data):
+        for line in re.split('\r\n|\r|\n', data):
             self._parse_line(line.strip())
         for stmt in self.statements:
             stmt.units = self.units
-- 
2.43.0


From 79713fc8f840b16d39efbf2625b6e5904ea08092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 29/92] fix: the number format of a drill file's unit statement
 was not written

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index a93eb4e..6f027d0 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -679,10 +679,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format is not None:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From f1054e8949c2bae803e281ce5e6369e514e6ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 30/92] fix: saved drill files lost slots, repeated holes or
 could not be read back

---
 gerber/excellon.py | 160 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 139 insertions(+), 21 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index a92d3d7..8f98b5c 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -288,23 +288,138 @@ class ExcellonFile(CamFile):
 
     def write(self, filename=None):
         filename = filename if filename is not None else self.filename
-        with open(filename, 'w') as f:
 
-            # Copy the header verbatim
-            for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
-                    break
+        # Make sure everything can be written before touching the file
+        text = self._to_excellon()
+        with open(filename, 'w') as f:
+            f.write(text)
 
-            # Write out coordinates for drill hits by tool
-            for tool in iter(self.tools.values()):
-                f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
-                for hit in self.hits:
-                    if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
-            f.write(EndOfProgramStmt().to_excellon() + '\n')
+    def _to_excellon(self):
+        header = self._header_statements()
+        body = []
+        for tool in iter(self.tools.values()):
+            body.append(ToolSelectionStmt(tool.number))
+            body.extend(self._hit_statements(tool))
+        body.append(EndOfProgramStmt())
+
+        def to_text(statements):
+            return ''.join([statement.to_excellon(self.settings) + '\n'
+                            for statement in statements])
+        declarations = self._missing_declarations(header, to_text(header + body))
+        start = 0
+        for i, statement in enumerate(header):
+            if isinstance(statement, HeaderBeginStmt):
+                start = i + 1
+                break
+        return to_text(header[:start] + declarations + header[start:] + body)
+
+    def _header_statements(self):
+        """ The statements before the first tool selection, with the
+        definitions of all tools. The hits are written elsewhere.
+        """
+        body = (CoordinateStmt, SlotStmt, RepeatHoleStmt, RouteModeStmt,
+                ZAxisRoutPositionStmt, RetractWithClampingStmt,
+                RetractWithoutClampingStmt, NextToolSelectionStmt,
+                EndOfProgramStmt)
+        header = []
+        defined = []
+        state = 'INIT'
+        end = None
+        incremental = False
+        for statement in self.statements:
+            if isinstance(statement, ToolSelectionStmt):
+                break
+            if isinstance(statement, body):
+                continue
+            if isinstance(statement, ExcellonTool):
+                if state != 'HEADER':
+                    continue
+                defined.append(statement)
+            elif isinstance(statement, HeaderBeginStmt):
+                state = 'HEADER'
+            elif isinstance(statement, CommentStmt):
+                if 'HEADER:' in statement.comment or ' Holesize ' in statement.comment:
+                    state = 'HEADER'
+            elif isinstance(statement, (RewindStopStmt, HeaderEndStmt, DrillModeStmt)):
+                if state == 'HEADER':
+                    state = 'DRILL'
+                    end = len(header)
+                elif state == 'INIT' and isinstance(statement, RewindStopStmt):
+                    state = 'HEADER'
+            elif isinstance(statement, IncrementalModeStmt):
+                incremental = statement.mode == 'on'
+            elif isinstance(statement, AbsoluteModeStmt):
+                incremental = False
+            header.append(statement)
+
+        missing = [tool for tool in iter(self.tools.values())
+                   if not any(tool is stmt for stmt in defined)]
+        if state == 'HEADER':
+            header += missing + [RewindStopStmt()]
+        elif missing and end is not None:
+            header[end:end] = missing
+        elif missing:
+            header = ([HeaderBeginStmt()]
+                      + [s for s in header if not isinstance(s, DrillModeStmt)]
+                      + missing + [RewindStopStmt()])
+        if incremental:
+            # The coordinates are written as absolute ones
+            header.append(AbsoluteModeStmt())
+        return header
+
+    def _hit_statements(self, tool):
+        statements = []
+        routing = False
+        for hit in self.hits:
+            if hit.tool.number != tool.number:
+                continue
+            if isinstance(hit, DrillSlot) and hit.slot_type == DrillSlot.TYPE_ROUT:
+                statements += [CoordinateStmt.from_point(hit.start, 'ROUT'),
+                               ZAxisRoutPositionStmt(),
+                               CoordinateStmt.from_point(hit.end, 'LINEAR'),
+                               RetractWithClampingStmt()]
+                routing = True
+                continue
+            if routing:
+                statements.append(DrillModeStmt())
+                routing = False
+            if isinstance(hit, DrillSlot):
+                statements.append(SlotStmt.from_points(hit.start, hit.end))
+            else:
+                statements.append(CoordinateStmt(*hit.position))
+        if routing:
+            statements.append(DrillModeStmt())
+        return statements
+
+    def _missing_declarations(self, header, text):
+        """ What has to be added to the header for the numbers to be read back
+        as they are meant
+        """
+        units, zeros, format = 'inch', None, None
+        for statement in header:
+            if isinstance(statement, UnitStmt):
+                units = statement.units
+                zeros = statement.zeros
+                format = statement.format or format
+            elif isinstance(statement, MeasuringModeStmt):
+                units = statement.units
+            elif isinstance(statement, FormatStmt):
+                format = statement.format_tuple
+            elif isinstance(statement, CommentStmt) and 'FILE_FORMAT' in statement.comment:
+                format = tuple([int(x) for x in statement.comment.split('=')[1].split(':')])
+        if zeros is None or format is None:
+            detected = detect_excellon_format(text)
+            zeros = zeros or detected['zeros']
+            format = format or detected['format']
+
+        declarations = []
+        if format != self.format:
+            declarations.append(CommentStmt('FILE_FORMAT=%d:%d' % self.format))
+        if zeros != self.zeros:
+            declarations.append(UnitStmt(self.units, self.zeros))
+        elif units != self.units:
+            declarations.append(MeasuringModeStmt(self.units))
+        return declarations
 
     def to_inch(self):
         """
@@ -688,12 +803,15 @@ class ExcellonParser(object):
                         self._settings(), number=stmt.tool, diameter=diameter)
                     self.tools[tool.number] = tool
 
-                    # FIXME: need to add this tool definition inside header to
-                    # make sure it is properly written
-                    for i, s in enumerate(self.statements):
-                        if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
-                            self.statements.insert(i, tool)
-                            break
+                    # after the other tools, or before the first is selected
+                    index = [i for i, s in enumerate(self.statements)
+                             if isinstance(s, ExcellonTool)]
+                    if index:
+                        self.statements.insert(index[-1] + 1, tool)
+                    else:
+                        index = [i for i, s in enumerate(self.statements)
+                                 if isinstance(s, ToolSelectionStmt)]
+                        self.statements.insert(index[0], tool)
 
                 self.active_tool = tool
 
-- 
2.43.0


From 591848e149b09eda16e8a047548d5e6b1652423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 31/92] fix: tool parameters that do not fit the number format
 were not written

---
 gerber/excellon_statements.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 6f027d0..6c2b6c4 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -24,7 +24,7 @@ Excellon Statements
 import re
 import uuid
 import itertools
-from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
+from .utils import (parse_gerber_value, write_gerber_value, decimal_string, number_string,
                     inch, metric)
 
 
@@ -218,21 +218,26 @@ class ExcellonTool(ExcellonStatement):
         fmt = settings.format
         zs = settings.zero_suppression
         stmt = 'T%02d' % self.number
+        def parameter(value):
+            try:
+                return write_gerber_value(value, fmt, zs)
+            except ValueError:
+                # Numbers with a decimal point need not fit the format
+                text = number_string(value)
+                return text if '.' in text else text + '.0'
+
         if self.retract_rate is not None:
-            stmt += 'B%s' % write_gerber_value(self.retract_rate, fmt, zs)
+            stmt += 'B%s' % parameter(self.retract_rate)
         if self.feed_rate is not None:
-            stmt += 'F%s' % write_gerber_value(self.feed_rate, fmt, zs)
+            stmt += 'F%s' % parameter(self.feed_rate)
         if self.max_hit_count is not None:
-            stmt += 'H%s' % write_gerber_value(self.max_hit_count, fmt, zs)
+            stmt += 'H%s' % parameter(self.max_hit_count)
         if self.rpm is not None:
-            if self.rpm < 100000.:
-                stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
-            else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+            stmt += 'S%s' % parameter(self.rpm / 1000.)
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-            stmt += 'Z%s' % write_gerber_value(self.depth_offset, fmt, zs)
+            stmt += 'Z%s' % parameter(self.depth_offset)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 78dcb52110ce490ad9fc7c43778138e0d56ef2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 32/92] fix: plating of a tool stated in a comment was lost
 when the tool is also defined

---
 gerber/excellon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 8f98b5c..b387166 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -926,7 +926,8 @@ class ExcellonParser(object):
         """
 
         if tool.plated == ExcellonTool.PLATED_UNKNOWN:
-            ext_tool = self.ext_tools.get(tool.number)
+            ext_tool = (self.ext_tools.get(tool.number) or
+                        self.comment_tools.get(tool.number))
 
             if ext_tool:
                 tool.plated = ext_tool.plated
-- 
2.43.0


From 8f9eef92dbd9234f7275fc146a266a1e7a8d0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 33/92] fix: depth offsets of drill tools were not converted

---
 gerber/excellon_statements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 6c2b6c4..89c0820 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -245,12 +245,16 @@ class ExcellonTool(ExcellonStatement):
             self.settings.units = 'inch'
             if self.diameter is not None:
                 self.diameter = inch(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = inch(self.depth_offset)
 
     def to_metric(self):
         if self.settings.units != 'metric':
             self.settings.units = 'metric'
             if self.diameter is not None:
                 self.diameter = metric(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = metric(self.depth_offset)
 
     def _hit(self):
         self.hit_count += 1
-- 
2.43.0


From e3670bbfc5d8d0682361720b3dcdf93c48064608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 34/92] fix: sizes of drill tools were truncated, not rounded,
 when written

---
 gerber/excellon_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 89c0820..7011f2b 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -235,7 +235,7 @@ class ExcellonTool(ExcellonStatement):
         if self.rpm is not None:
             stmt += 'S%s' % parameter(self.rpm / 1000.)
         if self.diameter is not None:
-            stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
+            stmt += 'C%s' % decimal_string(round(self.diameter, fmt[1]), fmt[1], True)
         if self.depth_offset is not None:
             stmt += 'Z%s' % parameter(self.depth_offset)
         return stmt
-- 
2.43.0


From 7fc6a6810a15cc619e3ddd95c81471e86da95a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 35/92] fix: tools used without a definition lost the plating
 of their file

---
 gerber/excellon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b387166..7280509 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -800,7 +800,8 @@ class ExcellonParser(object):
                         diameter = metric((16 + 8 * stmt.tool) / 1000.0)
 
                     tool = ExcellonTool(
-                        self._settings(), number=stmt.tool, diameter=diameter)
+                        self._settings(), number=stmt.tool, diameter=diameter,
+                        plated=self.plated)
                     self.tools[tool.number] = tool
 
                     # after the other tools, or before the first is selected
-- 
2.43.0


From 9ee935edd7272a4a2619a9acca2da89aeec76c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 36/92] fix: parameters of drill tools were written before the
 format they are written in

---
 gerber/excellon.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7280509..e13a629 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -365,7 +365,19 @@ class ExcellonFile(CamFile):
         if incremental:
             # The coordinates are written as absolute ones
             header.append(AbsoluteModeStmt())
-        return header
+
+        # The tool definitions are written in the declared format
+        first = min([i for i, stmt in enumerate(header)
+                     if isinstance(stmt, ExcellonTool)] or [len(header)])
+        late = [stmt for stmt in header[first:] if self._is_declaration(stmt)]
+        return header[:first] + late + [stmt for stmt in header[first:]
+                                        if not self._is_declaration(stmt)]
+
+    @staticmethod
+    def _is_declaration(statement):
+        return (isinstance(statement, (UnitStmt, MeasuringModeStmt, FormatStmt))
+                or (isinstance(statement, CommentStmt)
+                    and 'FILE_FORMAT' in statement.comment))
 
     def _hit_statements(self, tool):
         statements = []
-- 
2.43.0


From abd2891203412f96c185840eb7cc741f50d3d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 37/92] fix: declaring the format of a saved drill file could
 change the zero suppression it is read with

---
 gerber/excellon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e13a629..5d5d689 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -420,9 +420,11 @@ class ExcellonFile(CamFile):
             elif isinstance(statement, CommentStmt) and 'FILE_FORMAT' in statement.comment:
                 format = tuple([int(x) for x in statement.comment.split('=')[1].split(':')])
         if zeros is None or format is None:
+            # One declaration alone could change how the other is guessed
             detected = detect_excellon_format(text)
-            zeros = zeros or detected['zeros']
-            format = format or detected['format']
+            if (format or detected['format'],
+                    zeros or detected['zeros']) == (self.format, self.zeros):
+                format, zeros = self.format, self.zeros
 
         declarations = []
         if format != self.format:
-- 
2.43.0


From ac9788f2ef2a84b27cdadd3d12c571a39596e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 38/92] fix: names of files included by an included file were
 looked up in the wrong directory

---
 gerber/rs274x.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0a67f97..7601cd9 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -404,10 +404,14 @@ class GerberParser(object):
                         # Don't crash on include loop
                         if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:
                             self._recursion_depth += 1
-                            with open(os.path.join(os.path.dirname(self.filename), param["filename"]), 'r') as f:
+                            including = self.filename
+                            included = os.path.join(os.path.dirname(including), param["filename"])
+                            with open(included, 'r') as f:
                                 inc_data = f.read()
+                            self.filename = included
                             for stmt in self._parse(self._split_commands(inc_data)):
                                 yield stmt
+                            self.filename = including
                             self._recursion_depth -= 1
                         else:
                             raise IOError("Include file nesting depth limit exceeded.")
-- 
2.43.0


From efbd6958d56982bfe954211cd9b7da34d841d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 39/92] fix: the last command of an included file without a
 final newline was dropped

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 7601cd9..a43e57d 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -325,6 +325,10 @@ class GerberParser(object):
                 start = cur + 1
                 in_header = False
 
+        # A complete command at the end, before which there were no parameters
+        if in_header and not data.startswith('%', start) and data.endswith('*'):
+            yield data[start:]
+
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
         return json.dumps(stmts)
-- 
2.43.0


From a45a041acddfadddeea39959c3df5858bf24ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 40/92] fix: the name of an included file took in the commands
 after it on the same line

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a43e57d..58c689b 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -213,7 +213,7 @@ class GerberParser(object):
     AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*%]*)"
 
 
     # begin deprecated
-- 
2.43.0


From 4739e2daee4eaad5b4fcf8778447d9745213c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 41/92] fix: commands before the first parameter of an included
 file were not split

---
 gerber/rs274x.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 58c689b..9ba839f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -301,7 +301,7 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_header = False
 
         for cur in range(0, length):
 
@@ -325,10 +325,6 @@ class GerberParser(object):
                 start = cur + 1
                 in_header = False
 
-        # A complete command at the end, before which there were no parameters
-        if in_header and not data.startswith('%', start) and data.endswith('*'):
-            yield data[start:]
-
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
         return json.dumps(stmts)
-- 
2.43.0


From 8a63d1c4bb197c005bda9a343dab89f049896d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 42/92] fix: the last field of a netlist record lost its last
 character

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..41763bb 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,22 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = min(len(line), 17)
         record['net_name'] = line[3:end].strip()
 
         if len(line) >= 27 and line[26] != '-':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = min(len(line), 26 + offset)
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = min(len(line), 31 + offset)
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = min(len(line), 37 + offset)
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +314,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = min(len(line), 41 + offset)
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = min(len(line), 49 + offset)
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = min(len(line), 57 + offset)
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = min(len(line), 62 + offset)
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = min(len(line), 67 + offset)
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = min(len(line), 71 + offset)
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,7 +356,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = min(len(line), 79 + offset)
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From a8f2847570f7206d9a8d6a6d7131a86eea565e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 43/92] fix: netlist records without a pin were misread if a
 coordinate is negative

---
 gerber/ipc356.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 41763bb..ba971fc 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -294,7 +294,8 @@ class IPC356_TestRecord(object):
         end = min(len(line), 17)
         record['net_name'] = line[3:end].strip()
 
-        if len(line) >= 27 and line[26] != '-':
+        if len(line) >= 27 and line[26] not in '- ':
+            # a long reference designator runs up to the separator
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
         end = min(len(line), 26 + offset)
-- 
2.43.0


From bdc2b9a216dd875168777be1b85fdb7bba806de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 44/92] fix: negative coordinates of netlist outlines and
 conductors were ignored

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index ba971fc..cabdb68 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[-+\d\s]*)?Y?(?P<y>[-+\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From d3f01035b352cd30ce663de94b83cc083ef09579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 45/92] fix: listing the nets of a netlist with adjacencies
 failed or lost them

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index cabdb68..3138156 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From b491008edfce43c8e2c61389ca5763ba8e8a867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 46/92] fix: netlists in radians could not be read

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 3138156..df8e770 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -349,7 +349,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 32ec0970946c600a2e0fc81a46472f2523ad3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 47/92] fix: net name variables were not substituted in
 conductor and adjacency records

---
 gerber/ipc356.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index df8e770..4721707 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -215,21 +215,22 @@ class IPCNetlistParser(object):
             # Test Record
             record = IPC356_TestRecord.from_line(line, self.settings)
 
-            # Substitute net name variables
-            net = record.net_name
-            if (_NNAME.match(net) and net in self.nnames.keys()):
-                record.net_name = self.nnames[record.net_name]
+            record.net_name = self._net_name(record.net_name)
             self.statements.append(record)
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            record = IPC356_Conductor.from_line(line, self.settings)
+            record.net_name = self._net_name(record.net_name)
+            self.statements.append(record)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            record = IPC356_Adjacency.from_line(line)
+            record.net = self._net_name(record.net)
+            record.adjacent_nets = [self._net_name(net)
+                                    for net in record.adjacent_nets]
+            self.statements.append(record)
 
         elif line[0:3] == '389':
             # Outline
@@ -237,6 +238,10 @@ class IPCNetlistParser(object):
                 IPC356_Outline.from_line(
                     line, self.settings))
 
+    def _net_name(self, name):
+        # Substitute net name variables
+        return self.nnames.get(name, name)
+
 
 class IPC356_Comment(object):
 
-- 
2.43.0


From bfb34ec3baffcdc87ef79c79b137bc8b9aa710e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 48/92] fix: test points of a netlist had no units

---
 gerber/ipc356.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 4721707..1e13b5a 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -82,7 +82,8 @@ class IPCNetlist(CamFile):
         self.units = settings.units
         self.angle_units = settings.angle_units
         self.primitives = [TestRecord((rec.x_coord, rec.y_coord), rec.net_name,
-                                      rec.access) for rec in self.test_records]
+                                      rec.access, units=self.units)
+                           for rec in self.test_records]
         self.filename = filename
 
     @property
-- 
2.43.0


From 76b765ad6e4e019ae6c3d3b514113bded557c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 49/92] fix: nets and components of a netlist were listed in a
 different order in every process

---
 gerber/ipc356.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 1e13b5a..3345311 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -108,8 +108,8 @@ class IPCNetlist(CamFile):
     @property
     def nets(self):
         nets = []
-        for net in list(set([rec.net_name for rec in self.test_records
-                             if rec.net_name is not None])):
+        for net in sorted(set([rec.net_name for rec in self.test_records
+                               if rec.net_name is not None])):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
@@ -121,8 +121,8 @@ class IPCNetlist(CamFile):
 
     @property
     def components(self):
-        return list(set([rec.id for rec in self.test_records
-                         if rec.id is not None and rec.id != 'VIA']))
+        return sorted(set([rec.id for rec in self.test_records
+                           if rec.id is not None and rec.id != 'VIA']))
 
     @property
     def vias(self):
-- 
2.43.0


From 00b934966453f2d40ffc10418929d04d44dfdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 50/92] fix: shapes a Gerber cannot express were left out of
 regenerated files without notice

---
 gerber/render/rs274x_backend.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..68cb1c5 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -10,7 +10,8 @@ except(ImportError):
 from .render import GerberContext
 from ..am_statements import *
 from ..gerber_statements import *
-from ..primitives import AMGroup, Arc, Circle, Line, Obround, Outline, Polygon, Rectangle
+from ..primitives import (AMGroup, Arc, Circle, Drill, Line, Obround, Outline, Polygon, Rectangle, Region, Slot,
+                          TestRecord)
 
 
 class AMGroupContext(object):
@@ -154,6 +155,21 @@ class Rs274xContext(GerberContext):
     def paint_background(self):
         pass
 
+    def render(self, primitive):
+        self._check_expressible(primitive)
+        GerberContext.render(self, primitive)
+
+    def _check_expressible(self, primitive):
+        '''Complain about what would otherwise be left out or written as another shape'''
+
+        if not isinstance(primitive, (Line, Arc, Region, Circle, Rectangle, Obround, Polygon,
+                                      AMGroup, Outline, Drill, Slot, TestRecord)):
+            raise ValueError('%s is not valid in RS274X files' % type(primitive).__name__)
+
+        for shape in (primitive, getattr(primitive, 'aperture', None)):
+            if isinstance(shape, (Rectangle, Obround)) and shape.rotation:
+                raise ValueError('A rotated %s is not valid in RS274X files' % type(shape).__name__)
+
     def _select_aperture(self, aperture):
 
         # Select the right aperture if not already selected
@@ -395,6 +411,12 @@ class Rs274xContext(GerberContext):
     def _render_drill(self, drill, color):
         raise ValueError('Drills are not valid in RS274X files')
 
+    def _render_slot(self, slot, color):
+        raise ValueError('Slots are not valid in RS274X files')
+
+    def _render_test_record(self, record, color):
+        raise ValueError('Test records are not valid in RS274X files')
+
     def _hash_amacro(self, amgroup):
         '''Calculate a very quick hash code for deciding if we should even check AM groups for comparision'''
 
-- 
2.43.0


From 063206a21b06ac8742c16b367e1d4df3db6d8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 51/92] fix: objects drawn in one unit were written into a file
 in the other without conversion

---
 gerber/render/rs274x_backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 68cb1c5..23662a7 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -157,6 +157,13 @@ class Rs274xContext(GerberContext):
 
     def render(self, primitive):
         self._check_expressible(primitive)
+        if primitive.units is not None and primitive.units != self.settings.units:
+            # The file is in one unit, whatever the objects drawn into it are in
+            primitive = deepcopy(primitive)
+            if self.settings.units == 'inch':
+                primitive.to_inch()
+            else:
+                primitive.to_metric()
         GerberContext.render(self, primitive)
 
     def _check_expressible(self, primitive):
-- 
2.43.0


From 361347b425746143fb74578c5814263c91ae050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 52/92] fix: dots drawn as lines without length were left out
 of regenerated files

---
 gerber/render/rs274x_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 23662a7..105f923 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -222,10 +222,13 @@ class Rs274xContext(GerberContext):
 
         point = self._simplify_point(line.end)
 
-        # In some files, we see a lot of duplicated ponts, so omit those
+        # In some files, we see a lot of duplicated ponts, so omit those which
+        # follow a line or arc that ends there
         if point[0] != None or point[1] != None:
             self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
             self._pos = line.end
+        elif not (self.body and isinstance(self.body[-1], CoordStmt) and self.body[-1].op == CoordStmt.OP_DRAW):
+            self.body.append(CoordStmt.line(func, line.end))
         elif func:
             self.body.append(CoordStmt.mode(func))
 
-- 
2.43.0


From bc3479027fb71fe7e7cbb3aa5c88224d129100e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 53/92] fix: parameters of a macro aperture were lost in
 regenerated files

---
 gerber/gerber_statements.py     | 6 ++++--
 gerber/primitives.py            | 4 +++-
 gerber/render/rs274x_backend.py | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 9cc5f75..d6a1a42 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -310,7 +310,9 @@ class ADParamStmt(ParamStmt):
 
 
     @classmethod
-    def macro(cls, dcode, name):
+    def macro(cls, dcode, name, modifiers=()):
+        if modifiers:
+            return cls('AD', dcode, name, (tuple(modifiers),))
         return cls('AD', dcode, name, '')
 
     @classmethod
@@ -467,7 +469,7 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        return AMGroup(self.primitives, stmt=self, modifiers=modifiers[0], units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
diff --git a/gerber/primitives.py b/gerber/primitives.py
index dadb482..6379f65 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1269,10 +1269,11 @@ class Polygon(Primitive):
 class AMGroup(Primitive):
     """
     """
-    def __init__(self, amprimitives, stmt = None, **kwargs):
+    def __init__(self, amprimitives, stmt = None, modifiers = (), **kwargs):
         """
 
         stmt : The original statment that generated this, since it is really hard to re-generate from primitives
+        modifiers : The values the parameters of that statement had
         """
         super(AMGroup, self).__init__(**kwargs)
 
@@ -1287,6 +1288,7 @@ class AMGroup(Primitive):
         self._position = None
         self._to_convert = ['_position', 'primitives']
         self.stmt = stmt
+        self.modifiers = modifiers
 
     def to_inch(self):
         if self.units == 'metric':
diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 105f923..edb2c40 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -500,7 +500,8 @@ class Rs274xContext(GerberContext):
 
             self.header.append(statement)
 
-            aperdef = ADParamStmt.macro(dcode, hash)
+            modifiers = amgroup.modifiers if amgroup.stmt else ()
+            aperdef = ADParamStmt.macro(dcode, hash, modifiers)
             self.header.append(aperdef)
 
             # Store the dcode and the original so we can check if it really is the same
-- 
2.43.0


From b27c3670f3d4f1be6dce68706ce6d0bb246fdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 54/92] fix: holes of apertures used for drawing were lost in
 regenerated files

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index edb2c40..e25e35a 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -184,9 +184,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter,
+                                           aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter,
+                                         aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From a57ab5110740686e8b77c4433165fe49f394d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 55/92] fix: objects drawn with a polygon aperture could not be
 regenerated

---
 gerber/render/rs274x_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index e25e35a..2084ccc 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -189,6 +189,10 @@ class Rs274xContext(GerberContext):
             elif isinstance(aperture, Obround):
                 aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter,
                                          aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation,
+                                         aperture.hole_diameter, aperture.hole_width,
+                                         aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 43755ee69ce9084a598cfeedba91122c24f92437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 56/92] fix: different macros were given the same name in
 regenerated files

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 2084ccc..00b608a 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -501,13 +501,15 @@ class Rs274xContext(GerberContext):
 
             # Create the statements
             # TODO
+            # Different macros may have the same hash, but not the same name
+            name = '{0}_{1}'.format(hash, len(macroinfo)) if macroinfo else hash
             amrenderer = AMGroupContext()
-            statement = amrenderer.render(amgroup, hash)
+            statement = amrenderer.render(amgroup, name)
 
             self.header.append(statement)
 
             modifiers = amgroup.modifiers if amgroup.stmt else ()
-            aperdef = ADParamStmt.macro(dcode, hash, modifiers)
+            aperdef = ADParamStmt.macro(dcode, name, modifiers)
             self.header.append(aperdef)
 
             # Store the dcode and the original so we can check if it really is the same
-- 
2.43.0


From e90acb00795f9f1886be71b406dbeba8119e41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 57/92] fix: macros that differ in exposure or rotation were
 taken for each other in regenerated files

---
 gerber/primitives.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6379f65..6a7b053 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1261,6 +1261,9 @@ class Polygon(Primitive):
         if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
             return False
 
+        if self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+            return False
+
         equiv_pos = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_pos)
@@ -1362,6 +1365,8 @@ class AMGroup(Primitive):
 
         # We know they have the same number of primitives, so now check them all
         for i in range(0, len(self.primitives)):
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
 
-- 
2.43.0


From 3376142fa4344919389df52419be3e3c62d46bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 58/92] fix: clear parts of macros without a known source
 became dark in regenerated files

---
 gerber/am_statements.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 716d581..1cbcc9f 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -42,6 +42,12 @@ def _point(point):
     return ','.join([number_string(x) for x in point])
 
 
+def exposure_of(primitive):
+    """ The exposure that gives a macro primitive the polarity of `primitive`
+    """
+    return 'off' if primitive.level_polarity == 'clear' else 'on'
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -203,7 +209,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, exposure_of(primitive), primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position):
         validate_coordinates(position)
@@ -275,7 +281,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, exposure_of(primitive), primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -406,7 +412,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, exposure_of(primitive), start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -521,7 +527,7 @@ class AMPolygonPrimitive(AMPrimitive):
     @classmethod
     def from_primitive(cls, primitive):
         position = rotate_point(primitive.position, -primitive.rotation)
-        return cls(5, 'on', primitive.sides, position, primitive.diameter, primitive.rotation)
+        return cls(5, exposure_of(primitive), primitive.sides, position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -905,7 +911,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         height = primitive.height
         center = primitive.position
         rotation = math.degrees(primitive.rotation)
-        return cls(21, 'on', width, height, center, rotation)
+        return cls(21, exposure_of(primitive), width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From fcbe3645df61acd7f36d5c5c8ac4c4b07825b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 59/92] fix: the order of internal layers depended on the
 directory of the board

---
 gerber/layers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..0428c56 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -254,10 +254,14 @@ class InternalLayer(PCBLayer):
     @classmethod
     def from_cam(cls, camfile):
         filename = camfile.filename
-        try:
-            order = int(re.search(r'\d+', filename).group())
-        except AttributeError:
-            order = 0
+        # The number of the layer is the one in an extension like .g2, or the
+        # last one in a name like board-In2.Cu.gbr. The other numbers (and those
+        # of the directories) have nothing to do with it.
+        name, ext = os.path.splitext(os.path.basename(filename))
+        if ext[1:].lower() in layer_signatures('internal') and ext[-1].isdigit():
+            name = ext
+        numbers = re.findall(r'\d+', name)
+        order = int(numbers[-1]) if numbers else 0
         return cls(filename, camfile, order)
 
     def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
-- 
2.43.0


From a66691eb5763263120671a69d90cdfb1e1a251f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 60/92] fix: a file that is not text or holds malformed numbers
 made a whole board unreadable

---
 gerber/pcb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..9afaac2 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -55,7 +55,8 @@ class PCB(object):
             except ParseError:
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
-            except IOError:
+            except (IOError, ValueError):
+                # ValueError covers what is not text in the first place
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
 
-- 
2.43.0


From a5e26468dc6935e740a919991b055329f5d156f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 61/92] fix: layers of the same class were stacked in the order
 the file system lists them

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 9afaac2..af5c5ea 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -35,8 +35,8 @@ class PCB(object):
         if not os.path.isdir(directory):
             raise TypeError('{} is not a directory.'.format(directory))
 
-        # Load gerber files
-        for filename in listdir(directory, True, True):
+        # Load gerber files (in an order that is not up to the file system)
+        for filename in sorted(listdir(directory, True, True)):
             try:
                 camfile = gerber_read(os.path.join(directory, filename))
                 layer = PCBLayer.from_cam(camfile)
-- 
2.43.0


From 9bb5b4ad465d4224c76079cc5994e2d55c2b3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 62/92] fix: the layers of a side without copper could not be
 listed

---
 gerber/pcb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index af5c5ea..d38d119 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -82,7 +82,9 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        # (there may be no copper layer, or no layer at all, on this side)
+        copper = [l for l in board_layers if l.layer_class == 'top']
+        return copper + drill_layers + [l for l in board_layers if l not in copper]
 
     @property
     def bottom_layers(self):
@@ -90,7 +92,8 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        copper = [l for l in board_layers if l.layer_class == 'bottom']
+        return copper + drill_layers + [l for l in board_layers if l not in copper]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 841c59aa46c25c80c792c6d15a7229b78175ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 63/92] fix: a damaged file made a whole board unreadable

---
 gerber/pcb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index d38d119..becf379 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -55,8 +55,9 @@ class PCB(object):
             except ParseError:
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
-            except (IOError, ValueError):
-                # ValueError covers what is not text in the first place
+            except Exception:
+                # There is no telling how reading something that is not a well
+                # formed layer fails
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
 
-- 
2.43.0


From 9ff986080e5698c7ef554ec819ca001163e7732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 64/92] fix: drawing context can go on after an SVG is written

---
 gerber/render/cairo_backend.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..5a3de50 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -50,6 +50,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
+        self._painted = []
 
     @property
     def origin_in_pixels(self):
@@ -140,11 +141,9 @@ class GerberCairoContext(GerberContext):
         if verbose:
             print('[Render]: Writing image to {}'.format(filename))
         if is_svg:
-            self.surface.finish()
-            self.surface_buffer.flush()
+            data = self.dump_svg_str()
             with open(filename, "wb") as f:
-                self.surface_buffer.seek(0)
-                f.write(self.surface_buffer.read())
+                f.write(data)
                 f.flush()
         else:
             return self.surface.write_to_png(filename)
@@ -159,9 +158,19 @@ class GerberCairoContext(GerberContext):
     def dump_svg_str(self):
         """ Return a string containg the rendered SVG.
         """
-        self.surface.finish()
-        self.surface_buffer.flush()
-        return self.surface_buffer.read()
+        # Writing an SVG finishes its surface, so the picture is put on one of
+        # its own: there may be more layers (and more dumps) to come.
+        fobj = BytesIO()
+        surface = cairo.SVGSurface(fobj, *self.size_in_pixels)
+        ctx = cairo.Context(surface)
+        for source, mask in self._painted:
+            ctx.set_source_rgba(*source)
+            if mask is None:
+                ctx.paint()
+            else:
+                ctx.mask_surface(mask)
+        surface.finish()
+        return fobj.getvalue()
 
     def clear(self):
         self.surface = None
@@ -171,6 +180,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
+        self._painted = []
         self.surface_buffer = None
 
     def _new_mask(self):
@@ -553,6 +563,7 @@ class GerberCairoContext(GerberContext):
         alpha = alpha if alpha is not None else self.alpha
         self.output_ctx.set_source_rgba(color[0], color[1], color[2], alpha)
         self.output_ctx.mask_surface(self.active_layer)
+        self._painted.append(((color[0], color[1], color[2], alpha), self.active_layer))
         self.ctx = None
         self.active_layer = None
         self.active_matrix = None
@@ -564,6 +575,7 @@ class GerberCairoContext(GerberContext):
             self.has_bg = True
             self.output_ctx.set_source_rgba(color[0], color[1], color[2], alpha)
             self.output_ctx.paint()
+            self._painted.append(((color[0], color[1], color[2], alpha), None))
 
     def _clip_primitive(self, primitive):
         """ Clip rendering context to pixel-aligned bounding box
-- 
2.43.0


From 225437eb505b57f06d97c91effe1653bbbb78991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 65/92] fix: mirrored layer mirrored all layers after it

---
 gerber/render/cairo_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 5a3de50..2d49f74 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -542,7 +542,8 @@ class GerberCairoContext(GerberContext):
 
     def new_render_layer(self, color=None, mirror=False):
         size_in_pixels = self.scale_point(self.size_in_inch)
-        matrix = copy.copy(self._xform_matrix)
+        # a matrix of its own (copying may share what is behind it)
+        matrix = self._xform_matrix * cairo.Matrix()
         layer = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
         ctx = cairo.Context(layer)
 
-- 
2.43.0


From ceb01c04c819f261d03241832fad29c0bfe10acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 66/92] fix: full circles are drawn in both directions and in
 regions

---
 gerber/render/cairo_backend.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 2d49f74..9641bda 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -236,17 +236,21 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
+    def _arc_angles(self, arc):
+        two_pi = 2 * math.pi
+        angle1 = (arc.start_angle + two_pi) % two_pi
+        angle2 = (arc.end_angle + two_pi) % two_pi
+        if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
+            # A full circle, for which Cairo has to be told to go all the way round
+            angle2 += two_pi if arc.direction == 'counterclockwise' else -two_pi
+        return angle1, angle2
+
     def _render_arc(self, arc, color):
         center = self.scale_point(arc.center)
         start = self.scale_point(arc.start)
         end = self.scale_point(arc.end)
         radius = self.scale[0] * arc.radius
-        two_pi = 2 * math.pi
-        angle1 = (arc.start_angle + two_pi) % two_pi
-        angle2 = (arc.end_angle + two_pi) % two_pi
-        if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
-            # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+        angle1, angle2 = self._arc_angles(arc)
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -298,8 +302,7 @@ class GerberCairoContext(GerberContext):
                     else:
                         center = self.scale_point(prim.center)
                         radius = self.scale[0] * prim.radius
-                        angle1 = prim.start_angle
-                        angle2 = prim.end_angle
+                        angle1, angle2 = self._arc_angles(prim)
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From 28519f82da91a12dc81c973802b7a117008f9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 67/92] fix: render_layers makes room for all of the layers

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 9641bda..e4d26bc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -128,7 +128,7 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
-                              verbose=verbose)
+                              verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
 
     def dump(self, filename=None, verbose=False):
-- 
2.43.0


From 480e10e26eb608f98c6beaa7b512f14ed80481bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 68/92] fix: clear objects of inverted layers close what is
 open

---
 gerber/render/cairo_backend.py | 77 +++++++++-------------------------
 1 file changed, 20 insertions(+), 57 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e4d26bc..f19d463 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -209,13 +209,15 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        # In an inverted layer dark objects open what clear objects close again
+        dark = primitive.level_polarity == 'dark'
+        return cairo.OPERATOR_OVER if dark != bool(self.invert) else cairo.OPERATOR_CLEAR
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -256,10 +258,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -288,9 +287,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -314,10 +311,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -332,10 +326,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -358,10 +349,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -371,19 +359,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -397,10 +379,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -428,10 +407,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -450,10 +426,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -470,10 +443,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -481,10 +451,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
@@ -512,9 +479,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -535,9 +500,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 6436126efd9cadb3745703413aa60ee0e42ac067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 69/92] fix: clear parts of macros erased what is below them

---
 gerber/render/cairo_backend.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index f19d463..e19dabc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -490,8 +490,19 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
-        for primitive in amgroup.primitives:
-            self.render(primitive)
+        # The parts of a macro which clear only clear other parts of the macro,
+        # so its shape is put together before it is applied to the layer.
+        invert = self.invert
+        self.invert = False
+        self.ctx.push_group()
+        try:
+            for primitive in amgroup.primitives:
+                self.render(primitive)
+        finally:
+            shape = self.ctx.pop_group()
+            self.invert = invert
+        self.ctx.set_operator(self._operator(amgroup))
+        self.ctx.mask(shape)
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From 7e27d601ee4e26e28f80da6a17d8a3db9d11ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 70/92] fix: layers in other units are drawn at the scale of
 the picture

---
 gerber/render/cairo_backend.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e19dabc..4445027 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -29,7 +29,7 @@ import os
 from .render import GerberContext, RenderSettings
 from .theme import THEMES
 from ..primitives import *
-from ..utils import rotate_point
+from ..utils import inch, metric, rotate_point
 
 from io import BytesIO
 
@@ -88,6 +88,7 @@ class GerberCairoContext(GerberContext):
             if verbose:
                 print('[Render]: Rendering Background.')
             self.clear()
+            self.units = self._layer_units(layer)
             if bounds is not None:
                 self.set_bounds(bounds)
             else:
@@ -107,8 +108,10 @@ class GerberCairoContext(GerberContext):
         # Calculate scale parameter
         x_range = [10000, -10000]
         y_range = [10000, -10000]
+        if layers:
+            self.units = self._layer_units(layers[0])
         for layer in layers:
-            bounds = layer.bounds
+            bounds = self._layer_bounds(layer)
             if bounds is not None:
                 layer_x, layer_y = bounds
                 x_range[0] = min(x_range[0], layer_x[0])
@@ -200,11 +203,28 @@ class GerberCairoContext(GerberContext):
 
         return Mask()
 
+    def _layer_units(self, layer):
+        # Layers which don't know better are in the units of the picture
+        units = getattr(layer.cam_source, 'units', None)
+        return units if units is not None else self.units
+
+    def _layer_bounds(self, layer):
+        bounds = layer.bounds
+        convert = {('metric', 'inch'): inch,
+                   ('inch', 'metric'): metric}.get((self._layer_units(layer), self.units))
+        if bounds is None or convert is None:
+            return bounds
+        return tuple(tuple(convert(value) for value in limits) for limits in bounds)
+
     def _render_layer(self, layer, settings):
         self.invert = settings.invert
         # Get a new clean layer to render on
         self.new_render_layer(mirror=settings.mirror)
+        units = self._layer_units(layer)
         for prim in layer.primitives:
+            if units != self.units:
+                prim = copy.deepcopy(prim)
+                prim.to_inch() if self.units == 'inch' else prim.to_metric()
             self.render(prim)
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
-- 
2.43.0


From 4a45cd052b9158f14bdab123636aaa91cb455f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 71/92] fix: internal layers have the theme's colors in every
 picture

---
 gerber/render/cairo_backend.py | 18 ++++++++++++++----
 gerber/render/theme.py         | 11 +++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 4445027..a8dc614 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -50,6 +50,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
+        self._internal_count = 0
         self._painted = []
 
     @property
@@ -79,8 +80,6 @@ class GerberCairoContext(GerberContext):
 
     def render_layer(self, layer, filename=None, settings=None, bgsettings=None,
                      verbose=False, bounds=None):
-        if settings is None:
-            settings = THEMES['default'].get(layer.layer_class, RenderSettings())
         if bgsettings is None:
             bgsettings = THEMES['default'].get('background', RenderSettings())
 
@@ -94,6 +93,8 @@ class GerberCairoContext(GerberContext):
             else:
                 self.set_bounds(layer.bounds)
             self.paint_background(bgsettings)
+        if settings is None:
+            settings = self._layer_settings(THEMES['default'], layer)
         if verbose:
             print('[Render]: Rendering {} Layer.'.format(layer.layer_class))
         self._render_count += 1
@@ -128,8 +129,8 @@ class GerberCairoContext(GerberContext):
 
         # Render layers
         bgsettings = theme['background']
-        for layer in layers:
-            settings = theme.get(layer.layer_class, RenderSettings())
+        settings = [self._layer_settings(theme, layer) for layer in layers]
+        for layer, settings in zip(layers, settings):
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
                               verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
@@ -183,6 +184,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
+        self._internal_count = 0
         self._painted = []
         self.surface_buffer = None
 
@@ -216,6 +218,14 @@ class GerberCairoContext(GerberContext):
             return bounds
         return tuple(tuple(convert(value) for value in limits) for limits in bounds)
 
+    def _layer_settings(self, theme, layer):
+        # Internal layers have the colors of the theme in turn, starting with the
+        # first one in every picture
+        if layer.layer_class == 'internal' and hasattr(theme, 'internal_settings'):
+            self._internal_count += 1
+            return theme.internal_settings(self._internal_count - 1)
+        return theme.get(layer.layer_class, RenderSettings())
+
     def _render_layer(self, layer, settings):
         self.invert = settings.invert
         # Get a new clean layer to render on
diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..a2fc35b 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -74,8 +74,15 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+        # there may be more layers than colors for them
+        while self._internal:
+            for setting in self._internal:
+                yield setting
+
+    def internal_settings(self, index):
+        """ Settings for the internal layer which is number `index` of a picture
+        """
+        return self._internal[index % len(self._internal)]
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From 9c1dc47db6f137958bb72b86304e6b2098a8ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 72/92] fix: Blue theme mirrors its bottom soldermask

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index a2fc35b..30bd638 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -102,7 +102,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From 2cbe9afc4eaef67c855c4706af4929cae5b6f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 73/92] fix: render_layers draws layers larger than the picture
 has pixels

---
 gerber/render/cairo_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index a8dc614..f2016fb 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -122,7 +122,9 @@ class GerberCairoContext(GerberContext):
         width = x_range[1] - x_range[0]
         height = y_range[1] - y_range[0]
 
-        scale = math.floor(min(float(max_width)/width, float(max_height)/height))
+        scale = min(float(max_width)/width, float(max_height)/height)
+        if scale >= 1:
+            scale = math.floor(scale)
         self.scale = (scale, scale)
 
         self.clear()
-- 
2.43.0


From a99bfa75f9024a1ca07504592577f51eeb42b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 74/92] fix: layers show the primitives of their source after
 conversions

---
 gerber/layers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 0428c56..1a8cdab 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -226,7 +226,18 @@ class PCBLayer(object):
         self.layer_class = layer_class
         self.cam_source = cam_source
         self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
+        self._primitives = None if cam_source is not None else []
+
+    @property
+    def primitives(self):
+        # Always those of the source, which makes new ones when it is converted
+        if self._primitives is None:
+            return self.cam_source.primitives
+        return self._primitives
+
+    @primitives.setter
+    def primitives(self, value):
+        self._primitives = value
 
     @property
     def bounds(self):
-- 
2.43.0


From 0e26e551dbdfa1918151b9ff8bee3630ccb1c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 75/92] fix: the command line drew single files without the
 theme's background, size limit or room for all

---
 gerber/__main__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..80551ac 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -109,12 +109,13 @@ def main():
         else:
             pass
     else:
-        filenames = args.filenames
-        for filename in filenames:
-            layer = load_layer(filename)
-            settings = theme.THEMES[args.theme].get(layer.layer_class, None)
-            renderer.render_layer(layer, settings=settings)
-        renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
+        # (one picture with room for all of the files, no larger than asked for)
+        layers = [load_layer(filename) for filename in args.filenames]
+        renderer.render_layers(
+            layers=layers, theme=theme.THEMES[args.theme],
+            max_height=args.height, max_width=args.width,
+            filename='{0}.{1}'.format(args.outfile, outext)
+        )
 
 
 if __name__ == '__main__':
-- 
2.43.0


From e035b6a527580a1ddc06fc1ff7dcf2fd3f9087b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 76/92] fix: the command line left the holes out of the copper
 picture of boards without an outline

---
 gerber/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 80551ac..d1fa604 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -84,13 +84,13 @@ def main():
         if args.backend in ['cairo', ]:
             top = pcb.top_layers
             bottom = pcb.bottom_layers
-            copper = pcb.copper_layers
+            copper = pcb.copper_layers + pcb.drill_layers
 
             outline = pcb.outline_layer
             if outline:
                 top = [outline] + top
                 bottom = [outline] + bottom
-                copper = [outline] + copper + pcb.drill_layers
+                copper = [outline] + copper
 
             renderer.render_layers(
                 layers=top, theme=theme.THEMES[args.theme],
-- 
2.43.0


From 911df40523bf0c137d4a5a7e4869e4d4c3e22703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 77/92] fix: the command line wrote None.png when --outfile has
 no name

---
 gerber/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index d1fa604..a1b7c97 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -35,7 +35,8 @@ def main():
              'single PCB.'
     )
     parser.add_argument(
-        '--outfile', '-o', type=str, nargs='?', default='out',
+        '--outfile', '-o', type=str, nargs='?', const='out',
+        default='out',
         help="Output Filename (extension will be added automatically)"
     )
     parser.add_argument(
-- 
2.43.0


From 68bbed44a61f1c0bc599e44cef8820cd1ca9bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 78/92] fix: drill files that share a tool table changed the
 table and each other's tools

---
 gerber/excellon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5d5d689..c9ed861 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -23,6 +23,7 @@ Excellon File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import math
 import operator
 import re
@@ -964,6 +965,8 @@ class ExcellonParser(object):
         if not tool:
             tool = self.ext_tools.get(toolid)
             if tool:
+                # The caller's tool may be used for other files as well
+                tool = copy.copy(tool)
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From 4da1b39166cf8958e9c0696580f156bb86be0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 79/92] fix: drill files that take their first tool from a tool
 table could not be read

---
 gerber/excellon.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index c9ed861..80787f8 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -75,7 +75,7 @@ def loads(data, filename=None, settings=None, tools=None):
     """
     # File object should use settings from source file by default.
     if not settings:
-        settings = FileSettings(**detect_excellon_format(data))
+        settings = FileSettings(**detect_excellon_format(data, tools=tools))
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
@@ -972,7 +972,7 @@ class ExcellonParser(object):
 
         return tool
 
-def detect_excellon_format(data=None, filename=None):
+def detect_excellon_format(data=None, filename=None, tools=None):
     """ Detect excellon file decimal format and zero-suppression settings.
 
     Parameters
@@ -980,6 +980,9 @@ def detect_excellon_format(data=None, filename=None):
     data : string
         String containing contents of Excellon file.
 
+    tools : dict (optional)
+        Externally defined tools the file uses.
+
     Returns
     -------
     settings : dict
@@ -1000,7 +1003,7 @@ def detect_excellon_format(data=None, filename=None):
             data = f.read()
 
     # Check for obvious clues:
-    p = ExcellonParser()
+    p = ExcellonParser(ext_tools=tools)
     p.parse_raw(data)
 
     # Get zero_suppression from a unit statement
@@ -1033,7 +1036,7 @@ def detect_excellon_format(data=None, filename=None):
             key = (fmt, zeros)
             settings = FileSettings(zeros=zeros, format=fmt)
             try:
-                p = ExcellonParser(settings)
+                p = ExcellonParser(settings, tools)
                 ef = p.parse_raw(data)
                 size = tuple([t[0] - t[1] for t in ef.bounding_box])
                 hole_area = 0.0
-- 
2.43.0


From df81bf402f95b71de02e51008d959240e4a71106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 80/92] fix: the plating column of Allegro tool tables was
 ignored

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From dac451d745db4a9b4d4d3bcb37dab2eee1cc25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 81/92] fix: drill settings with incremental coordinates could
 not be read

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From 983fb7492461351c4caaf48467cbf3532858c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 82/92] fix: netlist points and their names were drawn in the
 wrong place

---
 gerber/render/cairo_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index f2016fb..58d983e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -537,14 +537,14 @@ class GerberCairoContext(GerberContext):
         self.ctx.mask(shape)
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        x, y = self.scale_point((position[0] + 0.015, position[1] + 0.015))
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From f5b7c86921ff4fee25e6341f9df71b18b0b5b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 83/92] fix: the dots of metric netlists were drawn 25 times
 too small

---
 gerber/render/cairo_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 58d983e..a79788a 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -538,12 +538,13 @@ class GerberCairoContext(GerberContext):
 
     def _render_test_record(self, primitive, color):
         position = primitive.position
+        size = 0.015 if self.units == 'inch' else metric(0.015)
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
-        self._render_circle(Circle(position, 0.015), color)
+        self._render_circle(Circle(position, size), color)
         self.ctx.set_operator(self._operator(primitive))
-        x, y = self.scale_point((position[0] + 0.015, position[1] + 0.015))
+        x, y = self.scale_point((position[0] + size, position[1] + size))
         self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 5661f91c1028c211738e1c34c08afa62a6863dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 84/92] fix: extents and corners of rotated shapes were wrong
 off the origin and beyond a quarter turn

---
 gerber/primitives.py | 56 ++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6a7b053..7021953 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -188,6 +188,14 @@ class Primitive(object):
     def to_statement(self):
         pass
 
+    def _rotated(self, points):
+        """ Rotate points of the shape about the position of the shape
+        """
+        if not self.rotation:
+            return points
+        return [rotate_point(point, self.rotation, self.position)
+                for point in points]
+
     def _changed(self):
         """ Clear memoized properties.
 
@@ -762,18 +770,18 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = self._rotated([ll, ul, ur, lr])
         return self._vertices
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -857,18 +865,18 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = self._rotated([top, right, bottom, left])
         return self._vertices
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -974,20 +982,18 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = self._rotated(vertices)
         return self._vertices
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1065,13 +1071,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1166,13 +1172,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 522702850a289e4a16f1e8c1a2c75c471923db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 85/92] fix: changed sizes of slots, donuts and butterflies and
 replaced apertures kept the old extents

---
 gerber/primitives.py | 215 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 182 insertions(+), 33 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 7021953..16b3b3f 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -237,13 +237,22 @@ class Line(Primitive):
         self.level_polarity = level_polarity
         self._start = start
         self._end = end
-        self.aperture = aperture
+        self._aperture = aperture
         self._to_convert = ['start', 'end', 'aperture']
 
     @property
     def flashed(self):
         return False
 
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def start(self):
         return self._start
@@ -355,8 +364,8 @@ class Arc(Primitive):
         self._start = start
         self._end = end
         self._center = center
-        self.direction = direction
-        self.aperture = aperture
+        self._direction = direction
+        self._aperture = aperture
         self._quadrant_mode = quadrant_mode
         self._to_convert = ['start', 'end', 'center', 'aperture']
 
@@ -364,6 +373,24 @@ class Arc(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def direction(self):
+        return self._direction
+
+    @direction.setter
+    def direction(self, value):
+        self._changed()
+        self._direction = value
+
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def start(self):
         return self._start
@@ -1190,7 +1217,7 @@ class Polygon(Primitive):
         super(Polygon, self).__init__(**kwargs)
         validate_coordinates(position)
         self._position = position
-        self.sides = sides
+        self._sides = sides
         self._radius = radius
         self.hole_diameter = hole_diameter
         self.hole_width = hole_width
@@ -1202,6 +1229,15 @@ class Polygon(Primitive):
     def flashed(self):
         return True
 
+    @property
+    def sides(self):
+        return self._sides
+
+    @sides.setter
+    def sides(self, value):
+        self._changed()
+        self._sides = value
+
     @property
     def diameter(self):
         return self.radius * 2
@@ -1486,16 +1522,32 @@ class RoundButterfly(Primitive):
     def __init__(self, position, diameter, **kwargs):
         super(RoundButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.diameter = diameter
+        self._position = position
+        self._diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def radius(self):
         return self.diameter / 2.
@@ -1518,16 +1570,32 @@ class SquareButterfly(Primitive):
     def __init__(self, position, side, **kwargs):
         super(SquareButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.side = side
+        self._position = position
+        self._side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def side(self):
+        return self._side
+
+    @side.setter
+    def side(self, value):
+        self._changed()
+        self._side = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1547,7 +1615,7 @@ class Donut(Primitive):
                  outer_diameter, **kwargs):
         super(Donut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if shape not in ('round', 'square', 'hexagon', 'octagon'):
             raise ValueError(
                 'Valid shapes are round, square, hexagon or octagon')
@@ -1555,25 +1623,52 @@ class Donut(Primitive):
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
-
-        # TODO This does not reset bounding box correctly
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
+    @property
+    def width(self):
+        if self.shape in ('round', 'square', 'octagon'):
+            return self.outer_diameter
+        # Hexagon
+        return 0.5 * math.sqrt(3.) * self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
@@ -1602,18 +1697,45 @@ class SquareRoundDonut(Primitive):
     def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
         super(SquareRoundDonut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
         self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1684,9 +1806,9 @@ class Slot(Primitive):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
+        self._start = start
+        self._end = end
+        self._diameter = diameter
         self._to_convert = ['start', 'end', 'diameter']
 
 
@@ -1694,6 +1816,33 @@ class Slot(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From 397500db131a4e0855b11adc22b7c0572d3198ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 86/92] fix: corners and width of macro outlines could not be
 asked for

---
 gerber/primitives.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 16b3b3f..e64e949 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1454,18 +1454,12 @@ class Outline(Primitive):
     @property
     def vertices(self):
         if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
+            self._vertices = [p.start for p in self.primitives]
         return self._vertices
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From 6cb7cb8a50879cb14625fc5cf05734ec1c450b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 87/92] fix: asking a shape for its extents made it unequal to
 its copies

---
 gerber/primitives.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e64e949..3d1a155 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -68,7 +68,15 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return (isinstance(other, Primitive) and
+                self._state() == other._state())
+
+    def _state(self):
+        """ Everything that describes the shape, without memoized properties
+        """
+        memoized = ['_bounding_box', '_vertices', '_segments'] + self._memoized
+        return {attr: value for attr, value in self.__dict__.items()
+                if attr not in memoized}
 
     @property
     def units(self):
-- 
2.43.0


From 41e6c3cc9513173f64c5cfc1d880e1ed9c596163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 88/92] fix: a picture asked for as SVG was written as PNG when
 memory ran out

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index a79788a..0a75b6e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -142,7 +142,7 @@ class GerberCairoContext(GerberContext):
         """
         try:
             is_svg = os.path.splitext(filename.lower())[1] == '.svg'
-        except:
+        except AttributeError:
             is_svg = False
         if verbose:
             print('[Render]: Writing image to {}'.format(filename))
-- 
2.43.0


From 981ea62e468221a46c18b472232d4f6b0c583720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 89/92] fix: drawing any hole into an Excellon-writing context
 failed

The objects drawn no longer have the hit they were made by. Use it where there
is one, else a tool of the size of the hole; tools of different files, whose
numbers may be the same, each get a number of their own.
---
 gerber/render/excellon_backend.py | 52 ++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..81bef3c 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -1,7 +1,10 @@
 
+import copy
+
 from .render import GerberContext
 from ..excellon import DrillSlot
 from ..excellon_statements import *
+from ..primitives import Drill, Slot
 
 class ExcellonContext(GerberContext):
 
@@ -20,7 +23,7 @@ class ExcellonContext(GerberContext):
         self.start = [HeaderBeginStmt()]
 
         # Current tool and position
-        self.handled_tools = set()
+        self.handled_tools = []
         self.cur_tool = None
         self.drill_mode = ExcellonContext.MODE_DRILL
         self.drill_down = False
@@ -95,19 +98,38 @@ class ExcellonContext(GerberContext):
     def _simplify_point(self, point):
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
+    def _select_tool(self, primitive):
+        """
+        Select the tool of the hit that a hole was made by, or else one of the size of the hole
+        """
+        hit = getattr(primitive, 'hit', None)
+        source = hit.tool if hit is not None else None
+        for known, tool in self.handled_tools:
+            if known is source and tool.diameter == primitive.diameter:
+                break
+        else:
+            if source is not None:
+                tool = ExcellonTool.from_tool(source)
+                tool.settings = copy.copy(source.settings)
+            else:
+                tool = ExcellonTool(self.settings)
+            tool.diameter = primitive.diameter
+            numbers = [t.number for _, t in self.handled_tools]
+            if tool.number is None or tool.number in numbers:
+                tool.number = max(numbers + [0]) + 1
+            self.handled_tools.append((source, tool))
+            self.header.append(tool)
+
+        if tool is not self.cur_tool:
+            self.body.append(ToolSelectionStmt(tool.number))
+            self.cur_tool = tool
+
     def _render_drill(self, drill, color):
 
         if self.drill_mode != ExcellonContext.MODE_DRILL:
             self._start_drill_mode()
 
-        tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
-            self.header.append(ExcellonTool.from_tool(tool))
-
-        if tool != self.cur_tool:
-            self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+        self._select_tool(drill)
 
         point = self._simplify_point(drill.position)
         self._pos = drill.position
@@ -137,17 +159,11 @@ class ExcellonContext(GerberContext):
     def _render_slot(self, slot, color):
 
         # Set the tool first, before we might go into drill mode
-        tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
-            self.header.append(ExcellonTool.from_tool(tool))
-
-        if tool != self.cur_tool:
-            self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+        self._select_tool(slot)
 
         # Two types of drilling - normal drill and slots
-        if slot.hit.slot_type == DrillSlot.TYPE_ROUT:
+        hit = getattr(slot, 'hit', None)
+        if hit is not None and hit.slot_type == DrillSlot.TYPE_ROUT:
 
             # For ROUT, setting the mode is part of the actual command.
 
-- 
2.43.0


From a7e8dd9928f141321012627c6b07e836bf008078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 90/92] fix: a hole drawn where the one before was drawn was
 lost from a regenerated drill file

It was written as a line without coordinates.
---
 gerber/render/excellon_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 81bef3c..fa568aa 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -96,6 +96,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        if tuple(point) == tuple(self._pos):
+            # Something has to be left to say that there is another hole
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _select_tool(self, primitive):
-- 
2.43.0


From 2bd145b6d5fb89f180ffb1066cc16f232115ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 91/92] fix: a regenerated drill file took numbers in other
 units and left out what it cannot express

Holes in another unit than the file's were written without conversion, and
objects which are no holes were dropped silently.
---
 gerber/render/excellon_backend.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index fa568aa..20c7b9a 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -72,6 +72,21 @@ class ExcellonContext(GerberContext):
     def paint_background(self):
         pass
 
+    def render(self, primitive):
+        if not isinstance(primitive, (Drill, Slot)):
+            raise ValueError('Invalid Excellon object')
+        if primitive.units is not None and primitive.units != self.settings.units:
+            # The file is in one unit, whatever the objects drawn into it are in
+            primitive = copy.copy(primitive)
+            self._convert(primitive)
+        GerberContext.render(self, primitive)
+
+    def _convert(self, obj):
+        if self.settings.units == 'inch':
+            obj.to_inch()
+        else:
+            obj.to_metric()
+
     def _render_line(self, line, color):
         raise ValueError('Invalid Excellon object')
     def _render_arc(self, arc, color):
@@ -114,6 +129,7 @@ class ExcellonContext(GerberContext):
             if source is not None:
                 tool = ExcellonTool.from_tool(source)
                 tool.settings = copy.copy(source.settings)
+                self._convert(tool)
             else:
                 tool = ExcellonTool(self.settings)
             tool.diameter = primitive.diameter
-- 
2.43.0


From 6840bea8e40f31d2729e0ff6d0f90c4ff8d3c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:45 +0000
Subject: [PATCH 92/92] fix: aperture macros with a name of one character were
 not found

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 9ba839f..1c7d2b6 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -201,7 +201,7 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
-- 
2.43.0

