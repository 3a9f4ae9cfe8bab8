From a376cf6b9d3ad206aae3b053b565faf4c7bc6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 01/96] fix: take all four corners into account for the right
 and bottom edges in DOMRect.transform_self

---
 svgpy/geometry/rect.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..f15bb45 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -536,11 +536,10 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        self.set_coords(min(x1, x2, x3, x4),
+                        min(y1, y2, y3, y4),
+                        max(x1, x2, x3, x4),
+                        max(y1, y2, y3, y4))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From b2357f97fa4d67f4623cc7d7a21f26cca411fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 02/96] fix: keep the extent of horizontal and vertical lines
 in DOMRect.unite_self

---
 svgpy/geometry/rect.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index f15bb45..6a4c195 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -579,32 +579,22 @@ class DOMRect(DOMRectReadOnly):
         """
         if x is None or y is None:
             return self
-        elif self.contains(x, y, width, height):
+        # a zero width or height is a vertical or horizontal line
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
+        if self.contains(x, y) and self.contains(right, bottom):
             return self
 
         x1, y1, x2, y2 = self.get_coords()
 
         if x1 is None or x < x1:
             x1 = x
-        elif x > x2:
-            x2 = x
-
         if y1 is None or y < y1:
             y1 = y
-        elif y > y2:
-            y2 = y
-
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
-            if x2 is None or right > x2:
-                x2 = right
-            if y2 is None or bottom > y2:
-                y2 = bottom
-
-        if x2 is not None and y2 is not None:
-            self.set_coords(x1, y1, x2, y2)
-        else:
-            self._x = x1
-            self._y = y1
+        if x2 is None or right > x2:
+            x2 = right
+        if y2 is None or bottom > y2:
+            y2 = bottom
+
+        self.set_coords(x1, y1, x2, y2)
         return self
-- 
2.43.0


From 4b0297b85fc9b8e2513e0fb7647f7188b8dca14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 03/96] fix: transform rectangles of zero width or height in
 DOMRect.transform_self

---
 svgpy/geometry/rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 6a4c195..b99b54f 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -524,7 +524,7 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if self._x is None or self._y is None:
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From 27b2c8d6b58f69103d445e0e7b2f0834f4125ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 04/96] fix: skip arcs with identical end points in
 PathParser.normalize

---
 svgpy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..7fc4bb5 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1437,6 +1437,10 @@ class PathParser(object):
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
                 normalized_path_data.extend(normalized)
+                if len(normalized) == 0:
+                    # start point and end point of the arc are identical
+                    last_command = command
+                    continue
 
                 # control point for next shorthand/smooth curve
                 if command in 'CcQqSsTt':
-- 
2.43.0


From fb08130d3b8c5119c460591cac1441ed25278042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 05/96] fix: control points of smooth curves which do not
 follow a curve of the same kind

---
 svgpy/path.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 7fc4bb5..63a3688 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -840,12 +840,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
@@ -1195,6 +1191,16 @@ class PathParser(object):
         'V': 1,
     }
 
+    @staticmethod
+    def _is_detached_smooth_curve(command, last_command):
+        # 'S'|'s' without a preceding 'C'|'c'|'S'|'s', or
+        # 'T'|'t' without a preceding 'Q'|'q'|'T'|'t'
+        if command in 'Ss':
+            return last_command is None or last_command not in 'CcSs'
+        elif command in 'Tt':
+            return last_command is None or last_command not in 'QqTt'
+        return False
+
     @staticmethod
     def from_glyph(face, matrix=None):
         """Creates a list of path segments from specified glyph outlines
@@ -1353,6 +1359,10 @@ class PathParser(object):
                 # moveto: 'M'|'m' (x,y)+
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
+                if PathParser._is_detached_smooth_curve(command,
+                                                        last_command):
+                    # the first control point is the current point
+                    x1, y1 = cpx, cpy
                 old_cpx, old_cpy = cpx, cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
@@ -1433,6 +1443,10 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if PathParser._is_detached_smooth_curve(command,
+                                                        last_command):
+                    # the first control point is the current point
+                    x1, y1 = cpx, cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From 1c654acbe6e3d4fb09fe449ea2d903663236e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 06/96] fix: keep the current point after absolute H and V
 commands in PathParser.transform

---
 svgpy/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 63a3688..c23df1a 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1566,7 +1566,11 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                if x is not None:  # not 'V'
+                    cpx = x
+                if y is not None:  # not 'H'
+                    cpy = y
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From f8f21e419995a9e9713cd018175573198d146eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:49 +0000
Subject: [PATCH 07/96] fix: cap is a font-relative unit

---
 svgpy/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..76879f8 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1245,8 +1245,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
-            SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
             SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From 59029888d4712d9b41040d3c2c64eb168b728801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 08/96] fix: apply the relative font-size and font-weight of
 the element itself

---
 svgpy/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 76879f8..bf9fdfc 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -114,16 +114,16 @@ class CSSUtils(object):
             if inherited_size is None:
                 inherited_size = Font.default_font_size
             parent_sequence = list()
-            parent = element.getparent()
+            parent = element
             while parent is not None:
                 parent_sequence.insert(0, parent)
                 parent = parent.getparent()
             for parent in iter(parent_sequence):
                 value = parent.get('font-size')
-                if value is None:
+                if value is None or value == 'inherit':
                     continue
                 elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
+                    scale_factor = 1.2 if value == 'larger' else 1 / 1.2
                     inherited_size *= scale_factor
                 else:
                     inherited_size = CSSUtils.compute_font_size(
@@ -172,13 +172,13 @@ class CSSUtils(object):
             if inherited_weight is None:
                 inherited_weight = Font.default_font_weight
             parent_sequence = list()
-            parent = element.getparent()
+            parent = element
             while parent is not None:
                 parent_sequence.insert(0, parent)
                 parent = parent.getparent()
             for parent in iter(parent_sequence):
                 value = parent.get('font-weight')
-                if value is None:
+                if value is None or value == 'inherit':
                     continue
                 elif value in ['bolder', 'lighter']:
                     xp = CSSUtils._INHERITED_WEIGHT_LIST
-- 
2.43.0


From 78c468d83115e6ef149474041786736f820db597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 09/96] fix: inherit the computed font-size, not the percentage
 or em factor

---
 svgpy/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index bf9fdfc..f6d1348 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -134,7 +134,11 @@ class CSSUtils(object):
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
-            fs = SVGLength(font_size, context=element)
+            # relative to the element which specifies the value
+            value, context = CSSUtils.get_value(element, 'font-size')
+            if value != font_size:
+                context = element
+            fs = SVGLength(font_size, context=context)
             px = fs.value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
-- 
2.43.0


From 405e7cada2e557b16be4c9bb63801cd2adf4855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 10/96] fix: keep the percent-escapes of a fragment as they are

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..07127a3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -296,7 +296,7 @@ class URL(object):
         fragment = fragment.lstrip('#')
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
-        self._hash = quote(unquote(fragment),
+        self._hash = quote(fragment,
                            safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~')
 
     @property
-- 
2.43.0


From d0f9fe0f7080ebb84d207611e90fef422d74f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 11/96] fix: strip only one leading ? or # from a query or
 fragment

---
 svgpy/url.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 07127a3..7988c17 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -293,7 +293,8 @@ class URL(object):
 
     @hash.setter
     def hash(self, fragment):
-        fragment = fragment.lstrip('#')
+        if fragment.startswith('#'):
+            fragment = fragment[1:]
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
         self._hash = quote(fragment,
@@ -461,7 +462,8 @@ class URL(object):
 
     @search.setter
     def search(self, query):
-        query = query.lstrip('?')
+        if query.startswith('?'):
+            query = query[1:]
         self._search_params.clear()
         if len(query) == 0:
             return
@@ -549,8 +551,8 @@ class URL(object):
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
-        self.search = pr.query
-        self.hash = pr.fragment
+        self.search = '?' + pr.query
+        self.hash = '#' + pr.fragment
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
-- 
2.43.0


From a4776a3acbf2164e53d2c42ae1f0d94ba7ceb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 12/96] fix: keep everything after the first = in a query value

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 7988c17..941eab2 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -469,7 +469,7 @@ class URL(object):
             return
         pairs = query.split('&')
         for pair in pairs:
-            kv = pair.split('=')
+            kv = pair.split('=', maxsplit=1)
             if len(kv) < 2:
                 kv.append('')
             key = kv[0].replace('+', ' ')
-- 
2.43.0


From f88e40dbcc2c19114ba518227294b036087261b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 13/96] fix: reject URLs without a host name with ValueError

---
 svgpy/url.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/url.py b/svgpy/url.py
index 941eab2..5388340 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -556,6 +556,8 @@ class URL(object):
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
+            if not pr.hostname:
+                raise ValueError('Invalid URL: ' + repr(url))
 
         Arguments:
             exclude_fragment (bool, optional): If exclude_fragment is True,
-- 
2.43.0


From 7f6b8ac91a6f5cc75629ac3f5d5f446790cc04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 14/96] fix: serialise a password which has no user name

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 5388340..539f5d3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -574,7 +574,7 @@ class URL(object):
             if protocol not in ['about:', 'blob:', 'data:']:
                 parts.append('//')
             if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0:
+                if len(self.username) > 0 or len(self.password) > 0:
                     parts.append(self.username)
                     if len(self.password) > 0:
                         parts.append(':' + self.password)
-- 
2.43.0


From b6fbbed4d47f24f178fc57006c6d1a7460fea07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 15/96] fix: keep the opaque path of about, blob and data URLs

---
 svgpy/url.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 539f5d3..87a7d87 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -370,9 +370,6 @@ class URL(object):
         if (self._protocol not in ['about:', 'blob:', 'data:']
                 and not pathname.startswith('/')):
             pathname = '/' + pathname
-        elif (self._protocol in ['about:', 'blob:', 'data:']
-              and pathname.startswith('/')):
-            pathname = pathname[1:]
         return pathname
 
     @pathname.setter
@@ -384,7 +381,7 @@ class URL(object):
                 and self._protocol in _SPECIAL_SCHEMES_PORT_NUMBERS
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
-        if self._protocol not in ['blob:', 'data:']:
+        if self._protocol not in ['about:', 'blob:', 'data:']:
             pathname = unquote(pathname).replace('\\', '/')
             # U+0026 (&)
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
@@ -556,11 +553,11 @@ class URL(object):
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
-            if not pr.hostname:
-                raise ValueError('Invalid URL: ' + repr(url))
 
         Arguments:
             exclude_fragment (bool, optional): If exclude_fragment is True,
+            if not pr.hostname:
+                raise ValueError('Invalid URL: ' + repr(url))
                 removes fragment from the returned URL.
         Returns:
             str: The entire URL.
-- 
2.43.0


From 472f2bc04fb7140b69da3b641d515d4f1c18b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 16/96] fix: a dot segment at the end of a path leaves a
 trailing slash

---
 svgpy/url.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 87a7d87..20eb535 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -387,7 +387,9 @@ class URL(object):
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
             pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
+            if not pathname.startswith('/'):
+                pathname = '/' + pathname
+            sep = pathname.endswith(('/', '/.', '/..'))
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
@@ -554,10 +556,10 @@ class URL(object):
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
 
-        Arguments:
-            exclude_fragment (bool, optional): If exclude_fragment is True,
             if not pr.hostname:
                 raise ValueError('Invalid URL: ' + repr(url))
+        Arguments:
+            exclude_fragment (bool, optional): If exclude_fragment is True,
                 removes fragment from the returned URL.
         Returns:
             str: The entire URL.
-- 
2.43.0


From ed131e0476edeb1e54a13ffc23056ff02badc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 17/96] fix: an invalid protocol, host or href leaves the URL
 unchanged

---
 svgpy/url.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 20eb535..dd3fe48 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -317,6 +317,7 @@ class URL(object):
 
     @property
     def hostname(self):
+        URL(url)  # leaves the URL as it is if the new one is not valid
         """str: The URL's host."""
         return self._hostname
 
@@ -428,7 +429,8 @@ class URL(object):
     def protocol(self, protocol):
         if len(protocol) > 0:
             protocol = protocol.rstrip(':').lower()
-            if (not protocol[0].isalpha()
+            if (len(protocol) == 0
+                    or not protocol[0].isalpha()
                     or (len(protocol) >= 2
                         and not all(ch.isalnum() or ch in '+-.'
                                     for ch in protocol[1:]))):
@@ -499,6 +501,14 @@ class URL(object):
             # allow U+003A (:), U+005B ([), or U+005D (]).
             raise ValueError('Invalid hostname: ' + repr(host))
         host = host.lower().encode('idna').decode()
+        saved = self._host, self._hostname, self._port
+        try:
+            self._set_host(host, hostname_state)
+        except ValueError:
+            self._host, self._hostname, self._port = saved
+            raise
+
+    def _set_host(self, host, hostname_state):
         colons = host.count(':')
         if colons > 1:
             # IPv6 address or IPv6 address with port
@@ -546,6 +556,8 @@ class URL(object):
             self._host = self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
+            if not pr.hostname:
+                raise ValueError('Invalid URL: ' + repr(url))
             self.hostname = pr.hostname
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
@@ -556,8 +568,6 @@ class URL(object):
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
 
-            if not pr.hostname:
-                raise ValueError('Invalid URL: ' + repr(url))
         Arguments:
             exclude_fragment (bool, optional): If exclude_fragment is True,
                 removes fragment from the returned URL.
-- 
2.43.0


From 32df843effd625af48f62bb37da32a23de7c6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 18/96] fix: resolve relative URLs with a query, fragment or
 authority and keep the base unchanged

---
 svgpy/url.py | 56 ++++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index dd3fe48..5ed7da3 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -240,37 +240,23 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
-        done = False
+        if parsed_base is not None and url.startswith('//'):
+            url = parsed_base.protocol + url
         try:
             self._parse_url(url)
-            done = True
         except ValueError:
-            if parsed_base is None:
+            pr = urlsplit(url)
+            if (parsed_base is None
+                    or len(pr.scheme) > 0
+                    or len(pr.netloc) > 0):
                 raise
-        if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
-            else:
-                if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
-                else:  # 'file:'
-                    parent_path = parsed_base.pathname
-                    if sys.platform.startswith('win'):
-                        parent_path = parent_path.lstrip('/')
-                    if not os.path.isdir(parent_path):
-                        parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
-            url = parsed_base.href
-            self._parse_url(url)
+            resolved = URL(parsed_base.href)
+            if len(pr.path) > 0:
+                resolved.pathname = URL._join_path(parsed_base, pr.path)
+            if len(pr.path) > 0 or len(pr.query) > 0:
+                resolved.search = '?' + pr.query
+            resolved.hash = '#' + pr.fragment
+            self._parse_url(resolved.href)
 
     def __repr__(self):
         return repr({'href': self.tostring(),
@@ -317,7 +303,6 @@ class URL(object):
 
     @property
     def hostname(self):
-        URL(url)  # leaves the URL as it is if the new one is not valid
         """str: The URL's host."""
         return self._hostname
 
@@ -332,6 +317,7 @@ class URL(object):
 
     @href.setter
     def href(self, url):
+        URL(url)  # leaves the URL as it is if the new one is not valid
         self._parse_url(url)
 
     @property
@@ -491,6 +477,20 @@ class URL(object):
     def username(self, username):
         self._username = quote(unquote(username), safe='')
 
+    @staticmethod
+    def _join_path(base, path):
+        if os.path.isabs(path):
+            return path
+        parent_path = base.pathname
+        if base.protocol != 'file:':
+            parent_path = os.path.dirname(parent_path)
+        else:
+            if sys.platform.startswith('win'):
+                parent_path = parent_path.lstrip('/')
+            if not os.path.isdir(parent_path):
+                parent_path = os.path.dirname(parent_path)
+        return os.path.join(parent_path, path).replace('\\', '/')
+
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
             self._host = self._hostname = ''
-- 
2.43.0


From 4c1903a19ce1e270c33ce28bc448747c82434545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 19/96] fix: multiplying CSS numeric types ignored percentages
 of the second type

---
 svgpy/css/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..b582641 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -326,7 +326,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         final_type.update(type1)
         base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT}
         for key in set(type2) & base_type_keys:
             power = type2[key]
             if key in final_type:
-- 
2.43.0


From 515d3c3aac83680b38371805cac68a0577e908ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 20/96] fix: CSSMathInvert inverted the type of its argument

---
 svgpy/css/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index b582641..9964bca 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1264,9 +1264,10 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
-- 
2.43.0


From a17535825f28dd7284e1e14607734457bb09d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 21/96] fix: nested calc() expressions and subtraction after a
 product were misread

---
 svgpy/css/types.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 9964bca..d605bf1 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -917,7 +917,8 @@ class CSSNumericValue(CSSStyleValue):
                     elif operator != CSSMathOperator.SUM:
                         while True:
                             parent_node = current_node.parent
-                            if parent_node is None:
+                            if (parent_node is None
+                                    or parent_node == root_node):
                                 break
                             current_node = parent_node
                         previous_node = current_node
@@ -970,9 +971,10 @@ class CSSNumericValue(CSSStyleValue):
                             current_node.values.append(next_node)
                         else:
                             parent_node = current_node.parent
-                            if parent_node is None:
+                            if (parent_node is None
+                                    or parent_node == root_node):
                                 parent_node = _MathExpression(
-                                    None,
+                                    root_node,
                                     CSSMathOperator.SUM,
                                     [current_node, next_node])
                                 current_node.parent = parent_node
@@ -981,7 +983,7 @@ class CSSNumericValue(CSSStyleValue):
                             else:
                                 previous_value = parent_node.values.pop(-1)
                                 node = _MathExpression(
-                                    current_node,
+                                    parent_node,
                                     CSSMathOperator.SUM,
                                     [previous_value, next_node])
                                 parent_node.values.append(node)
@@ -1004,6 +1006,7 @@ class CSSNumericValue(CSSStyleValue):
             current_node = parent_node
         return current_node
 
+                                current_node = node
     @staticmethod
     def _parse_numeric_value(css_text, token, root_node=None):
         if token.type == 'number':
-- 
2.43.0


From e0f86e04933461156e800470878ad6d66077c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 22/96] fix: calculations within min(), max() and clamp()
 arguments were misread

---
 svgpy/css/types.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index d605bf1..7eac9e3 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -891,16 +891,35 @@ class CSSNumericValue(CSSStyleValue):
         if len(args) == 0:
             raise ValueError('Invalid math expression: ' + repr(css_text))
         current_node = _MathExpression(root_node, operator, [])
+        if operator is not None:
+            # each argument is a calculation of its own
+            calculations = [[]]
+            for arg in args:
+                if arg.type == 'literal' and arg.value == ',':
+                    calculations.append([])
+                else:
+                    calculations[-1].append(arg)
+            for calculation in calculations:
+                node = CSSNumericValue._parse_calculation(
+                    css_text, calculation, current_node)
+                if node.operator is None and len(node.values) == 1:
+                    node = node.values[0]
+                current_node.values.append(node)
+            return current_node
+        return CSSNumericValue._parse_calculation(css_text, args, root_node)
+
+    @staticmethod
+    def _parse_calculation(css_text, args, root_node=None):
+        args = list(args)
+        if len(args) == 0:
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+        current_node = _MathExpression(root_node, None, [])
         while len(args) > 0:
             arg = args.pop(0)
             operator = current_node.operator
             if arg.type == 'literal':
                 literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
+                if literal == '*':
                     if operator is None:
                         current_node.operator = CSSMathOperator.PRODUCT
                     elif operator != CSSMathOperator.PRODUCT:
@@ -987,6 +1006,7 @@ class CSSNumericValue(CSSStyleValue):
                                     CSSMathOperator.SUM,
                                     [previous_value, next_node])
                                 parent_node.values.append(node)
+                                current_node = node
                 else:
                     raise ValueError('Invalid math expression: ' + repr(arg))
             else:
@@ -1006,7 +1026,6 @@ class CSSNumericValue(CSSStyleValue):
             current_node = parent_node
         return current_node
 
-                                current_node = node
     @staticmethod
     def _parse_numeric_value(css_text, token, root_node=None):
         if token.type == 'number':
-- 
2.43.0


From b0f8361520b1df0901d45a2b50a3dfd251cad1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 23/96] fix: calc() did not read parentheses

---
 svgpy/css/types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7eac9e3..b99d539 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1043,6 +1043,12 @@ class CSSNumericValue(CSSStyleValue):
                 css_text,
                 token,
                 root_node=root_node)
+        elif token.type == '() block' and root_node is not None:
+            # '(' <calc-sum> ')'
+            return CSSNumericValue._parse_calculation(
+                css_text,
+                [arg for arg in token.content if arg.type != 'whitespace'],
+                root_node=root_node)
         raise ValueError('Invalid math expression: ' + repr(token))
 
     @staticmethod
-- 
2.43.0


From aa277557652483aa773f1c70c979a64f838242d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 24/96] fix: equals() was false for equal negations, inverses
 and clamps

---
 svgpy/css/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index b99d539..88df285 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1119,6 +1119,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
-- 
2.43.0


From c2a9a84abc0c38512234f81ea49b60969cc1cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 25/96] fix: powers and inverses of units converted to units

---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 88df285..ccec587 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1197,7 +1197,7 @@ class CSSNumericValue(CSSStyleValue):
         unit_map_length = len(units)
         if unit_map_length == 0:
             item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
+        elif unit_map_length > 1 or unit_map[units[0]] != 1:
             raise ValueError('Incompatible types')
         else:
             item = CSSUnitValue(value, units[0])
-- 
2.43.0


From 61a2f8c23b7034f6a35630f8e696762344e5f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 26/96] fix: CSSMathSum.to_sum raised ValueError unless units
 came in order

---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ccec587..ed1e3e7 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1226,7 +1226,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    values = [x for x in values if x is not value]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From 3c45d1566d5e1d6689e1b4bcd234f30f28e02a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 27/96] fix: brackets were lost when serialising sums within
 min() and max()

---
 svgpy/css/types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ed1e3e7..af931aa 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1335,7 +1335,9 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['paren_less'] = False
+        s += '1 / ' + self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1484,7 +1486,9 @@ class CSSMathNegate(CSSMathValue):
         else:
             s = ''
         s += '-'
-        s += self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['paren_less'] = False
+        s += self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1546,6 +1550,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1626,6 +1631,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From 3102542ac01cc6dceb1b4b823ffca3793254bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 28/96] fix: hyphens in data-* names were dropped or misplaced
 in dataset keys

---
 svgpy/dom.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..254591e 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -131,22 +131,9 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
+        key = re.sub(r'-([a-z])',
+                     lambda it: it.group(1).upper(),
+                     name[len(self._prefix):])
         return key
 
     def _convert_name(self, key):
-- 
2.43.0


From 2e7aad2bbee61e3036b7ac2fd095a921ceb1e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 29/96] fix: clearing a missing dataset key raised KeyError

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 254591e..c1d1b9f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -122,7 +122,7 @@ class DOMStringMap(MutableMapping):
 
     def __setitem__(self, key, value):
         if value is None or len(value) == 0:
-            del self[key]
+            self.pop(key, None)
             return
         name = self._convert_name(key)
         if not self._validate_name(name):
-- 
2.43.0


From 34fb857287a3b667e44ed552bb3f9dcb36cd8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 30/96] fix: DOMTokenList held duplicate tokens

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c1d1b9f..ba0d771 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -210,7 +210,7 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        tokens = tuple(dict.fromkeys(value.split()))
         return tokens
 
     @property
-- 
2.43.0


From 6e9123776f1355ec69363a1879dcefa43055d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 31/96] fix: item assignment in DOMTokenList accepted white
 space and changed the list passed

---
 svgpy/dom.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index ba0d771..b8fe1e2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -194,9 +194,9 @@ class DOMTokenList(MutableSequence):
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
+            self._validate_tokens(value)
+            value = [token for token in dict.fromkeys(value)
+                     if token not in self._tokens]
             if len(value) == 0:
                 return
         else:
@@ -213,6 +213,8 @@ class DOMTokenList(MutableSequence):
         tokens = tuple(dict.fromkeys(value.split()))
         return tokens
 
+            if len(value) > 0:
+                self._validate_token(value)
     @property
     def length(self):
         """int: The token set's size."""
-- 
2.43.0


From 877bbd2afc51ea3fa54427dbae89f28514d8f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 32/96] fix: get_root_node returned the old root for removed
 nodes

---
 svgpy/dom.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b8fe1e2..e494e72 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -56,6 +56,28 @@ def node_append_data(node, data, tail=True):
         node.text = text
 
 
+def node_get_root(node):
+    """Returns the root of the tree that contains a node.
+
+    Arguments:
+        node (Node): A node.
+    Returns:
+        Node: The topmost ancestor, or the root element of the document if
+            the node is a comment or a processing instruction beside it.
+    """
+    root = node
+    parent = root.getparent()
+    while parent is not None:
+        root = parent
+        parent = root.getparent()
+    if root.node_type != Node.ELEMENT_NODE:
+        for preceding in (True, False):
+            for sibling in root.itersiblings(preceding=preceding):
+                if sibling.node_type == Node.ELEMENT_NODE:
+                    return sibling
+    return root
+
+
 def node_insert_before(parent, node, child=None):
     """Inserts a node into a parent before a child.
 
@@ -191,6 +213,8 @@ class DOMTokenList(MutableSequence):
 
     def __setitem__(self, index, value):
         if isinstance(value, str):
+            if len(value) > 0:
+                self._validate_token(value)
             if value in self._tokens:
                 return
         elif isinstance(value, list):
@@ -213,8 +237,6 @@ class DOMTokenList(MutableSequence):
         tokens = tuple(dict.fromkeys(value.split()))
         return tokens
 
-            if len(value) > 0:
-                self._validate_token(value)
     @property
     def length(self):
         """int: The token set's size."""
@@ -1256,10 +1278,7 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2097,10 +2116,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def has_attribute(self, qualified_name):
         """Returns True if an attribute with the specified name exists;
@@ -2558,10 +2574,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
-- 
2.43.0


From 0f881b9c67e762ce7b195eb81caa4a03eee54bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 33/96] fix: setting text_content left children behind

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index e494e72..316f664 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1548,7 +1548,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @text_content.setter
     def text_content(self, text):
-        for child in iter(self):
+        for child in self.child_nodes:
             self.remove(child)
         self.text = text
 
-- 
2.43.0


From 6f763cc258646f728302e9b284bf6daad78952bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 34/96] fix: Element.append put text before existing children

---
 svgpy/dom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 316f664..57ce60a 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1608,7 +1608,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         data = ''
-        target = self
+        last_child = self.last_child
+        target = self if last_child is None else last_child
         for node in nodes:
             if isinstance(node, str):
                 data += node
-- 
2.43.0


From 67c2b3ae21b8df9f9f856d16df6598aa933e64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 35/96] fix: Element.prepend misplaced nodes which were already
 children and lost text on errors

---
 svgpy/dom.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 57ce60a..5f4a2d0 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2204,7 +2204,14 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
+        first_child = None
+        for child in self.child_nodes:
+            if child not in nodes:
+                first_child = child
+                break
         data = ''
         target = self
         text = '' if self.text is None else self.text
@@ -2214,7 +2221,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
             if len(data) > 0:
                 tail = False if target == self else True
                 node_prepend_data(target, data, tail)
@@ -2222,7 +2228,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
             else:
                 first_child.addprevious(node)
             target = node
-- 
2.43.0


From c7bb8f1d189003626c708d3d4bacff9f18b5ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 36/96] fix: Document.insert past the last child raised
 IndexError

---
 svgpy/window.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..ecbcdcf 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -518,7 +518,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             pass  # do nothing
         else:
             children = self.child_nodes
-            children[index].addprevious(node)
+            if index >= len(children):
+                self.append(node)
+            else:
+                children[index].addprevious(node)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
-- 
2.43.0


From 9348bde110bb7b92841a178c6a24973edb862473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 37/96] fix: auto radius of an ellipse took the percentage of
 the other axis

---
 svgpy/element.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..ce4448d 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,20 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = 0
+        ry = 0
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        if _rx == 'auto':
+            rx = ry
+        elif _ry == 'auto':
+            ry = rx
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From ed7b0bd8829bc26ee9b43cd335b22ccd250ebaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 38/96] fix: viewport sizes in vw, vh, vmin or vmax and
 percentage positions were wrong

---
 svgpy/base.py | 115 ++++++++++++++++++--------------------------------
 1 file changed, 40 insertions(+), 75 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..e2f63ba 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -257,84 +257,49 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
-        for root in roots:
-            _width = root.get('width', 'auto')
-            if _width == 'auto':
-                _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
-
-            _height = root.get('height', 'auto')
-            if _height == 'auto':
-                _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
-            parent_vph = vph
-        if len(roots) == 0:
-            vpx = SVGLength(0)
-            vpy = SVGLength(0)
-        else:
-            root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+        vpx = SVGLength(0)
+        vpy = SVGLength(0)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+
+        def _resolve(value, direction):
+            # percentages refer to the size of the parent's SVG viewport
+            length = SVGLength(value, context=root, direction=direction)
+            unit = length.unit
+            if unit == SVGLength.TYPE_PERCENTAGE:
+                if direction == SVGLength.DIRECTION_HORIZONTAL:
+                    size = parent_vpw
+                else:
+                    size = parent_vph
             elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                size = parent_vpw
+            elif unit == SVGLength.TYPE_VH:
+                size = parent_vph
             elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
+                size = max(parent_vpw, parent_vph)
             elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+                size = min(parent_vpw, parent_vph)
+            else:
+                return length
+            return length.value(unit) / 100 * size
+
+        for root in roots:
+            parent_vpw, parent_vph = vpw, vph
+            width = root.get('width', 'auto')
+            if width == 'auto':
+                width = '100%'
+            if width != 'inherit':
+                vpw = _resolve(width, SVGLength.DIRECTION_HORIZONTAL)
+            height = root.get('height', 'auto')
+            if height == 'auto':
+                height = '100%'
+            if height != 'inherit':
+                vph = _resolve(height, SVGLength.DIRECTION_VERTICAL)
+            vpx = _resolve(root.get('x', '0'),
+                           SVGLength.DIRECTION_HORIZONTAL)
+            vpy = _resolve(root.get('y', '0'), SVGLength.DIRECTION_VERTICAL)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From 64786a7ea09d8d8a4d9dc4d65688be9dd713d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 39/96] fix: CTM ignored transforms between nested viewports

---
 svgpy/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index e2f63ba..6b97473 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -359,22 +359,22 @@ class SVGGraphicsElement(SVGElement):
             scale = farthest.current_scale
             tx, ty = farthest.current_translate
             ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
-
-        transform_list = SVGTransformList()
+        matrices = list()
         element = self
         while element is not None:
             if element.istransformable():
                 transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
-            if element.local_name in ('svg', 'symbol'):
-                break
+                if transform is not None and len(transform) > 0:
+                    matrices.insert(0, transform.matrix)
+            if element in roots:
+                matrices.insert(
+                    0,
+                    element.get_viewport_transformation_matrix(
+                        recursive=False))
+                if element == roots[0]:
+                    break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
+        for matrix in matrices:
             ctm *= matrix
         return ctm
 
@@ -476,7 +476,7 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size(recursive)
+        ex, ey, ew, eh = self.get_viewport_size()
         view_box = self.get_view_box(recursive)
         if view_box is None:
             if ex is not None and ey is not None:
-- 
2.43.0


From e7d97ddf6bd4d301aa83fefdfd9f01d6038e2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 40/96] fix: viewBox with surrounding spaces or missing numbers
 raised errors

---
 svgpy/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 6b97473..58739db 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -557,7 +557,9 @@ class SVGFitToViewBox(Element):
         view_box = self.get('viewBox')
         if view_box is None:
             return None
-        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box)
+        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box.strip())
+        if len(vb) != 4:
+            return None
         return (SVGLength(vb[0],
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL),
-- 
2.43.0


From ba90729fc71c2ec1962008b594427cbbaf934b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 41/96] fix: preserveAspectRatio xMinYMid was not recognised

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index 58739db..18115f6 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -665,6 +665,7 @@ class SVGPreserveAspectRatio(object):
         SVG_PRESERVEASPECTRATIO_XMIDYMID: ALIGN_XMIDYMID,
         SVG_PRESERVEASPECTRATIO_XMAXYMID: ALIGN_XMAXYMID,
         SVG_PRESERVEASPECTRATIO_XMINYMAX: ALIGN_XMINYMAX,
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
         SVG_PRESERVEASPECTRATIO_XMIDYMAX: ALIGN_XMIDYMAX,
         SVG_PRESERVEASPECTRATIO_XMAXYMAX: ALIGN_XMAXYMAX,
     }
-- 
2.43.0


From 8714ddbba3dda92c5ac6d852e1dbadcf5c82219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 42/96] fix: query_selector_all did not consider ancestors of
 the element

---
 svgpy/dom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 5f4a2d0..b8df3c9 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2244,7 +2244,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         if uri is not None:
             nsmap['svg'] = uri
         sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
-        return sel(self)
+        # the ancestors of this element take part in the combinators
+        elements = list(self.iter())
+        return [x for x in sel(node_get_root(self)) if x in elements]
 
     def remove(self, node=None):
         """Removes a matching sub-node. Unlike the find methods, this method
-- 
2.43.0


From 6385c0d1ec73288159eea7db2eb41d2115391842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 43/96] fix: class names with special characters were taken as
 regular expressions

---
 svgpy/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..1e44496 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -106,12 +106,13 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
-    expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    expr = '{}::*[@class]'.format(axis)
+    elements = list()
+    for it in element.xpath(expr, namespaces=nsmap):
+        classes = it.get('class').split()
+        if all(x in classes for x in names):
+            elements.append(it)
+    return elements
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
-- 
2.43.0


From e639f3d01811d79c88d8a589efd31b2afdb85236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 44/96] fix: use elements applied their own transform twice and
 lost those of the target

---
 svgpy/base.py    | 9 ++-------
 svgpy/element.py | 9 +++------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 18115f6..9907a95 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -427,7 +427,7 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
@@ -458,11 +458,6 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
         if transform_list is not None:
             matrix = transform_list.matrix
@@ -665,12 +660,12 @@ class SVGPreserveAspectRatio(object):
         SVG_PRESERVEASPECTRATIO_XMIDYMID: ALIGN_XMIDYMID,
         SVG_PRESERVEASPECTRATIO_XMAXYMID: ALIGN_XMAXYMID,
         SVG_PRESERVEASPECTRATIO_XMINYMAX: ALIGN_XMINYMAX,
-    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
         SVG_PRESERVEASPECTRATIO_XMIDYMAX: ALIGN_XMIDYMAX,
         SVG_PRESERVEASPECTRATIO_XMAXYMAX: ALIGN_XMAXYMAX,
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
diff --git a/svgpy/element.py b/svgpy/element.py
index ce4448d..756776c 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1097,11 +1097,8 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        path_data = root.get_transformed_path_data(settings)
+        transform_list = SVGTransformList()
 
         geometry = self.get_computed_geometry()
         x = geometry['x']
@@ -1125,7 +1122,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
                 transform = SVGTransform()
                 transform.set_scale(sx, sy)
                 transform_list.append(transform)
-        if len(transform_list) > 0:
+        if len(path_data) > 0 and len(transform_list) > 0:
             matrix = transform_list.matrix
             path_data = PathParser.transform(path_data, matrix)
         return path_data
-- 
2.43.0


From fafa63095fca3e199f2a1c90ac5051e11188c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 45/96] fix: marker and view elements could not be instantiated

---
 svgpy/base.py    | 2 +-
 svgpy/element.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 9907a95..d7abaf1 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -390,7 +390,7 @@ class SVGGraphicsElement(SVGElement):
         # TODO: implement SVGBoundingBoxOptions option.
         _depth += 1
         bbox = DOMRect()
-        if self.local_name in ('defs', 'symbol'):
+        if self.local_name in ('defs', 'marker', 'symbol'):
             return bbox  # not rendered directly
         if self.iscontainer():
             for child in iter(self):
diff --git a/svgpy/element.py b/svgpy/element.py
index 756776c..c7f890d 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -473,7 +473,9 @@ class SVGLineElement(SVGGeometryElement):
 class SVGMarkerElement(SVGGraphicsElement):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        return []
 
 
 class SVGMeshElement(SVGGeometryElement):
@@ -1131,7 +1133,9 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
 class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        return []
 
 
 class SVGElementClassLookup(etree.CustomElementClassLookup):
-- 
2.43.0


From e01d38ecc4caacb6574f52015892d938671f1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 46/96] fix: media features in parentheses were misread
 depending on spaces, and with =

---
 svgpy/css/mediaquery.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..da2bbab 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -38,22 +38,24 @@ _RE_MEDIA_QUERY = re.compile(
     re.IGNORECASE | re.MULTILINE)
 
 _RE_MEDIA_IN_PARENS = re.compile(
-    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
+    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+(\s*/\s*\S+)?\s*\))"
+    r"|(?P<mf_boolean>\(\s*[^\s<>=]+\s*\))"
+    r"|(?P<mf_range>\(\s*[^<>= ]+(\s*/\s*[^<>= ]+)?\s*([<>]=?|=)\s*"
+    r"[^<>=) ]+(\s*/\s*[^<>=) ]+)?\s*"
+    r"([<>]=?\s*[^<>=) ]+(\s*/\s*[^<>=) ]+)?\s*)?\))"
     r"|(?P<media_not>not\s+\(.+\))"
     r"|(?P<media_in_parens>\(.+\))"
     r"|(\s+(?P<op>(and|or))\s+)",
     re.IGNORECASE | re.MULTILINE)
 
 _RE_MF_PLAIN = re.compile(
-    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+)\s*\))',
+    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+(\s*/\s*\S+)?)\s*\))',
     re.MULTILINE)
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
+    r"(\(\s*(?P<left>[^<>= ]+(\s*/\s*[^<>= ]+)?)\s*(?P<op>[<>]=?|=)\s*"
+    r"(?P<right>[^<>=) ]+(\s*/\s*[^<>=) ]+)?)\s*"
+    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>=) ]+(\s*/\s*[^<>=) ]+)?)\s*)?\))",
     re.MULTILINE)
 
 _RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
@@ -414,7 +416,7 @@ def _parse_mf_boolean(query, parent):
         values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('() \t\n\r\f'),
     })
     values.append(node)
     return node
-- 
2.43.0


From f4ca4586772ee7a13b02b5458682972660d8c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 47/96] fix: aspect ratios of media queries were compared
 wrongly when equal, or as lengths

---
 svgpy/css/mediaquery.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index da2bbab..a02b426 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -207,20 +207,23 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ['aspect-ratio', 'device-aspect-ratio']):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            try:
+                left_ratio = _parse_ratio(left_value)
+                right_ratio = _parse_ratio(right_value)
+            except (ValueError, ZeroDivisionError) as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
+            result = ((left_ratio == right_ratio and op[-1] == '=')
+                      or (left_ratio > right_ratio and op[0] == '>')
+                      or (left_ratio < right_ratio and op[0] == '<'))
+            logger.debug('feature \'{}\': {} {} {}: result={}'.format(
+                name, repr(left_ratio), op, repr(right_ratio), result))
+            if not result:
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
@@ -248,6 +251,12 @@ def _eval_expr_name(node, conditions):
     result = False
     matched_media = None
     name = node[MQ_ID]
+def _parse_ratio(text):
+    # <ratio>
+    # e.g.: '16/9', '16 / 9'
+    return Fraction(_RE_WHITESPACE.sub('', text))
+
+
     if name in MEDIA_TYPES:
         # <media-type>
         if name == 'all' or conditions.get('media', '') == name:
-- 
2.43.0


From 7a99d4e54de247dc385b65f88ab933128e4fa072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 48/96] fix: the empty media query list did not match

---
 svgpy/css/mediaquery.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index a02b426..12132df 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -84,7 +84,11 @@ logger = getLogger(__name__)
 
 def parse(query):
     node_list = list()
-    media_query_list = query.strip().lower().split(',')
+    query = query.strip()
+    if len(query) == 0:
+        # an empty media query list matches all media
+        query = 'all'
+    media_query_list = query.lower().split(',')
     for media_query in media_query_list:
         media_query = media_query.strip()
         if len(media_query) == 0:
@@ -247,16 +251,16 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
     return True, None
 
 
-def _eval_expr_name(node, conditions):
-    result = False
-    matched_media = None
-    name = node[MQ_ID]
 def _parse_ratio(text):
     # <ratio>
     # e.g.: '16/9', '16 / 9'
     return Fraction(_RE_WHITESPACE.sub('', text))
 
 
+def _eval_expr_name(node, conditions):
+    result = False
+    matched_media = None
+    name = node[MQ_ID]
     if name in MEDIA_TYPES:
         # <media-type>
         if name == 'all' or conditions.get('media', '') == name:
-- 
2.43.0


From 295812c666422967ee3a34dd174ef9ae25c8398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 49/96] fix: white space inside of media queries was kept in
 mediaText

---
 svgpy/css/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..e7b40a3 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -834,7 +834,7 @@ class MediaList(MutableSequence):
         if len(media_text) == 0:
             self.clear()
             return
-        m = MediaList._parse_media_query_list(value)
+        m = MediaList._parse_media_query_list(media_text)
         self._items = m
 
     @staticmethod
-- 
2.43.0


From 5b85a1055b978d92cb0f4122c3f132d5522660c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 50/96] fix: an empty href names no style sheet

---
 svgpy/style.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..315a996 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -174,7 +174,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -252,7 +252,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
-- 
2.43.0


From 0c71e399a7a8d726e64c8e2cd6c47a5e24912553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 51/96] fix: combinators of selectors see the ancestors of the
 element

---
 svgpy/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 315a996..fe9ddaf 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -288,8 +288,9 @@ def get_css_style(element, css_rules):
             try:
                 selector = cssselect.CSSSelector(css_rule.selector_text,
                                                  namespaces=namespaces)
-                matched = selector(element)
-                if len(matched) > 0 and element in matched:
+                # the ancestors of the element take part in the combinators
+                matched = selector(element.getroottree().getroot())
+                if element in matched:
                     for key, (value, priority) in css_rule.style.items():
                         style[key] = value
                         if priority == 'important':
-- 
2.43.0


From 10c19751fd36151c02a4fb93dbeee7ccd224ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 52/96] fix: a url with quotes in @import and @namespace

---
 svgpy/css/__init__.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index e7b40a3..cb37b46 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -48,6 +48,17 @@ def normalize_text(text):
 
 
 class _StyleAttribute(object):
+def _get_url(token):
+    # <string-token> or <url-token> or url(<string>)
+    if token.type in ('string', 'url'):
+        return token.value
+    elif token.type == 'function' and token.lower_name == 'url':
+        for argument in token.arguments:
+            if argument.type == 'string':
+                return argument.value
+    return None
+
+
 
     def __init__(self, declarations, owner_node):
         self._declarations = declarations  # type: OrderedDict
@@ -1160,8 +1171,9 @@ class CSSImportRule(CSSRule):
         mediums = list()
         for token in prelude:
             if self._href is None:
-                if token.type in ('string', 'url'):
-                    url = normalize_url(token.value, base_url)
+                href = _get_url(token)
+                if href is not None:
+                    url = normalize_url(href, base_url)
                     self._href = url.href
             else:
                 mediums.append(token)
@@ -1274,8 +1286,9 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
-                self._namespace_uri = token.value
+            url = _get_url(token)
+            if url is not None:
+                self._namespace_uri = url
             elif token.type == 'ident':
                 self._prefix = token.value
 
-- 
2.43.0


From e2e1a6900aa1463af8a7f52fa70e229e5e171ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 53/96] fix: declarations dropped from the style attribute
 leave the inline style

---
 svgpy/css/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index cb37b46..ad186c5 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -26,7 +26,8 @@ from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from .screen import Screen, ScreenOrientation
-from .shorthands import Shorthand, font_sub_property_list
+from .shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list
 from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathOperator, \
     CSSMathProduct, CSSMathSum, CSSMathValue, CSSNumericBaseType, \
@@ -47,7 +48,6 @@ def normalize_text(text):
     return out_text
 
 
-class _StyleAttribute(object):
 def _get_url(token):
     # <string-token> or <url-token> or url(<string>)
     if token.type in ('string', 'url'):
@@ -59,6 +59,7 @@ def _get_url(token):
     return None
 
 
+class _StyleAttribute(object):
 
     def __init__(self, declarations, owner_node):
         self._declarations = declarations  # type: OrderedDict
@@ -1322,6 +1323,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._property_map = OrderedDict()
         self._owner_node = owner_node
         self._inline_style = inline_style
+        self._style_text = ''
         self._readonly = False
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
@@ -1391,6 +1393,16 @@ class CSSStyleDeclaration(MutableMapping):
         style = '' if attr is None else attr.value
         property_map = style_to_dict(style)
         declarations = self._property_map
+        if style != self._style_text:
+            # the 'style' attribute was changed by someone else
+            self._style_text = style
+            property_names = set(property_map)
+            for property_name in property_map:
+                property_names.update(get_longhand_list(property_name))
+            for property_name in list(declarations):
+                if property_name not in property_names:
+                    del declarations[property_name]
+
         for property_name in declarations:
             if Longhand.is_longhand(property_name):
                 shorthand_names = Longhand.shorthands(property_name)
@@ -1482,6 +1494,8 @@ class CSSStyleDeclaration(MutableMapping):
             return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
+        self._style_text = '' if attr is None else attr.value
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
-- 
2.43.0


From f8cac58a793ccaa75411affa41b9337b519f38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 54/96] fix: @namespace without a url is ignored by the cascade

---
 svgpy/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index fe9ddaf..2ee2a87 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -310,7 +310,7 @@ def get_css_style(element, css_rules):
             # TODO: support CSS @font-feature-values at-rule.
             pass
         elif css_rule.type == CSSRule.NAMESPACE_RULE:
-            if len(css_rule.namespace_uri) > 0:
+            if css_rule.namespace_uri:
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
                     prefix = 'svg'
-- 
2.43.0


From 3d91876cab56c087144a4e4bf0952ddd020c0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 55/96] fix: presentation attributes precede all style sheets

---
 svgpy/dom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b8df3c9..3acc4ba 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2004,9 +2004,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
+            # presentation attributes precede all of the style sheets
+            css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            css_rule_style, css_style_important = get_css_style(element,
+                                                                css_rules)
+            css_style.update(css_rule_style)
             if _style is not None:
                 css_style.update(style_to_dict(_style))
             css_style.update(css_style_important)
-- 
2.43.0


From 522929a029ba48ce659191eb763a01bc0bc649b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 56/96] fix: non-inherited properties take the declared value
 of the element

---
 svgpy/dom.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3acc4ba..04f2b0f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1928,9 +1928,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
+        style.update(non_inherited_props)
 
         inherited_props = \
             {'clip-rule': 'nonzero',
@@ -2007,11 +2005,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             # presentation attributes precede all of the style sheets
             css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            if _style is not None:
+                css_style.update(style_to_dict(_style))
             css_rule_style, css_style_important = get_css_style(element,
                                                                 css_rules)
             css_style.update(css_rule_style)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
             css_style.update(css_style_important)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
@@ -2020,6 +2018,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         # 'font' shorthand property
                         style[key] = value
                         _update_font_prop(value, style, inherited_props)
+            if element is self:
+                for key in non_inherited_props:
+                    style[key] = css_style.get(key, style[key])
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-- 
2.43.0


From 056cabe3773faee8ff1b165b6188a4f0f48d0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 57/96] fix: !important in a style attribute

---
 svgpy/dom.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 04f2b0f..a99fb53 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -32,6 +32,8 @@ from .utils import QualifiedName, get_elements_by_class_name, \
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
 
+_RE_IMPORTANT = re.compile(r'\s*!\s*important\s*$', re.IGNORECASE)
+
 # https://www.w3.org/TR/xml/#NT-Name
 _RE_XML_NAME = re.compile(
     r"^(:|[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]"
@@ -2005,12 +2007,20 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             # presentation attributes precede all of the style sheets
             css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
             css_rule_style, css_style_important = get_css_style(element,
                                                                 css_rules)
             css_style.update(css_rule_style)
+            if _style is not None:
+                for key, value in style_to_dict(_style).items():
+                    matched = _RE_IMPORTANT.search(value)
+                    if matched:
+                        value = value[:matched.start()]
+                        css_style_important[key] = value
+                    css_style[key] = value
             css_style.update(css_style_important)
+            if element is self:
+                for key in non_inherited_props:
+                    style[key] = css_style.get(key, style[key])
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
@@ -2018,9 +2028,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         # 'font' shorthand property
                         style[key] = value
                         _update_font_prop(value, style, inherited_props)
-            if element is self:
-                for key in non_inherited_props:
-                    style[key] = css_style.get(key, style[key])
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-- 
2.43.0


From eb82d492e1722e8fc762d607a8cd8f814ccae65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 58/96] fix: font-family next to the font shorthand in the
 inherited style

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a99fb53..06370ac 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2031,7 +2031,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
+                        inherited_props.pop(key, None)
                     elif key == 'font-variant':
                         # 'font-variant' shorthand property
                         style[key] = value
-- 
2.43.0


From 95d1b62f5d75643e72a0e5d6824d22f3da9fd7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 59/96] fix: semicolons and colons inside of strings and urls
 in a style attribute

---
 svgpy/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 1e44496..9ebac39 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -30,6 +30,11 @@ _ASCII_WHITESPACE = '\t\n\f\r\x20'
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
+_RE_STYLE_DECLARATION = re.compile(
+    r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'"""
+    r"""|\((?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^()"'])*\)|[^;])+""",
+    re.DOTALL)
+
 _namespace_map = {
     'html': 'http://www.w3.org/1999/xhtml',
     'xlink': 'http://www.w3.org/1999/xlink',
@@ -249,7 +254,9 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
+    # semicolons in strings and parentheses belong to the value
+    items = [x.group().split(':', 1)
+             for x in _RE_STYLE_DECLARATION.finditer(text)]
     items = [x for x in items if len(x) == 2]
     return OrderedDict(
         (key.strip(), value.strip()) for key, value in iter(items)
-- 
2.43.0


From 72890a488e5019037fbc07dd47ff73ee825f4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 60/96] fix: the number after the solidus of font is the line
 height

---
 svgpy/css/shorthands.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..a13ec29 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -147,6 +147,7 @@ class ShorthandProperty(ABC):
                               css_wide_keywords):
         desc = css_property_descriptor_map[property_name]
         found_solidus = False
+        skip_next = False
         target = None
         for component in list(component_list):
             if component.type == 'whitespace':
@@ -173,6 +174,7 @@ class ShorthandProperty(ABC):
                         and '/' not in desc.syntax):
                     if target is not None and len(target) > 0:
                         break
+                    skip_next = property_name in _before_solidus_properties
                     continue
                 elif found_solidus:
                     break
@@ -186,6 +188,9 @@ class ShorthandProperty(ABC):
             elif (property_name in _with_solidus_properties
                   and not found_solidus):
                 continue
+            elif skip_next:
+                skip_next = False
+                continue
 
             supported, syntax = desc.support(component)
             if supported:
@@ -896,6 +901,15 @@ _shorthand_property_class_map = {
     'white-space': WhiteSpaceShorthand,
 }
 
+_before_solidus_properties = (
+    # 'font': the component after the solidus is 'line-height'
+    'font-style',
+    'font-variant-css2',
+    'font-weight',
+    'font-stretch-css3',
+    'font-size',
+)
+
 _with_solidus_properties = (
     # 'font': <font-size> [ / <line-height> ]?
     'line-height',
-- 
2.43.0


From 7b9b53bd2b6b24363c610e984a1b0a8623348cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 61/96] fix: an overflow value without a keyword is ignored

---
 svgpy/css/shorthands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index a13ec29..58fe746 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -733,7 +733,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From d5900890ef440400fe418658576bb6669b42e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 62/96] fix: imports of a style sheet resolve against its own
 location

---
 svgpy/css/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ad186c5..3126055 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -937,6 +937,7 @@ class StyleSheet(object):
         if media is not None:
             self._media.media_text = media
         self._href = href
+        self._base_url = None
         self._owner_node = owner_node
         self._parent_style_sheet = parent_style_sheet
         self._title = title
@@ -1161,7 +1162,9 @@ class CSSImportRule(CSSRule):
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet._base_url
+            if base_url is None:
+                base_url = self.parent_style_sheet.href
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1772,6 +1775,7 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        css_style_sheet._base_url = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
-- 
2.43.0


From aff4ee43759bccdb97e6973a40f8d27e577175b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 63/96] fix: a style sheet that imports itself is not imported
 again

---
 svgpy/css/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 3126055..fb0b258 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1159,6 +1159,17 @@ class CSSImportRule(CSSRule):
             }
         })
 
+    def _is_circular(self):
+        # a style sheet that imports itself, directly or not
+        style_sheet = self.parent_style_sheet
+        while style_sheet is not None:
+            if style_sheet._base_url == self._href:
+                return True
+            owner_rule = style_sheet.owner_rule
+            style_sheet = (owner_rule.parent_style_sheet
+                           if owner_rule is not None else None)
+        return False
+
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
@@ -1183,7 +1194,7 @@ class CSSImportRule(CSSRule):
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
+        if self._href is None or self._is_circular():
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
-- 
2.43.0


From 6e35db4706b794756a76d89f7495d4ad57f8221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 64/96] fix: an at-rule without its block is ignored

---
 svgpy/css/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index fb0b258..7af45f8 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1059,7 +1059,7 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_comments=True,
                                          skip_whitespace=True)
         for node in nodes:
-            if node.type == 'at-rule':
+            if node.type == 'at-rule' and node.content is not None:
                 # tinycss2.parse_one_component_value() returns ParseError
                 feature_type = node.lower_at_keyword
                 name = None
@@ -1817,6 +1817,12 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
+                if (rule.content is None
+                        and rule.lower_at_keyword in ('font-face',
+                                                      'font-feature-values',
+                                                      'media')):
+                    # at-rule without a block: parse error
+                    continue
                 if rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
-- 
2.43.0


From c5e7b23a4f1829b6def4466837e0ccf980442a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 65/96] fix: declarations of @font-feature-values are read as
 declarations

---
 svgpy/css/__init__.py | 60 +++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 7af45f8..d774f58 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1060,37 +1060,37 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_whitespace=True)
         for node in nodes:
             if node.type == 'at-rule' and node.content is not None:
-                # tinycss2.parse_one_component_value() returns ParseError
                 feature_type = node.lower_at_keyword
-                name = None
-                feature_values = None
-                for token in node.content:
-                    if token.type == 'ident':
-                        name = token.value
-                    elif token.type == 'literal' and token.value == ':':
-                        if name is not None:
-                            feature_values = list()
-                    elif token.type == 'number' and token.is_integer:
-                        if feature_values is not None and token.int_value >= 0:
-                            feature_values.append(token.int_value)
-                    elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
-                        name = None
-                        feature_values = None
+                declarations = tinycss2.parse_declaration_list(
+                    node.content,
+                    skip_comments=True,
+                    skip_whitespace=True)
+                for declaration in declarations:
+                    if declaration.type != 'declaration':
+                        continue
+                    name = declaration.name
+                    tokens = [token for token in declaration.value
+                              if token.type not in ('comment', 'whitespace')]
+                    if (len(tokens) == 0
+                            or declaration.important
+                            or not all(token.type == 'number'
+                                       and token.is_integer
+                                       and token.int_value >= 0
+                                       for token in tokens)):
+                        continue
+                    feature_values = [token.int_value for token in tokens]
+                    if feature_type == 'annotation':
+                        self._annotation[name] = feature_values
+                    elif feature_type == 'character-variant':
+                        self._character_variant[name] = feature_values
+                    elif feature_type == 'ornaments':
+                        self._ornaments[name] = feature_values
+                    elif feature_type == 'styleset':
+                        self._styleset[name] = feature_values
+                    elif feature_type == 'stylistic':
+                        self._stylistic[name] = feature_values
+                    elif feature_type == 'swash':
+                        self._swash[name] = feature_values
 
     @property
     def font_family(self):
-- 
2.43.0


From a397a8632d62bcec5ed907c1a1c0082548bf3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 66/96] fix: the data of a data: URL is bytes like that of any
 other URL

---
 svgpy/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 9ebac39..2b208c6 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -19,7 +19,7 @@ import re
 from collections import OrderedDict
 from collections.abc import MutableMapping
 from pathlib import PurePath
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 from urllib.request import urlopen
 
 from .exception import InvalidCharacterError, NamespaceError
@@ -200,12 +200,14 @@ def load(src, encoding=None, **kwargs):
         content_type = pathname[0:end].strip()
         if len(content_type) == 0:
             content_type = 'text/plain;charset=US-ASCII'
-        data = unquote(pathname[end + 1:].strip())
+        data = unquote_to_bytes(pathname[end + 1:].strip())
         parameters = [x.strip() for x in content_type.split(';')]
         if 'base64' in parameters:
             parameters.remove('base64')
             data = base64.b64decode(data)
         headers['Content-Type'] = ';'.join(parameters)
+        if encoding is not None:
+            data = data.decode(encoding)
         return data, headers
 
     with urlopen(url.href, **kwargs) as response:
-- 
2.43.0


From 9c0400ac7b1a55567127da3481306993c4221082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 67/96] fix: the base64 marker of a data: URL is its last
 parameter in any case

---
 svgpy/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 2b208c6..7cb76ac 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -198,14 +198,15 @@ def load(src, encoding=None, **kwargs):
         if end < 0:
             return None, headers
         content_type = pathname[0:end].strip()
-        if len(content_type) == 0:
-            content_type = 'text/plain;charset=US-ASCII'
         data = unquote_to_bytes(pathname[end + 1:].strip())
         parameters = [x.strip() for x in content_type.split(';')]
-        if 'base64' in parameters:
-            parameters.remove('base64')
+        if len(parameters) > 1 and parameters[-1].lower() == 'base64':
+            parameters.pop()
             data = base64.b64decode(data)
-        headers['Content-Type'] = ';'.join(parameters)
+        content_type = ';'.join(parameters)
+        if len(content_type) == 0:
+            content_type = 'text/plain;charset=US-ASCII'
+        headers['Content-Type'] = content_type
         if encoding is not None:
             data = data.decode(encoding)
         return data, headers
-- 
2.43.0


From a745d6450e12ccfa47169ade398d9f0456be0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 68/96] fix: parameters of a content type may be quoted

---
 svgpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 7cb76ac..59ff1dd 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -68,9 +68,9 @@ def get_content_type(headers):
     parameters = [x.strip() for x in content_type.split(';')]
     result = CaseInsensitiveMapping({None: parameters.pop(0)})
     for parameter in parameters:
-        items = parameter.split('=')
+        items = parameter.split('=', maxsplit=1)
         if len(items) == 2:
-            result[items[0]] = items[1]
+            result[items[0].strip()] = remove_quotes(items[1].strip())
     return result
 
 
-- 
2.43.0


From 54dc4912b8e1c7151b0ce6c448d776e05e711306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 69/96] fix: the @charset of a style sheet is used when nothing
 else gives its encoding

---
 svgpy/css/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index d774f58..f3dbf13 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1793,10 +1793,8 @@ class CSSParser(object):
             data, headers = load(url)
             if encoding is None:
                 content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
+                if content_type is not None:
+                    encoding = content_type.get('charset')
             rules, encoding = tinycss2.parse_stylesheet_bytes(
                 css_bytes=data,
                 protocol_encoding=encoding,
-- 
2.43.0


From be805d1f7d64735e033c9b46460c5ba2985cfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 70/96] fix: families, sizes and line heights of font values
 are read whole

---
 svgpy/core.py | 102 ++++++++++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 48 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index f6d1348..e70f701 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -17,7 +17,6 @@ import copy
 import html
 import math
 import re
-import shlex
 import unicodedata
 from decimal import Decimal, InvalidOperation
 
@@ -27,6 +26,7 @@ from .css.screen import Screen
 from .fontconfig import FontConfig
 from .formatter import format_number_sequence
 from .freetype import FreeType, FTFace
+from .utils import remove_quotes
 
 
 class CSSUtils(object):
@@ -79,6 +79,13 @@ class CSSUtils(object):
     _BOLDER_WEIGHT_LIST = [400, 400, 400, 700, 700, 900, 900, 900, 900]
     _LIGHTER_WEIGHT_LIST = [100, 100, 100, 100, 100, 400, 400, 700, 700]
 
+    _FONT_SIZE_KEYWORDS = tuple(_ABSOLUTE_FONT_SIZE_MAP) + ('larger',
+                                                            'smaller')
+
+    # strings, functions, delimiters and words
+    _RE_FONT_COMPONENT = re.compile(
+        r""""(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'"""
+        r"""|[^\s"',/()]*\([^()]*\)|[,/]|[^\s"',/()]+""")
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
     _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
@@ -345,15 +352,7 @@ class CSSUtils(object):
         #  || <font-weight> || <font-stretch> ]? <font-size>
         #  [ / <line-height> ]? <font-family> ]
         #  | caption | icon | menu | message-box | small-caption | status-bar
-        items = shlex.split(value)
-        if len(items) == 0:
-            return {}
-        for item in iter(items):
-            # system font
-            if item in ['caption', 'icon', 'menu', 'message-box',
-                        'small-caption', 'status-bar']:
-                return {}
-
+        items = CSSUtils._RE_FONT_COMPONENT.findall(value)
         style = dict({
             'font-family': [],
             'font-kerning': Font.CSS_DEFAULT_FONT_KERNING,
@@ -366,43 +365,26 @@ class CSSUtils(object):
             'font-weight': Font.CSS_DEFAULT_FONT_WEIGHT,
             'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
         })
-
-        # 'font-family' property
-        font_family = list([items.pop()])
-        delimiter = False
-        while len(items) > 0:
-            item = items[-1]
-            if item == ',':
-                # 'a_,_b' -> ['a', ',', 'b']
-                delimiter = True
-            elif delimiter or item.endswith(','):
-                font_family.insert(0, item)
-                delimiter = False
-            else:
-                break
-            items.pop()
-        style['font-family'] = CSSUtils.parse_font_family(font_family)
-
-        # 'font-size' and 'line-height' properties
-        try:
-            item = items.pop()
-        except IndexError:
-            return {}
-        if item.find('/') != -1:
-            # 'font-size' [/ 'line-height']
-            parts = item.split('/')
-            style['font-size'] = parts[0]
-            style['line-height'] = parts[1]
-        else:
-            style['font-size'] = item
+        if (len(items) == 1
+                and items[0].lower() in ['caption', 'icon', 'menu',
+                                         'message-box', 'small-caption',
+                                         'status-bar']):
+            # system font
+            style['font-family'] = CSSUtils.parse_font_family(
+                Font.default_font_family)
+            return style
 
         while len(items) > 0:
-            item = items.pop(0)
+            item = items[0].lower()
             if item == 'normal':
                 pass
             elif item in ['italic', 'oblique']:
                 # 'font-style' property
                 style['font-style'] = item
+                if (item == 'oblique' and len(items) > 1
+                        and items[1].lower().endswith(
+                            ('deg', 'grad', 'rad', 'turn'))):
+                    items.pop(0)  # oblique <angle>
             elif item in ['small-caps']:
                 # 'font-variant-css21' property
                 style['font-variant'] = item
@@ -417,6 +399,29 @@ class CSSUtils(object):
                 style['font-stretch'] = item
             else:
                 break
+            items.pop(0)
+
+        # 'font-size' property
+        if len(items) == 0:
+            return {}
+        item = items.pop(0)
+        if item.lower() in CSSUtils._FONT_SIZE_KEYWORDS:
+            item = item.lower()
+        elif item[0] not in '0123456789+-.' and not item.endswith(')'):
+            return {}
+        style['font-size'] = item
+
+        # 'line-height' property
+        if len(items) > 0 and items[0] == '/':
+            if len(items) == 1:
+                return {}
+            style['line-height'] = items[1]
+            del items[:2]
+
+        # 'font-family' property
+        style['font-family'] = CSSUtils.parse_font_family(' '.join(items))
+        if len(style['font-family']) == 0:
+            return {}
 
         return style
 
@@ -438,19 +443,20 @@ class CSSUtils(object):
         if isinstance(value, list):
             items = value
         elif isinstance(value, str):
-            if '"' in value or '\'' in value:
-                items = shlex.split(value)
-            else:
-                items = [value]
+            items = [value]
         else:
             raise TypeError('Expected str or list, got {}'.format(
                 type(value)))
         font_family = list()
         for item in iter(items):
-            for name in iter(item.split(',')):
-                name = name.strip()
-                if len(name) > 0:
-                    font_family.append(name)
+            names = [[]]
+            for token in CSSUtils._RE_FONT_COMPONENT.findall(item):
+                if token == ',':
+                    names.append([])
+                else:
+                    names[-1].append(
+                        re.sub(r'\\(.)', r'\1', remove_quotes(token)))
+            font_family.extend(' '.join(x) for x in names if len(x) > 0)
         return font_family
 
     @staticmethod
-- 
2.43.0


From 9ae39df9e9876f4897f10c0f34da77c029ea717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 71/96] fix: tags of font-feature-settings may contain spaces
 and commas

---
 svgpy/core.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index e70f701..c7906b2 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -468,12 +468,16 @@ class CSSUtils(object):
         features = dict()
         if value == 'normal':
             return features
-        tags = value.split(',')
-        for tag_value in tags:
-            items = tag_value.split()
-            tag = items[0]
-            if tag[0] == tag[-1] and tag[0] in '"\'':
-                tag = tag[1:-1]
+        tags = [[]]
+        for item in CSSUtils._RE_FONT_COMPONENT.findall(value):
+            if item == ',':
+                tags.append([])
+            else:
+                tags[-1].append(item)
+        for items in tags:
+            if len(items) == 0 or len(items) > 2:
+                continue  # invalid value
+            tag = remove_quotes(items[0])
             if len(tag) != 4:
                 continue  # invalid tag
             invalid_tag = False
@@ -483,12 +487,12 @@ class CSSUtils(object):
                     break
             if invalid_tag:
                 continue
-            if len(items) >= 2:
+            if len(items) == 2:
                 if items[1].isdigit():
                     sw = int(items[1])
-                elif items[1] == 'on':
+                elif items[1].lower() == 'on':
                     sw = 1
-                elif items[1] == 'off':
+                elif items[1].lower() == 'off':
                     sw = 0
                 else:
                     continue  # invalid value
-- 
2.43.0


From 12cf714d32472093f0dbebe6d8a8477c06656f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 72/96] fix: arguments of font-variant functions may contain
 spaces

---
 svgpy/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index c7906b2..ac34db7 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -86,6 +86,7 @@ class CSSUtils(object):
     _RE_FONT_COMPONENT = re.compile(
         r""""(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'"""
         r"""|[^\s"',/()]*\([^()]*\)|[,/]|[^\s"',/()]+""")
+    _RE_FONT_VARIANT = re.compile(r'[^\s(]+(?:\([^)]*\)?)?')
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
     _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
@@ -551,7 +552,7 @@ class CSSUtils(object):
         font_variant_east_asian = list()
         font_variant_ligatures = list()
         font_variant_numeric = list()
-        items = value.split()
+        items = CSSUtils._RE_FONT_VARIANT.findall(value)
         while len(items) > 0:
             item = items.pop(0)
             if item in ['common-ligatures', 'no-common-ligatures',
-- 
2.43.0


From 210f95c0268387ab5de7e977876d89b145c2a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 73/96] fix: the winning one of repeated declarations in a
 style attribute is used

---
 svgpy/utils.py | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 59ff1dd..1684c20 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -30,11 +30,18 @@ _ASCII_WHITESPACE = '\t\n\f\r\x20'
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
+_RE_STYLE_COMMENT = re.compile(
+    r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|url\(\s*[^"'\s)][^)]*\))"""
+    r"""|/\*.*?(?:\*/|\Z)""",
+    re.DOTALL | re.IGNORECASE)
+
 _RE_STYLE_DECLARATION = re.compile(
     r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'"""
     r"""|\((?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^()"'])*\)|[^;])+""",
     re.DOTALL)
 
+_RE_STYLE_IMPORTANT = re.compile(r'\s*!\s*important\s*$', re.IGNORECASE)
+
 _namespace_map = {
     'html': 'http://www.w3.org/1999/xhtml',
     'xlink': 'http://www.w3.org/1999/xlink',
@@ -247,6 +254,21 @@ def remove_quotes(src):
     return src
 
 
+def split_important(value):
+    """Splits a value of the style attribute into the CSS value and the
+    important flag.
+
+    Arguments:
+        value (str): The value of a declaration.
+    Returns:
+        tuple[str, str]: The CSS value and the important flag.
+    """
+    matched = _RE_STYLE_IMPORTANT.search(value)
+    if matched is None:
+        return value, ''
+    return value[:matched.start()], 'important'
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
@@ -257,13 +279,27 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
+    text = _RE_STYLE_COMMENT.sub(
+        lambda x: ' ' if x.group(1) is None else x.group(1), text)
     # semicolons in strings and parentheses belong to the value
     items = [x.group().split(':', 1)
              for x in _RE_STYLE_DECLARATION.finditer(text)]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+    style = OrderedDict()
+    for key, value in [x for x in items if len(x) == 2]:
+        key = key.strip()
+        value = value.strip()
+        if not key.startswith('--'):
+            key = key.lower()
+            if len(split_important(value)[0]) == 0:
+                continue
+        if key in style:
+            # the last one of the most important declarations is in effect
+            if (split_important(style[key])[1]
+                    and not split_important(value)[1]):
+                continue
+            style.move_to_end(key)
+        style[key] = value
+    return style
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From 8c2b9e7971ebd9f8cd28bf50c605bfa51f8e1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 74/96] fix: the style object reads the important flags of the
 style attribute

---
 svgpy/css/__init__.py | 44 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index f3dbf13..2d7531b 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -36,7 +36,7 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, style_to_dict
+    load, normalize_url, split_important, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
@@ -1406,8 +1406,18 @@ class CSSStyleDeclaration(MutableMapping):
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
         property_map = style_to_dict(style)
+        priorities = dict()
+        for property_name, value in property_map.items():
+            property_map[property_name], priorities[property_name] = \
+                split_important(value)
         declarations = self._property_map
-        if style != self._style_text:
+        if style == self._style_text:
+            # the 'style' attribute is written without the important flags
+            for property_name in property_map:
+                if len(priorities[property_name]) == 0:
+                    priorities[property_name] = self._get_priority(
+                        declarations, property_name)
+        else:
             # the 'style' attribute was changed by someone else
             self._style_text = style
             property_names = set(property_map)
@@ -1424,29 +1434,32 @@ class CSSStyleDeclaration(MutableMapping):
                     if shorthand_name in property_map:
                         shorthand = Shorthand(declarations)
                         result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
+                        priority = shorthand.get_property_priority(
+                            shorthand_name)
+                        if (result == property_map[shorthand_name]
+                                and priority == priorities[shorthand_name]):
                             del property_map[shorthand_name]
                             break
             elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
+                  and declarations[property_name]
+                  == (property_map[property_name],
+                      priorities[property_name])):
                 del property_map[property_name]
 
         for property_name, value in property_map.items():
             needs_update = False
-            priority = ''
+            priority = priorities[property_name]
             if Shorthand.is_shorthand(property_name):
                 shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
+                result = (shorthand.get_property_value(property_name),
+                          shorthand.get_property_priority(property_name))
+                if result != (value, priority):
                     needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
             else:
                 if property_name not in declarations:
                     needs_update = True
-                elif value != declarations[property_name][0]:
+                elif declarations[property_name] != (value, priority):
                     needs_update = True
-                    priority = declarations[property_name][1]
             if needs_update:
                 self._set_property_internal(declarations,
                                             property_name,
@@ -1455,6 +1468,15 @@ class CSSStyleDeclaration(MutableMapping):
 
         return declarations
 
+    def _get_priority(self, declarations, property_name):
+        _ = self
+        if Shorthand.is_shorthand(property_name):
+            shorthand = Shorthand(declarations)
+            return shorthand.get_property_priority(property_name)
+        elif property_name in declarations:
+            return declarations[property_name][1]
+        return ''
+
     def _parse_content(self, content):
         nodes = tinycss2.parse_declaration_list(content,
                                                 skip_comments=True,
-- 
2.43.0


From 0c44962cc6b2adff50469ac581f47329405fd2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 75/96] fix: shorthand font and marker properties take part in
 the cascade

---
 svgpy/dom.py | 77 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 06370ac..ec14b35 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -27,13 +27,11 @@ from .style import get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace, split_important, style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
 
-_RE_IMPORTANT = re.compile(r'\s*!\s*important\s*$', re.IGNORECASE)
-
 # https://www.w3.org/TR/xml/#NT-Name
 _RE_XML_NAME = re.compile(
     r"^(:|[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]"
@@ -1872,6 +1870,34 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def get_inherited_style(self):
+        font_longhands = ('font-style', 'font-variant', 'font-weight',
+                          'font-stretch', 'font-size', 'line-height',
+                          'font-size-adjust', 'font-kerning',
+                          'font-language-override', 'font-family')
+        font_variant_longhands = ('font-variant-alternates',
+                                  'font-variant-caps',
+                                  'font-variant-east-asian',
+                                  'font-variant-ligatures',
+                                  'font-variant-numeric',
+                                  'font-variant-position')
+        marker_longhands = ('marker-end', 'marker-mid', 'marker-start')
+
+        def _set_css_value(_style, _key, _value):
+            # a shorthand property resets the preceding longhand properties
+            if _key == 'font':
+                if _value != 'inherit' and not CSSUtils.parse_font(_value):
+                    return
+                _longhands = font_longhands + font_variant_longhands
+            elif _key == 'font-variant':
+                _longhands = font_variant_longhands
+            elif _key == 'marker':
+                _longhands = marker_longhands
+            else:
+                _longhands = ()
+            for _longhand in _longhands:
+                _style.pop(_longhand, None)
+            _style[_key] = _value
+
         def _update_font_prop(_value, _style, _inherited_style):
             _other = CSSUtils.parse_font(_value)
             for _key in _other:
@@ -1881,16 +1907,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         _update_font_variant_prop(_other[_key],
                                                   _style,
                                                   _inherited_style)
-            _inherited_style.pop('font-style', None)
-            _inherited_style.pop('font-variant', None)
-            _inherited_style.pop('font-weight', None)
-            _inherited_style.pop('font-stretch', None)
-            _inherited_style.pop('font-size', None)
-            _inherited_style.pop('line-height', None)
-            _inherited_style.pop('font-size-adjust', None)
-            _inherited_style.pop('font-kerning', None)
-            _inherited_style.pop('font-language-override', None)
-            _inherited_style.pop('font-family', None)
+            for _key in font_longhands:
+                _inherited_style.pop(_key, None)
             _inherited_style.pop('font', None)
 
         def _update_font_variant_prop(_value, _style, _inherited_style):
@@ -1898,12 +1916,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             for _key in _other:
                 if _key not in _style:
                     _style[_key] = _other[_key]
-            _inherited_style.pop('font-variant-alternates', None)
-            _inherited_style.pop('font-variant-caps', None)
-            _inherited_style.pop('font-variant-east-asian', None)
-            _inherited_style.pop('font-variant-ligatures', None)
-            _inherited_style.pop('font-variant-numeric', None)
-            _inherited_style.pop('font-variant-position', None)
+            for _key in font_variant_longhands:
+                _inherited_style.pop(_key, None)
             _inherited_style.pop('font-variant', None)
 
         # See https://svgwg.org/svg2-draft/propidx.html
@@ -2007,17 +2021,20 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             # presentation attributes precede all of the style sheets
             css_style = dict(element.attrib)
             _style = css_style.pop('style', None)
+            if not CSSUtils.parse_font(css_style.get('font', '')):
+                css_style.pop('font', None)
             css_rule_style, css_style_important = get_css_style(element,
                                                                 css_rules)
-            css_style.update(css_rule_style)
+            for key, value in css_rule_style.items():
+                _set_css_value(css_style, key, value)
             if _style is not None:
                 for key, value in style_to_dict(_style).items():
-                    matched = _RE_IMPORTANT.search(value)
-                    if matched:
-                        value = value[:matched.start()]
-                        css_style_important[key] = value
-                    css_style[key] = value
-            css_style.update(css_style_important)
+                    value, priority = split_important(value)
+                    if len(priority) > 0:
+                        _set_css_value(css_style_important, key, value)
+                    _set_css_value(css_style, key, value)
+            for key, value in css_style_important.items():
+                _set_css_value(css_style, key, value)
             if element is self:
                 for key in non_inherited_props:
                     style[key] = css_style.get(key, style[key])
@@ -2038,8 +2055,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         _update_font_variant_prop(value, style,
                                                   inherited_props)
                     elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
+                        # 'marker' shorthand property
+                        for longhand in marker_longhands:
+                            if longhand in inherited_props:
+                                style[longhand] = value
+                                inherited_props.pop(longhand)
+                        inherited_props.pop(key, None)
                     else:
                         if key in ['font-variant-alternates',
                                    'font-variant-east-asian',
-- 
2.43.0


From 16f23b2c140d8f6dd38a426c7fe4824fc41954a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 76/96] fix: CSS-wide keywords are resolved in computed styles

---
 svgpy/dom.py | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index ec14b35..b7854dc 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -21,6 +21,7 @@ from lxml import cssselect, etree
 
 from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
+from .css.props import css_wide_keyword_set
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
 from .style import get_css_rules, get_css_style, \
@@ -1884,8 +1885,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         def _set_css_value(_style, _key, _value):
             # a shorthand property resets the preceding longhand properties
+            _keyword = _value.lower()
             if _key == 'font':
-                if _value != 'inherit' and not CSSUtils.parse_font(_value):
+                if (_keyword not in css_wide_keyword_set
+                        and not CSSUtils.parse_font(_value)):
                     return
                 _longhands = font_longhands + font_variant_longhands
             elif _key == 'font-variant':
@@ -1896,7 +1899,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 _longhands = ()
             for _longhand in _longhands:
                 _style.pop(_longhand, None)
-            _style[_key] = _value
+            if len(_longhands) > 0 and _keyword in css_wide_keyword_set:
+                _style.pop(_key, None)
+                for _longhand in _longhands:
+                    if _longhand != 'font-variant':
+                        _style[_longhand] = _keyword
+            else:
+                _style[_key] = _value
 
         def _update_font_prop(_value, _style, _inherited_style):
             _other = CSSUtils.parse_font(_value)
@@ -2015,14 +2024,21 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # 'text-overflow',
         # 'transform', 'transform-box', 'transform-origin',
         # 'vertical-align',
+        initial_values = dict(inherited_props)
+        initial_values['font-family'] = CSSUtils.parse_font_family(
+            Font.default_font_family)
+        non_inherited_keys = set(non_inherited_props)
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
             # presentation attributes precede all of the style sheets
-            css_style = dict(element.attrib)
-            _style = css_style.pop('style', None)
-            if not CSSUtils.parse_font(css_style.get('font', '')):
-                css_style.pop('font', None)
+            attrib = dict(element.attrib)
+            _style = attrib.pop('style', None)
+            css_style = dict()
+            for key in ('font', 'font-variant', 'marker'):
+                if key in attrib:
+                    _set_css_value(css_style, key, attrib.pop(key))
+            css_style.update(attrib)
             css_rule_style, css_style_important = get_css_style(element,
                                                                 css_rules)
             for key, value in css_rule_style.items():
@@ -2035,12 +2051,20 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     _set_css_value(css_style, key, value)
             for key, value in css_style_important.items():
                 _set_css_value(css_style, key, value)
-            if element is self:
-                for key in non_inherited_props:
-                    style[key] = css_style.get(key, style[key])
+            for key in list(non_inherited_keys):
+                value = css_style.get(key, 'initial')
+                if value.lower() == 'inherit':
+                    continue
+                non_inherited_keys.remove(key)
+                if value.lower() not in css_wide_keyword_set:
+                    style[key] = value
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
-                if value is not None and value not in ['inherit']:
+                if value is not None and value.lower() == 'initial':
+                    style[key] = initial_values[key]
+                    inherited_props.pop(key, None)
+                elif (value is not None
+                      and value.lower() not in css_wide_keyword_set):
                     if key == 'font':
                         # 'font' shorthand property
                         style[key] = value
-- 
2.43.0


From 27b1439c85490e333fb37b9459f6642caeb94e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 77/96] fix: arguments of font-variant-alternates functions may
 contain spaces

---
 svgpy/core.py | 14 +++++++++++++-
 svgpy/dom.py  |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index ac34db7..60f4fbb 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -552,7 +552,7 @@ class CSSUtils(object):
         font_variant_east_asian = list()
         font_variant_ligatures = list()
         font_variant_numeric = list()
-        items = CSSUtils._RE_FONT_VARIANT.findall(value)
+        items = CSSUtils.split_font_variant(value)
         while len(items) > 0:
             item = items.pop(0)
             if item in ['common-ligatures', 'no-common-ligatures',
@@ -602,6 +602,18 @@ class CSSUtils(object):
 
         return style
 
+    @staticmethod
+    def split_font_variant(value):
+        """Splits a value of the 'font-variant' property, or of one of its
+        sub-properties, into the keywords and functions.
+
+        Arguments:
+            value (str): The value to be split.
+        Returns:
+            list[str]: A list of keywords and functions.
+        """
+        return CSSUtils._RE_FONT_VARIANT.findall(value)
+
 
 class Font(object):
     CSS_DEFAULT_FONT_KERNING = 'auto'
diff --git a/svgpy/dom.py b/svgpy/dom.py
index b7854dc..93d4115 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2090,7 +2090,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                                    'font-variant-east-asian',
                                    'font-variant-ligatures',
                                    'font-variant-numeric']:
-                            style[key] = value.split()
+                            style[key] = \
+                                CSSUtils.split_font_variant(value)
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
-- 
2.43.0


From 3aa953e7e8ce1d31d140e1e7ce48332c5bac57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 78/96] fix: any font weight stands before the size of a font
 value

---
 svgpy/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 60f4fbb..e2217c9 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -86,6 +86,7 @@ class CSSUtils(object):
     _RE_FONT_COMPONENT = re.compile(
         r""""(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'"""
         r"""|[^\s"',/()]*\([^()]*\)|[,/]|[^\s"',/()]+""")
+    _RE_FONT_NUMBER = re.compile(r'[+-]?\.?[0-9]')
     _RE_FONT_VARIANT = re.compile(r'[^\s(]+(?:\([^)]*\)?)?')
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
@@ -389,8 +390,8 @@ class CSSUtils(object):
             elif item in ['small-caps']:
                 # 'font-variant-css21' property
                 style['font-variant'] = item
-            elif item in ['bold', 'bolder', 'lighter', '100', '200', '300',
-                          '400', '500', '600', '700', '800', '900']:
+            elif (item in ['bold', 'bolder', 'lighter']
+                  or (item.isdigit() and 1 <= int(item) <= 1000)):
                 # 'font-weight' property
                 style['font-weight'] = item
             elif item in ['ultra-condensed', 'extra-condensed',
@@ -408,7 +409,8 @@ class CSSUtils(object):
         item = items.pop(0)
         if item.lower() in CSSUtils._FONT_SIZE_KEYWORDS:
             item = item.lower()
-        elif item[0] not in '0123456789+-.' and not item.endswith(')'):
+        elif (not CSSUtils._RE_FONT_NUMBER.match(item)
+              and not item.endswith(')')):
             return {}
         style['font-size'] = item
 
-- 
2.43.0


From ba0750f1ca9d501319ddf8df5c257140d8c54047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 79/96] fix: of font and font-variant declarations the later
 one is in effect

---
 svgpy/dom.py | 74 ++++++++++++++--------------------------------------
 1 file changed, 19 insertions(+), 55 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 93d4115..f3ff3e2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1885,49 +1885,26 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         def _set_css_value(_style, _key, _value):
             # a shorthand property resets the preceding longhand properties
-            _keyword = _value.lower()
             if _key == 'font':
-                if (_keyword not in css_wide_keyword_set
-                        and not CSSUtils.parse_font(_value)):
-                    return
-                _longhands = font_longhands + font_variant_longhands
+                _longhands = font_longhands
+                _other = CSSUtils.parse_font(_value)
             elif _key == 'font-variant':
                 _longhands = font_variant_longhands
+                _other = CSSUtils.parse_font_variant(_value)
             elif _key == 'marker':
                 _longhands = marker_longhands
+                _other = dict.fromkeys(_longhands, _value)
             else:
-                _longhands = ()
-            for _longhand in _longhands:
-                _style.pop(_longhand, None)
-            if len(_longhands) > 0 and _keyword in css_wide_keyword_set:
+                _style[_key] = _value
+                return
+            _keyword = _value.lower()
+            if _keyword in css_wide_keyword_set:
                 _style.pop(_key, None)
-                for _longhand in _longhands:
-                    if _longhand != 'font-variant':
-                        _style[_longhand] = _keyword
-            else:
+                _other = dict.fromkeys(_longhands, _keyword)
+            elif len(_other) > 0:
                 _style[_key] = _value
-
-        def _update_font_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-                    if _key == 'font-variant':
-                        _update_font_variant_prop(_other[_key],
-                                                  _style,
-                                                  _inherited_style)
-            for _key in font_longhands:
-                _inherited_style.pop(_key, None)
-            _inherited_style.pop('font', None)
-
-        def _update_font_variant_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font_variant(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-            for _key in font_variant_longhands:
-                _inherited_style.pop(_key, None)
-            _inherited_style.pop('font-variant', None)
+            for _longhand in _other:
+                _set_css_value(_style, _longhand, _other[_longhand])
 
         # See https://svgwg.org/svg2-draft/propidx.html
         style = dict()
@@ -2060,31 +2037,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     style[key] = value
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
-                if value is not None and value.lower() == 'initial':
+                if isinstance(value, list):
+                    # a part of a shorthand property
+                    style[key] = value
+                    inherited_props.pop(key, None)
+                elif value is not None and value.lower() == 'initial':
                     style[key] = initial_values[key]
                     inherited_props.pop(key, None)
                 elif (value is not None
                       and value.lower() not in css_wide_keyword_set):
-                    if key == 'font':
-                        # 'font' shorthand property
-                        style[key] = value
-                        _update_font_prop(value, style, inherited_props)
-                    elif key == 'font-family':
+                    if key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        inherited_props.pop(key, None)
-                    elif key == 'font-variant':
-                        # 'font-variant' shorthand property
-                        style[key] = value
-                        _update_font_variant_prop(value, style,
-                                                  inherited_props)
-                    elif key == 'marker':
-                        # 'marker' shorthand property
-                        for longhand in marker_longhands:
-                            if longhand in inherited_props:
-                                style[longhand] = value
-                                inherited_props.pop(longhand)
-                        inherited_props.pop(key, None)
                     else:
                         if key in ['font-variant-alternates',
                                    'font-variant-east-asian',
@@ -2094,7 +2058,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                                 CSSUtils.split_font_variant(value)
                         else:
                             style[key] = value
-                        inherited_props.pop(key, None)
+                    inherited_props.pop(key, None)
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
-- 
2.43.0


From 3bcaf615b0c71e9c004e4ff8ab21b7c2d3126fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 80/96] fix: relative font sizes and weights apply to what
 style sheets and style attributes give the parent

---
 svgpy/core.py | 75 +++++++++++++++++++++++----------------------------
 svgpy/dom.py  | 49 ++++++++++++++++++---------------
 2 files changed, 62 insertions(+), 62 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index e2217c9..3a05120 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -120,33 +120,20 @@ class CSSUtils(object):
         elif font_size in ['larger', 'smaller']:
             # <relative-size>
             # Value: larger | smaller
+            # relative to the parent of the element which specifies the value
             if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
-            parent = element
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None or value == 'inherit':
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if value == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
+                context = CSSUtils._get_specified_context(element, 'font-size')
+                parent = context.getparent()
+                inherited_size = Font.default_font_size if parent is None \
+                    else CSSUtils.compute_font_size(parent)
+            scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
+            inherited_size *= scale_factor
             px = inherited_size
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
             # relative to the element which specifies the value
-            value, context = CSSUtils.get_value(element, 'font-size')
-            if value != font_size:
-                context = element
+            context = CSSUtils._get_specified_context(element, 'font-size')
             fs = SVGLength(font_size, context=context)
             px = fs.value()
 
@@ -182,27 +169,17 @@ class CSSUtils(object):
         if font_weight in ['bolder', 'lighter']:
             # <relative-weight>
             # Value: bolder | lighter
+            # relative to the parent of the element which specifies the value
             if inherited_weight is None:
-                inherited_weight = Font.default_font_weight
-            parent_sequence = list()
-            parent = element
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None or value == 'inherit':
-                    continue
-                elif value in ['bolder', 'lighter']:
-                    xp = CSSUtils._INHERITED_WEIGHT_LIST
-                    fp = CSSUtils._BOLDER_WEIGHT_LIST if value == 'bolder' \
-                        else CSSUtils._LIGHTER_WEIGHT_LIST
-                    inherited_weight = np.interp(inherited_weight, xp, fp)
-                else:
-                    inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
-                        inherited_weight,
-                        {'font-weight': value})
+                context = CSSUtils._get_specified_context(element,
+                                                          'font-weight')
+                parent = context.getparent()
+                inherited_weight = Font.default_font_weight if parent is None \
+                    else CSSUtils.compute_font_weight(parent)
+            xp = CSSUtils._INHERITED_WEIGHT_LIST
+            fp = CSSUtils._BOLDER_WEIGHT_LIST if font_weight == 'bolder' \
+                else CSSUtils._LIGHTER_WEIGHT_LIST
+            inherited_weight = np.interp(inherited_weight, xp, fp)
             weight = inherited_weight
         else:
             # <absolute-weight>
@@ -235,6 +212,22 @@ class CSSUtils(object):
                 line_height = h.value()
         return line_height
 
+    @staticmethod
+    def _get_specified_context(element, key):
+        """Returns the nearest element which specifies an inherited property,
+        or the root element.
+        """
+        context = element
+        while True:
+            value = context.get_declared_style().get(key)
+            if (value is not None
+                    and value.lower() not in ['inherit', 'unset', 'revert']):
+                return context
+            parent = context.getparent()
+            if parent is None:
+                return context
+            context = parent
+
     @staticmethod
     def get_value(element, key, default=None):
         context = element
diff --git a/svgpy/dom.py b/svgpy/dom.py
index f3ff3e2..e60975e 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1870,7 +1870,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         style.update(geometry)
         return style
 
-    def get_inherited_style(self):
+    def get_declared_style(self, css_rules=None):
+        """Gets the declared values of the properties of this element."""
         font_longhands = ('font-style', 'font-variant', 'font-weight',
                           'font-stretch', 'font-size', 'line-height',
                           'font-size-adjust', 'font-kerning',
@@ -1906,6 +1907,31 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             for _longhand in _other:
                 _set_css_value(_style, _longhand, _other[_longhand])
 
+        if css_rules is None:
+            css_rules = get_css_rules(self)
+        # presentation attributes precede all of the style sheets
+        attrib = dict(self.attrib)
+        _style = attrib.pop('style', None)
+        css_style = dict()
+        for key in ('font', 'font-variant', 'marker'):
+            if key in attrib:
+                _set_css_value(css_style, key, attrib.pop(key))
+        css_style.update(attrib)
+        css_rule_style, css_style_important = get_css_style(self,
+                                                            css_rules)
+        for key, value in css_rule_style.items():
+            _set_css_value(css_style, key, value)
+        if _style is not None:
+            for key, value in style_to_dict(_style).items():
+                value, priority = split_important(value)
+                if len(priority) > 0:
+                    _set_css_value(css_style_important, key, value)
+                _set_css_value(css_style, key, value)
+        for key, value in css_style_important.items():
+            _set_css_value(css_style, key, value)
+        return css_style
+
+    def get_inherited_style(self):
         # See https://svgwg.org/svg2-draft/propidx.html
         style = dict()
         non_inherited_props = \
@@ -2008,26 +2034,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            # presentation attributes precede all of the style sheets
-            attrib = dict(element.attrib)
-            _style = attrib.pop('style', None)
-            css_style = dict()
-            for key in ('font', 'font-variant', 'marker'):
-                if key in attrib:
-                    _set_css_value(css_style, key, attrib.pop(key))
-            css_style.update(attrib)
-            css_rule_style, css_style_important = get_css_style(element,
-                                                                css_rules)
-            for key, value in css_rule_style.items():
-                _set_css_value(css_style, key, value)
-            if _style is not None:
-                for key, value in style_to_dict(_style).items():
-                    value, priority = split_important(value)
-                    if len(priority) > 0:
-                        _set_css_value(css_style_important, key, value)
-                    _set_css_value(css_style, key, value)
-            for key, value in css_style_important.items():
-                _set_css_value(css_style, key, value)
+            css_style = element.get_declared_style(css_rules)
             for key in list(non_inherited_keys):
                 value = css_style.get(key, 'initial')
                 if value.lower() == 'inherit':
-- 
2.43.0


From 7e1a7ce9917e175c3cac695b0b33fc3a3c855f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 81/96] fix: a line height without a unit multiplies the font
 size, percentages and em refer to the element which specifies it

---
 svgpy/core.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3a05120..1c70d98 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -202,13 +202,24 @@ class CSSUtils(object):
         if value == 'normal':
             line_height = 1.2 * font_size
         else:
-            h = SVGLength(value, context=element)
+            # <length> and <percentage> are relative to the element which
+            # specifies the value
+            context = CSSUtils._get_specified_context(element, 'line-height')
+            context_font_size = font_size if context is element \
+                else CSSUtils.compute_font_size(context)
+            h = SVGLength(value, context=context)
             if h.unit == SVGLength.TYPE_PERCENTAGE:
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
-                               * font_size)
+                               * context_font_size)
+            elif h.unit == SVGLength.TYPE_EMS:
+                line_height = (h.value(SVGLength.TYPE_EMS)
+                               * context_font_size)
+            elif h.unit in [None, SVGLength.TYPE_NUMBER]:
+                # <number>
+                line_height = h.value() * font_size
             else:
-                # <length> or <number>
+                # <length>
                 line_height = h.value()
         return line_height
 
-- 
2.43.0


From 8f7798cc4be18191d57b49f53411fc43208afb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 82/96] fix: assigning an item of a CSSUnparsedValue replaces
 it, no debug output

---
 svgpy/css/types.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index af931aa..f6b78ad 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1839,10 +1839,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
                 raise TypeError("Expected str or CSSVariableReferenceValue,"
                                 " got " + repr(type(item)))
 
-        if isinstance(index, int):
-            self._tokens.insert(index, value)
-        else:
-            self._tokens[index] = value
+        self._tokens[index] = value
 
     @property
     def length(self):
@@ -1850,7 +1847,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         return len(self)
 
     def insert(self, index, value):
-        self[index] = value
+        self[index:index] = [value]
 
     def tostring(self, **kwargs):
         if self._css_text is not None:
@@ -1859,7 +1856,6 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
         return ''.join(s)
 
-- 
2.43.0


From 5f8a20ef16b1e5f5a571e59699da0e832c14f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 83/96] fix: a changed CSS value is written as changed, not as
 it was read

---
 svgpy/css/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index f6b78ad..f0ea5dc 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -831,6 +831,7 @@ class CSSKeywordValue(CSSStyleValue):
         if value is None or len(value) == 0:
             raise ValueError('Expected non-empty string')
         self._value = value
+        self._css_text = None
 
 
 class _MathExpression(object):
@@ -1738,6 +1739,7 @@ class CSSUnitValue(CSSNumericValue):
     @value.setter
     def value(self, value):
         self._value = Decimal(value)
+        self._css_text = None
 
     @staticmethod
     def create_from_sum_value_item(item):
@@ -1819,6 +1821,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
 
     def __delitem__(self, index):
         del self._tokens[index]
+        self._css_text = None
 
     def __getitem__(self, index):
         return self._tokens[index]
@@ -1840,6 +1843,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
                                 " got " + repr(type(item)))
 
         self._tokens[index] = value
+        self._css_text = None
 
     @property
     def length(self):
-- 
2.43.0


From 8f16c54356ece540dceb0c486de4364b70015774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 84/96] fix: a style property map contains the declared
 properties only

---
 svgpy/css/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index f0ea5dc..bea5519 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1936,6 +1936,9 @@ class StylePropertyMapReadOnly(Mapping):
         """
         self._declarations = declaration  # type: dict
 
+    def __contains__(self, property_name):
+        return self.has(property_name)
+
     def __getitem__(self, property_name):
         return self.get_all(property_name)
 
-- 
2.43.0


From 9977cc2870d4d5bd927fe4f92e7e621b986053ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 85/96] fix: a list of CSS values has no empty items

---
 svgpy/css/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index bea5519..8328709 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -561,10 +561,13 @@ class CSSStyleValue(object):
                         text += 'px'
                     components.append((text, syntax))
 
-                if len(components) > 0:
+                if len(components) > 0 or len(values) > 0:
                     values.append(components)
 
             for components in values:
+                if len(components) == 0:
+                    raise ValueError('Failed to parse as {}: {}'.format(
+                        repr(property_name), repr(css_text)))
                 value = CSSStyleValue._reify_css_style_value(property_name,
                                                              components)
                 reified_values.append(value)
-- 
2.43.0


From 58ad87dbe001208fd17b6d4cdd7e68eee1769dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 86/96] fix: white space and text nodes of text elements are
 kept or collapsed as CSS says

---
 svgpy/core.py | 29 ++++++++++-------------------
 svgpy/text.py | 11 ++++++-----
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 1c70d98..ba13f26 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -90,8 +90,7 @@ class CSSUtils(object):
     _RE_FONT_VARIANT = re.compile(r'[^\s(]+(?:\([^)]*\)?)?')
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_SURROUNDING_TAB_WHITESPACE = re.compile(r'[\x20\t]*\n[\x20\t]*')
 
     @staticmethod
     def compute_font_size(element, inherited_size=None, inherited_style=None):
@@ -319,28 +318,20 @@ class CSSUtils(object):
         out_text = html.unescape(text)
 
         # FIXME: fix white-space processing.
+        out_text = out_text.replace('\r\n', '\n').replace('\r', '\n')
         if white_space in ['normal', 'nowrap', 'pre-line']:
-            out_text = CSSUtils._RE_PRECEDING_TAB_WHITESPACE.sub(
-                '', out_text)
-            out_text = CSSUtils._RE_FOLLOWING_TAB_WHITESPACE.sub(
-                '', out_text)
+            out_text = CSSUtils._RE_SURROUNDING_TAB_WHITESPACE.sub(
+                '\n', out_text)
             out_text = _transform_segment_break(out_text, style)
             out_text = out_text.replace('\t', ' ')
             out_text = CSSUtils._RE_COLLAPSIBLE_WHITESPACE.sub(
                 ' ', out_text)
-        if white_space in ['pre', 'pre-wrap']:
-            out_text = _transform_segment_break(out_text, style)
-
-        if prev_text is not None:
-            if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
-        if first:
-            out_text = out_text.lstrip(' ')
-        # if len(element) == 0:
-        if tail:
-            out_text = out_text.rstrip(' ')
+            if (first or (prev_text is not None
+                          and prev_text.endswith((' ', '\n')))):
+                out_text = out_text.lstrip(' ')
+            # if len(element) == 0:
+            if tail:
+                out_text = out_text.rstrip(' ')
 
         return out_text
 
diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..d2c9239 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -108,12 +108,11 @@ class SVGTextContentElement(SVGGraphicsElement):
                 child_chars_info, out_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
+            if child.tail is not None:
                 out_text = CSSUtils.normalize_text_content(
                     child,
                     child.tail,
@@ -154,8 +153,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             root, first=first, **kwargs)
         if len(chars_info) > 0:
             item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
+            style = item[SVGTextContentElement._CHARS_STYLE]
+            if style['white-space'] not in ['pre', 'pre-wrap']:
+                text = item[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                item[SVGTextContentElement._CHARS_TEXT] = text
 
             is_render = kwargs.get('is_render', False)
             if is_render:
-- 
2.43.0


From 4ed633da3ba905fdb6b83369c10cc988e44d0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 87/96] fix: characters, lengths, boxes and paths of a tspan
 are those of the tspan

---
 svgpy/text.py | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index d2c9239..67171ec 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -46,7 +46,18 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
             root, first=True, is_display=True, is_render=True)
-        return chars_info
+        return self._get_own_chars_info(chars_info)
+
+    def _get_own_chars_info(self, chars_info):
+        """Returns the items of the current element and of its descendants."""
+        out = list()
+        for item in chars_info:
+            element = item[SVGTextContentElement._CHARS_ELEMENT]
+            while element is not None and element is not self:
+                element = element.getparent()
+            if element is self:
+                out.append(item)
+        return out
 
     @staticmethod
     def _get_descendant_chars(element, style_map=None,
@@ -622,19 +633,11 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
             root, first=True, is_display=True)
-        local_name = self.local_name
-        if local_name == 'text':
-            out = ''.join([x[SVGTextContentElement._CHARS_TEXT]
-                           for x in chars_info])
-            return out
-        elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_TEXT]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return None
-            return out[0]
-        return None
+        out = [x[SVGTextContentElement._CHARS_TEXT]
+               for x in self._get_own_chars_info(chars_info)]
+        if len(out) == 0 and self.local_name != 'text':
+            return None
+        return ''.join(out)
 
     def get_nearest_text_element(self):
         element = self
@@ -689,20 +692,9 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
             root, first=True, is_display=True, is_render=True)
-        local_name = self.local_name
         advance_list = list()
-        if local_name == 'text':
-            for item in iter(chars_info):
-                advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
-        elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
-        else:
-            raise NotImplementedError
+        for item in self._get_own_chars_info(chars_info):
+            advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
 
         if nchars == -1:
             last = len(advance_list)
-- 
2.43.0


From e348614681ade0ec15b1da7903f01eff9b0657ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 88/96] fix: jis04 turns the jp04 feature on

---
 svgpy/opentype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index 0d815c1..f2520cd 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -671,6 +671,8 @@ def features_from_style(style):
         features['jp83'] = 1
     elif 'jis90' in font_variant_east_asian:
         features['jp90'] = 1
+    elif 'jis04' in font_variant_east_asian:
+        features['jp04'] = 1
     elif 'simplified' in font_variant_east_asian:
         features['smpl'] = 1
     elif 'traditional' in font_variant_east_asian:
-- 
2.43.0


From 6613fcb4c9b816ff9add5ca059a3ebb040ea0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 89/96] fix: font-feature-settings overrides the features of
 other properties

---
 svgpy/opentype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index f2520cd..9b5e5cb 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -625,7 +625,7 @@ language_tag_to_iso639_codes_map = {
 
 
 def features_from_style(style):
-    features = style['font-feature-settings'].copy()  # type: dict
+    features = dict()
 
     font_kerning = style['font-kerning']
     if font_kerning == 'none':
@@ -749,6 +749,9 @@ def features_from_style(style):
     elif font_variant_position == 'super':
         features['sups'] = 1
 
+    # the font-feature-settings property overrides the other properties
+    features.update(style['font-feature-settings'])
+
     return ['{}={}'.format(tag, value) for tag, value in features.items()]
 
 
-- 
2.43.0


From fc92472497dd47242a283b4b509c6a02a037cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 90/96] fix: positions of text go to the characters they are
 for

---
 svgpy/text.py | 127 +++++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 69 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 67171ec..86d19bc 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -220,8 +220,9 @@ class SVGTextContentElement(SVGGraphicsElement):
             tuple[float, float]:
         """
 
-        def _get_inherited_attribute(_element, _style_map, _key,
-                                     _default=None):
+        def _get_attributes(_element, _style_map, _key):
+            # lists of the element and its ancestors, the innermost first
+            _values = list()
             while _element is not None:
                 if (_element.node_type == Node.ELEMENT_NODE
                         and _element.istext()
@@ -232,17 +233,31 @@ class SVGTextContentElement(SVGGraphicsElement):
                         _style_map[hash(_element)] = _style
                     _value = _style.get(_key)
                     if _value is not None:
-                        return _value
+                        _values.append(_value)
                 _element = _element.getparent()
-            return _default
+            return _values
+
+        def _next_value(_values, _default, repeat=False):
+            # each list has a value for each character of its element
+            _out = None
+            for _value in _values:
+                if len(_value) == 0:
+                    continue
+                if repeat and len(_value) == 1:
+                    _item = _value[0]
+                else:
+                    _item = _value.pop(0)
+                if _out is None:
+                    _out = _item
+            return _default if _out is None else _out
 
         # TODO: support line-breaking and word-breaking.
-        x_list = _get_inherited_attribute(element, style_map, 'x', [])
-        y_list = _get_inherited_attribute(element, style_map, 'y', [])
-        dx_list = _get_inherited_attribute(element, style_map, 'dx', [])
-        dy_list = _get_inherited_attribute(element, style_map, 'dy', [])
-        rotate_list = _get_inherited_attribute(
-            element, style_map, 'rotate', [])
+        x_list = _get_attributes(element, style_map, 'x')
+        y_list = _get_attributes(element, style_map, 'y')
+        dx_list = _get_attributes(element, style_map, 'dx')
+        dy_list = _get_attributes(element, style_map, 'dy')
+        # TODO: count the characters of descendant elements for 'rotate'.
+        rotate_list = _get_attributes(element, style_map, 'rotate')[:1]
 
         style = style_map.get(hash(element))  # computed style
         assert style is not None
@@ -330,6 +345,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         current_x = start_x
         current_y = start_y
         rotate = 0
+        next_dx = 0
+        next_dy = 0
         matrix = DOMMatrix()
         path_data_list = list()
         advance_list = list()
@@ -369,69 +386,41 @@ class SVGTextContentElement(SVGGraphicsElement):
                     infos = list(reversed(infos))
                     positions = list(reversed(positions))
 
-                # re-positioning
-                if len(infos) != len(line):
-                    clusters = [x.cluster for x in infos]
-                    cluster_min = min(clusters)
-                    cluster_max = max(clusters)
-                    cluster_inc = max(
-                        (cluster_max - cluster_min) // len(clusters), 1)
-                    # try to find ligatures
-                    last_cluster = None
-                    for offset, cluster in enumerate(clusters):
-                        if last_cluster is None:
-                            pass
-                        elif last_cluster == cluster:
-                            pass  # decompose
-                        elif last_cluster + cluster_inc == cluster:
-                            pass  # do nothing
-                        else:
-                            # ligature
-                            index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
-                            rotate_length = len(rotate_list)
-                            if rotate_length > 1 and index < rotate_length:
-                                _ = rotate_list.pop(index)
-                        last_cluster = cluster
+                # the number of characters each glyph stands for: more than
+                # one is a ligature, the other glyphs of one have none
+                data = line.encode('utf-8')
+                clusters = [x.cluster for x in infos]
+                numbers = list()
+                for offset, cluster in enumerate(clusters):
+                    if offset > 0 and cluster == clusters[offset - 1]:
+                        numbers.append(0)
+                        continue
+                    end = min([x for x in clusters if x > cluster],
+                              default=len(data))
+                    numbers.append(len(data[cluster:end].decode('utf-8')))
 
                 # render line
                 line_path_data = list()
                 line_bbox = DOMRect()
-                for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
-                    rotate_length = len(rotate_list)
-                    if rotate_length == 1:
-                        rotate = rotate_list[0]
-                    elif rotate_length > 1:
-                        rotate = rotate_list.pop(0)
+                for info, position, number in zip(infos, positions, numbers):
+                    x = current_x
+                    y = current_y
+                    dx = 0
+                    dy = 0
+                    if number > 0:
+                        x = _next_value(x_list, x)
+                        y = _next_value(y_list, y)
+                        dx = _next_value(dx_list, 0) + next_dx
+                        dy = _next_value(dy_list, 0) + next_dy
+                        rotate = _next_value(rotate_list, rotate, repeat=True)
+                        next_dx = 0
+                        next_dy = 0
+                    for _ in range(1, number):
+                        _next_value(x_list, 0)
+                        _next_value(y_list, 0)
+                        next_dx += _next_value(dx_list, 0)
+                        next_dy += _next_value(dy_list, 0)
+                        _next_value(rotate_list, 0, repeat=True)
 
                     x_offset = position.x_offset / 64
                     y_offset = position.y_offset / 64
-- 
2.43.0


From fea4b7a5f15a6b4c9005fd3117e1b1c7dc0d1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 91/96] fix: lists of text positions may have white space
 around

---
 svgpy/text.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 86d19bc..fa1db29 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -532,7 +532,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         # Initial: 0 <text>
         # Initial: (none) <tspan>
         default = '0' if local_name == 'text' else None
-        _x = self.get('x', default)
+        _x = self.get('x', '').strip() or default
         if _x is None:
             x = None
         else:
@@ -549,7 +549,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         # Initial: 0 <text>
         # Initial: (none) <tspan>
         default = '0' if local_name == 'text' else None
-        _y = self.get('y', default)
+        _y = self.get('y', '').strip() or default
         if _y is None:
             y = None
         else:
@@ -564,8 +564,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         # 'dx' attribute
         # Value: [ [ <length> | <percentage> | <number> ]+ ]#
         # Initial: (none)
-        _dx = self.get('dx')
-        if _dx is None:
+        _dx = self.get('dx', '').strip()
+        if not _dx:
             dx = None
         else:
             dx = [
@@ -579,8 +579,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         # 'dy' attribute
         # Value: [ [ <length> | <percentage> | <number> ]+ ]#
         # Initial: (none)
-        _dy = self.get('dy')
-        if _dy is None:
+        _dy = self.get('dy', '').strip()
+        if not _dy:
             dy = None
         else:
             dy = [
@@ -594,8 +594,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         # 'rotate' attribute
         # Value: [ <number>+ ]#
         # Initial: (none)
-        _rotate = self.get('rotate')
-        if _rotate is None:
+        _rotate = self.get('rotate', '').strip()
+        if not _rotate:
             rotate = None
         else:
             rotate = [
-- 
2.43.0


From 2daba24f5194710da0bdcccc9786a6f5a29c7c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 92/96] fix: an address that is refused or cannot be loaded
 leaves location and document

---
 svgpy/url.py    | 36 +++++++++++++++++-------------------
 svgpy/window.py |  8 +++++---
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 5ed7da3..9538614 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import copy
 import os
 import re
 import sys
@@ -80,8 +81,7 @@ class Location(object):
 
     @hash.setter
     def hash(self, fragment):
-        self._url.hash = fragment
-        self._navigate()
+        self._set('hash', fragment)
 
     @property
     def host(self):
@@ -93,8 +93,7 @@ class Location(object):
 
     @host.setter
     def host(self, host):
-        self._url.host = host
-        self._navigate()
+        self._set('host', host)
 
     @property
     def hostname(self):
@@ -105,8 +104,7 @@ class Location(object):
 
     @hostname.setter
     def hostname(self, hostname):
-        self._url.hostname = hostname
-        self._navigate()
+        self._set('hostname', hostname)
 
     @property
     def href(self):
@@ -117,8 +115,7 @@ class Location(object):
 
     @href.setter
     def href(self, url):
-        self._url.href = url
-        self._navigate()
+        self._set('href', url)
 
     @property
     def origin(self):
@@ -134,8 +131,7 @@ class Location(object):
 
     @pathname.setter
     def pathname(self, pathname):
-        self._url.pathname = pathname
-        self._navigate()
+        self._set('pathname', pathname)
 
     @property
     def port(self):
@@ -146,8 +142,7 @@ class Location(object):
 
     @port.setter
     def port(self, port):
-        self._url.port = port
-        self._navigate()
+        self._set('port', port)
 
     @property
     def protocol(self):
@@ -158,8 +153,7 @@ class Location(object):
 
     @protocol.setter
     def protocol(self, protocol):
-        self._url.protocol = protocol
-        self._navigate()
+        self._set('protocol', protocol)
 
     @property
     def search(self):
@@ -170,12 +164,10 @@ class Location(object):
 
     @search.setter
     def search(self, search):
-        self._url.search = search
-        self._navigate()
+        self._set('search', search)
 
-    def _navigate(self):
+    def _navigate(self, url):
         if self._browsing_context is not None:
-            url = self._url
             if ((len(url.protocol) == 0 and len(url.host) == 0)
                     or url.protocol in ['blob:', 'data:']
                     or (url.protocol in ['about:', 'file:']
@@ -183,6 +175,12 @@ class Location(object):
                 raise ValueError('Invalid URL: ' + repr(url.href))
             self._browsing_context.document.navigate(url)
 
+    def _set(self, name, value):
+        url = copy.deepcopy(self._url)
+        setattr(url, name, value)
+        self._navigate(url)
+        self._url = url
+
     def assign(self, url):
         """Navigates to the given URL.
 
@@ -193,7 +191,7 @@ class Location(object):
 
     def reload(self):
         """Reloads the current page."""
-        self._navigate()
+        self._navigate(self._url)
 
     def tostring(self, exclude_fragment=False):
         """Serializes a Location object.
diff --git a/svgpy/window.py b/svgpy/window.py
index ecbcdcf..13c6d61 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -560,12 +560,14 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         resource = url.href
         logger = getLogger('{}.{}'.format(__name__, self.__class__.__name__))
         logger.debug('navigate to \'{}\''.format(resource))
+        new_root = None
+        if url.protocol != 'about:':
+            new_root = self._implementation.parse(resource)
         root = self._document_element
         if root is not None:
             self.remove(root)
-        if url.protocol != 'about:':
-            root = self._implementation.parse(resource)
-            self.append(root)
+        if new_root is not None:
+            self.append(new_root)
         return self
 
     def prepend(self, *nodes):
-- 
2.43.0


From 1fa28c969742af9a0a76cfd2f1348fb2cfb9b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 93/96] fix: nodes appended to a document belong to it and to
 nothing else

---
 svgpy/window.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 13c6d61..86b9d14 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -253,8 +253,12 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
                         "The Element node must be insert first")
-                node.attach_document(self)
+                parent = node.parent_element
+                if parent is not None:
+                    parent.remove(node)
                 root = self._document_element = node
+                for child in self.child_nodes:
+                    child.attach_document(self)
             elif node == root:
                 continue  # do nothing
             else:
-- 
2.43.0


From 932a0a3266b6861fb3872d8f216c178a3adf6262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 94/96] fix: values of wrong types are not supported by a
 property

---
 svgpy/css/props.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 3ee55fa..ec5e43f 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -135,6 +135,7 @@ class PropertyDescriptor(object):
                           and x.lower() not in (css_color_keyword_set
                                                 | css_wide_keyword_set))}
         self._identifiers = components
+        self._keywords = {x.lower() for x in components}
 
     @property
     def identifiers(self):
@@ -182,12 +183,7 @@ class PropertyDescriptor(object):
             # <length-percentage> or <length> type
             elif unit in ('em', 'ex', 'cap', 'ch', 'ic', 'rem', 'lh', 'rlh',
                           'vw', 'vh', 'vi', 'vb', 'vmin', 'vmax',
-                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px',
-                          'deg', 'grad', 'rad', 'turn',
-                          's', 'ms',
-                          'hz', 'khz',
-                          'dpi', 'dpcm', 'dppx',
-                          'fr'):
+                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px'):
                 # <length> type
                 if (self._syntax_components[PropertySyntax.ANY]
                         or self._syntax_components[PropertySyntax.LENGTH]):
@@ -261,16 +257,17 @@ class PropertyDescriptor(object):
             value = token.value
 
             # CSS-wide keywords
-            if value.lower() in css_wide_keyword_set:
+            if token.type == 'ident' and value.lower() in css_wide_keyword_set:
                 return True, None
 
             # <custom-ident> type
-            if value in self._identifiers:
+            if token.type == 'ident' and value.lower() in self._keywords:
                 return True, PropertySyntax.CUSTOM_IDENT
 
             # <color> type (<named-color> or 'currentcolor')
-            if (self._syntax_components[PropertySyntax.ANY]
-                    or self._syntax_components[PropertySyntax.COLOR]):
+            if (token.type == 'ident'
+                    and (self._syntax_components[PropertySyntax.ANY]
+                         or self._syntax_components[PropertySyntax.COLOR])):
                 if value.lower() == 'currentcolor':
                     return True, PropertySyntax.CUSTOM_IDENT
 
@@ -343,7 +340,9 @@ class PropertyDescriptor(object):
             return False, None
         elif token.type == 'error':
             raise ValueError('Cannot parse for property: ' + repr(token))
-        raise NotImplementedError(token)
+
+        # blocks, <at-keyword-token> and <unicode-range-token>
+        return self._syntax_components[PropertySyntax.ANY], None
 
     def supports(self, css_text):
         tokens = tinycss2.parse_component_value_list(css_text,
@@ -351,6 +350,8 @@ class PropertyDescriptor(object):
         tokens = [token for token in tokens if token.type != 'whitespace']
         css_wide_keywords = 0
         for token in tokens:
+            if token.type == 'error':
+                return False
             if token.type == 'literal' and token.value == ',':
                 if '#' in self._syntax or token.value in self._identifiers:
                     continue
-- 
2.43.0


From df83ed1b0ff3484f2a1d84e549d97345ec3b97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 95/96] fix: the syntax of a registered custom property decides
 what it supports

---
 svgpy/css/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 8328709..dac2d5d 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -510,7 +510,10 @@ class CSSStyleValue(object):
         else:
             # registered custom property or
             # single property in CSS
-            desc = css_property_descriptor_map.get(property_name)
+            if property_name.startswith('--'):
+                desc = context.registered_property_set[property_name]
+            else:
+                desc = css_property_descriptor_map.get(property_name)
             if desc is None:
                 desc = PropertyDescriptor(
                     name=property_name,
-- 
2.43.0


From 480ec7ab0ee460e9d8e8ddc10d351917b77dcc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 96/96] fix: values of the transition properties are separated
 by commas

---
 svgpy/css/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index dac2d5d..70a2fa4 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -44,6 +44,8 @@ list_valued_properties = [
     'background-origin', 'background-repeat', 'background-size',
     'font-family', 'mask', 'mask-clip', 'mask-composite', 'mask-image',
     'mask-mode', 'mask-origin', 'mask-position', 'mask-repeat', 'mask-size',
+    'transition', 'transition-delay', 'transition-duration',
+    'transition-property', 'transition-timing-function',
 ]
 # FIXME: update a list of list-valued properties.
 # https://github.com/w3c/css-houdini-drafts/issues/644
-- 
2.43.0

