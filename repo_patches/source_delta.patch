From 19d619aaa3eea73f084986b47b6e5a08221e3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 001/113] fix: k sets the non-stroking colour

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From 2ce0370f664e43b023b8c8bb7595784b12aa4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 002/113] fix: the " operator moves to the next line before
 showing text

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..3f0171e 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -471,7 +471,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From 52e69f23ada3e4dbe641baaf95e5074b42e5b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 003/113] fix: a closed four-point path that is not a rectangle
 is a curve, not None

---
 .../commands/state/layout/__init__.py         | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..d7373a6 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,32 +82,31 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for path in paths:
-            if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-                x0 = min(x0, path.points[0].x)
-                y0 = min(y0, path.points[0].y)
-                x1 = max(x1, path.points[0].x)
-                y1 = max(y1, path.points[0].y)
-            elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-                x0 = min(x0, path.points[2].x)
-                y0 = min(y0, path.points[2].y)
-                x1 = max(x1, path.points[2].x)
-                y1 = max(y1, path.points[2].y)
-            elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-                x0 = min(x0, path.points[1].x)
-                y0 = min(y0, path.points[1].y)
-                x1 = max(x1, path.points[1].x)
-                y1 = max(y1, path.points[1].y)
-        return LTCurve(
-            linewidth=gstate.linewidth, 
-            paths=paths,
-            bbox=Bbox(x0,y0,x1,y1), 
-            evenodd=evenodd,
-            stroke=gstate.scolor, 
-            fill=gstate.ncolor
-        )
+    (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+    for path in paths:
+        if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
+            x0 = min(x0, path.points[0].x)
+            y0 = min(y0, path.points[0].y)
+            x1 = max(x1, path.points[0].x)
+            y1 = max(y1, path.points[0].y)
+        elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
+            x0 = min(x0, path.points[2].x)
+            y0 = min(y0, path.points[2].y)
+            x1 = max(x1, path.points[2].x)
+            y1 = max(y1, path.points[2].y)
+        elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
+            x0 = min(x0, path.points[1].x)
+            y0 = min(y0, path.points[1].y)
+            x1 = max(x1, path.points[1].x)
+            y1 = max(y1, path.points[1].y)
+    return LTCurve(
+        linewidth=gstate.linewidth, 
+        paths=paths,
+        bbox=Bbox(x0,y0,x1,y1), 
+        evenodd=evenodd,
+        stroke=gstate.scolor, 
+        fill=gstate.ncolor
+    )
 
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
-- 
2.43.0


From 1c58310539d856063f7d077126fa5942469e2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 004/113] fix: the bounding box of a general curve is in page
 space, like lines and rectangles

---
 .../commands/state/layout/__init__.py         | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index d7373a6..6bd8dd7 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -84,21 +84,14 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
             )
     (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
     for path in paths:
-        if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-            x0 = min(x0, path.points[0].x)
-            y0 = min(y0, path.points[0].y)
-            x1 = max(x1, path.points[0].x)
-            y1 = max(y1, path.points[0].y)
-        elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-            x0 = min(x0, path.points[2].x)
-            y0 = min(y0, path.points[2].y)
-            x1 = max(x1, path.points[2].x)
-            y1 = max(y1, path.points[2].y)
-        elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-            x0 = min(x0, path.points[1].x)
-            y0 = min(y0, path.points[1].y)
-            x1 = max(x1, path.points[1].x)
-            y1 = max(y1, path.points[1].y)
+        if len(path.points) > 0:
+            # the end point of a segment is always its last one
+            end = path.points[-1]
+            (x, y) = apply_matrix_pt(ctm, (end.x, end.y))
+            x0 = min(x0, x)
+            y0 = min(y0, y)
+            x1 = max(x1, x)
+            y1 = max(y1, y)
     return LTCurve(
         linewidth=gstate.linewidth, 
         paths=paths,
-- 
2.43.0


From 89b4bcce06c7cb9dee7512e15f969f41729917a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 005/113] fix: showing an empty string is not an error

---
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..81b3acb 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if len(char_meta_datas) == 0:
+            # nothing was shown: there is only the displacement
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From 8fa985d79bd2b07e1267679d992bdb1353574c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 006/113] fix: ET only yields a text block when there is one
 with text in it

---
 pdfmajor/interpreter/commands/commands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 3f0171e..0630935 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -359,7 +359,8 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(stack.current_textblock)
+    if stack.current_textblock is not None and len(stack.current_textblock) > 0:
+        stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
 
-- 
2.43.0


From 1288f7265708a0c8fce4d9dd347a2ed413d695ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 007/113] fix: path points are recorded in page space, so that
 svg paths and boxes agree

---
 pdfmajor/interpreter/commands/state/Curves.py |  7 ++-----
 .../commands/state/layout/__init__.py         | 21 +++++++++----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/Curves.py b/pdfmajor/interpreter/commands/state/Curves.py
index 0ad4cd7..288345c 100644
--- a/pdfmajor/interpreter/commands/state/Curves.py
+++ b/pdfmajor/interpreter/commands/state/Curves.py
@@ -4,11 +4,8 @@ from pdfmajor.utils import apply_matrix_pt
 
 class CurvePoint:
     def __init__(self, ctm: tuple, x: float, y: float):
-        # old = (x,y)
-        # (x, y) = apply_matrix_pt(ctm, (x, y))
-        # if old != (x,y):
-        # print("CurvePoint", ctm, old)
-        # print(" >", x, y)
+        # points are kept in page space, like the boxes of the items
+        (x, y) = apply_matrix_pt(ctm, (x, y))
         self.x = x
         self.y = y
     
diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 6bd8dd7..283c3f0 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -28,8 +28,8 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         # horizontal/vertical line
         pt0 = paths[0].points[0]
         pt1 = paths[1].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
         if x0 == x1:
             return LTVerticalLine(
                 linewidth=gstate.linewidth, 
@@ -63,10 +63,10 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         pt1 = paths[1].points[0]
         pt2 = paths[2].points[0]
         pt3 = paths[3].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
-        (x2, y2) = apply_matrix_pt(ctm, (pt2.x, pt2.y))
-        (x3, y3) = apply_matrix_pt(ctm, (pt3.x, pt3.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
+        (x2, y2) = (pt2.x, pt2.y)
+        (x3, y3) = (pt3.x, pt3.y)
         if ((x0 == x1 and y1 == y2 and x2 == x3 and y3 == y0) or
             (y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0)):
             return LTRect( 
@@ -87,11 +87,10 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         if len(path.points) > 0:
             # the end point of a segment is always its last one
             end = path.points[-1]
-            (x, y) = apply_matrix_pt(ctm, (end.x, end.y))
-            x0 = min(x0, x)
-            y0 = min(y0, y)
-            x1 = max(x1, x)
-            y1 = max(y1, y)
+            x0 = min(x0, end.x)
+            y0 = min(y0, end.y)
+            x1 = max(x1, end.x)
+            y1 = max(y1, end.y)
     return LTCurve(
         linewidth=gstate.linewidth, 
         paths=paths,
-- 
2.43.0


From 2b9ec780f8557a5d9e7c4dfb8a79da5336ba8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 008/113] fix: ignore_bad_chars also holds inside form XObjects

---
 pdfmajor/interpreter/commands/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..9d61de0 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -56,7 +56,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
                     resources=complete_item.resources,
-                    font_cache=font_cache
+                    font_cache=font_cache,
+                    ignore_bad_chars=state.text.ignore_bad_chars
                 )
                 xobj_state.graphics = state.graphics.copy()
                 for item in process_command_stream(
-- 
2.43.0


From a138d20c329115040ac7ec302bea93759d668d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 009/113] fix: apply the form matrix to the content of a form
 XObject and place its box in page space

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 283c3f0..d9a79c9 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -112,14 +112,17 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    # BBox holds two opposite corners in form space, and the form matrix maps
+    # form space to the user space in which the form is invoked.
+    (x0, y0, x1, y1) = bbox
+    matrix = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-        t_matrix = ctm
+        t_matrix = matrix
     )
\ No newline at end of file
-- 
2.43.0


From 69f2fd2e256b51ab74905e5aeb27c842614ed79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 010/113] fix: character spacing follows every glyph, also the
 last one of a string

---
 .../commands/state/layout/utils/textdecoder.py         | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..409c65f 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,31 +22,25 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
-                
+
     return (char_meta_datas, textstate, color)
 
 def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
-- 
2.43.0


From f20e892590f127f91ca1c7cb5ecb7deb0f42383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 011/113] fix: the null character is white space between tokens

---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..82d7cde 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\s\x00]')
+NONSPC = re.compile(br'[^\s\x00]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s\x00]')
+END_HEX_STRING = re.compile(br'[^\s\x000-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s\x00]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 8d162d91e53ddd3d3d495af77bc58d5c27711da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 012/113] fix: an octal escape beyond one byte keeps its
 low-order byte

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..628448d 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -299,7 +299,7 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 255)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
-- 
2.43.0


From 36ca11bd510b25b68b71a4010b414d2e24b0ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 013/113] fix: a backslash swallows a whole CRLF, and only
 itself before other characters

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 628448d..8c226a2 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -304,9 +304,20 @@ class PSBaseParser(object):
             return i
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c == b'\r':
+            # line continuation, maybe with a b'\r\n' end of line
+            self._current_parse_func = self._parse_string_2
+            return i+1
+        elif c != b'\n':
+            # not an escape sequence: only the backslash is ignored
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_2(self, s, i):
+        self._current_parse_func = self._parse_string
+        return i+1 if s[i:i+1] == b'\n' else i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
-- 
2.43.0


From 8f08b2d6905a7f527425bca30480febe7a10f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 014/113] fix: the > closing a hex string is not part of the
 next token

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 8c226a2..fd47a49 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -346,7 +346,7 @@ class PSBaseParser(object):
         token = HEX_PAIR.sub(lambda m: int2byte(int(m.group(0), 16)),SPC.sub(b'', self._curtoken))
         self._add_token(token)
         self._current_parse_func = self._parse_main
-        return j
+        return j+1 if s[j:j+1] == b'>' else j
 
     def nexttoken(self):
         while not self._tokens:
-- 
2.43.0


From dadec0d9869192df6304b19d96cb48c8e34a694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 015/113] fix: the token that ends with the data is delivered

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index fd47a49..6aedc51 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -350,7 +350,16 @@ class PSBaseParser(object):
 
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the data also ends a token
+                for _ in range(2):
+                    self._current_parse_func(b'\n', 0)
+                self._current_parse_func = self._parse_main
+                if not self._tokens:
+                    raise
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From 4c06234f8b9da9e5df8cb63d4aa34ba4f6b0d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 016/113] fix: reading lines delivers the last line forwards,
 and the first one backwards

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 6aedc51..c065291 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -81,7 +81,13 @@ class PSBaseParser(object):
         linepos = self.bufpos + self.charpos
         eol = False
         while 1:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the data also ends a line
+                if linebuf:
+                    break
+                raise
             if eol:
                 c = self.buf[self.charpos:self.charpos+1]
                 # handle b'\r\n'
@@ -126,6 +132,8 @@ class PSBaseParser(object):
                 yield s[n:] + buf
                 s = s[:n]
                 buf = b''
+        if buf:
+            yield buf
         return
 
     def _parse_main(self, s, i):
-- 
2.43.0


From e95bd2be2678267683d492239b368045c370d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 017/113] fix: tokens of consecutive content streams are not
 run together

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..7541f40 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -28,7 +28,8 @@ class PDFContentParser(PSStackParser):
                 self.istream += 1
             else:
                 raise PSEOF('Unexpected EOF, file truncated?')
-            self.fp = BytesIO(strm.get_data())
+            # streams are divided between tokens, so the division acts as white space
+            self.fp = BytesIO(strm.get_data() + b'\n')
         return
 
     def seek(self, pos):
-- 
2.43.0


From 9a396a7d0600e982d4c1292306bd2b9d7bf4c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 018/113] fix: only the line end before EI is stripped from
 inline image data

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 7541f40..67a106f 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -77,7 +77,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 8dbf0daf682341f6b8fe7b5ceeb8ca782fc44bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 019/113] fix: null inside an object stream is the null object

---
 pdfmajor/parser/PDFParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..59c74b5 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -163,6 +163,9 @@ class PDFStreamParser(PDFParser):
             except PSSyntaxError:
                 pass
             return
+        elif token is self.KEYWORD_NULL:
+            self.push((pos, None))
+            return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
                 # See PDF Spec 3.4.6: Only the object values are stored in the
-- 
2.43.0


From c457213973c1a4ca1244009116c487d69e9cf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 020/113] fix: inline images may spell out Width and Height

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 0630935..4f8f457 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -476,7 +476,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if obj.get_any(('W', 'Width')) is not None and obj.get_any(('H', 'Height')) is not None:
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From 76df2630a2f4acc959a7e0b1c778f6d89a6c61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 021/113] fix: the null character after EI ends inline image
 data too

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 67a106f..41bb19a 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -61,7 +61,7 @@ class PDFContentParser(PSStackParser):
                 c = int2byte(c)
                 data += c
                 self.charpos += 1
-                if len(target) <= i and c.isspace():
+                if len(target) <= i and (c.isspace() or c == b'\x00'):
                     i += 1
                 elif i < len(target) and c == (int2byte(target[i])):
                     i += 1
-- 
2.43.0


From 98c826f62d1d01cc38fee1909b9195e2f6bb2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 022/113] fix: errors of the parser are raised as such, not as
 NameError

---
 pdfmajor/execptions.py                            | 9 +++++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/PDFXRef.py            | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py           | 1 +
 pdfmajor/parser/PDFStream/__init__.py             | 2 ++
 pdfmajor/parser/PDFStream/util.py                 | 2 ++
 6 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..7a9de88 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -63,6 +63,15 @@ class PDFTypeError(PDFException):
 class PDFSyntaxError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..94fa6a7 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFNoValidXRef, PDFSyntaxError
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..e41e29d 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,6 +12,7 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
+    PDFEncryptionError,
     PDFSyntaxError
 )
 
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..1c0da71 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,7 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFNotImplementedError, PDFTypeError
+
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..d861af4 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+from pdfmajor.execptions import PDFTypeError
+
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 9af8992bd2e426bd8a4a2be093a8f2c573a6f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 023/113] fix: stream data is as long as its Length says, up to
 endstream only if that is unusable

---
 pdfmajor/parser/PDFDocument/__init__.py |  1 +
 pdfmajor/parser/PDFParser.py            | 56 +++++++++++++++----------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e41e29d..5ab1546 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -81,6 +81,7 @@ class PDFDocument(object):
             parser.fallback = True
             xref = PDFXRefFallback()
             xref.load(parser)
+            parser.fallback = False
             self.xrefs.append(xref)
         for xref in self.xrefs:
             trailer = xref.get_trailer()
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 59c74b5..ddc078e 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -1,5 +1,6 @@
 
 import logging
+import re
 from io import BytesIO, TextIOWrapper
 from ..utils import settings
 from pdfmajor.execptions import (
@@ -8,7 +9,7 @@ from pdfmajor.execptions import (
     PDFSyntaxError
 )
 from .PSStackParser import PSStackParser
-from .PSStackParser import KWD
+from .PSStackParser import KWD, PSKeyword
 from .PDFStream import PDFStream
 from .PDFStream.PDFObjRef import PDFObjRef
 from .PDFStream import int_value
@@ -56,6 +57,21 @@ class PDFParser(PSStackParser):
     KEYWORD_XREF = KWD(b'xref')
     KEYWORD_STARTXREF = KWD(b'startxref')
 
+    def read_stream_data(self, pos, objlen):
+        """Reads objlen bytes at pos if 'endstream' follows them."""
+        if objlen is None or objlen < 0:
+            return None
+        self.fp.seek(pos)
+        data = self.fp.read(objlen)
+        self.seek(pos+objlen)
+        try:
+            (_, token) = self.nexttoken()
+        except PSEOF:
+            return None
+        if not isinstance(token, PSKeyword) or not token.name.startswith(b'endstream'):
+            return None
+        return data
+
     def do_keyword(self, pos, token):
         """Handles PDF-related keywords."""
 
@@ -83,7 +99,7 @@ class PDFParser(PSStackParser):
             # stream object
             ((_, dic),) = self.pop(1) # pylint: disable=E0632
             dic = dict_value(dic)
-            objlen = 0
+            objlen = None
             if not self.fallback:
                 try:
                     objlen = int_value(dic['Length'])
@@ -98,26 +114,24 @@ class PDFParser(PSStackParser):
                     raise PDFSyntaxError('Unexpected EOF')
                 return
             pos += len(line)
-            self.fp.seek(pos)
-            data = bytearray(self.fp.read(objlen))
-            self.seek(pos+objlen)
-            while 1:
-                try:
-                    (_, line) = self.nextline()
-                except PSEOF:
-                    if settings.STRICT:
-                        raise PDFSyntaxError('Unexpected EOF')
-                    break
-                if b'endstream' in line:
-                    i = line.index(b'endstream')
-                    objlen += i
-                    if self.fallback:
-                        data += line[:i]
-                    break
-                objlen += len(line)
-                if self.fallback:
+            data = self.read_stream_data(pos, objlen)
+            if data is None:
+                # no usable /Length: the data ends before 'endstream'
+                data = bytearray()
+                self.seek(pos)
+                while 1:
+                    try:
+                        (_, line) = self.nextline()
+                    except PSEOF:
+                        if settings.STRICT:
+                            raise PDFSyntaxError('Unexpected EOF')
+                        break
+                    if b'endstream' in line:
+                        data += line[:line.index(b'endstream')]
+                        break
                     data += line
-            data = bytes(data)
+                objlen = len(data)
+                data = re.sub(br'(\r\n|[\r\n])\Z', b'', bytes(data))
             self.seek(pos+objlen)
             # XXX limit objlen not to exceed object boundary
             log.debug('Stream: pos=%d, objlen=%d, dic=%r, data=%r...', pos, objlen, dic, data[:10])
-- 
2.43.0


From baeea0099ba368448c239e0d48357e99adee3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 024/113] fix: an object freed by a newer revision is not found
 in older ones

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 18 ++++++++++++++++++
 pdfmajor/parser/PDFDocument/__init__.py |  8 +++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 94fa6a7..24db908 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -26,6 +26,10 @@ class PDFBaseXRef(object):
     def get_objids(self):
         return []
 
+    def is_free(self, objid) -> bool:
+        "Tells whether this section declares the object as free."
+        return False
+
     # Must return
     #     (strmid, index, genno)
     #  or (None, pos, genno)
@@ -39,6 +43,7 @@ class PDFXRef(PDFBaseXRef):
 
     def __init__(self):
         self.offsets: Dict[int, Pos] = {}
+        self.free = set()
         self.trailer = {}
         return
 
@@ -75,6 +80,7 @@ class PDFXRef(PDFBaseXRef):
                     raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 (pos, genno, use) = f
                 if use != b'n':
+                    self.free.add(objid)
                     continue
                 self.offsets[objid] = (None, int(pos), int(genno))
         log.info('xref objects: %r', self.offsets)
@@ -101,6 +107,9 @@ class PDFXRef(PDFBaseXRef):
     def get_objids(self):
         return iter(self.offsets.keys())
 
+    def is_free(self, objid):
+        return objid in self.free and objid not in self.offsets
+
     def get_pos(self, objid):
         try:
             return self.offsets[objid]
@@ -210,6 +219,15 @@ class PDFXRefStream(PDFBaseXRef):
                     yield start+i
         return
 
+    def is_free(self, objid):
+        if not any(start <= objid < start+nobjs for (start, nobjs) in self.ranges):
+            return False
+        try:
+            self.get_pos(objid)
+        except KeyError:
+            return True
+        return False
+
     def get_pos(self, objid):
         index = 0
         for (start, nobjs) in self.ranges:
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 5ab1546..977c24a 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -200,6 +200,9 @@ class PDFDocument(object):
                 try:
                     (strmid, index, genno) = xref.get_pos(objid)
                 except KeyError:
+                    if xref.is_free(objid):
+                        # freed by this revision, whatever older ones say
+                        raise PDFObjectNotFound(objid)
                     continue
                 try:
                     if strmid is not None:
@@ -324,9 +327,12 @@ class PDFDocument(object):
         xrefs.append(xref)
         trailer = xref.get_trailer()
         log.info('trailer: %r', trailer)
-        if 'XRefStm' in trailer:
+        if 'XRefStm' in trailer and isinstance(xref, PDFXRef):
             pos = int_value(trailer['XRefStm'])
+            hybrid = len(xrefs)
             self.read_xref_from(parser, pos, xrefs)
+            # the table hides from older readers what the stream defines
+            xref.free.difference_update(xrefs[hybrid].get_objids())
         if 'Prev' in trailer:
             # find previous xref
             pos = int_value(trailer['Prev'])
-- 
2.43.0


From 1087f2eb1b48411e54a99a46b277a70086e911cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 025/113] fix: object numbers of a cross-reference stream with
 several ranges

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 24db908..5adf84c 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -210,13 +210,15 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index+i)
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def is_free(self, objid):
-- 
2.43.0


From 44798846a58823328585938509348db9fd13e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 026/113] fix: cross-reference stream fields of 5 to 7 bytes

---
 pdfmajor/utils/generic.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..118af8c 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -126,22 +126,10 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
-    l = len(s)
-    if not l:
+    """Unpacks integers of any length (big endian)."""
+    if not s:
         return default
-    elif l == 1:
-        return ord(s)
-    elif l == 2:
-        return struct.unpack('>H', s)[0]
-    elif l == 3:
-        return struct.unpack('>L', b'\x00'+s)[0]
-    elif l == 4:
-        return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
-    else:
-        raise TypeError('invalid length: %d' % l)
+    return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From e405f2acec51a333dedcb8c5157ba322e89c28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 027/113] fix: the file is only scanned for objects when its
 cross-reference data is unusable

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  |  9 +++++
 pdfmajor/parser/PDFDocument/__init__.py | 52 ++++++++++++++++++-------
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 5adf84c..2f25765 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -127,6 +127,15 @@ class PDFXRefFallback(PDFXRef):
     PDFOBJ_CUE = re.compile(r'^(\d+)\s+(\d+)\s+obj\b')
 
     def load(self, parser):
+        fallback = parser.fallback
+        parser.fallback = True
+        try:
+            self.scan(parser)
+        finally:
+            parser.fallback = fallback
+        return
+
+    def scan(self, parser):
         parser.seek(0)
         while 1:
             try:
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 977c24a..cdb6f7c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -67,6 +67,8 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._fallback = fallback
+        self._scanned = None
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -76,13 +78,9 @@ class PDFDocument(object):
             pos = self.find_xref(parser)
             self.read_xref_from(parser, pos, self.xrefs)
         except PDFNoValidXRef:
-            pass # fallback = True
-        if fallback:
-            parser.fallback = True
-            xref = PDFXRefFallback()
-            xref.load(parser)
-            parser.fallback = False
-            self.xrefs.append(xref)
+            self._load_fallback()
+        if not any('Root' in xref.get_trailer() for xref in self.xrefs):
+            self._load_fallback()
         for xref in self.xrefs:
             trailer = xref.get_trailer()
             if not trailer:
@@ -187,6 +185,37 @@ class PDFDocument(object):
         (_, obj) = self._parser.nextobject()
         return obj
 
+    def _load_fallback(self):
+        "Recovers the object positions by scanning the file, at most once."
+        if not self._fallback:
+            return
+        self._fallback = False
+        self._scanned = PDFXRefFallback()
+        self._scanned.load(self._parser)
+        self.xrefs.append(self._scanned)
+        return
+
+    def _find_positions(self, objid):
+        "Where the newest revision has the object, then where a scan of the file finds it."
+        for xref in self.xrefs:
+            try:
+                yield xref.get_pos(objid)
+                break
+            except KeyError:
+                if xref.is_free(objid):
+                    # freed by this revision, whatever older ones say
+                    return
+        else:
+            return
+        # the object could not be read there
+        self._load_fallback()
+        if self._scanned is not None:
+            try:
+                yield self._scanned.get_pos(objid)
+            except KeyError:
+                pass
+        return
+
     # can raise PDFObjectNotFound
     def getobj(self, objid):
         assert objid != 0
@@ -196,14 +225,7 @@ class PDFDocument(object):
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
         else:
-            for xref in self.xrefs:
-                try:
-                    (strmid, index, genno) = xref.get_pos(objid)
-                except KeyError:
-                    if xref.is_free(objid):
-                        # freed by this revision, whatever older ones say
-                        raise PDFObjectNotFound(objid)
-                    continue
+            for (strmid, index, genno) in self._find_positions(objid):
                 try:
                     if strmid is not None:
                         stream = PDFStream.validated_stream(self.getobj(strmid))
-- 
2.43.0


From dc0843fd376ca80d795bfb293f0b0d358de71b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 028/113] fix: scanning a file for objects covers all its
 revisions, object streams and cross-reference stream trailers

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 2f25765..1e124ee 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFNoValidXRef, PDFSyntaxError
+from pdfmajor.execptions import ParserError, PSEOF, PDFNoValidXRef, PDFSyntaxError
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
@@ -144,9 +144,12 @@ class PDFXRefFallback(PDFXRef):
                 break
             if line.startswith(b'trailer'):
                 parser.seek(pos)
-                self.load_trailer(parser)
+                try:
+                    self.load_trailer(parser)
+                except (ParserError, AssertionError):
+                    pass
                 log.info('trailer: %r', self.trailer)
-                break
+                continue
             line=line.decode('latin-1') #default pdf encoding
             m = self.PDFOBJ_CUE.match(line)
             if not m:
@@ -157,8 +160,17 @@ class PDFXRefFallback(PDFXRef):
             self.offsets[objid] = (None, pos, genno)
             # expand ObjStm.
             parser.seek(pos)
-            (_, obj) = parser.nextobject()
+            try:
+                for _ in range(3):
+                    parser.nexttoken() # objid, genno, obj
+                (_, obj) = parser.nextobject()
+            except ParserError:
+                parser.seek(pos+len(line))
+                continue
+            if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
+                self.trailer.update(obj.attrs)
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
+                obj.set_objid(objid, genno)
                 stream = PDFStream.validated_stream(obj)
                 try:
                     n = stream['N']
-- 
2.43.0


From 59f6fb5b76c3f958b31bd0f288ef1ee73013dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 029/113] fix: unusable or cyclic cross-reference sections make
 the file be scanned for objects

---
 pdfmajor/parser/PDFDocument/__init__.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index cdb6f7c..85f4326 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -323,11 +323,18 @@ class PDFDocument(object):
         else:
             raise PDFNoValidXRef('Unexpected EOF')
         log.info('xref found: pos=%r', prev)
-        return int(prev)
+        try:
+            return int(prev)
+        except (TypeError, ValueError):
+            raise PDFNoValidXRef('Invalid startxref: %r' % prev)
 
     # read xref table
-    def read_xref_from(self, parser, start, xrefs):
+    def read_xref_from(self, parser, start, xrefs, seen=None):
         """Reads XRefs from the given location."""
+        seen = set() if seen is None else seen
+        if start in seen or start < 0:
+            raise PDFNoValidXRef('Invalid or repeated xref position: %r' % start)
+        seen.add(start)
         parser.seek(start)
         parser.reset()
         try:
@@ -340,23 +347,29 @@ class PDFDocument(object):
             parser.seek(pos)
             parser.reset()
             xref = PDFXRefStream()
-            xref.load(parser)
+            try:
+                xref.load(parser)
+            except (ParserError, KeyError, TypeError, ValueError) as e:
+                raise PDFNoValidXRef('Invalid xref stream: %r' % e)
         else:
             if token is parser.KEYWORD_XREF:
                 parser.nextline()
             xref = PDFXRef()
-            xref.load(parser)
+            try:
+                xref.load(parser)
+            except (ParserError, AssertionError, ValueError) as e:
+                raise PDFNoValidXRef('Invalid xref table: %r' % e)
         xrefs.append(xref)
         trailer = xref.get_trailer()
         log.info('trailer: %r', trailer)
         if 'XRefStm' in trailer and isinstance(xref, PDFXRef):
             pos = int_value(trailer['XRefStm'])
             hybrid = len(xrefs)
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, seen)
             # the table hides from older readers what the stream defines
             xref.free.difference_update(xrefs[hybrid].get_objids())
         if 'Prev' in trailer:
             # find previous xref
             pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, seen)
         return
-- 
2.43.0


From 0d329eaf7e175687771be288e9ca0f615b901874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 030/113] fix: an object position that is slightly off leads to
 the next object header

---
 pdfmajor/parser/PDFDocument/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 85f4326..46d6435 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -169,13 +169,12 @@ class PDFDocument(object):
         #to solve https://github.com/pdfminer/pdfminer.six/issues/56
         #assert objid1 == objid, str((objid1, objid))
         if objid1 != objid:
-            x = []
+            x = [objid1, genno, kwd]
             while kwd is not self.KEYWORD_OBJ:
                 (_,kwd) = self._parser.nexttoken()
                 x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
+            objid1 = x[-3]
+            genno = x[-2]
         # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
-- 
2.43.0


From 86e7a34d74d8dbd1f89e32700bd43e763a7e6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 031/113] fix: an object that is needed to read itself is not
 found, instead of recursing for ever

---
 pdfmajor/parser/PDFDocument/__init__.py | 46 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 46d6435..3afc55c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -67,6 +67,7 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._reading = set()
         self._fallback = fallback
         self._scanned = None
         self._parser = parser
@@ -223,29 +224,40 @@ class PDFDocument(object):
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
+        elif objid in self._reading:
+            # the object is needed to read itself
+            raise PDFObjectNotFound(objid)
         else:
-            for (strmid, index, genno) in self._find_positions(objid):
-                try:
-                    if strmid is not None:
-                        stream = PDFStream.validated_stream(self.getobj(strmid))
-                        obj = self._getobj_objstm(stream, index, objid)
-                    else:
-                        obj = self._getobj_parse(index, objid)
-                        if self.decipher:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
-
-                    if isinstance(obj, PDFStream):
-                        obj.set_objid(objid, genno)
-                    break
-                except (PSEOF, PDFSyntaxError):
-                    continue
-            else:
-                raise PDFObjectNotFound(objid)
+            self._reading.add(objid)
+            try:
+                (obj, genno) = self._read_obj(objid)
+            finally:
+                self._reading.discard(objid)
             log.debug('register: objid=%r: %r', objid, obj)
             if self.caching:
                 self._cached_objs[objid] = (obj, genno)
         return obj
 
+    def _read_obj(self, objid):
+        for (strmid, index, genno) in self._find_positions(objid):
+            try:
+                if strmid is not None:
+                    stream = PDFStream.validated_stream(self.getobj(strmid))
+                    obj = self._getobj_objstm(stream, index, objid)
+                else:
+                    obj = self._getobj_parse(index, objid)
+                    if self.decipher:
+                        obj = decipher_all(self.decipher, objid, genno, obj)
+
+                if isinstance(obj, PDFStream):
+                    obj.set_objid(objid, genno)
+                break
+            except (PSEOF, PDFSyntaxError):
+                continue
+        else:
+            raise PDFObjectNotFound(objid)
+        return (obj, genno)
+
     def get_outlines(self):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
-- 
2.43.0


From ebf4301808307930b0cdf54193fa2c0f2833f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 032/113] fix: an object that cannot be parsed, or whose object
 stream is missing, is looked for by scanning

---
 pdfmajor/parser/PDFDocument/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 3afc55c..a46fe1f 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -10,6 +10,7 @@ from pdfmajor.execptions import (
     PDFDestinationNotFound, 
     PDFNoValidXRef,
     PSEOF,
+    PSException,
     PDFObjectNotFound, 
     PDFTypeError,
     PDFEncryptionError,
@@ -252,7 +253,7 @@ class PDFDocument(object):
                 if isinstance(obj, PDFStream):
                     obj.set_objid(objid, genno)
                 break
-            except (PSEOF, PDFSyntaxError):
+            except (PSException, PDFSyntaxError, PDFObjectNotFound):
                 continue
         else:
             raise PDFObjectNotFound(objid)
-- 
2.43.0


From e1bbe8713ed2ffaa3f923103977ad0cad1ca9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 033/113] fix: resolving a cycle of references ends

---
 pdfmajor/parser/PDFStream/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index d861af4..89c0ca1 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -12,9 +12,14 @@ def resolve1(x, default=None):
     """Resolves an object.
 
     If this is an array or dictionary, it may still contains
-    some indirect objects inside.
+    some indirect objects inside. A reference that only leads back to
+    itself is resolved to the default.
     """
+    seen = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in seen:
+            return default
+        seen.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -25,12 +30,11 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
-- 
2.43.0


From 7d50276e183a813a80644dc47812ba9973cfb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 034/113] fix: a page tree that contains itself is an error,
 and pages found without a tree are listed once

---
 pdfmajor/parser/PDFPage.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..3800685 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -1,7 +1,7 @@
 
 import logging
 
-from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
+from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound, PDFSyntaxError
 from ..utils import settings
 from .constants import LIT
 from .PDFStream import resolve1, int_value, list_value, dict_value
@@ -76,6 +76,7 @@ class PDFPage(object):
 
     @classmethod
     def create_pages(cls, document: PDFDocument):
+        ancestors = set()
         def search(obj, parent):
             if isinstance(obj, int):
                 objid = obj
@@ -93,9 +94,13 @@ class PDFPage(object):
 
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
+                if objid in ancestors:
+                    raise PDFSyntaxError('Page tree node %r is its own descendant' % objid)
+                ancestors.add(objid)
                 for c in list_value(tree['Kids']):
                     for x in search(c, tree):
                         yield x
+                ancestors.discard(objid)
             elif tree_type is LITERAL_PAGE:
                 log.debug('Page: %r', tree)
                 yield (objid, tree)
@@ -107,8 +112,12 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            seen = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    if objid in seen:
+                        continue
+                    seen.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From af9964d456b7cafae30eaf782585f3c818bccf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 035/113] fix: every iteration over a page starts from the
 initial state

---
 pdfmajor/interpreter/PageInterpreter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..485122c 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -23,22 +23,22 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
-
-        # Init State
-        self.state: PDFStateStack = prep_state(
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+    
+    def __iter__(self):
+        # every iteration starts from the initial state
+        state: PDFStateStack = prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
-    
-    def __iter__(self):
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-            state=self.state
+            state=state
         ):
             yield item
 
-- 
2.43.0


From f5d6a65cc31371dcf98a0cb3eb845aa0b4d8967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 036/113] fix: iterations over a document may be abandoned,
 repeated and interleaved, and its pages read later

---
 pdfmajor/interpreter/__init__.py | 65 ++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..06f6187 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -35,40 +36,54 @@ class PDFInterpreter:
         self.pagenos = pagenos
         self.ignore_bad_chars = ignore_bad_chars
         self.debug_level = debug_level
+        # pages loaded so far, shared by all iterations
         self.__pages = []
+        self.__loader = None
+        self.__error = None
         if preload:
-            for _ in self.__load_pages():
+            for _ in self:
                 pass
         
     def __load_pages(self):
-        set_log_level(self.debug_level)
         log.info("Opening file...")
+        # pages are read from the file whenever they are interpreted
         with open(self.input_file_path, 'rb') as input_file:
-            font_cache = {}
-            log.info("Parsing file...")
-            pages = PDFPage.get_pages(
-                input_file, 
-                pagenos=self.pagenos, 
-                maxpages=self.maxpages, 
-                password=self.password, 
-                caching=self.caching, 
-                check_extractable=self.check_extractable
-            )
-            for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
-            log.info(f"Done Reading {len(self.__pages)} pages.")
-        set_log_level(logging.WARNING)
+            data = BytesIO(input_file.read())
+        font_cache = {}
+        log.info("Parsing file...")
+        pages = PDFPage.get_pages(
+            data, 
+            pagenos=self.pagenos, 
+            maxpages=self.maxpages, 
+            password=self.password, 
+            caching=self.caching, 
+            check_extractable=self.check_extractable
+        )
+        for page_num, page in enumerate(pages):
+            yield PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars)
+        log.info(f"Done Reading {len(self.__pages)} pages.")
         
         if len(self.__pages) == 0:
             raise EmptyDocumentError("No pages found in pdf-file")
+
+    def __load_next(self) -> bool:
+        if self.__error is not None:
+            raise self.__error
+        if self.__loader is None:
+            self.__loader = self.__load_pages()
+        try:
+            self.__pages.append(next(self.__loader))
+        except StopIteration:
+            return False
+        except Exception as e:
+            self.__error = e
+            raise
+        return True
     
     def __iter__(self):
-        if len(self.__pages) > 0:
-            set_log_level(self.debug_level)
-            for page in self.__pages:
-                yield page
-            set_log_level(logging.WARNING)
-        else:
-            for page in self.__load_pages():
-                yield page
\ No newline at end of file
+        set_log_level(self.debug_level)
+        page_num = 0
+        while page_num < len(self.__pages) or self.__load_next():
+            yield self.__pages[page_num]
+            page_num += 1
+        set_log_level(logging.WARNING)
-- 
2.43.0


From 7108d7e09f6476031bc508a0723f86576e801b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 037/113] fix: a form XObject that invokes itself is an error
 instead of endless recursion

---
 pdfmajor/interpreter/commands/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 9d61de0..f6ff7c5 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -1,6 +1,6 @@
 from typing import List
 
-from pdfmajor.execptions import CommandProcessorError
+from pdfmajor.execptions import CommandProcessorError, InvalidOperation
 from pdfmajor.parser.PDFContentParser import PDFContentParser, PDFStream
 from pdfmajor.parser.PSStackParser import PSKeyword, keyword_name
 from pdfmajor.utils import get_logger
@@ -18,7 +18,8 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
-def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
+def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, forms: tuple = ()):
+    # forms: the object numbers of the forms being executed
     if font_cache is None:
         font_cache = {}
     parser = PDFContentParser(streams)
@@ -52,6 +53,9 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
         
         for complete_item in state.complete_layout_items:
             if isinstance(complete_item, LTXObject):
+                formid = complete_item.stream.objid
+                if formid is not None and formid in forms:
+                    raise InvalidOperation("Form XObject invokes itself: %r" % formid)
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -63,7 +67,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-                    state=xobj_state
+                    state=xobj_state,
+                    forms=forms+(formid,)
                 ):
                     complete_item.add(item)
             yield complete_item
-- 
2.43.0


From 3de92502513d35b59ad69f65b3155f81e2445034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 038/113] fix: streams with a direct Length keep all their
 bytes when the file is scanned

---
 pdfmajor/parser/PDFParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index ddc078e..2aaeae1 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -100,7 +100,8 @@ class PDFParser(PSStackParser):
             ((_, dic),) = self.pop(1) # pylint: disable=E0632
             dic = dict_value(dic)
             objlen = None
-            if not self.fallback:
+            # while scanning a file other objects cannot be looked up yet
+            if not self.fallback or isinstance(dic.get('Length'), int):
                 try:
                     objlen = int_value(dic['Length'])
                 except KeyError:
-- 
2.43.0


From 03887901279f0be5620f9b2a93a1efc0523f1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 039/113] fix: scanning the file for one object does not change
 what is known of the others

---
 pdfmajor/parser/PDFDocument/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index a46fe1f..35ee954 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -80,9 +80,11 @@ class PDFDocument(object):
             pos = self.find_xref(parser)
             self.read_xref_from(parser, pos, self.xrefs)
         except PDFNoValidXRef:
-            self._load_fallback()
+            if self._load_fallback() is not None:
+                self.xrefs.append(self._scanned)
         if not any('Root' in xref.get_trailer() for xref in self.xrefs):
-            self._load_fallback()
+            if self._load_fallback() is not None:
+                self.xrefs.append(self._scanned)
         for xref in self.xrefs:
             trailer = xref.get_trailer()
             if not trailer:
@@ -188,13 +190,11 @@ class PDFDocument(object):
 
     def _load_fallback(self):
         "Recovers the object positions by scanning the file, at most once."
-        if not self._fallback:
-            return
-        self._fallback = False
-        self._scanned = PDFXRefFallback()
-        self._scanned.load(self._parser)
-        self.xrefs.append(self._scanned)
-        return
+        if self._fallback:
+            self._fallback = False
+            self._scanned = PDFXRefFallback()
+            self._scanned.load(self._parser)
+        return self._scanned
 
     def _find_positions(self, objid):
         "Where the newest revision has the object, then where a scan of the file finds it."
@@ -209,8 +209,7 @@ class PDFDocument(object):
         else:
             return
         # the object could not be read there
-        self._load_fallback()
-        if self._scanned is not None:
+        if self._load_fallback() is not None:
             try:
                 yield self._scanned.get_pos(objid)
             except KeyError:
-- 
2.43.0


From 8cbf191c12d14671115b02191f469b5faf297084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 040/113] fix: a stream whose Length cannot be resolved is not
 taken for an empty one

---
 pdfmajor/parser/PDFParser.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 2aaeae1..461783b 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -9,10 +9,10 @@ from pdfmajor.execptions import (
     PDFSyntaxError
 )
 from .PSStackParser import PSStackParser
-from .PSStackParser import KWD, PSKeyword
+from .PSStackParser import KWD
 from .PDFStream import PDFStream
 from .PDFStream.PDFObjRef import PDFObjRef
-from .PDFStream import int_value
+from .PDFStream import resolve1
 from .PDFStream import dict_value
 
 log = logging.getLogger(__name__)
@@ -63,12 +63,7 @@ class PDFParser(PSStackParser):
             return None
         self.fp.seek(pos)
         data = self.fp.read(objlen)
-        self.seek(pos+objlen)
-        try:
-            (_, token) = self.nexttoken()
-        except PSEOF:
-            return None
-        if not isinstance(token, PSKeyword) or not token.name.startswith(b'endstream'):
+        if len(data) < objlen or not self.fp.read(16).lstrip().startswith(b'endstream'):
             return None
         return data
 
@@ -103,7 +98,9 @@ class PDFParser(PSStackParser):
             # while scanning a file other objects cannot be looked up yet
             if not self.fallback or isinstance(dic.get('Length'), int):
                 try:
-                    objlen = int_value(dic['Length'])
+                    objlen = resolve1(dic['Length'])
+                    if not isinstance(objlen, int):
+                        objlen = None
                 except KeyError:
                     if settings.STRICT:
                         raise PDFSyntaxError('/Length is undefined: %r' % dic)
-- 
2.43.0


From 1fbf4934ead47aea04292e5ad09bf42e1ba222ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 041/113] fix: the type of a page tree node may be an indirect
 object

---
 pdfmajor/parser/PDFPage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 3800685..3c79a3c 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -88,9 +88,9 @@ class PDFPage(object):
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
 
-            tree_type = tree.get('Type')
+            tree_type = resolve1(tree.get('Type'))
             if tree_type is None and not settings.STRICT:  # See #64
-                tree_type = tree.get('type')
+                tree_type = resolve1(tree.get('type'))
 
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
@@ -120,7 +120,7 @@ class PDFPage(object):
                     seen.add(objid)
                     try:
                         obj = document.getobj(objid)
-                        if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
+                        if isinstance(obj, dict) and resolve1(obj.get('Type')) is LITERAL_PAGE:
                             yield cls(document, objid, obj)
                     except PDFObjectNotFound:
                         pass
-- 
2.43.0


From aa3393f832f6d884872c1dd258a92108b2aaeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 042/113] fix: the numbers of a page box may be indirect
 objects

---
 pdfmajor/parser/PDFPage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 3c79a3c..c6327e6 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -52,9 +52,9 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = resolve1(self.attrs['MediaBox'])
+        self.mediabox = [resolve1(x) for x in list_value(self.attrs['MediaBox'])]
         if 'CropBox' in self.attrs:
-            self.cropbox = resolve1(self.attrs['CropBox'])
+            self.cropbox = [resolve1(x) for x in list_value(self.attrs['CropBox'])]
         else:
             self.cropbox = self.mediabox
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
-- 
2.43.0


From 1b8f2195937735242ae6aca36c09ba4ffbe0790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 043/113] fix: ASCIIHexDecode ignores white space anywhere and
 ends at >

---
 pdfmajor/utils/ascii85.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..cec2d33 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -6,6 +6,7 @@ This code is in the public domain.
 
 """
 
+import binascii
 import re
 import struct
 
@@ -45,9 +46,7 @@ def ascii85decode(data):
     return out
 
 # asciihexdecode(data)
-hex_re = re.compile(b'([a-f\d]{2})', re.IGNORECASE) # pylint: disable=W1401
-trail_re = re.compile(b'^(?:[a-f\d]{2}|\s)*([a-f\d])[\s>]*$', re.IGNORECASE) # pylint: disable=W1401
-
+nonhex_re = re.compile(b'[^a-fA-F0-9]')
 
 def asciihexdecode(data):
     """
@@ -59,15 +58,7 @@ def asciihexdecode(data):
     the EOD marker after reading an odd number of hexadecimal digits, it
     will behave as if a 0 followed the last digit.
     """
-    def decode(x):
-        i=int(x,16)
-        return int2byte(i)
-
-    out=b''
-    for x in hex_re.findall(data):
-        out+=decode(x)
-
-    m = trail_re.search(data)
-    if m:
-        out+=decode(m.group(1)+b'0')
-    return out
+    digits = nonhex_re.sub(b'', data.split(b'>', 1)[0])
+    if len(digits) % 2:
+        digits += b'0'
+    return binascii.unhexlify(digits)
-- 
2.43.0


From 5d47c5cb55735fd3ae050b3ffbe1bbe40929a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 044/113] fix: ASCII85Decode keeps the last partial group of
 unterminated data

---
 pdfmajor/utils/ascii85.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index cec2d33..8b22baf 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -38,11 +38,11 @@ def ascii85decode(data):
             assert n == 0, str(n)
             out += b'\0\0\0\0'
         elif c == b'~':
-            if n:
-                for _ in range(5-n):
-                    b = b*85+84
-                out += struct.pack('>L', b)[:n-1]
             break
+    if n:
+        for _ in range(5-n):
+            b = b*85+84
+        out += struct.pack('>L', b)[:n-1]
     return out
 
 # asciihexdecode(data)
-- 
2.43.0


From 59eb56a037c99ccc636346a1ec1d3cd0daa18c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 045/113] fix: RunLengthDecode keeps what is there of a
 truncated run

---
 pdfmajor/parser/PDFStream/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 89c0ca1..9b10568 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -132,12 +132,10 @@ def rldecode(data):
         if length == 128:
             break
         if length >= 0 and length < 128:
-            for j in range(i+1,(i+1)+(length+1)):
-                decoded+=int2byte(data[j])
-            
+            decoded+=data[i+1:(i+1)+(length+1)]
             i = (i+1) + (length+1)
         if length > 128:
-            run = int2byte(data[i+1])*(257-length)
+            run = data[i+1:i+2]*(257-length)
             decoded+=run
             i = (i+1) + 1
     return decoded
-- 
2.43.0


From cb85a3668de537926e08ea37f10f422682a20008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 046/113] fix: LZWDecode ends at the end-of-data code

---
 pdfmajor/utils/lzw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..51dde48 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -55,7 +55,7 @@ class LZWDecoder(object):
             self.prevbuf = b''
             self.nbits = 9
         elif code == 257:
-            pass
+            raise EOFError
         elif not self.prevbuf:
             x = self.prevbuf = self.table[code]
         else:
@@ -85,6 +85,8 @@ class LZWDecoder(object):
                 break
             try:
                 x = self.feed(code)
+            except EOFError:
+                break
             except CorruptDataError:
                 # just ignore corrupt data and stop yielding there
                 break
-- 
2.43.0


From 517d62b38c31cd82fdc7cae0d9aceab28e0f28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 047/113] fix: LZWDecode heeds EarlyChange

---
 pdfmajor/parser/PDFStream/__init__.py |  2 +-
 pdfmajor/utils/lzw.py                 | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 1c0da71..79ee557 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -100,7 +100,7 @@ class PDFStream(PDFObject):
                         raise PDFException('Invalid zlib bytes: %r, %r' % (e, data))
                     data = b''
             elif f in LITERALS_LZW_DECODE:
-                data = lzwdecode(data)
+                data = lzwdecode(data, early_change=int_value((params or {}).get('EarlyChange', 1)))
             elif f in LITERALS_ASCII85_DECODE:
                 data = ascii85decode(data)
             elif f in LITERALS_ASCIIHEX_DECODE:
diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 51dde48..e94e548 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -12,8 +12,9 @@ class CorruptDataError(Exception):
 ##
 class LZWDecoder(object):
 
-    def __init__(self, fp):
+    def __init__(self, fp, early_change=1):
         self.fp = fp
+        self.early_change = early_change
         self.buff = 0
         self.bpos = 8
         self.nbits = 9
@@ -67,12 +68,12 @@ class LZWDecoder(object):
                 x = self.table[code]
             else:
                 raise CorruptDataError
-            l = len(self.table)
-            if l == 511:
+            l = len(self.table)+self.early_change
+            if l == 512:
                 self.nbits = 10
-            elif l == 1023:
+            elif l == 1024:
                 self.nbits = 11
-            elif l == 2047:
+            elif l == 2048:
                 self.nbits = 12
             self.prevbuf = x
         return x
@@ -97,7 +98,7 @@ class LZWDecoder(object):
 
 
 # lzwdecode
-def lzwdecode(data):
+def lzwdecode(data, early_change=1):
     fp = BytesIO(data)
-    s=LZWDecoder(fp).run()
+    s=LZWDecoder(fp, early_change=early_change).run()
     return b''.join(s)
-- 
2.43.0


From adfabb5fdd9d4dcd13325132c108a929ab8bb681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 048/113] fix: PNG predictors follow the definition of the PNG
 filters

---
 pdfmajor/utils/generic.py | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 118af8c..6ef48c0 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -26,43 +26,43 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 ##  PNG Predictor
 ##
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
-    if bitspercomponent != 8:
-        # unsupported
-        raise ValueError("Unsupported `bitspercomponent': %d" %
-                         bitspercomponent)
-    nbytes = colors * columns * bitspercomponent // 8
+    nbytes = (colors * columns * bitspercomponent + 7) // 8
+    # distance to the corresponding byte of the pixel to the left
+    bpp = max(1, colors * bitspercomponent // 8)
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    line0 = bytes(nbytes)
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
         line1 = data[i:i+nbytes]
-        line2 = b''
+        line2 = bytearray()
         if ft == 0:
             # PNG none
             line2 += line1
-        elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
-                line2 += int2byte(c)
-        elif ft == 2:
-            # PNG up
-            for (a, b) in zip(line0, line1):
-                c = (a+b) & 255
-                line2 += int2byte(c)
-        elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
-                line2 += int2byte(c)
-        else:
-            # unsupported
-            raise ValueError("Unsupported predictor value: %d" % ft)
-        buf += line2
+            line1 = b''
+        for (j, x) in enumerate(line1):
+            left = line2[j-bpp] if j >= bpp else 0
+            up = line0[j]
+            upleft = line0[j-bpp] if j >= bpp else 0
+            if ft == 1:
+                # PNG sub
+                pred_x = left
+            elif ft == 2:
+                # PNG up
+                pred_x = up
+            elif ft == 3:
+                # PNG average
+                pred_x = (left+up)//2
+            elif ft == 4:
+                # PNG Paeth
+                p = left+up-upleft
+                pred_x = min((left, up, upleft), key=lambda v: abs(p-v))
+            else:
+                # unsupported
+                raise ValueError("Unsupported predictor value: %d" % ft)
+            line2.append((x+pred_x) & 255)
+        buf += bytes(line2)
         line0 = line2
     return buf
 
-- 
2.43.0


From 2f7d6c19156c6860c35739d792763774e6d974f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 049/113] fix: filters and their parameters may be indirect
 objects, nested or missing

---
 pdfmajor/parser/PDFStream/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 79ee557..57a678c 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -60,8 +60,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -71,12 +71,12 @@ class PDFStream(PDFObject):
             params = [params] * len(filters)
         if settings.STRICT and len(params) != len(filters):
             raise PDFException("Parameters len filter mismatch")
-        # resolve filter if possible
-        _filters = []
-        for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
+        # resolve filters and parameters if possible
+        _filters = [resolve1(fltr) for fltr in filters]
+        _filters = [resolve1(fltr[0]) if isinstance(fltr, list) and fltr else fltr for fltr in _filters]
+        params = [resolve1(p) or {} for p in params]
+        # filters without parameters
+        params += [{}] * (len(_filters) - len(params))
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
-- 
2.43.0


From 79c7459d158f7be4a205de90b3521d4b26d1d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 050/113] fix: fax decoding uses the array method that still
 exists

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..b58afb5 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,7 +541,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
-- 
2.43.0


From 89d3d4a1c2c9093dbbbc4173abef273be43a8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 051/113] fix: LZW data without a leading clear code or with a
 bad first code

---
 pdfmajor/utils/lzw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index e94e548..b660718 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -20,6 +20,7 @@ class LZWDecoder(object):
         self.nbits = 9
         self.table = None
         self.prevbuf = None
+        self.feed(256)
         return
 
     def readbits(self, bits):
@@ -58,6 +59,8 @@ class LZWDecoder(object):
         elif code == 257:
             raise EOFError
         elif not self.prevbuf:
+            if code > 257:
+                raise CorruptDataError
             x = self.prevbuf = self.table[code]
         else:
             if code < len(self.table):
-- 
2.43.0


From bdc39095211cd8cdac6d1f03c168dd58224789e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 052/113] fix: fax parameters may be indirect objects, and
 Columns defaults to 1728

---
 pdfmajor/parser/PDFStream/ccitt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index b58afb5..074a964 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -13,6 +13,7 @@
 import sys
 import array
 from pdfmajor.execptions import EOFB, InvalidData, ByteSkip
+from .util import resolve1
 from abc import abstractmethod
 
 def get_bytes(data):
@@ -546,10 +547,10 @@ class CCITTFaxDecoder(CCITTG4Parser):
 
 
 def ccittfaxdecode(data, params):
-    K = params.get('K')
-    cols = params.get('Columns')
-    bytealign = params.get('EncodedByteAlign')
-    reversed = params.get('BlackIs1')
+    K = resolve1(params.get('K', 0))
+    cols = resolve1(params.get('Columns', 1728))
+    bytealign = resolve1(params.get('EncodedByteAlign'))
+    reversed = resolve1(params.get('BlackIs1'))
     if K == -1:
         parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed)
     else:
-- 
2.43.0


From eec5026c8830c283a8a76ddd06695b2354eb94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 053/113] fix: fax data without end-of-block code end after the
 given number of rows

---
 pdfmajor/parser/PDFStream/ccitt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 074a964..06ad023 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -526,9 +526,11 @@ class CCITTG4Parser(BitParser):
 
 class CCITTFaxDecoder(CCITTG4Parser):
 
-    def __init__(self, width, bytealign=False, reversed=False):
+    def __init__(self, width, bytealign=False, reversed=False, rows=0):
         CCITTG4Parser.__init__(self, width, bytealign=bytealign)
         self.reversed = reversed
+        # number of rows if the data do not end with an end-of-block code
+        self.rows = rows
         self._buf = b''
         return
 
@@ -543,6 +545,8 @@ class CCITTFaxDecoder(CCITTG4Parser):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
         self._buf += bytes.tobytes()
+        if y+1 == self.rows:
+            raise EOFB
         return
 
 
@@ -551,8 +555,9 @@ def ccittfaxdecode(data, params):
     cols = resolve1(params.get('Columns', 1728))
     bytealign = resolve1(params.get('EncodedByteAlign'))
     reversed = resolve1(params.get('BlackIs1'))
+    rows = 0 if resolve1(params.get('EndOfBlock', True)) else resolve1(params.get('Rows', 0))
     if K == -1:
-        parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed)
+        parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed, rows=rows)
     else:
         raise ValueError(K)
     parser.feedbytes(data)
-- 
2.43.0


From a32a16d5cbbd6e786c3732affb2d7c5756f64311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 054/113] fix: encrypted documents can be opened without a
 password

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..4aa5e00 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -20,7 +20,7 @@ class PDFStandardSecurityHandler(object):
     def __init__(self, docid, param, password=''):
         self.docid = docid
         self.param = param
-        self.password = password
+        self.password = password or ''
         self.encrypt_metadata = False
         self.init()
         return
-- 
2.43.0


From 43cc885bc8b84a111a48a01db9bed295825748b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 055/113] fix: a password outside of latin-1 is refused as
 incorrect

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 4aa5e00..042b136 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -90,7 +90,11 @@ class PDFStandardSecurityHandler(object):
         return result[:n]
 
     def authenticate(self, password):
-        password = password.encode("latin1")
+        try:
+            password = password.encode("latin1")
+        except UnicodeEncodeError:
+            # cannot be the password
+            return None
         key = self.authenticate_user_password(password)
         if key is None:
             key = self.authenticate_owner_password(password)
-- 
2.43.0


From cbfa47b9fb59be3a6dd9071b8c8b1208e6c57c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 056/113] fix: permissions may be written as an unsigned number

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 042b136..f22f262 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -76,7 +76,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From 4b15b958e85ee80ebf26f5a30a132a8abcccc60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 057/113] fix: the padding of AES encrypted data is no part of
 it

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index f22f262..c6ba6d0 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -192,7 +192,17 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_cbc(key, data)
+
+    def decrypt_cbc(self, key, data):
+        (iv, data) = (data[:16], data[16:])
+        data = data[:len(data) // 16 * 16]
+        if not data:
+            return b''
+        data = AES.new(key, mode=AES.MODE_CBC, IV=iv).decrypt(data)
+        # the padding says how long it is
+        n = data[-1]
+        return data[:-n] if 1 <= n <= 16 else data
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -237,4 +247,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_cbc(self.key, data)
-- 
2.43.0


From d0a9d77089700f5d7f4af3376c452eed35a07239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 058/113] fix: crypt filters default to Identity and may be
 indirect objects

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index c6ba6d0..fb18c1e 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -6,9 +6,11 @@ from Crypto.Hash import SHA256
 from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
 
 from ..PDFStream import int_value, str_value, dict_value
-from ..PSStackParser import literal_name
+from ..PSStackParser import literal_name, LIT
 from ...utils import int2byte, struct
 
+LITERAL_IDENTITY = LIT('Identity')
+
 ##  PDFSecurityHandler
 ##
 class PDFStandardSecurityHandler(object):
@@ -152,14 +154,14 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         super(PDFStandardSecurityHandlerV4, self).init_params()
         self.length = 128
         self.cf = dict_value(self.param.get('CF'))
-        self.stmf = literal_name(self.param['StmF'])
-        self.strf = literal_name(self.param['StrF'])
+        self.stmf = literal_name(self.param.get('StmF', LITERAL_IDENTITY))
+        self.strf = literal_name(self.param.get('StrF', LITERAL_IDENTITY))
         self.encrypt_metadata = bool(self.param.get('EncryptMetadata', True))
         if self.stmf != self.strf:
             raise PDFEncryptionError('Unsupported crypt filter: param=%r' % self.param)
         self.cfm = {}
         for k, v in self.cf.items():
-            f = self.get_cfm(literal_name(v['CFM']))
+            f = self.get_cfm(literal_name(dict_value(v).get('CFM')))
             if f is None:
                 raise PDFEncryptionError('Unknown crypt filter method: param=%r' % self.param)
             self.cfm[k] = f
-- 
2.43.0


From 3ec6951b20614d718c08907ea49337f3c55d38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 059/113] fix: password entries of AES-256 documents may be
 longer than 48 bytes

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index fb18c1e..1ab206b 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -218,10 +218,10 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         self.ue = str_value(self.param['UE'])
         self.o_hash = self.o[:32]
         self.o_validation_salt = self.o[32:40]
-        self.o_key_salt = self.o[40:]
+        self.o_key_salt = self.o[40:48]
         self.u_hash = self.u[:32]
         self.u_validation_salt = self.u[32:40]
-        self.u_key_salt = self.u[40:]
+        self.u_key_salt = self.u[40:48]
         return
 
     def get_cfm(self, name):
@@ -234,11 +234,11 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         password = password.encode('utf-8')[:127]
         hash = SHA256.new(password)
         hash.update(self.o_validation_salt)
-        hash.update(self.u)
+        hash.update(self.u[:48])
         if hash.digest() == self.o_hash:
             hash = SHA256.new(password)
             hash.update(self.o_key_salt)
-            hash.update(self.u)
+            hash.update(self.u[:48])
             return AES.new(hash.digest(), mode=AES.MODE_CBC, IV=b'\x00' * 16).decrypt(self.oe)
         hash = SHA256.new(password)
         hash.update(self.u_validation_salt)
-- 
2.43.0


From a208deb6e1be6ec576cdb1e06d205c2625d05f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 060/113] fix: strings in the dictionaries of encrypted streams
 are decrypted, cross-reference streams are not

---
 pdfmajor/parser/PDFDocument/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 35ee954..a6ec171 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -28,7 +28,7 @@ from .PDFSecurityHandler import PDFStandardSecurityHandlerV4
 from .PDFSecurityHandler import PDFStandardSecurityHandlerV5
 from .PDFXRef import PDFXRefFallback, PDFXRef, PDFXRefStream
 
-from .constants import LITERAL_CATALOG, LITERAL_OBJSTM
+from .constants import LITERAL_CATALOG, LITERAL_OBJSTM, LITERAL_XREF
 
 log = getLogger(__name__)
 
@@ -247,7 +247,13 @@ class PDFDocument(object):
                 else:
                     obj = self._getobj_parse(index, objid)
                     if self.decipher:
-                        obj = decipher_all(self.decipher, objid, genno, obj)
+                        if not isinstance(obj, PDFStream):
+                            obj = decipher_all(self.decipher, objid, genno, obj)
+                        elif obj.get('Type') is LITERAL_XREF:
+                            # cross-reference streams are not encrypted
+                            obj.decipher = None
+                        else:
+                            obj.attrs = decipher_all(self.decipher, objid, genno, obj.attrs)
 
                 if isinstance(obj, PDFStream):
                     obj.set_objid(objid, genno)
-- 
2.43.0


From 77f0e17177edf734f14e392556151671a6350e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 061/113] fix: JSON strings, keys and missing numbers are
 escaped as JSON requires

---
 pdfmajor/converters/writers/json.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..e8c7d1e 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -1,9 +1,18 @@
 from typing import Set
-from json import dumps as json_dump
+from json import dumps as json_dumps
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+def to_json(val, codec: str) -> str:
+    text = json_dumps(val, ensure_ascii=False)
+    try:
+        text.encode(codec)
+    except UnicodeEncodeError:
+        # not every character can be written as it is
+        text = json_dumps(val)
+    return text
+
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -42,16 +51,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{to_json(key, self.codec)}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{to_json(key, self.codec)}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
-        self.write_prop(key, val)
+        self.write_prop(key, to_json(val, self.codec))
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, to_json(str(val), self.codec))
     
     @contextmanager
     def object(self, key: str):
@@ -66,7 +74,7 @@ class JSONMakerObject:
             yield child
     
     def place_object(self, key: str, obj: dict):
-        self.write_prop(key, json_dump(obj))
+        self.write_prop(key, to_json(obj, self.codec))
     
     
 
@@ -106,11 +114,10 @@ class JSONMakerArray:
             self.write(f'{val}', prefix='\n')
 
     def number(self, val: float or int):
-        self.write_prop(val)
+        self.write_prop(to_json(val, self.codec))
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(to_json(str(val), self.codec))
     
     @contextmanager
     def object(self):
@@ -125,6 +132,6 @@ class JSONMakerArray:
             yield child
     
     def place_object(self, obj: dict):
-        self.write_prop(json_dump(obj))
+        self.write_prop(to_json(obj, self.codec))
     
     
\ No newline at end of file
-- 
2.43.0


From 8f3eb886aa37d31557f666748b5fd0022431330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 062/113] fix: an object or array repeating a key does not
 break the JSON around it

---
 pdfmajor/converters/writers/json.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index e8c7d1e..81e3d5d 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -1,6 +1,6 @@
 from typing import Set
 from json import dumps as json_dumps
-from io import TextIOWrapper
+from io import BytesIO, TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
@@ -47,13 +47,17 @@ class JSONMakerObject:
         text = prefix + (deep_space*self.levels_deep) + text
         self.write_raw(text)
 
-    def write_prop(self, key: str, val: str = ""):
-        if key not in self.keys:
+    def write_prop(self, key: str, val: str = "") -> bool:
+        "Writes the property unless there is one of this name, and returns whether it did."
+        if key in self.keys:
+            return False
+        else:
             self.keys.add(key)
             if len(self.keys) > 1:
                 self.write(f'{to_json(key, self.codec)}: {val}', prefix=',\n')
             else:
                 self.write(f'{to_json(key, self.codec)}: {val}', prefix='\n')
+            return True
  
     def number(self, key: str, val: float or int):
         self.write_prop(key, to_json(val, self.codec))
@@ -63,14 +67,14 @@ class JSONMakerObject:
     
     @contextmanager
     def object(self, key: str):
-        self.write_prop(key)
-        with JSONMakerObject(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as child:
+        outfile = self.outfile if self.write_prop(key) else BytesIO()
+        with JSONMakerObject(outfile, codec=self.codec, levels_deep=self.levels_deep) as child:
             yield child
     
     @contextmanager
     def array(self, key: str):
-        self.write_prop(key)
-        with JSONMakerArray(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as child:
+        outfile = self.outfile if self.write_prop(key) else BytesIO()
+        with JSONMakerArray(outfile, codec=self.codec, levels_deep=self.levels_deep) as child:
             yield child
     
     def place_object(self, key: str, obj: dict):
-- 
2.43.0


From e3c80e1a2c8acf33632584851eb3283a16e4bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 063/113] fix: names are not escaped as XML in JSON and YAML

---
 pdfmajor/converters/json.py | 13 ++++++-------
 pdfmajor/converters/yaml.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..63f296a 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -7,15 +7,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -73,7 +72,7 @@ def render(json: JSONMakerObject, item: LTItem):
             # if json.imagewriter is not None:
             #     name = json.imagewriter.export_image(item)
             json.string("type", 'img')
-            json.string("src", enc(item.name, None))
+            json.string("src", item.name)
             json.number("x0", item.x0)
             json.number("x1", item.x1)
             json.number("y0", item.y0)
@@ -100,7 +99,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -120,12 +119,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": str(item.fill.color_space.name),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": str(item.stroke.color_space.name),
             "value": normalize_color_values(item.stroke.values)
         })
                     
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..1ffb226 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -7,15 +7,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -73,7 +72,7 @@ def render(yaml: YAMLMakerObject, item: LTItem):
         # if yaml.imagewriter is not None:
         #     name = yaml.imagewriter.export_image(item)
         yaml.write("type", 'img')
-        yaml.write("src", enc(item.name, None))
+        yaml.write("src", item.name)
         yaml.write("x0", item.x0)
         yaml.write("x1", item.x1)
         yaml.write("y0", item.y0)
@@ -100,7 +99,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -136,11 +135,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": str(item.fill.color_space.name),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": str(item.stroke.color_space.name),
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 8e3e6a51b5ba48c316a473a42bc3ec7f169b1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 064/113] fix: font descriptor entries neither replace the text
 nor need names in UTF-8

---
 pdfmajor/converters/json.py                               | 8 +++++---
 pdfmajor/converters/xml.py                                | 3 ++-
 pdfmajor/converters/yaml.py                               | 8 +++++---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 2 ++
 pdfmajor/utils/text.py                                    | 4 ++++
 5 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 63f296a..1e2cf70 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -7,6 +7,7 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
+from ..utils import to_text
 
 def normalize_color_values(values: list):
     ret = []
@@ -102,15 +103,16 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
             "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            json.string(key, value)
     json.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        key = to_text(key)
+        if key != "Type" and "FontFile" not in key:
+            json.string(key, value)
 
 def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("x0", item.x0)
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..1ddc63f 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -9,7 +9,7 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
+from ..utils import enc, to_text
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
@@ -117,6 +117,7 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         **get_color(char_block.color, codec=xml.codec),
     }
     for key, value in char_block.font.descriptor.items():
+        key = to_text(key)
         if key != "Type" and "FontFile" not in key:
             attr[convert_capcase_to_snakecase(key)] = value
     with xml.elm("char-block", attr):
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 1ffb226..9691e41 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -7,6 +7,7 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
+from ..utils import to_text
 
 def normalize_color_values(values: list):
     ret = []
@@ -102,15 +103,16 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
     yaml.write("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        key = to_text(key)
+        if key != "Type" and "FontFile" not in key:
+            yaml.write(key, value)
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..fa78296 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -14,6 +14,7 @@ from pdfmajor.parser.PDFStream import list_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.cmapdb import FileUnicodeMap
 from pdfmajor.parser.cmapdb import CMapParser
+from pdfmajor.utils import to_text
 
 
 ##  Literals
@@ -30,6 +31,7 @@ class PDFFont(object):
         self.fontname = resolve1(descriptor.get('FontName', 'unknown'))
         if isinstance(self.fontname, PSLiteral):
             self.fontname = literal_name(self.fontname)
+        self.fontname = to_text(self.fontname)
         self.flags = int_value(descriptor.get('Flags', 0))
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
diff --git a/pdfmajor/utils/text.py b/pdfmajor/utils/text.py
index 2e3b4a1..9761177 100644
--- a/pdfmajor/utils/text.py
+++ b/pdfmajor/utils/text.py
@@ -41,6 +41,10 @@ def decode_text(s):
     else:
         return ''.join(PDFDocEncoding[c] for c in s)
 
+def to_text(name):
+    """A name as text, also if it is no UTF-8."""
+    return name.decode('latin-1') if isinstance(name, bytes) else str(name)
+
 def enc(x, codec='ascii'):
     """Encodes a string for SGML/XML/HTML"""
     if isinstance(x, bytes):
-- 
2.43.0


From 45c93707b1dfe5c42e24fe9c35c1ad0a08a9f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 065/113] fix: images and forms are named the same in every run

---
 .../interpreter/commands/state/layout/__init__.py    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index d9a79c9..449528f 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -1,3 +1,4 @@
+from hashlib import md5
 from typing import List
 from pdfmajor.utils import apply_matrix_pt, INF, Bbox, Point, MATRIX_IDENTITY, mult_matrix
 
@@ -100,10 +101,17 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         fill=gstate.ncolor
     )
 
+def stream_name(stream):
+    # a name that identifies the stream and is the same in every run
+    if stream.objid is not None:
+        return 'obj%d' % stream.objid
+    content = stream.data if stream.rawdata is None else stream.rawdata
+    return 'inline-' + md5(repr(stream.attrs).encode('utf-8', 'backslashreplace') + content).hexdigest()
+
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
     return LTImage(
-        name=str(id(obj)),
+        name=stream_name(obj),
         stream=obj,
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
@@ -117,7 +125,7 @@ def make_xobject(obj, bbox, ctm, matrix, resources):
     (x0, y0, x1, y1) = bbox
     matrix = mult_matrix(matrix, ctm)
     return LTXObject(
-        name=str(id(obj)),
+        name=stream_name(obj),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
             for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
-- 
2.43.0


From c6f685dd4b29bdab33aa087dc21925811d1b2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 066/113] fix: text, attributes and descriptor entries are
 written as well-formed XML

---
 pdfmajor/converters/writers/xml.py |  9 +++++----
 pdfmajor/converters/xml.py         | 19 +++++++++++--------
 pdfmajor/utils/text.py             | 16 ++++++++++++++++
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..8e9741f 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,6 +1,7 @@
 from io import TextIOWrapper
 from contextlib import contextmanager
 from pdfmajor.execptions import FileAccessException
+from pdfmajor.utils import markup_text
 
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
@@ -10,9 +11,9 @@ class XMLMaker:
     def __enter__(self):
         self.outfile = open(self.file_path, 'wb')
         if self.codec:
-            self.write_raw(f'<?xml version="1.0.0" encoding="{self.codec}" ?>')
+            self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
-            self.write_raw(f'<?xml version="1.0.0" ?>')
+            self.write_raw(f'<?xml version="1.0" ?>')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -22,7 +23,7 @@ class XMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -41,7 +42,7 @@ class XMLMaker:
         if attrs is None:
             attrs = {}
         attrs = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{markup_text(value, attribute=True)}"'
             for name, value in attrs.items()
         ])
         if not singleton:
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 1ddc63f..5b0eb4c 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -1,6 +1,5 @@
 import re
 from typing import List
-from xml.sax import saxutils
 
 from .writers.xml import XMLMaker
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
@@ -9,7 +8,7 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc, to_text
+from ..utils import markup_text, to_text
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
@@ -17,21 +16,25 @@ def convert_capcase_to_snakecase(text: str) -> str:
     s1 = FIRST_CAP_RE.sub(r'\1-\2', text)
     return ALL_CAP_RE.sub(r'\1-\2', s1).lower()
 
+def convert_key_to_name(key: str) -> str:
+    name = re.sub(r'[^A-Za-z0-9_.-]', '_', convert_capcase_to_snakecase(key))
+    return name if re.match(r'(?!xml)[A-Za-z_]', name) else '_' + name
+
 def normalize_color_values(values: list):
     ret = ""
     for i,v in enumerate(values):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": col.color_space.name,
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -82,7 +85,7 @@ def render_page(xml: XMLMaker, ltpage: PageInterpreter):
             # if xml.imagewriter is not None:
             #     name = xml.imagewriter.export_image(item)
             xml.singleton('img', attrs={
-                'src': enc(name, None),
+                'src': name,
                 "x0": item.x0,
                 "x1": item.x1,
                 "y0": item.y0,
@@ -105,7 +108,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(markup_text(char.get_text()), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
@@ -119,7 +122,7 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     for key, value in char_block.font.descriptor.items():
         key = to_text(key)
         if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+            attr.setdefault(convert_key_to_name(key), value)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
diff --git a/pdfmajor/utils/text.py b/pdfmajor/utils/text.py
index 9761177..1dfceea 100644
--- a/pdfmajor/utils/text.py
+++ b/pdfmajor/utils/text.py
@@ -1,3 +1,11 @@
+import re
+
+# characters that neither XML nor character references can hold
+XML_ILLEGAL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]')
+# nor HTML, where some characters turn into others
+HTML_ILLEGAL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\ud800-\udfff\ufdd0-\ufdef\ufffe\uffff%s]' %
+    ''.join(chr(p * 0x10000 + c) for p in range(1, 17) for c in (0xfffe, 0xffff)))
+
 # decode_text
 PDFDocEncoding = ''.join(chr(x) for x in (
     0x0000, 0x0001, 0x0002, 0x0003, 0x0004, 0x0005, 0x0006, 0x0007,
@@ -54,6 +62,14 @@ def enc(x, codec='ascii'):
         x = x.encode(codec, 'xmlcharrefreplace')
     return x
     
+def markup_text(x, attribute=False, html=False):
+    """A string as character data of XML or HTML."""
+    x = (HTML_ILLEGAL if html else XML_ILLEGAL).sub('\ufffd', str(x))
+    x = x.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace('\r', '&#13;')
+    if attribute:
+        x = x.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
+    return x
+
 def vecBetweenBoxes(obj1, obj2):
     """A distance function between two TextBoxes.
 
-- 
2.43.0


From d068fbb35d92df60af15ab75679755a875ac9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 067/113] fix: text and attributes are escaped in HTML

---
 pdfmajor/converters/html.py         | 3 ++-
 pdfmajor/converters/writers/html.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..694df37 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -4,6 +4,7 @@ from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands.state import CurvePath, PDFColor
+from ..utils import markup_text
 
 INF = (1<<31) - 1
 
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(markup_text(item.get_text(), html=True))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..8a86efa 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -3,6 +3,7 @@ from io import TextIOWrapper
 from contextlib import contextmanager
 
 from pdfmajor.execptions import FileAccessException
+from pdfmajor.utils import markup_text
 
 class HTMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
@@ -21,7 +22,7 @@ class HTMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -45,7 +46,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{markup_text(value, attribute=True, html=True)}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From 0d637ff6068adc91c589e1e06fae975b5357223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 068/113] fix: paths without extent and colours without
 components are written to HTML

---
 pdfmajor/converters/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 694df37..49395fe 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -122,7 +122,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
 def get_color(col: PDFColor, default: str = ""):
     if col.color_space is not None:
         if col.color_space.ncomponents == 1:
-            if type(col.values[0]) in [float, int]:
+            if len(col.values) > 0 and type(col.values[0]) in [float, int]:
                 return f"rgba(0,0,0,{1 - float(col.values[0])})"
         elif col.color_space.ncomponents == 3:
             return f"rgb({','.join(map(str, col.values))})"
@@ -174,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
-- 
2.43.0


From 9f90db6f1cac87d1d78ca981a878986c23356163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 069/113] fix: YAML strings are quoted, empty and repeated
 containers are written, whatever they hold

---
 pdfmajor/converters/writers/yaml.py | 139 ++++++++++++++++++----------
 pdfmajor/converters/yaml.py         |   2 +-
 2 files changed, 92 insertions(+), 49 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..d6eaa24 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -1,8 +1,60 @@
-from json import dumps as json_dump
-from io import TextIOWrapper
+import re
+from io import BytesIO, TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+# strings that every reader takes for strings as they are
+PLAIN_WORD = re.compile(r'(?!(?:null|true|false|yes|no|on|off|y|n)\Z)[a-z][a-z0-9_-]*\Z', re.IGNORECASE | re.ASCII)
+PLAIN_NUMBER = re.compile(r'(?:0|[1-9][0-9]*)\Z', re.ASCII)
+# characters that a quoted string does not show
+SPECIAL = re.compile('[^\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]')
+
+def escape_char(match) -> str:
+    code = ord(match.group())
+    if code < 0x100:
+        return '\\x%02x' % code
+    return '\\u%04x' % code if code < 0x10000 else '\\U%08x' % code
+
+def quote(text: str, codec: str, quotes: str = '"') -> str:
+    try:
+        text.encode(codec or 'utf-8')
+        special = SPECIAL
+    except UnicodeEncodeError:
+        # not every character can be written as it is
+        special = re.compile('[^\x20-\x7e]')
+    if quotes == "'" and special.search(text) is None:
+        return "'" + text.replace("'", "''") + "'"
+    text = text.replace('\\', '\\\\').replace('"', '\\"')
+    return '"' + special.sub(escape_char, text) + '"'
+
+def string_to_yaml(text: str, codec: str) -> str:
+    return text if PLAIN_WORD.match(text) else quote(text, codec)
+
+def to_yaml(val, codec: str, in_flow: bool = False) -> str:
+    if val is None:
+        return 'null'
+    elif isinstance(val, bool):
+        return 'true' if val else 'false'
+    elif isinstance(val, int):
+        return str(val)
+    elif isinstance(val, float):
+        text = repr(val)
+        if 'n' in text:
+            return re.sub(r'(inf|nan)', r'.\1', text)
+        # numbers with an exponent need a point
+        return re.sub(r'^(-?\d+)e', r'\1.0e', text)
+    elif isinstance(val, (list, tuple)):
+        return '[' + ', '.join(to_yaml(item, codec, True) for item in val) + ']'
+    elif isinstance(val, dict):
+        return '{' + ', '.join(
+            f'{quote(str(key), codec)}: {to_yaml(item, codec, True)}' for key, item in val.items()
+        ) + '}'
+    elif in_flow:
+        return quote(str(val), codec, "'")
+    elif PLAIN_NUMBER.match(str(val)):
+        return str(val)
+    return string_to_yaml(str(val), codec)
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -10,18 +62,23 @@ def YAMLMaker(file_path: str, codec: str = 'utf-8'):
             yield obj
 
 class YAMLMakerWriter:
-    def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1):
+    EMPTY = ''
+
+    def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1, parent_is_array: bool = False):
         self.outfile: TextIOWrapper = outfile
         self.codec = codec
         self.levels_deep = levels_deep
+        self.parent_is_array = parent_is_array
+        self.is_empty = True
 
     def __enter__(self):
-        if self.levels_deep > 0:
-            self.__write_raw('')
         self.levels_deep += 1
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        if self.is_empty:
+            inline = self.levels_deep == 0 or self.parent_is_array
+            self.__write_raw(self.EMPTY if inline else ' ' + self.EMPTY)
         self.levels_deep -= 1
     
     def __write_raw(self, text):
@@ -32,48 +89,45 @@ class YAMLMakerWriter:
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
     
-    def _write(self, text: str, append_deep: bool = True, deep_space: str = '  ', prefix:str = ''):
-        if not append_deep:
-            deep_space = ""
-        text = prefix + (deep_space*self.levels_deep) + text
-        self.__write_raw(text)
+    def _write(self, text: str, deep_space: str = '  '):
+        "Writes an item on a line of its own, or after the dash if it is the first one."
+        if self.is_empty and (self.levels_deep == 0 or self.parent_is_array):
+            self.__write_raw(text)
+        else:
+            self.__write_raw('\n' + deep_space*self.levels_deep + text)
+        self.is_empty = False
 
 class YAMLMakerObject(YAMLMakerWriter):
+    EMPTY = '{}'
+
     def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1, parent_is_array: bool = False):
-        YAMLMakerWriter.__init__(self, outfile, codec, levels_deep)
+        YAMLMakerWriter.__init__(self, outfile, codec, levels_deep, parent_is_array)
         self.keys = set()
-        self.parent_is_array = parent_is_array
+
+    def write_key(self, key: str, val: str = '') -> bool:
+        "Writes the entry unless there is one of this name, and returns whether it did."
+        if key in self.keys:
+            return False
+        self.keys.add(key)
+        self._write(f'{string_to_yaml(key, self.codec)}:{val}')
+        return True
 
     def write(self, key: str, value: str):
-        if key not in self.keys:
-            self.keys.add(key)
-            if len(self.keys) > 1:
-                self._write(f'{key}: {value}', prefix='\n')
-            else:
-                self._write(f'{key}: {value}', prefix='', 
-                    append_deep=not self.parent_is_array
-                )
+        self.write_key(key, ' ' + to_yaml(value, self.codec))
+    
+    def string(self, key: str, value: str):
+        self.write_key(key, ' ' + string_to_yaml(str(value), self.codec))
     
     @contextmanager
     def object(self, key: str):
-        if key not in self.keys:
-            self.keys.add(key)
-        if len(self.keys) > 1:
-            self._write(f'{key}:\n', prefix='\n')
-        else:
-            self._write(f'{key}:\n', prefix='', append_deep=False)
-        with YAMLMakerObject(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
+        outfile = self.outfile if self.write_key(key) else BytesIO()
+        with YAMLMakerObject(outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
             yield obj
     
     @contextmanager
     def array(self, key: str):
-        if key not in self.keys:
-            self.keys.add(key)
-        if len(self.keys) > 1:
-            self._write(f'{key}:\n', prefix='\n')
-        else:
-            self._write(f'{key}:\n', prefix='')
-        with YAMLMakerArray(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
+        outfile = self.outfile if self.write_key(key) else BytesIO()
+        with YAMLMakerArray(outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
             yield obj
     
     def place_object(self, key: str, obj: dict):
@@ -88,24 +142,14 @@ class YAMLMakerObject(YAMLMakerWriter):
 
 
 class YAMLMakerArray(YAMLMakerWriter):
-    def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1):
-        YAMLMakerWriter.__init__(self, outfile, codec, levels_deep)
-        self.childrencount = 0 
+    EMPTY = '[]'
  
     def write(self, value: str = ""):
-        self.childrencount += 1
-        if self.childrencount > 1:
-            self._write(f'- {value}', prefix='\n')
-        else:
-            self._write(f'- {value}', prefix='')
+        self._write('- ' + to_yaml(value, self.codec))
     
     @contextmanager
     def object(self):
-        self.childrencount += 1
-        if self.childrencount > 1:
-            self._write(f'- ', prefix='\n')
-        else:
-            self._write(f'- ', prefix='')
+        self._write('- ')
         with YAMLMakerObject(self.outfile, codec=self.codec, levels_deep=self.levels_deep, parent_is_array=True) as obj:
             yield obj
     
@@ -114,4 +158,3 @@ class YAMLMakerArray(YAMLMakerWriter):
             for key, val in obj.items():
                 child.write(key, val)   
 
-    
\ No newline at end of file
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9691e41..932e336 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -103,7 +103,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    yaml.write("text", 
+    yaml.string("text", 
         "".join([
             char.get_text()
             for char in char_block
-- 
2.43.0


From 2715287a3a2f212b2c79bd63caab656182638d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 070/113] fix: curves with two points are part of HTML paths

---
 pdfmajor/converters/html.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 49395fe..67b68e5 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -203,6 +203,7 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    start = current = None
     for p in item.paths:
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
@@ -212,6 +213,21 @@ def create_svg_path(item: LTCurve):
             path += 'Z'
         elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
             path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        elif p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            # starts at the current point
+            points = (current or p.points[0], *p.points)
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            # ends at its last control point
+            points = (*p.points, p.points[-1])
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+
+        if p.method == CurvePath.METHOD.MOVE_TO:
+            start = current = p.points[-1]
+        elif p.method == CurvePath.METHOD.CLOSE_PATH:
+            current = start
+        else:
+            current = p.points[-1]
     
     return path, svg_attr
 
-- 
2.43.0


From 9adc25aded4fbd07263e956e45a7fcee788a69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 071/113] fix: glyph names uniXXXX and uXXXX are hexadecimal,
 and any other name is understood or passed over

---
 pdfmajor/utils/encoding/__init__.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..b4dde04 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,15 +3,42 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+UNI_NAME = re.compile(r'uni((?:[0-9A-Fa-f]{4})+)\Z')
+U_NAME = re.compile(r'u([0-9A-Fa-f]{4,6})\Z')
+
+def to_character(code):
+    if code > 0x10ffff or 0xd800 <= code < 0xe000:
+        raise KeyError(code)
+    return chr(code)
+
+def component2unicode(name):
+    if name in glyphname2unicode:
+        return glyphname2unicode[name]
+    m = UNI_NAME.match(name)
+    if m:
+        digits = m.group(1)
+        return ''.join(to_character(int(digits[i:i+4], 16)) for i in range(0, len(digits), 4))
+    m = U_NAME.match(name)
+    if m:
+        return to_character(int(m.group(1), 16))
+    raise KeyError(name)
 
 ##  name2unicode
 ##
 def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
+    if not isinstance(name, str):
+        # not even a name in UTF-8
+        raise KeyError(name)
     if name in glyphname2unicode:
         return glyphname2unicode[name]
+    try:
+        # a variant (after the dot) of one character or more
+        return ''.join(map(component2unicode, name.split('.')[0].split('_')))
+    except KeyError:
+        pass
     m = STRIP_NAME.search(name)
     if not m:
         raise KeyError(name)
-    return chr(int(m.group(0)))
+    return to_character(int(m.group(0)))
 
-- 
2.43.0


From 6d0674d04f676d6f663cc99dbf4c62dbbb137d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 072/113] fix: base encodings and differences may be indirect
 objects

---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 pdfmajor/parser/EncodingDB.py                                   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index fa78296..3610e31 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -116,7 +116,7 @@ class PDFSimpleFont(PDFFont):
         else:
             encoding = LITERAL_STANDARD_ENCODING
         if isinstance(encoding, dict):
-            name = literal_name(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING))
+            name = literal_name(resolve1(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING)))
             diff = list_value(encoding.get('Differences', []))
             self.cid2unicode = EncodingDB.get_encoding(name, diff)
         else:
diff --git a/pdfmajor/parser/EncodingDB.py b/pdfmajor/parser/EncodingDB.py
index db42f9d..3bdd7b9 100644
--- a/pdfmajor/parser/EncodingDB.py
+++ b/pdfmajor/parser/EncodingDB.py
@@ -1,5 +1,6 @@
 from ..utils import LATIN_ENCODING, name2unicode
 from .PSStackParser import PSLiteral
+from .PDFStream import resolve1
 
 class EncodingDB(object):
 
@@ -32,6 +33,7 @@ class EncodingDB(object):
             cid2unicode = cid2unicode.copy()
             cid = 0
             for x in diff:
+                x = resolve1(x)
                 if isinstance(x, int):
                     cid = x
                 elif isinstance(x, PSLiteral):
-- 
2.43.0


From cdefcb003b3ec3ebfd870d4ffa95dece38eab55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 073/113] fix: bfrange entries with short arrays or odd
 destinations do not stop the ToUnicode map

---
 pdfmajor/parser/cmapdb/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..c00392f 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -380,15 +380,15 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
-                else:
+                    for (i, x) in zip(range(e1-s1+1), code):
+                        self.cmap.add_cid2unichr(s1+i, x)
+                elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
                     for i in range(e1-s1+1):
-                        x = prefix+struct.pack('>L', base+i)[-vlen:]
+                        x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
 
-- 
2.43.0


From 9dd16d03f3d2189c2677d89d33b1389ce7ace0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 074/113] fix: code 173 of WinAnsiEncoding is a hyphen

---
 pdfmajor/utils/encoding/latin_enc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..a5126b3 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -214,7 +214,7 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
+  ('hyphen', None, None, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From 5af5cfc1a0dcb09d8bad8b56f2196e6393cc5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 075/113] fix: widths may be indirect objects, and fonts
 without Widths have their missing width

---
 .../commands/state/PDFTextState/PDFFont/fonts.py     | 12 ++++++------
 .../commands/state/PDFTextState/PDFFont/util.py      |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..bfb7984 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -33,8 +33,8 @@ class PDFType1Font(PDFSimpleFont):
             descriptor = dict_value(spec.get('FontDescriptor', {}))
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', [0]*256))
-            widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+            widths = list_value(spec.get('Widths', []))
+            widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
@@ -62,8 +62,8 @@ class PDFType3Font(PDFSimpleFont):
     def __init__(self, spec):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
-        widths = list_value(spec.get('Widths', [0]*256))
-        widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+        widths = list_value(spec.get('Widths', []))
+        widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
         else:
@@ -137,7 +137,7 @@ class PDFCIDFont(PDFFont):
             # writing mode: vertical
             widths = get_widths2(list_value(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = map(num_value, list_value(spec.get('DW2', [880, -1000])))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -146,7 +146,7 @@ class PDFCIDFont(PDFFont):
             self.disps = {}
             self.default_disp = 0
             widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..a6a2c82 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,14 +1,15 @@
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
+from pdfmajor.parser.PDFStream import resolve1
 
 
 def get_widths(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, w) in enumerate(v):
+                for (i, w) in enumerate(map(resolve1, v)):
                     widths[char1+i] = w
                 r = []
         elif isnumber(v):
@@ -26,11 +27,11 @@ assert get_widths([1,[2,3],6,[7,8]]) == {1:2,2:3, 6:7,7:8}
 def get_widths2(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, (w, vx, vy)) in enumerate(choplist(3, v)):
+                for (i, (w, vx, vy)) in enumerate(choplist(3, map(resolve1, v))):
                     widths[char1+i] = (w, (vx, vy))
                 r = []
         elif isnumber(v):
-- 
2.43.0


From 74f10be3dd94bbfef9a40ccf8b52f116323bc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 076/113] fix: a default width of zero is not the missing width

---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 3610e31..fa4c8f3 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
         self.hscale = self.vscale = .001
-- 
2.43.0


From 9a72fed1d885978f050f3b95784987c7b211cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 077/113] fix: the widths and descriptor of a font come before
 those of the standard font of its name

---
 .../commands/state/PDFTextState/PDFFont/fonts.py           | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index bfb7984..4025d99 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -30,10 +30,13 @@ class PDFType1Font(PDFSimpleFont):
         try:
             (descriptor, widths) = FontMetricsDB.get_metrics(self.basefont)
         except KeyError:
-            descriptor = dict_value(spec.get('FontDescriptor', {}))
+            (descriptor, widths) = ({}, {})
+        if 'FontDescriptor' in spec:
+            descriptor = dict_value(spec['FontDescriptor'])
+        if 'Widths' in spec:
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', []))
+            widths = list_value(spec['Widths'])
             widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
-- 
2.43.0


From 7e71eac4c657b9113b4efad54816a05251149878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 078/113] fix: the widths of standard fonts do not depend on
 the ToUnicode map

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index fa4c8f3..177dcbc 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -139,3 +139,10 @@ class PDFSimpleFont(PDFFont):
             return self.cid2unicode[cid]
         except KeyError:
             raise UnicodeNotDefined(None, cid)
+
+    def char_width(self, cid):
+        # the metrics of the standard fonts are by glyph, whatever text it stands for
+        glyph = self.cid2unicode.get(cid)
+        if cid not in self.widths and glyph in self.widths:
+            return self.widths[glyph] * self.hscale
+        return PDFFont.char_width(self, cid)
-- 
2.43.0


From 873feb9cd101c4946d236c77eb55233d197d2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 079/113] fix: an incomplete last code of an identity map is
 dropped

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index c00392f..e8d9017 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,7 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            return struct.unpack('>%dH' % n, code[:2*n])
         else:
             return ()
 
-- 
2.43.0


From a8872bf524c7971f7c394a3390b5b5c3739f73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 080/113] fix: CMaps embedded in the document are read

---
 .../state/PDFTextState/PDFFont/fonts.py       | 13 +++++---
 pdfmajor/parser/cmapdb/__init__.py            | 31 ++++++++++---------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 4025d99..5f9a9b2 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -9,7 +9,7 @@ from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.PDFStream import resolve1
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
-from pdfmajor.parser.cmapdb import FileUnicodeMap
+from pdfmajor.parser.cmapdb import FileCMap, FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
 
 from .PDFFont import PDFFont, PDFSimpleFont
@@ -96,13 +96,18 @@ class PDFCIDFont(PDFFont):
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
         try:
-            name = literal_name(spec['Encoding'])
+            encoding = resolve1(spec['Encoding'])
         except KeyError:
             if strict:
                 raise FontError('Encoding is unspecified')
-            name = 'unknown'
+            encoding = 'unknown'
         try:
-            self.cmap = CMapDB.get_cmap(name)
+            if isinstance(encoding, PDFStream):
+                # a CMap of the document
+                self.cmap = FileCMap(WMode=int_value(encoding.get('WMode', 0)))
+                CMapParser(self.cmap, BytesIO(encoding.get_data())).run()
+            else:
+                self.cmap = CMapDB.get_cmap(str(literal_name(encoding)))
         except CMapNotFound as e:
             if strict:
                 raise FontError(e)
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index e8d9017..e540e03 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -74,10 +74,14 @@ class CMap(CMapBase):
         return '<CMap: %s>' % self.attrs.get('CMapName')
 
     def use_cmap(self, cmap):
+        if isinstance(cmap, IdentityCMap):
+            for i in range(256):
+                self.code2cid[i] = dict((j, i*256+j) for j in range(256))
+            return
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
@@ -104,7 +108,7 @@ class CMap(CMapBase):
         if code2cid is None:
             code2cid = self.code2cid
             code = ()
-        for (k, v) in sorted(code2cid.iteritems()):
+        for (k, v) in sorted(code2cid.items()):
             c = code+(k,)
             if isinstance(v, int):
                 out.write('code %r = cid %d\n' % (c, v))
@@ -152,18 +156,17 @@ class UnicodeMap(CMapBase):
 class FileCMap(CMap):
 
     def add_code2cid(self, code, cid):
-        assert isinstance(code, str) and isinstance(cid, int), str((type(code), type(cid)))
+        assert isinstance(code, bytes) and isinstance(cid, int), str((type(code), type(cid)))
+        if not code:
+            return
         d = self.code2cid
         for c in code[:-1]:
-            c = ord(c)
-            if c in d:
-                d = d[c]
-            else:
+            t = d.get(c)
+            if not isinstance(t, dict):
                 t = {}
                 d[c] = t
-                d = t
-        c = ord(code[-1])
-        d[c] = cid
+            d = t
+        d[code[-1]] = cid
         return
 
 
@@ -339,7 +342,7 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDRANGE:
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
-                if (not isinstance(s, str) or not isinstance(e, str) or
+                if (not isinstance(s, bytes) or not isinstance(e, bytes) or
                    not isinstance(cid, int) or len(s) != len(e)):
                     continue
                 sprefix = s[:-4]
@@ -362,9 +365,9 @@ class CMapParser(PSStackParser):
             return
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
-            for (cid, code) in choplist(2, objs):
-                if isinstance(code, str) and isinstance(cid, str):
-                    self.cmap.add_code2cid(code, nunpack(cid))
+            for (code, cid) in choplist(2, objs):
+                if isinstance(code, bytes) and isinstance(cid, int):
+                    self.cmap.add_code2cid(code, cid)
             return
 
         if token is self.KEYWORD_BEGINBFRANGE:
-- 
2.43.0


From ba4db508b5beeff291dcb88824b2ccdc7e81e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 081/113] fix: text of embedded TrueType fonts without a
 ToUnicode map is found by their cmap table

---
 .../PDFTextState/PDFFont/TrueTypeFont.py      | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 55548a9..97bc459 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -23,22 +23,28 @@ class TrueTypeFont(object):
         return
 
     def create_unicode_map(self):
-        if 'cmap' not in self.tables:
+        if b'cmap' not in self.tables:
             raise CMapNotFound
-        (base_offset, _) = self.tables['cmap']
+        (base_offset, _) = self.tables[b'cmap']
         fp = self.fp
         fp.seek(base_offset)
         (_, nsubtables) = struct.unpack('>HH', fp.read(4))
         subtables = []
         for i in range(nsubtables):
             subtables.append(struct.unpack('>HHL', fp.read(8)))
+        # those of Unicode characters, if there are any
+        subtables = [x for x in subtables if x[0] == 0 or x[:2] == (3, 1)] or subtables
         char2gid = {}
         # Only supports subtable type 0, 2 and 4.
-        for (_1, _2, st_offset) in subtables:
+        for (platform, _2, st_offset) in subtables:
             fp.seek(base_offset+st_offset)
             (fmttype, _, _) = struct.unpack('>HHH', fp.read(6))
             if fmttype == 0:
-                char2gid.update(enumerate(struct.unpack('>256B', fp.read(256))))
+                gids = struct.unpack('>256B', fp.read(256))
+                if platform == 1:
+                    char2gid.update((ord(bytes((c,)).decode('mac_roman')), gid) for (c, gid) in enumerate(gids))
+                else:
+                    char2gid.update(enumerate(gids))
             elif fmttype == 2:
                 subheaderkeys = struct.unpack('>256H', fp.read(512))
                 firstbytes = [0]*8192
@@ -55,9 +61,9 @@ class TrueTypeFont(object):
                     first = firstcode + (firstbytes[i] << 8)
                     fp.seek(pos)
                     for c in range(entcount):
-                        gid = struct.unpack('>H', fp.read(2))
+                        (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
-                            gid += delta
+                            gid = (gid + delta) & 0xffff
                         char2gid[first+c] = gid
             elif fmttype == 4:
                 (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
@@ -68,19 +74,23 @@ class TrueTypeFont(object):
                 idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
                 pos = fp.tell()
                 idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                for (ec, sc, idd, idr) in zip(ecs, scs, idds, idrs):
+                for (i, (ec, sc, idd, idr)) in enumerate(zip(ecs, scs, idds, idrs)):
                     if idr:
-                        fp.seek(pos+idr)
+                        # counted from where it is written
+                        fp.seek(pos+2*i+idr)
                         for c in range(sc, ec+1):
-                            char2gid[c] = (struct.unpack('>H', fp.read(2))[0] + idd) & 0xffff
+                            (gid,) = struct.unpack('>H', fp.read(2))
+                            if gid:
+                                gid = (gid + idd) & 0xffff
+                            char2gid[c] = gid
                     else:
                         for c in range(sc, ec+1):
                             char2gid[c] = (c + idd) & 0xffff
-            else:
-                assert False, str(('Unhandled', fmttype))
         # create unicode map
         unicode_map = FileUnicodeMap()
         for (char, gid) in char2gid.items():
-            unicode_map.add_cid2unichr(gid, char)
+            # glyph 0 is that of missing characters
+            if gid:
+                unicode_map.add_cid2unichr(gid, char)
         return unicode_map
 
-- 
2.43.0


From 763e5ba41c263c7a12d907ddc84f952ff6cfb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 082/113] fix: a ToUnicode map is looked up by the character
 code, whatever the CMap

---
 .../state/PDFTextState/PDFFont/PDFFont.py         |  8 ++++++--
 .../commands/state/PDFTextState/PDFFont/fonts.py  | 11 +++++++++--
 .../commands/state/PDFTextState/__init__.py       |  4 ++--
 .../commands/state/layout/utils/textdecoder.py    |  4 ++--
 pdfmajor/parser/cmapdb/__init__.py                | 15 ++++++++++++++-
 5 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 177dcbc..f3c8232 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -54,6 +54,10 @@ class PDFFont(object):
     def decode(self, bytes):
         return bytearray(bytes)  # map(ord, bytes)
 
+    def decode_codes(self, bytes):
+        """pairs of the character codes and the CIDs they select"""
+        return ((cid, cid) for cid in self.decode(bytes))
+
     def get_ascent(self):
         return self.ascent * self.vscale
 
@@ -88,7 +92,7 @@ class PDFFont(object):
         return sum(self.char_width(cid) for cid in self.decode(s))
 
     @abstractmethod
-    def to_unichr(self, cid):
+    def to_unichr(self, cid, code=None):
         raise NotImplementedError
     
     @property
@@ -129,7 +133,7 @@ class PDFSimpleFont(PDFFont):
         PDFFont.__init__(self, descriptor, widths)
         return
 
-    def to_unichr(self, cid):
+    def to_unichr(self, cid, code=None):
         if self.unicode_map:
             try:
                 return self.unicode_map.get_unichr(cid)
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 5f9a9b2..1d242a0 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -124,7 +124,9 @@ class PDFCIDFont(PDFFont):
             ttf = TrueTypeFont(self.basefont,
                                BytesIO(self.fontfile.get_data()))
         self.unicode_map = None
-        if 'ToUnicode' in spec:
+        # a ToUnicode map is by character code, the others are by CID
+        self.unicode_by_code = 'ToUnicode' in spec
+        if self.unicode_by_code:
             strm = PDFStream.validated_stream(spec['ToUnicode'])
             self.unicode_map = FileUnicodeMap()
             CMapParser(self.unicode_map, BytesIO(strm.get_data())).run()
@@ -170,14 +172,19 @@ class PDFCIDFont(PDFFont):
     def decode(self, bytes):
         return self.cmap.decode(bytes)
 
+    def decode_codes(self, bytes):
+        return self.cmap.decode_codes(bytes)
+
     def char_disp(self, cid):
         "Returns an integer for horizontal fonts, a tuple for vertical fonts."
         return self.disps.get(cid, self.default_disp)
 
-    def to_unichr(self, cid):
+    def to_unichr(self, cid, code=None):
         try:
             if not self.unicode_map:
                 raise KeyError(cid)
+            if self.unicode_by_code and code is not None:
+                return self.unicode_map.get_unichr(code)
             return self.unicode_map.get_unichr(cid)
         except KeyError:
             raise UnicodeNotDefined(self.cidcoding, cid)
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
index bdc3811..3764b6d 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
@@ -27,11 +27,11 @@ class PDFTextState(object):
                  self.scaling, self.leading, self.render, self.rise,
                  self.matrix, self.linematrix, self.ignore_bad_chars))
     
-    def to_unichr(self, cid: int) -> str:
+    def to_unichr(self, cid: int, code: int = None) -> str:
         if self.font is None:
             raise MissingFont
         try:
-            return self.font.to_unichr(cid)
+            return self.font.to_unichr(cid, code)
         except UnicodeNotDefined as e:
             if self.ignore_bad_chars:
                 return ""
diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 409c65f..d2589d8 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -27,8 +27,8 @@ def __render_string_along(idx: int, seq: bytearray,
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
         else:
-            for cid in textstate.font.decode(obj):
-                text = textstate.to_unichr(cid)
+            for (code, cid) in textstate.font.decode_codes(obj):
+                text = textstate.to_unichr(cid, code)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index e540e03..19ad1a3 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -92,16 +92,26 @@ class CMap(CMapBase):
         return
 
     def decode(self, code):
+        for (_, cid) in self.decode_codes(code):
+            yield cid
+        return
+
+    def decode_codes(self, code):
+        """pairs of the character codes and the CIDs they select"""
         log.debug('decode: %r, %r', self, code)
         d = self.code2cid
+        n = 0
         for i in iter(code):
             if i in d:
                 d = d[i]
+                n = n*256+i
                 if isinstance(d, int):
-                    yield d
+                    yield (n, d)
                     d = self.code2cid
+                    n = 0
             else:
                 d = self.code2cid
+                n = 0
         return
 
     def dump(self, out=sys.stdout, code2cid=None, code=None):
@@ -128,6 +138,9 @@ class IdentityCMap(CMapBase):
         else:
             return ()
 
+    def decode_codes(self, code):
+        return ((cid, cid) for cid in self.decode(code))
+
 
 ##  UnicodeMap
 ##
-- 
2.43.0


From 7e1bf135b8a154ac35841d7fa5031ce3a7f3477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 083/113] fix: outlines with many siblings, or that refer to
 themselves, are listed

---
 pdfmajor/parser/PDFDocument/__init__.py | 41 +++++++++++++++----------
 pdfmajor/parser/PDFStream/util.py       |  2 +-
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index a6ec171..e00aa91 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -20,7 +20,7 @@ from pdfmajor.execptions import (
 from ...utils import settings, choplist, decode_text
 from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
-from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
+from ..PDFStream import PDFObjRef, int_value, str_value, dict_value, list_value, decipher_all
 from ..PDFParser import PDFStreamParser, PDFStream
 
 from .PDFSecurityHandler import PDFStandardSecurityHandler
@@ -268,23 +268,30 @@ class PDFDocument(object):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
 
-        def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+        def search(root):
+            # entries still to be visited, the next one last
+            entries = [(root, 0)]
+            visited = set()
+            while entries:
+                (entry, level) = entries.pop()
+                if isinstance(entry, PDFObjRef):
+                    if entry.objid in visited:
+                        continue
+                    visited.add(entry.objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'Next' in entry:
+                    entries.append((entry['Next'], level))
+                if 'First' in entry and 'Last' in entry:
+                    entries.append((entry['First'], level+1))
             return
-        return search(self.catalog['Outlines'], 0)
+        return search(self.catalog['Outlines'])
 
     def lookup_name(self, cat, key):
         try:
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 9b10568..8fb0c11 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -83,7 +83,7 @@ def str_value(x):
     if not isinstance(x, bytes):
         if settings.STRICT:
             raise PDFTypeError('String required: %r' % x)
-        return ''
+        return b''
     return x
 
 
-- 
2.43.0


From fe532d7c0b0ded3662fd6fb594cb411602d2dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 084/113] fix: names that are not in a name tree are reported
 so, and those that are found whatever their value

---
 pdfmajor/parser/PDFDocument/__init__.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e00aa91..5a03b96 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -301,22 +301,27 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
-        def lookup(d):
+        # nodes still to be searched, the next one last
+        nodes = [d0]
+        visited = set()
+        while nodes:
+            d = nodes.pop()
+            if isinstance(d, PDFObjRef):
+                if d.objid in visited:
+                    continue
+                visited.add(d.objid)
+            d = dict_value(d)
             if 'Limits' in d:
-                (k1, k2) = list_value(d['Limits'])
-                if key < k1 or k2 < key:
-                    return None
+                limits = [str_value(k) for k in list_value(d['Limits'])]
+                if len(limits) == 2 and not limits[0] <= key <= limits[1]:
+                    continue
             if 'Names' in d:
-                objs = list_value(d['Names'])
-                names = dict(choplist(2, objs))
-                return names[key]
-            if 'Kids' in d:
-                for c in list_value(d['Kids']):
-                    v = lookup(dict_value(c))
-                    if v:
+                for (k, v) in choplist(2, list_value(d['Names'])):
+                    if str_value(k) == key:
                         return v
-            raise KeyError((cat, key))
-        return lookup(d0)
+            if 'Kids' in d:
+                nodes.extend(reversed(list_value(d['Kids'])))
+        raise KeyError((cat, key))
 
     def get_dest(self, name):
         try:
-- 
2.43.0


From 31a9fc14076d24c63c8472c8849fe9873daebfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 085/113] fix: destinations are found by bytes and by text, in
 name trees and in the old dictionary

---
 pdfmajor/parser/PDFDocument/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 5a03b96..945e4ff 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -301,6 +301,9 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
+        if isinstance(key, str):
+            # names are strings of bytes here
+            key = key.encode('utf-8')
         # nodes still to be searched, the next one last
         nodes = [d0]
         visited = set()
@@ -332,6 +335,12 @@ class PDFDocument(object):
             if 'Dests' not in self.catalog:
                 raise PDFDestinationNotFound(name)
             d0 = dict_value(self.catalog['Dests'])
+            if isinstance(name, bytes):
+                # the keys of dictionaries are text where they can be
+                try:
+                    name = name.decode('utf-8')
+                except UnicodeDecodeError:
+                    pass
             if name not in d0:
                 raise PDFDestinationNotFound(name)
             obj = d0[name]
-- 
2.43.0


From f19f78f78c1ef4798ac9a94bca3fd764796ed3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 086/113] fix: images are exported in their own size, not that
 on the page, and by their colour space

---
 .../commands/state/layout/LTImage.py          | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..df7b0dc 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,14 +5,14 @@ import PIL as pillow
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE, resolve1, int_value
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
 
-LITERAL_DEVICE_GRAY = LIT('DeviceGray')
-LITERAL_DEVICE_RGB = LIT('DeviceRGB')
-LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
+LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
+LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
 
 ##  LTImage
 ##
@@ -22,13 +22,14 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
+        self.colorspace = [resolve1(x) for x in self.colorspace]
         return
 
     def __repr__(self):
@@ -39,14 +40,15 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
-        bits = self.bits
+        # the size in samples, whatever the size on the page
+        (width, height) = map(int_value, self.srcsize)
+        bits = int_value(self.bits)
+        family = self.colorspace[0]
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
-        elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+        elif (bits == 1 and family not in LITERALS_DEVICE_RGB + LITERALS_DEVICE_CMYK or
+                bits == 8 and family in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -60,7 +62,7 @@ class LTImage(LTComponent):
         with open(path, 'wb') as fp:
             if ext == '.jpg':
                 raw_data = stream.get_rawdata()
-                if LITERAL_DEVICE_CMYK in self.colorspace:
+                if family in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
                     i = pillow.Image.open(ifp)
                     i = pillow.ImageChops.invert(i)
@@ -68,12 +70,12 @@ class LTImage(LTComponent):
                     i.save(fp, 'JPEG')
                 else:
                     fp.write(raw_data)
+            elif ext.endswith('.img'):
+                fp.write(stream.get_data())
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif family in LITERALS_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
-                BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
-                fp.write(stream.get_data())
+                BMPWriter.write_all(fp, stream, 8, width, height, width)
         return path
\ No newline at end of file
-- 
2.43.0


From 442a454a6447baa195a0e6fb65b04609aa7eb5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 087/113] fix: bitmaps have the depth, colours and complete
 lines of their image

---
 pdfmajor/BMPWriter/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..58b7dcd 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -12,8 +12,8 @@ def align32(x):
 class BMPWriter(object):
 
     @classmethod
-    def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+    def write_all(cls, fp, stream: PDFStream, bits: int, width: int, height: int, step: int):
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
@@ -56,5 +56,12 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        if self.bits == 24:
+            # samples are in the order blue, green, red
+            line = bytearray(data)
+            n = len(line)//3*3
+            (line[0:n:3], line[2:n:3]) = (line[2:n:3], line[0:n:3])
+            data = bytes(line)
+        # lines are padded, and all there even if their data is not
+        self.fp.write(data.ljust(self.linesize, b'\0'))
         return
-- 
2.43.0


From 2305fb671dd84bbea4d02fa99e51612742f25711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 088/113] fix: JPEG images are written decrypted and without
 their other filters, also after they were read

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index df7b0dc..6ea3f1b 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -45,7 +45,7 @@ class LTImage(LTComponent):
         bits = int_value(self.bits)
         family = self.colorspace[0]
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 and family not in LITERALS_DEVICE_RGB + LITERALS_DEVICE_CMYK or
                 bits == 8 and family in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
@@ -59,19 +59,19 @@ class LTImage(LTComponent):
             file_name += ext
         path = os.path.join(outdir, file_name)
         
+        data = stream.get_data()
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
                 if family in LITERALS_DEVICE_CMYK:
-                    ifp = BytesIO(raw_data)
+                    ifp = BytesIO(data)
                     i = pillow.Image.open(ifp)
                     i = pillow.ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-                    fp.write(raw_data)
+                    fp.write(data)
             elif ext.endswith('.img'):
-                fp.write(stream.get_data())
+                fp.write(data)
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
             elif family in LITERALS_DEVICE_RGB:
-- 
2.43.0


From 24a94d617e6944b3ebe162421be71e645d8b130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 089/113] fix: CMYK JPEG images are exported

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 6ea3f1b..a4e5878 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -64,8 +64,8 @@ class LTImage(LTComponent):
             if ext == '.jpg':
                 if family in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From 83269d2d662df3e724108afffcabc31ece7e07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 090/113] fix: images with several components of one bit are
 not exported as bitmaps of one

---
 .../interpreter/commands/state/layout/LTImage.py    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index a4e5878..08a9f0a 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -13,6 +13,9 @@ from ._base import LTComponent
 LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
 LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
 LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
+LITERALS_SEVERAL_COMPONENTS = LITERALS_DEVICE_RGB + LITERALS_DEVICE_CMYK + (
+    LIT('CalRGB'), LIT('Lab'), LIT('DeviceN'))
+LITERAL_ICC_BASED = LIT('ICCBased')
 
 ##  LTImage
 ##
@@ -37,17 +40,23 @@ class LTImage(LTComponent):
                 (self.__class__.__name__, self.name,
                  str(self.bbox), self.srcsize))
     
+    def has_one_component(self):
+        family = self.colorspace[0] if self.colorspace else None
+        if family is LITERAL_ICC_BASED and len(self.colorspace) > 1:
+            return int_value(PDFStream.validated_stream(self.colorspace[1]).get('N', 1)) == 1
+        return family not in LITERALS_SEVERAL_COMPONENTS
+
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
         # the size in samples, whatever the size on the page
         (width, height) = map(int_value, self.srcsize)
         bits = int_value(self.bits)
-        family = self.colorspace[0]
+        family = self.colorspace[0] if self.colorspace else None
 
         if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
-        elif (bits == 1 and family not in LITERALS_DEVICE_RGB + LITERALS_DEVICE_CMYK or
+        elif (bits == 1 and self.has_one_component() or
                 bits == 8 and family in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
-- 
2.43.0


From 3863ac8a818312ca2a0240f281bd91e78ba0a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 091/113] fix: a reference to object 0 is null

---
 pdfmajor/parser/PDFDocument/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 945e4ff..0164856 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -218,9 +218,11 @@ class PDFDocument(object):
 
     # can raise PDFObjectNotFound
     def getobj(self, objid):
-        assert objid != 0
         if not self.xrefs:
             raise ParserError('PDFDocument is not initialized')
+        if objid == 0:
+            # the head of the free list is never an object
+            raise PDFObjectNotFound(objid)
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
-- 
2.43.0


From cb4bcfff040f49fd7a93d9fa6bbb45afcbdcdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 092/113] fix: an ill-formed reference or dictionary key is a
 syntax error, so that it does not keep other objects from being recovered

---
 pdfmajor/parser/PDFParser.py              | 24 ++++++++++-------------
 pdfmajor/parser/PSStackParser/__init__.py |  2 +-
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 461783b..2f787f7 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -67,6 +67,14 @@ class PDFParser(PSStackParser):
             return None
         return data
 
+    def push_reference(self, pos):
+        operands = [obj for (_, obj) in self.pop(2)]
+        if len(operands) != 2 or not all(isinstance(obj, int) for obj in operands):
+            raise PSSyntaxError('Invalid reference: %r' % operands)
+        (objid, genno) = operands
+        self.push((pos, PDFObjRef(self.doc, objid, genno)))
+        return
+
     def do_keyword(self, pos, token):
         """Handles PDF-related keywords."""
 
@@ -82,13 +90,7 @@ class PDFParser(PSStackParser):
 
         elif token is self.KEYWORD_R:
             # reference to indirect object
-            try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
-                (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
-                obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
-                self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            self.push_reference(pos)
 
         elif token is self.KEYWORD_STREAM:
             # stream object
@@ -167,13 +169,7 @@ class PDFStreamParser(PDFParser):
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_R:
             # reference to indirect object
-            try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
-                (objid, genno) = (int(objid), int(genno))
-                obj = PDFObjRef(self.doc, objid, genno)
-                self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            self.push_reference(pos)
             return
         elif token is self.KEYWORD_NULL:
             self.push((pos, None))
diff --git a/pdfmajor/parser/PSStackParser/__init__.py b/pdfmajor/parser/PSStackParser/__init__.py
index 7b790f1..4941045 100644
--- a/pdfmajor/parser/PSStackParser/__init__.py
+++ b/pdfmajor/parser/PSStackParser/__init__.py
@@ -132,7 +132,7 @@ class PSStackParser(PSBaseParser):
                 # end dictionary
                 try:
                     (pos, objs) = self.end_type('d')
-                    if len(objs) % 2 != 0:
+                    if len(objs) % 2 != 0 or any(isinstance(k, (list, dict)) for k in objs[::2]):
                         raise PSSyntaxError('Invalid dictionary construct: %r' % objs)
                     # construct a Python dictionary.
                     d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
-- 
2.43.0


From dd6dc10c4acfb6272631aea19c30d184c9fe8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 093/113] fix: an object without a value is null, not the
 object after it

---
 pdfmajor/parser/PDFParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 2f787f7..9aab94a 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -82,7 +82,8 @@ class PDFParser(PSStackParser):
             self.add_results(*self.pop(1))
 
         elif token is self.KEYWORD_ENDOBJ:
-            self.add_results(*self.pop(4))
+            # an object without a value is null
+            self.add_results(*(self.pop(4) or [(pos, None)]))
 
         elif token is self.KEYWORD_NULL:
             # null object
-- 
2.43.0


From 9c7b545f274b6ab15f88b1033c7f45cb3594fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 094/113] fix: a damaged object stream does not keep other
 objects from being recovered

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 1e124ee..260acda 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -178,18 +178,20 @@ class PDFXRefFallback(PDFXRef):
                     if settings.STRICT:
                         raise PDFSyntaxError('N is not defined: %r' % stream)
                     n = 0
-                parser1 = PDFStreamParser(stream.get_data())
                 objs = []
                 try:
+                    parser1 = PDFStreamParser(stream.get_data())
                     while 1:
                         (_, obj) = parser1.nextobject()
                         objs.append(obj)
-                except PSEOF:
+                except ParserError:
+                    # the end, or damage: the objects before it are kept
                     pass
-                n = min(n, len(objs)//2)
+                n = min(n if isinstance(n, int) else 0, len(objs)//2)
                 for index in range(n):
                     objid1 = objs[index*2]
-                    self.offsets[objid1] = (objid, index, 0)
+                    if isinstance(objid1, int):
+                        self.offsets[objid1] = (objid, index, 0)
         return
 
 ##  PDFXRefStream
-- 
2.43.0


From 34359d0c27afdfb39f871367b9bed354c2486ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 095/113] fix: the number of objects of an object stream may be
 an indirect object

---
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 0164856..c344454 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -147,7 +147,7 @@ class PDFDocument(object):
             if settings.STRICT:
                 raise PDFSyntaxError('Not a stream object: %r' % stream)
         try:
-            n = stream['N']
+            n = int_value(stream['N'])
         except KeyError:
             if settings.STRICT:
                 raise PDFSyntaxError('N is not defined: %r' % stream)
-- 
2.43.0


From 6d31732c332fb43b227f185acfa80fa2d059dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 096/113] fix: a cross-reference stream that declares more
 entries than it holds is damaged

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 260acda..8c696e5 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -223,6 +223,8 @@ class PDFXRefStream(PDFBaseXRef):
         (self.fl1, self.fl2, self.fl3) = stream['W']
         self.data = stream.get_data()
         self.entlen = self.fl1+self.fl2+self.fl3
+        if len(self.data) < self.entlen * sum(nobjs for (_, nobjs) in self.ranges):
+            raise PDFNoValidXRef('Cross-reference stream is too short')
         self.trailer = stream.attrs
         log.info('xref stream: objid=%s, fields=%d,%d,%d',
                  ', '.join(map(repr, self.ranges)),
-- 
2.43.0


From 15d151d64a6bba2a9382f4945a7d01534cc09115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 097/113] fix: documents with many revisions

---
 pdfmajor/parser/PDFDocument/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index c344454..9e5c6e7 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -372,6 +372,12 @@ class PDFDocument(object):
     def read_xref_from(self, parser, start, xrefs, seen=None):
         """Reads XRefs from the given location."""
         seen = set() if seen is None else seen
+        while start is not None:
+            start = self.read_xref_section(parser, start, xrefs, seen)
+        return
+
+    def read_xref_section(self, parser, start, xrefs, seen):
+        """Reads the XRef at the given location, returns the location of the previous one."""
         if start in seen or start < 0:
             raise PDFNoValidXRef('Invalid or repeated xref position: %r' % start)
         seen.add(start)
@@ -410,6 +416,5 @@ class PDFDocument(object):
             xref.free.difference_update(xrefs[hybrid].get_objids())
         if 'Prev' in trailer:
             # find previous xref
-            pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs, seen)
-        return
+            return int_value(trailer['Prev'])
+        return None
-- 
2.43.0


From a6ff00f656b8c0159147a6d682d1199b6a63e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 098/113] fix: page trees of any depth

---
 pdfmajor/parser/PDFPage.py | 44 ++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c6327e6..3e889b4 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -77,7 +77,31 @@ class PDFPage(object):
     @classmethod
     def create_pages(cls, document: PDFDocument):
         ancestors = set()
-        def search(obj, parent):
+        def search(root, parent):
+            # the nodes on the way to the current one, with their remaining kids
+            path = [(None, parent, iter([root]))]
+            while path:
+                (_, parent, kids) = path[-1]
+                for obj in kids:
+                    (objid, tree) = inherit(obj, parent)
+                    tree_type = resolve1(tree.get('Type'))
+                    if tree_type is None and not settings.STRICT:  # See #64
+                        tree_type = resolve1(tree.get('type'))
+
+                    if tree_type is LITERAL_PAGES and 'Kids' in tree:
+                        log.debug('Pages: Kids=%r', tree['Kids'])
+                        if objid in ancestors:
+                            raise PDFSyntaxError('Page tree node %r is its own descendant' % objid)
+                        ancestors.add(objid)
+                        path.append((objid, tree, iter(list_value(tree['Kids']))))
+                        break
+                    elif tree_type is LITERAL_PAGE:
+                        log.debug('Page: %r', tree)
+                        yield (objid, tree)
+                else:
+                    ancestors.discard(path.pop()[0])
+
+        def inherit(obj, parent):
             if isinstance(obj, int):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
@@ -87,23 +111,7 @@ class PDFPage(object):
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
-
-            tree_type = resolve1(tree.get('Type'))
-            if tree_type is None and not settings.STRICT:  # See #64
-                tree_type = resolve1(tree.get('type'))
-
-            if tree_type is LITERAL_PAGES and 'Kids' in tree:
-                log.debug('Pages: Kids=%r', tree['Kids'])
-                if objid in ancestors:
-                    raise PDFSyntaxError('Page tree node %r is its own descendant' % objid)
-                ancestors.add(objid)
-                for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
-                        yield x
-                ancestors.discard(objid)
-            elif tree_type is LITERAL_PAGE:
-                log.debug('Page: %r', tree)
-                yield (objid, tree)
+            return (objid, tree)
         
         pages = False
         if 'Pages' in document.catalog:
-- 
2.43.0


From f8b94a4652d9543d3e4b30c393c2663e48088150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 099/113] fix: ranges of widths and character codes are not
 extended beyond what can be shown

---
 .../commands/state/PDFTextState/PDFFont/util.py          | 5 +++--
 pdfmajor/parser/cmapdb/__init__.py                       | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index a6a2c82..7155a7e 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,6 +1,7 @@
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 from pdfmajor.parser.PDFStream import resolve1
 
+MAX_CID = 65535
 
 def get_widths(seq):
     widths = {}
@@ -16,7 +17,7 @@ def get_widths(seq):
             r.append(v)
             if len(r) == 3:
                 (char1, char2, w) = r
-                for i in range(char1, char2+1):
+                for i in range(max(int(char1), 0), min(int(char2), MAX_CID)+1):
                     widths[i] = w
                 r = []
     return widths
@@ -38,7 +39,7 @@ def get_widths2(seq):
             r.append(v)
             if len(r) == 5:
                 (char1, char2, w, vx, vy) = r # pylint: disable=E0632
-                for i in range(char1, char2+1):
+                for i in range(max(int(char1), 0), min(int(char2), MAX_CID)+1):
                     widths[i] = (w, (vx, vy))
                 r = []
     return widths
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 19ad1a3..b41377e 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -282,6 +282,9 @@ class CMapDB(object):
 ##
 class CMapParser(PSStackParser):
 
+    # no range has more codes than there are characters
+    MAX_RANGE = 0x110000
+
     def __init__(self, cmap, fp):
         PSStackParser.__init__(self, fp)
         self.cmap = cmap
@@ -368,7 +371,7 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(evar)
                 vlen = len(svar)
                 #assert s1 <= e1, str((s1, e1))
-                for i in range(e1-s1+1):
+                for i in range(min(e1-s1, 0xffff-cid)+1):
                     x = sprefix+struct.pack('>L', s1+i)[-vlen:]
                     self.cmap.add_code2cid(x, cid+i)
             return
@@ -396,14 +399,14 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for (i, x) in zip(range(e1-s1+1), code):
+                    for (i, x) in zip(range(min(e1-s1+1, self.MAX_RANGE)), code):
                         self.cmap.add_cid2unichr(s1+i, x)
                 elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
-                    for i in range(e1-s1+1):
+                    for i in range(min(e1-s1+1, self.MAX_RANGE)):
                         x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
-- 
2.43.0


From c36bcf4a99bc9d5ee5ea2a8ae094bdf56eaf7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 100/113] fix: pages without contents are blank

---
 pdfmajor/parser/PDFContentParser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 41bb19a..35c1f5a 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -33,7 +33,11 @@ class PDFContentParser(PSStackParser):
         return
 
     def seek(self, pos):
-        self.fillfp()
+        if self.streams:
+            self.fillfp()
+        else:
+            # a page without contents is blank
+            self.fp = BytesIO()
         PSStackParser.seek(self, pos)
         return
 
-- 
2.43.0


From 425de53ccd08b60f6fa065b4d7a7971225c60318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 101/113] fix: the entries of a form XObject may be indirect
 objects

---
 pdfmajor/interpreter/commands/commands.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 4f8f457..d919b46 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
+from pdfmajor.parser.PDFStream import PDFStream, list_value, resolve1, dict_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -491,10 +491,10 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     except KeyError:
         raise InvalidOperation('Undefined xobject id: %r' % xobjid)
     # log.info('Processing xobj: %r', xobj)
-    subtype = xobj.get('Subtype')
+    subtype = resolve1(xobj.get('Subtype'))
     if subtype is LITERAL_FORM and 'BBox' in xobj:
-        bbox = list_value(xobj['BBox'])
-        matrix = list_value(xobj.get('Matrix', MATRIX_IDENTITY))
+        bbox = [resolve1(x) for x in list_value(xobj['BBox'])]
+        matrix = [resolve1(x) for x in list_value(xobj.get('Matrix', MATRIX_IDENTITY))]
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
-- 
2.43.0


From bbeb4301b9c99840dc5800020d33d11e1ef8f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 102/113] fix: a page without a valid media box does not keep
 the document from being read

---
 pdfmajor/parser/PDFPage.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 3e889b4..1280c0d 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -2,7 +2,7 @@
 import logging
 
 from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound, PDFSyntaxError
-from ..utils import settings
+from ..utils import settings, isnumber
 from .constants import LIT
 from .PDFStream import resolve1, int_value, list_value, dict_value
 from .PDFParser import PDFParser
@@ -16,6 +16,9 @@ log = get_logger(__name__)
 LITERAL_PAGE = LIT('Page')
 LITERAL_PAGES = LIT('Pages')
 
+# US letter
+DEFAULT_MEDIABOX = [0, 0, 612, 792]
+
 ##  PDFPage
 ##
 class PDFPage(object):
@@ -52,11 +55,8 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = [resolve1(x) for x in list_value(self.attrs['MediaBox'])]
-        if 'CropBox' in self.attrs:
-            self.cropbox = [resolve1(x) for x in list_value(self.attrs['CropBox'])]
-        else:
-            self.cropbox = self.mediabox
+        self.mediabox = self.get_box('MediaBox', DEFAULT_MEDIABOX)
+        self.cropbox = self.get_box('CropBox', self.mediabox)
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
         self.annots = self.attrs.get('Annots')
         self.beads = self.attrs.get('B')
@@ -69,6 +69,13 @@ class PDFPage(object):
         self.contents = contents
         return
 
+    def get_box(self, key, default):
+        # boxes that are missing or damaged do not keep the page from being read
+        box = [resolve1(x) for x in list_value(self.attrs.get(key))]
+        if len(box) != 4 or not all(isnumber(x) for x in box):
+            return default
+        return box
+
     def __repr__(self):
         return '<PDFPage: Resources=%r, MediaBox=%r>' % (self.resources, self.mediabox)
 
-- 
2.43.0


From 8f02f2f4d8abebe78368c4a210f1c2536645e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 103/113] fix: page tree nodes that are not indirect objects

---
 pdfmajor/parser/PDFPage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 1280c0d..da81ecd 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -97,7 +97,7 @@ class PDFPage(object):
 
                     if tree_type is LITERAL_PAGES and 'Kids' in tree:
                         log.debug('Pages: Kids=%r', tree['Kids'])
-                        if objid in ancestors:
+                        if objid is not None and objid in ancestors:
                             raise PDFSyntaxError('Page tree node %r is its own descendant' % objid)
                         ancestors.add(objid)
                         path.append((objid, tree, iter(list_value(tree['Kids']))))
@@ -113,7 +113,8 @@ class PDFPage(object):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
             else:
-                objid = obj.objid
+                # a node that is not an indirect object has no number
+                objid = getattr(obj, 'objid', None)
                 tree = dict_value(obj).copy()
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
-- 
2.43.0


From b40290625b159302952590145ef603e7182337b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 104/113] fix: cross-reference sections with invalid numbers
 are damaged

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 8c696e5..8391995 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -82,6 +82,8 @@ class PDFXRef(PDFBaseXRef):
                 if use != b'n':
                     self.free.add(objid)
                     continue
+                if int(pos) < 0:
+                    raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 self.offsets[objid] = (None, int(pos), int(genno))
         log.info('xref objects: %r', self.offsets)
         self.load_trailer(parser)
@@ -221,6 +223,8 @@ class PDFXRefStream(PDFBaseXRef):
             raise PDFSyntaxError('Invalid index number')
         self.ranges.extend(choplist(2, index_array))
         (self.fl1, self.fl2, self.fl3) = stream['W']
+        if not all(isinstance(x, int) and x >= 0 for x in (self.fl1, self.fl2, self.fl3, *index_array)):
+            raise PDFNoValidXRef('Invalid cross-reference stream: %r' % stream)
         self.data = stream.get_data()
         self.entlen = self.fl1+self.fl2+self.fl3
         if len(self.data) < self.entlen * sum(nobjs for (_, nobjs) in self.ranges):
-- 
2.43.0


From 80ad3ca1eb2a95ea9bd4620af43a0fec4b4289ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 105/113] fix: boxes of pages are given by any two opposite
 corners

---
 pdfmajor/parser/PDFPage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index da81ecd..0c43b03 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -74,7 +74,9 @@ class PDFPage(object):
         box = [resolve1(x) for x in list_value(self.attrs.get(key))]
         if len(box) != 4 or not all(isnumber(x) for x in box):
             return default
-        return box
+        # boxes are given by any two opposite corners
+        (x0, y0, x1, y1) = box
+        return [min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1)]
 
     def __repr__(self):
         return '<PDFPage: Resources=%r, MediaBox=%r>' % (self.resources, self.mediabox)
-- 
2.43.0


From 72af1ebb5340f5844f7b94ac8d6efdd91db16c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 106/113] fix: damaged entries of fonts and colour spaces do
 not keep pages from being read

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 6 ++++--
 .../commands/state/PDFTextState/PDFFont/__init__.py       | 5 ++---
 .../commands/state/PDFTextState/PDFFont/fonts.py          | 8 +++++---
 pdfmajor/interpreter/commands/utils.py                    | 8 ++++----
 pdfmajor/parser/EncodingDB.py                             | 2 +-
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index f3c8232..f4a2b70 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -14,7 +14,7 @@ from pdfmajor.parser.PDFStream import list_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.cmapdb import FileUnicodeMap
 from pdfmajor.parser.cmapdb import CMapParser
-from pdfmajor.utils import to_text
+from pdfmajor.utils import isnumber, to_text
 
 
 ##  Literals
@@ -38,7 +38,9 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = [resolve1(x) for x in list_value(descriptor.get('FontBBox'))]
+        if len(self.bbox) != 4 or not all(isnumber(x) for x in self.bbox):
+            self.bbox = [0, 0, 0, 0]
         self.hscale = self.vscale = .001
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 4ef00d7..b8614b5 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -39,9 +39,8 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
             font = PDFCIDFont(spec)
         elif subtype == 'Type0':
             # Type0 Font
-            dfonts = list_value(spec['DescendantFonts'])
-            assert dfonts
-            subspec = dict_value(dfonts[0]).copy()
+            dfonts = list_value(spec.get('DescendantFonts'))
+            subspec = dict_value(dfonts[0]).copy() if dfonts else {}
             for k in ('Encoding', 'ToUnicode'):
                 if k in spec:
                     subspec[k] = resolve1(spec[k])
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 1d242a0..3077f81 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -10,7 +10,7 @@ from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.PDFStream import resolve1
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
 from pdfmajor.parser.cmapdb import FileCMap, FileUnicodeMap
-from pdfmajor.utils import settings, apply_matrix_norm
+from pdfmajor.utils import settings, isnumber, apply_matrix_norm
 
 from .PDFFont import PDFFont, PDFSimpleFont
 from .util import FontMetricsDB, get_widths, get_widths2
@@ -71,9 +71,11 @@ class PDFType3Font(PDFSimpleFont):
             descriptor = dict_value(spec['FontDescriptor'])
         else:
             descriptor = {'Ascent': 0, 'Descent': 0,
-                          'FontBBox': spec['FontBBox']}
+                          'FontBBox': spec.get('FontBBox')}
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        self.matrix = tuple(list_value(spec.get('FontMatrix')))
+        self.matrix = tuple(resolve1(x) for x in list_value(spec.get('FontMatrix')))
+        if len(self.matrix) != 6 or not all(isnumber(x) for x in self.matrix):
+            self.matrix = (.001, 0, 0, .001, 0, 0)
         (_, self.descent, _, self.ascent) = self.bbox
         (self.hscale, self.vscale) = apply_matrix_norm(self.matrix, (1, 1))
         return
diff --git a/pdfmajor/interpreter/commands/utils.py b/pdfmajor/interpreter/commands/utils.py
index 1d7fce2..b0d61ef 100644
--- a/pdfmajor/interpreter/commands/utils.py
+++ b/pdfmajor/interpreter/commands/utils.py
@@ -1,5 +1,5 @@
 from pdfmajor.parser.PDFParser import PDFStream
-from pdfmajor.parser.PDFStream import list_value, dict_value, resolve1
+from pdfmajor.parser.PDFStream import list_value, dict_value, int_value, resolve1
 from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
 from pdfmajor.parser.PSStackParser import literal_name
 from pdfmajor.parser.constants import LITERAL_PDF, LITERAL_TEXT
@@ -9,15 +9,15 @@ from .state import PDFStateStack, get_font
 
 def get_colorspace(spec):
     if isinstance(spec, list):
-        name = literal_name(spec[0])
+        name = literal_name(resolve1(spec[0])) if spec else None
     else:
         name = literal_name(spec)
     if name == 'ICCBased' and isinstance(spec, list) and 2 <= len(spec):
-        return PDFColorSpace(name, PDFStream.validated_stream(spec[1])['N'])
+        return PDFColorSpace(name, int_value(PDFStream.validated_stream(spec[1]).get('N')))
     elif name == 'DeviceN' and isinstance(spec, list) and 2 <= len(spec):
         return PDFColorSpace(name, len(list_value(spec[1])))
     else:
-        return PREDEFINED_COLORSPACE.get(name)
+        return PREDEFINED_COLORSPACE.get(name) if isinstance(name, str) else None
 
 def get_procset(procs):
     for proc in procs:
diff --git a/pdfmajor/parser/EncodingDB.py b/pdfmajor/parser/EncodingDB.py
index 3bdd7b9..13af294 100644
--- a/pdfmajor/parser/EncodingDB.py
+++ b/pdfmajor/parser/EncodingDB.py
@@ -28,7 +28,7 @@ class EncodingDB(object):
 
     @classmethod
     def get_encoding(klass, name, diff=None):
-        cid2unicode = klass.encodings.get(name, klass.std2unicode)
+        cid2unicode = klass.encodings.get(name if isinstance(name, str) else None, klass.std2unicode)
         if diff:
             cid2unicode = cid2unicode.copy()
             cid = 0
-- 
2.43.0


From 5de6c582a14c286b89aa39bae309f1cc6b1e5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 107/113] fix: a stream without a dictionary is a syntax error

---
 pdfmajor/parser/PDFParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 9aab94a..2029b69 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -95,8 +95,10 @@ class PDFParser(PSStackParser):
 
         elif token is self.KEYWORD_STREAM:
             # stream object
-            ((_, dic),) = self.pop(1) # pylint: disable=E0632
-            dic = dict_value(dic)
+            operands = [obj for (_, obj) in self.pop(1)]
+            if not operands:
+                raise PSSyntaxError('Stream without a dictionary')
+            dic = dict_value(operands[0])
             objlen = None
             # while scanning a file other objects cannot be looked up yet
             if not self.fallback or isinstance(dic.get('Length'), int):
-- 
2.43.0


From 96955cd6773f2d050aa0554e1977ca83e29baa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 108/113] fix: an object that lacks its 'endobj' ends before
 the next one

---
 pdfmajor/parser/PDFParser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 2029b69..f0e2a88 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -52,6 +52,7 @@ class PDFParser(PSStackParser):
 
     KEYWORD_R = KWD(b'R')
     KEYWORD_NULL = KWD(b'null')
+    KEYWORD_OBJ = KWD(b'obj')
     KEYWORD_ENDOBJ = KWD(b'endobj')
     KEYWORD_STREAM = KWD(b'stream')
     KEYWORD_XREF = KWD(b'xref')
@@ -79,12 +80,20 @@ class PDFParser(PSStackParser):
         """Handles PDF-related keywords."""
 
         if token in (self.KEYWORD_XREF, self.KEYWORD_STARTXREF):
-            self.add_results(*self.pop(1))
+            # the object before lacks its 'endobj', or is the trailer
+            self.add_results(*self.pop(4))
 
         elif token is self.KEYWORD_ENDOBJ:
             # an object without a value is null
             self.add_results(*(self.pop(4) or [(pos, None)]))
 
+        elif token is self.KEYWORD_OBJ:
+            # the next object: this one lacks its 'endobj'
+            header = self.pop(2)
+            results = self.pop(4) or [(pos, None)]
+            self.seek(header[0][0] if header else pos)
+            self.add_results(*results)
+
         elif token is self.KEYWORD_NULL:
             # null object
             self.push((pos, None))
-- 
2.43.0


From 02dc2880bd0f952070c9231c197d4e5b20133834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 109/113] fix: operands belong to the operator that follows
 them

---
 pdfmajor/interpreter/commands/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index f6ff7c5..8c668be 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -44,6 +44,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     func(state)
             else:
                 log.debug('Unknown operator: %r (i.e. %r)' % (name, method))
+            # operands belong to the operator that follows them
+            state.argstack = []
             # history.write(name, 
             #     None if func is None else func.__name__
             # , args)
-- 
2.43.0


From 87d7fe3100b5b54f405792e29284a2b75e37a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 110/113] fix: a damaged object does not hide the objects after
 it from a scan of the file

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 8391995..f45f16d 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -166,6 +166,9 @@ class PDFXRefFallback(PDFXRef):
                 for _ in range(3):
                     parser.nexttoken() # objid, genno, obj
                 (_, obj) = parser.nextobject()
+                if parser.results and not isinstance(obj, PDFStream):
+                    # damaged: it may extend over other objects
+                    raise PDFSyntaxError('Invalid object: %r' % objid)
             except ParserError:
                 parser.seek(pos+len(line))
                 continue
-- 
2.43.0


From 2efa4bd297bcf411d117df24b95816c8c2d19449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 111/113] fix: operands of the wrong type are reported as such

---
 pdfmajor/interpreter/commands/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8c668be..b64448a 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -37,7 +37,10 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 if nargs:
                     args = state.pop(nargs)
                     if len(args) == nargs:
-                        func(state, *args)
+                        try:
+                            func(state, *args)
+                        except (TypeError, ValueError) as e:
+                            raise CommandProcessorError(f"Invalid operands of {method}: {args!r}") from e
                     else:
                         raise CommandProcessorError(f"Invalid Number of Args provided {method}")
                 else:
-- 
2.43.0


From bed86d66517188898c86a8c48dc7f6621299309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 112/113] fix: incomplete encryption dictionaries are reported
 as such, and the file identifier is only needed where it is used

---
 pdfmajor/parser/PDFDocument/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 9e5c6e7..3e481f2 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -92,7 +92,7 @@ class PDFDocument(object):
             # If there's an encryption info, remember it.
             if 'Encrypt' in trailer:
                 #assert not self.encryption, str(self.encryption)
-                self.encryption = (list_value(trailer['ID']),
+                self.encryption = (list_value(trailer.get('ID')),
                                    dict_value(trailer['Encrypt']))
                 self._initialize_password(password)
             if 'Info' in trailer:
@@ -120,7 +120,10 @@ class PDFDocument(object):
         factory = self.security_handler_registry.get(v)
         if factory is None:
             raise PDFEncryptionError('Unknown algorithm: param=%r' % param)
-        handler = factory(docid, param, password)
+        try:
+            handler = factory(docid, param, password)
+        except (KeyError, IndexError, TypeError, ValueError) as e:
+            raise PDFEncryptionError('Invalid encryption dictionary: %r' % param) from e
         self.decipher = handler.decrypt
         self.is_printable = handler.is_printable()
         self.is_modifiable = handler.is_modifiable()
-- 
2.43.0


From 370b910f0981ef84f86e09362b866233d57cc531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 113/113] fix: the command line honours its output type, output
 file, image folder and debug options

---
 tools/pdfconvert.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/tools/pdfconvert.py b/tools/pdfconvert.py
index bf8706f..401daca 100755
--- a/tools/pdfconvert.py
+++ b/tools/pdfconvert.py
@@ -1,13 +1,18 @@
 #!/usr/bin/env python
 
 """
-Converts PDF text content (though not images containing text) to plain text, html, xml or "tags".
+Converts PDF text content (though not images containing text) to plain text, html, xml, json or yaml.
 """
 import argparse
 import logging
+import os
+import shutil
 import sys
+import tempfile
 from pdfmajor.converters import convert_file
 
+OUTPUT_TYPES = ("text", "html", "xml", "json", "yaml")
+
 def make_argparser():
     parser = argparse.ArgumentParser(description=__doc__, add_help=True)
     parser.add_argument("files", type=str, default=None, nargs="+", help="File to process.")
@@ -16,13 +21,26 @@ def make_argparser():
     parser.add_argument("-m", "--maxpages", type=int, default=0, help="Maximum pages to parse")
     parser.add_argument("-P", "--password", type=str, default=None, help="Decryption password for PDF")
     parser.add_argument("-c", "--codec", type=str, default="utf-8", help="Text encoding")
-    parser.add_argument("-t", "--output-type", type=str, default="text", help="Output type: text|html|xml|tag (default is text)")
+    parser.add_argument("-t", "--output-type", type=str, default="text", choices=OUTPUT_TYPES, help="Output type: text|html|xml|json|yaml (default is text)")
     parser.add_argument("-o", "--output-file", type=str, default="-", help="Output file (default \"-\" is stdout)")
     parser.add_argument("-O", "--output-dir", default=None, help="Output directory for images")
     parser.add_argument("-C", "--disable-caching", default=False, action="store_true", help="Disable caching")
     return parser
 
 
+def convert(input_file, output_file, out_type, **func_args):
+    # any output file, whatever its name, is written once there is something to write
+    with tempfile.TemporaryDirectory() as folder:
+        converted = os.path.join(folder, "output." + out_type)
+        convert_file(input_file, converted, out_type=out_type, **func_args)
+        with open(converted, "rb") as source:
+            if output_file == "-":
+                shutil.copyfileobj(source, sys.stdout.buffer)
+                sys.stdout.flush()
+            else:
+                with open(output_file, "wb") as target:
+                    shutil.copyfileobj(source, target)
+
 # main
 
 
@@ -36,7 +54,10 @@ def main(args=None):
         'password': parsed_args.password, 
         'codec': parsed_args.codec, 
         'caching': not parsed_args.disable_caching,
+        'image_folder_path': parsed_args.output_dir,
+        'debug_level': logging.DEBUG if parsed_args.debug else logging.WARNING,
     }
+    out_type = parsed_args.output_type
 
     if parsed_args.pagenos:
         func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(",")])
@@ -45,15 +66,17 @@ def main(args=None):
         for override, alttype in (  (".htm",  "html"),
                                     (".html", "html"),
                                     (".xml",  "xml" ),
-                                    (".tag",  "tag" ) ):
+                                    (".json", "json"),
+                                    (".yaml", "yaml"),
+                                    (".yml",  "yaml") ):
             if parsed_args.output_file.endswith(override):
-                func_args['out_type'] = alttype
+                out_type = alttype
 
     if len(parsed_args.files) == 1:
-        if parsed_args.output_file != "-":
-            func_args['output_file'] = open(parsed_args.output_file, "wb")
-        convert_file(
+        convert(
             parsed_args.files[0],
+            parsed_args.output_file,
+            out_type,
             **func_args
         )
     else:
-- 
2.43.0

