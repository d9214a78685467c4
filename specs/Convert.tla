------------------------------ MODULE Convert ------------------------------
(* What a converted document says about the items the interpreter yields.     *)
(*                                                                            *)
(* The items are a list of nodes in the order in which they start: kind k,    *)
(* depth d and what there is to say: id (page number), box <<x0, x1, y0, y1>> *)
(* wh (width and height), size, text, name, desc (descriptor entries <<key,   *)
(* as text, as value>>), colours <<space, components...>>, pts (path          *)
(* segments <<method, points>>).  Texts are code points; numbers are compared *)
(* as canonical strings.  Seen(fmt, n) is what a format shows of a node; the  *)
(* text format and the blocks of JSON and YAML only show the text of chars.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Markup
CONSTANT Ascii(_)    \* the code points of an ASCII string
S0 == <<>>
Blank == [k |-> "", d |-> 0, id |-> S0, box |-> S0, wh |-> S0, size |-> "", text |-> S0, name |-> S0, desc |-> S0, col |-> S0,
          fill |-> S0, stroke |-> S0, pts |-> S0]

\* ---- what the formats show
RECURSIVE Joined(_)
Joined(vs) == IF vs = S0 THEN S0 ELSE IF Len(vs) = 1 THEN vs[1] ELSE vs[1] \o <<44>> \o Joined(Tail(vs))
Color(fmt, c) == IF c = S0 \/ fmt \in {"json", "yaml"} THEN c ELSE <<Shown(fmt, c[1]), Shown(fmt, Joined(Tail(c)))>>
HasPart(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
FontFile == Ascii("FontFile")
Layout(n) == {Ascii(x) : x \in {"Type", "size", "x0", "x1", "y0", "y1", "text"} \cup (IF n.col = S0 THEN {} ELSE {"color"})}
Entries(fmt, n) == {<<e[1], IF fmt = "json" THEN e[2] ELSE e[3]>> : e \in {x \in Range(n.desc) : x[1] \notin Layout(n) /\ ~HasPart(x[1], FontFile)}}
FontName(n) == LET e == SelectSeq(n.desc, LAMBDA x : x[1] = Ascii("FontName")) IN IF e = S0 THEN S0 ELSE e[1][2]
Svg(p) == CASE p[1] = "MOVE_TO" -> <<"M", 1>> [] p[1] = "LINE_TO" -> <<"L", 1>> [] p[1] = "CLOSE_PATH" -> <<"Z", 0>> [] OTHER -> <<"C", 3>>
Tree(fmt) == fmt \in {"json", "yaml"}
Shape(k) == k \in {"rect", "line", "curve"}
Seen(fmt, n) ==
  LET b == [Blank EXCEPT !.k = IF fmt = "html" /\ Shape(n.k) THEN "shape" ELSE n.k, !.d = n.d] IN
  IF fmt # "html" THEN
    CASE n.k = "page" -> [b EXCEPT !.id = n.id, !.wh = n.wh]
      [] n.k \in {"text", "form"} -> [b EXCEPT !.box = n.box]
      [] n.k = "block" -> [b EXCEPT !.box = n.box, !.size = n.size, !.col = Color(fmt, n.col), !.name = IF Tree(fmt) THEN S0 ELSE Shown(fmt, FontName(n))]
      [] n.k = "char" -> [b EXCEPT !.box = n.box, !.text = Shown(fmt, n.text)]
      [] n.k = "image" -> [b EXCEPT !.box = n.box, !.name = Shown(fmt, n.name)]
      [] OTHER -> [b EXCEPT !.box = n.box, !.fill = Color(fmt, n.fill), !.stroke = Color(fmt, n.stroke), !.pts = IF n.k = "curve" THEN n.pts ELSE S0]
  ELSE
    CASE n.k = "page" -> [b EXCEPT !.id = n.id, !.wh = n.wh]
      [] n.k = "text" -> b
      [] n.k = "form" -> [b EXCEPT !.box = n.box, !.wh = n.wh]
      [] n.k = "block" -> [b EXCEPT !.box = <<n.box[1], n.box[3]>>, !.size = n.size, !.wh = n.wh, !.name = Shown(fmt, n.name)]
      [] n.k = "char" -> [b EXCEPT !.wh = n.wh, !.text = Trim(Shown(fmt, n.text))]
      [] n.k = "image" -> [b EXCEPT !.wh = n.wh, !.name = Shown(fmt, n.name)]
      [] OTHER -> [b EXCEPT !.box = <<n.box[1]>>, !.wh = n.wh, !.pts = [i \in 1..Len(n.pts) |-> Svg(n.pts[i])]]
\* what was found in a file, apart from the text of blocks and the entries
Found(fmt, o) == IF o.k = "char" /\ fmt = "html" THEN [o EXCEPT !.text = Trim(@)] ELSE IF o.k = "block" THEN [o EXCEPT !.text = S0, !.desc = S0] ELSE o
Differs(a, b) == IF a.k # b.k THEN b.k \o " instead of " \o a.k ELSE IF a.d # b.d THEN "nesting of " \o a.k
  ELSE IF a.text # b.text THEN "text" ELSE IF a.name # b.name THEN "name of " \o a.k ELSE IF a.id # b.id THEN "page number"
  ELSE IF a.col # b.col \/ a.fill # b.fill \/ a.stroke # b.stroke THEN "colour of " \o a.k
  ELSE IF a.pts # b.pts THEN "path of " \o a.k ELSE "box or size of " \o a.k
Header(id) == Ascii("========== [ page ") \o id \o Ascii(" ] ==========") \o <<10>>

\* ---- the pages that options ask for, counted from 0
Chosen(total, nos) == {p \in 0..(total - 1) : nos = {} \/ p \in nos}
\* a limit ends the delivery with the first page that reaches it
Wanted(total, nos, max) == {p \in Chosen(total, nos) : max = 0 \/ \A x \in Chosen(total, nos) : x < p => x + 1 < max}
=============================================================================
