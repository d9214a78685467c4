------------------------------ MODULE XmlText ------------------------------
(* The meaning of calls on the XML and HTML writers, and a reader of their    *)
(* text, character by character.                                              *)
(*                                                                            *)
(* A call is [op, tag, attrs, css, exact, val]: "open" an element, "single"   *)
(* (an empty one), "text", "end".  attrs and css are sequences of <<name,     *)
(* value>>; css becomes the style attribute.  The meaning is a list of events *)
(* [t, v, a, x]: "<" with the name and the set of attributes, ">" and between *)
(* any two of them "t" with the text; x: spaces matter in it.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Markup
S0 == <<>>
Ev(t, v, a, x) == [t |-> t, v |-> v, a |-> a, x |-> x]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
\* ---- meaning
StyleName == <<115, 116, 121, 108, 101>>
RECURSIVE Style(_)
Style(css) == IF css = S0 THEN S0 ELSE Head(css)[1] \o <<58, 32>> \o Head(css)[2] \o (IF Len(css) > 1 THEN <<59>> ELSE S0) \o Style(Tail(css))
AttrSet(fmt, c) == {<<e[1], Shown(fmt, e[2])>> : e \in Range(c.attrs)} \cup (IF c.css = S0 THEN {} ELSE {<<StyleName, Shown(fmt, Style(c.css))>>})
Open0 == [ev |-> S0, st |-> <<FALSE>>, pend |-> S0]
Flush(w) == [w EXCEPT !.ev = Append(@, Ev("t", w.pend, {}, Last1(w.st))), !.pend = S0]
Call(fmt, w, c) ==
  CASE c.op = "open" -> [Flush(w) EXCEPT !.ev = Append(@, Ev("<", c.tag, AttrSet(fmt, c), FALSE)), !.st = Append(@, c.exact)]
    [] c.op = "single" -> [Flush(w) EXCEPT !.ev = @ \o <<Ev("<", c.tag, AttrSet(fmt, c), FALSE), Ev("t", S0, {}, TRUE), Ev(">", S0, {}, FALSE)>>]
    [] c.op = "end" -> [Flush(w) EXCEPT !.ev = Append(@, Ev(">", S0, {}, FALSE)), !.st = Pop(@)]
    [] OTHER -> [w EXCEPT !.pend = IF Last1(w.st) THEN @ \o c.val ELSE @ \o <<32>> \o c.val \o <<32>>]
\* runs of spaces as one
RECURSIVE Words(_, _)
Words(s, acc) == IF s = S0 THEN acc ELSE IF White(Head(s)) THEN Words(Tail(s), IF acc = S0 \/ Last1(acc) = 32 THEN acc ELSE Append(acc, 32))
                 ELSE Words(Tail(s), Append(acc, Head(s)))
SameText(x, a, b) == IF x THEN a = b ELSE TrimR(Words(a, S0)) = TrimR(Words(b, S0))
SameEv(a, b) == a.t = b.t /\ IF a.t = "t" THEN SameText(a.x, a.v, b.v) ELSE a.v = b.v /\ a.a = b.a

\* ---- reading
\* p: ev, st open names, mode, buf text or name, tag, at attributes, an attribute name, q quote, ent reference, back mode after it, pi
Read0(fmt) == [fmt |-> fmt, ev |-> S0, st |-> S0, mode |-> "text", buf |-> S0, tag |-> S0, at |-> {}, an |-> S0, q |-> 0, ent |-> S0, back |-> "", pi |-> S0, cr |-> FALSE]
Bad(p, why) == [p EXCEPT !.mode = "bad", !.buf = <<why>>]
Digit(c) == c \in 48..57
Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Space(c) == c \in {9, 10, 13, 32}
NameStart(c) == c \in 65..90 \cup 97..122 \cup {95}
NameChar(c) == NameStart(c) \/ Digit(c) \/ c \in {45, 46}
\* void elements of HTML have no end
Void == {<<109, 101, 116, 97>>, <<105, 109, 103>>}
Illegal(p, c) == IF p.fmt = "xml" THEN XmlIllegal(c) ELSE HtmlIllegal(c)
Named == {<<<<97, 109, 112>>, 38>>, <<<<108, 116>>, 60>>, <<<<103, 116>>, 62>>, <<<<113, 117, 111, 116>>, 34>>, <<<<97, 112, 111, 115>>, 39>>}
RECURSIVE Value(_, _, _)
Value(ds, base, acc) == IF ds = S0 THEN acc ELSE IF acc > 2000000 \/ Hex(Head(ds)) < 0 \/ Hex(Head(ds)) >= base THEN -1 ELSE Value(Tail(ds), base, acc * base + Hex(Head(ds)))
RefValue(e) == IF Len(e) > 1 /\ e[1] = 35 THEN (IF e[2] = 120 THEN (IF Len(e) > 2 THEN Value(SubSeq(e, 3, Len(e)), 16, 0) ELSE -1) ELSE Value(Tail(e), 10, 0))
  ELSE IF \E n \in Named : n[1] = e THEN (CHOOSE n \in Named : n[1] = e)[2] ELSE -1
TextEv(p) == Append(p.ev, Ev("t", p.buf, {}, FALSE))
Opened(p) == [p EXCEPT !.ev = Append(@, Ev("<", p.tag, p.at, FALSE)), !.mode = "text", !.buf = S0, !.st = Append(@, p.tag), !.tag = S0, !.at = {}]
Empty(p) == [p EXCEPT !.ev = @ \o <<Ev("<", p.tag, p.at, FALSE), Ev("t", S0, {}, TRUE), Ev(">", S0, {}, FALSE)>>, !.mode = "text", !.buf = S0, !.tag = S0, !.at = {}]
EndTag(p) == IF p.st = S0 \/ Last1(p.st) # p.tag THEN Bad(p, 1)
  ELSE [p EXCEPT !.ev = Append(@, Ev(">", S0, {}, FALSE)), !.st = Pop(@), !.mode = "text", !.buf = S0, !.tag = S0]
\* a line end is one line feed, however it is written
Put(p, c) == IF c = 10 /\ p.cr THEN [p EXCEPT !.cr = FALSE] ELSE [p EXCEPT !.buf = Append(@, IF c = 13 THEN 10 ELSE c), !.cr = (c = 13)]
Reference(p, c) ==
  IF c # 59 THEN (IF Len(p.ent) > 8 THEN Bad(p, 2) ELSE [p EXCEPT !.ent = Append(@, c)])
  ELSE LET v == RefValue(p.ent) IN
    IF v < 0 \/ v > 1114111 \/ Illegal(p, v) THEN Bad(p, 3) ELSE [p EXCEPT !.buf = Append(@, v), !.mode = p.back, !.ent = S0, !.cr = FALSE]
Char(p, c) ==
  CASE p.mode = "bad" -> p
    [] p.mode \notin {"ref"} /\ Illegal(p, c) -> Bad(p, 4)
    [] p.mode = "text" -> IF c = 60 THEN [p EXCEPT !.mode = "lt", !.cr = FALSE] ELSE IF c = 38 THEN [p EXCEPT !.mode = "ref", !.back = "text", !.ent = S0]
                          ELSE IF c = 62 /\ Len(p.buf) > 1 /\ SubSeq(p.buf, Len(p.buf) - 1, Len(p.buf)) = <<93, 93>> THEN Bad(p, 5) ELSE Put(p, c)
    [] p.mode = "ref" -> Reference(p, c)
    [] p.mode = "lt" -> IF c = 63 /\ p.ev = S0 /\ p.buf = S0 /\ p.fmt = "xml" THEN [p EXCEPT !.mode = "pi"]
                        ELSE IF c = 47 THEN [p EXCEPT !.mode = "end", !.ev = TextEv(p), !.tag = S0]
                        ELSE IF NameStart(c) THEN [p EXCEPT !.mode = "tag", !.ev = TextEv(p), !.tag = <<c>>, !.at = {}] ELSE Bad(p, 6)
    [] p.mode = "pi" -> IF c = 62 /\ p.pi # S0 /\ Last1(p.pi) = 63 THEN [p EXCEPT !.mode = "text"] ELSE [p EXCEPT !.pi = Append(@, c)]
    [] p.mode = "end" -> IF NameChar(c) THEN [p EXCEPT !.tag = Append(@, c)] ELSE IF Space(c) THEN [p EXCEPT !.mode = "ended"] ELSE IF c = 62 THEN EndTag(p) ELSE Bad(p, 7)
    [] p.mode = "ended" -> IF Space(c) THEN p ELSE IF c = 62 THEN EndTag(p) ELSE Bad(p, 7)
    [] p.mode = "tag" -> IF NameChar(c) THEN [p EXCEPT !.tag = Append(@, c)] ELSE IF Space(c) THEN [p EXCEPT !.mode = "attrs"]
                         ELSE IF c = 62 THEN Opened(p) ELSE IF c = 47 THEN [p EXCEPT !.mode = "slash"] ELSE Bad(p, 8)
    [] p.mode = "attrs" -> IF Space(c) THEN p ELSE IF c = 62 THEN (IF p.fmt = "html" /\ p.tag \in Void THEN Empty(p) ELSE Opened(p))
                           ELSE IF c = 47 THEN [p EXCEPT !.mode = "slash"] ELSE IF NameStart(c) THEN [p EXCEPT !.mode = "aname", !.an = <<c>>] ELSE Bad(p, 9)
    [] p.mode = "slash" -> IF c = 62 THEN Empty(p) ELSE Bad(p, 10)
    [] p.mode = "aname" -> IF NameChar(c) THEN [p EXCEPT !.an = Append(@, c)] ELSE IF c = 61 THEN [p EXCEPT !.mode = "eq"] ELSE Bad(p, 11)
    [] p.mode = "eq" -> IF c \in {34, 39} THEN [p EXCEPT !.mode = "aval", !.q = c, !.buf = S0] ELSE Bad(p, 12)
    [] p.mode = "aval" -> IF c = p.q THEN (IF \E e \in p.at : e[1] = p.an THEN Bad(p, 13) ELSE [p EXCEPT !.at = @ \cup {<<p.an, p.buf>>}, !.mode = "avald", !.buf = S0])
                          ELSE IF c = 60 THEN Bad(p, 14) ELSE IF c = 38 THEN [p EXCEPT !.mode = "ref", !.back = "aval", !.ent = S0]
                          ELSE [p EXCEPT !.buf = Append(@, IF p.fmt = "xml" /\ Space(c) THEN 32 ELSE IF c = 13 THEN 10 ELSE c)]
    [] p.mode = "avald" -> IF Space(c) THEN [p EXCEPT !.mode = "attrs"] ELSE IF c = 62 THEN Opened(p) ELSE IF c = 47 THEN [p EXCEPT !.mode = "slash"] ELSE Bad(p, 15)
    [] OTHER -> Bad(p, 16)
ReadSome(p, s) == FoldLeft(Char, p, s)
Finish(p) == [p EXCEPT !.ev = TextEv(p)]
HasPart(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
VersionPart == <<118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34>>
EncodingPart(codec) == <<101, 110, 99, 111, 100, 105, 110, 103, 61, 34>> \o codec \o <<34>>
\* an XML document: a declaration and one element, nothing around it
Complete(p, codec) == /\ p.mode = "text" /\ p.st = S0
  /\ p.fmt = "xml" => /\ HasPart(p.pi, VersionPart) /\ HasPart(p.pi, EncodingPart(codec))
                      /\ LET n == Len(p.ev)
                             d == [i \in 1..n |-> Cardinality({x \in 1..i : p.ev[x].t = "<"}) - Cardinality({x \in 1..i : p.ev[x].t = ">"})] IN
                         /\ n > 2 /\ Words(p.ev[1].v, S0) = S0 /\ \A i \in 2..(n - 2) : d[i] > 0 \/ p.ev[i].t # "t"
                         /\ Cardinality({i \in 2..n : p.ev[i].t = "<" /\ d[i] = 1}) = 1 /\ Words(p.ev[n].v, S0) = S0

\* ---- a writer
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Escaped(fmt, s, attr, ascii) == FlattenSeq([i \in 1..Len(s) |-> LET c == Shown(fmt, s)[i] IN
  IF c = 38 THEN <<38, 97, 109, 112, 59>> ELSE IF c = 60 THEN <<38, 108, 116, 59>> ELSE IF c = 62 THEN <<38, 103, 116, 59>>
  ELSE IF c = 34 /\ attr THEN <<38, 113, 117, 111, 116, 59>> ELSE IF c = 13 \/ (attr /\ c \in {9, 10}) \/ (ascii /\ c > 126) THEN <<38, 35>> \o Dec(c) \o <<59>> ELSE <<c>>])
AttrText(fmt, e, ascii) == <<32>> \o e[1] \o <<61, 34>> \o Escaped(fmt, e[2], TRUE, ascii) \o <<34>>
Tag(fmt, c, ascii) == <<60>> \o c.tag \o FlattenSeq([i \in 1..Len(c.attrs) |-> AttrText(fmt, c.attrs[i], ascii)]) \o
  (IF c.css = S0 THEN S0 ELSE AttrText(fmt, <<StyleName, Style(c.css)>>, ascii))
\* tags: the open names
Chunk(fmt, tags, w, c, ascii) ==
  LET nl == IF Last1(w.st) THEN S0 ELSE <<10>> IN
  CASE c.op = "open" -> Tag(fmt, c, ascii) \o <<62>> \o (IF c.exact THEN S0 ELSE <<10>>)
    [] c.op = "single" -> Tag(fmt, c, ascii) \o <<32, 47, 62>> \o nl
    [] c.op = "end" -> <<60, 47>> \o Last1(tags) \o <<62, 10>>
    [] OTHER -> nl \o Escaped(fmt, c.val, FALSE, ascii) \o nl
=============================================================================
