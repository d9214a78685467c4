------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The content-stream interpreter as a state machine: one transition per   *)
(* operator of a page program.  Form XObjects push a frame and pop it when *)
(* their program is exhausted, so nesting is explicit.                     *)
(*                                                                         *)
(* Numbers.  Coordinates, sizes and colours are integers in thousandths.   *)
(* The linear part of a matrix is a plain integer, its translation is in   *)
(* thousandths, so that every product is exact.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

INF == 2000000000
None == "none"

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

VARIABLES M,        \* the machine: frames, error, variant
          tag       \* which program is being run (never changes during a run)
\* World(tag): [mb, rot, res |-> resource tables, progs |-> programs]; the page is
\* program 1 with table 1, other programs belong to forms
CONSTANT World(_)
W == World(tag)

(*********************************** matrices ******************************)
\* m applied first, then n
MulM(m, n) == << n[1]*m[1] + n[3]*m[2], n[2]*m[1] + n[4]*m[2],
                 n[1]*m[3] + n[3]*m[4], n[2]*m[3] + n[4]*m[4],
                 n[1]*m[5] + n[3]*m[6] + n[5], n[2]*m[5] + n[4]*m[6] + n[6] >>
Apply(m, x, y) == << m[1]*x + m[3]*y + m[5], m[2]*x + m[4]*y + m[6] >>
Shift(m, x, y) == << m[1], m[2], m[3], m[4], m[1]*x + m[3]*y + m[5], m[2]*x + m[4]*y + m[6] >>
Ident == << 1, 0, 0, 1, 0, 0 >>

\* the smallest upright box around a non-empty sequence of points
Hull(ps) == FoldLeft(LAMBDA b, p : << Min2(b[1], p[1]), Min2(b[2], p[2]), Max2(b[3], p[1]), Max2(b[4], p[2]) >>,
                     << ps[1][1], ps[1][2], ps[1][1], ps[1][2] >>, ps)
Corners(b) == << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[1], b[4]>>, <<b[3], b[4]>> >>

(*********************************** colours *******************************)
Predefined == [DeviceGray |-> 1, CalRGB |-> 3, CalGray |-> 1, Lab |-> 3, DeviceRGB |-> 3,
               DeviceCMYK |-> 4, Separation |-> 1, Indexed |-> 1, Pattern |-> 1]
NoColor == [sp |-> "", v |-> << >>]
Rgb255(x) == (x * 255) \div 1000          \* exact for the multiples of 1/5 used

(*********************************** frames ********************************)
NoBlk == [open |-> FALSE, kids |-> << >>]

Text0 == [font |-> "", fs |-> 0, tc |-> 0, tw |-> 0, tz |-> 100, tl |-> 0, rise |-> 0,
          m |-> Ident, off |-> 0]
Graph0 == [lw |-> 0, scs |-> "DeviceGray", ncs |-> "DeviceGray", sc |-> NoColor, nc |-> NoColor]

Frame(ctm, res, prog, g, form) ==
  [ctm |-> ctm, g |-> g, t |-> Text0, stk |-> << >>, path |-> << >>, blk |-> NoBlk,
   res |-> res, prog |-> prog, pc |-> 1, out |-> << >>, form |-> form]
Prog(f) == W.progs[f.prog]
Res(f) == W.res[f.res]

PageCtm(mb, rot) ==
  CASE rot = 90  -> << 0, -1, 1, 0, -mb[2], mb[3] >>
    [] rot = 180 -> << -1, 0, 0, -1, mb[3], mb[4] >>
    [] rot = 270 -> << 0, 1, -1, 0, mb[4], -mb[1] >>
    [] OTHER     -> << 1, 0, 0, 1, -mb[1], -mb[2] >>

NoForm == [bbox |-> << 0, 0, 0, 0 >>]

(*********************************** items *********************************)
\* every item carries every field, so that projections are uniform
Item == [k |-> "", bbox |-> << 0, 0, 0, 0 >>, lw |-> 0, sc |-> NoColor, nc |-> NoColor, eo |-> FALSE,
         pts |-> << >>, blocks |-> << >>, kids |-> << >>, src |-> << >>, data |-> << >>]

Shape(path) == [i \in 1..Len(path) |-> path[i].m]
AllPts(path) == FlattenSeq([i \in 1..Len(path) |-> path[i].p])
EndPts(path) == FlattenSeq([i \in 1..Len(path) |-> IF path[i].p = << >> THEN << >> ELSE << Last(path[i].p) >>])

IsRect(p) == \/ /\ p[1][1] = p[2][1] /\ p[2][2] = p[3][2] /\ p[3][1] = p[4][1] /\ p[4][2] = p[1][2]
             \/ /\ p[1][2] = p[2][2] /\ p[2][1] = p[3][1] /\ p[3][2] = p[4][2] /\ p[4][1] = p[1][1]

PathKind(path) ==
  LET sh == Shape(path) ps == EndPts(path) IN
  CASE sh = << "m", "l" >> -> (IF ps[1][1] = ps[2][1] THEN "vline" ELSE IF ps[1][2] = ps[2][2] THEN "hline" ELSE "line")
    [] sh = << "m", "l", "l", "l", "h" >> -> (IF IsRect(ps) THEN "rect" ELSE "curve")
    [] OTHER -> "curve"

PathItem(f, path, eo) ==
  [Item EXCEPT !.k = PathKind(path), !.bbox = Hull(EndPts(path)), !.lw = f.g.lw, !.sc = f.g.sc, !.nc = f.g.nc,
               !.eo = eo, !.pts = [i \in 1..Len(path) |-> << path[i].m, path[i].p >>]]

ImageItem(f, src, data) == [Item EXCEPT !.k = "image", !.bbox = Hull([i \in 1..4 |->
      Apply(f.ctm, << 0, 1000, 0, 1000 >>[i], << 0, 0, 1000, 1000 >>[i])]), !.src = src, !.data = data]

(*********************************** text **********************************)
\* glyph advance before character and word spacing, in text space
Adv(w, t) == ((w \div 100) * (t.fs \div 500) * t.tz) \div 2
Scaled(x, t) == (x * t.tz) \div 100

WidthOf(font, code) == IF code + 1 \in DOMAIN font.w /\ font.w[code + 1] >= 0 THEN font.w[code + 1] ELSE font.dw
UniOf(font, code) == IF code + 1 \in DOMAIN font.u THEN font.u[code + 1] ELSE -1

RECURSIVE ShowBytes(_, _, _, _, _)
\* result: [t |-> text state, ch |-> glyphs shown, bad |-> an undefined character was met]
ShowBytes(bs, font, m, t, ch) ==
  IF bs = << >> THEN [t |-> t, ch |-> ch, bad |-> FALSE]
  ELSE LET c   == Head(bs)
           adv == Adv(WidthOf(font, c), t)
           gm  == Shift(m, t.off, 0)
           y0  == (font.desc \div 100) * (t.fs \div 500) * 50 + t.rise
           y1  == y0 + (font.h \div 100) * (t.fs \div 500) * 50
           box == Hull(<< Apply(gm, 0, y0), Apply(gm, adv, y1) >>)
           off == t.off + adv + Scaled(t.tc, t) + (IF c = 32 THEN Scaled(t.tw, t) ELSE 0)
           u   == UniOf(font, c)
       IN IF u = -1 THEN [t |-> t, ch |-> ch, bad |-> TRUE]
          ELSE ShowBytes(Tail(bs), font, m, [t EXCEPT !.off = off], Append(ch, [u |-> u, bbox |-> box]))

RECURSIVE ShowSeq(_, _, _, _, _)
ShowSeq(seq, font, m, t, ch) ==
  IF seq = << >> THEN [t |-> t, ch |-> ch, bad |-> FALSE]
  ELSE LET e == Head(seq) IN
       IF e.k = "n"
       THEN ShowSeq(Tail(seq), font, m, [t EXCEPT !.off = @ - ((e.v * (t.fs \div 500)) * t.tz) \div 200], ch)
       ELSE LET r == ShowBytes(e.b, font, m, t, ch)
            IN IF r.bad THEN r ELSE ShowSeq(Tail(seq), font, m, r.t, r.ch)

NewLine(t) == [t EXCEPT !.m = Shift(@, 0, t.tl), !.off = 0]
Move(t, x, y) == [t EXCEPT !.m = Shift(@, x, y), !.off = 0]

BlockItem(f) ==
  LET bs == f.blk.kids IN
  [Item EXCEPT !.k = "text", !.blocks = bs,
               !.bbox = Hull(FlattenSeq([i \in 1..Len(bs) |-> Corners(bs[i].bbox)]))]

(*********************************** the machine ***************************)
\* A machine state: frames (innermost last), an error name, and the variant
\* bits that describe how the implementation is known to deviate.
Machine(w, qg) ==
  [fr |-> << Frame(PageCtm(w.mb, w.rot), 1, 1, Graph0, NoForm) >>, err |-> None, qg |-> qg]

Top(Z) == Last(Z.fr)
Op(Z) == Prog(Top(Z))[Top(Z).pc]
Done(Z) == Z.err # None \/ (Len(Z.fr) = 1 /\ Top(Z).pc > Len(Prog(Top(Z))))
AtOp(Z, names) == Z.err = None /\ Top(Z).pc <= Len(Prog(Top(Z))) /\ Op(Z).o \in names
AtEnd(Z) == Z.err = None /\ Len(Z.fr) > 1 /\ Top(Z).pc > Len(Prog(Top(Z)))

SetTop(Z, f) == [Z EXCEPT !.fr = Append(Front(Z.fr), f)]
Adv1(f) == [f EXCEPT !.pc = @ + 1]
Upd(Z, f) == SetTop(Z, Adv1(f))
Fail(Z, e) == [Z EXCEPT !.err = e]

DoSave(Z) == LET f == Top(Z) IN Upd(Z, [f EXCEPT !.stk = Append(@, [ctm |-> f.ctm, t |-> f.t, g |-> f.g])])
DoRestore(Z) ==
  LET f == Top(Z) IN
  IF f.stk = << >> THEN Upd(Z, f)
  ELSE LET s == Last(f.stk) IN
       Upd(Z, [f EXCEPT !.stk = Front(@), !.ctm = s.ctm, !.t = s.t, !.g = IF Z.qg THEN s.g ELSE @])
DoConcat(Z) == LET f == Top(Z) IN Upd(Z, [f EXCEPT !.ctm = MulM(Op(Z).a, @)])
DoWidth(Z) == LET f == Top(Z) IN Upd(Z, [f EXCEPT !.g.lw = Op(Z).a[1]])
\* operators without an observable effect, known or unknown to the interpreter
Inert == {"J", "j", "M", "d", "ri", "i", "Tr", "gs", "W", "W*", "BMC", "EMC", "MP", "BX", "EX", "xyzzy"}
DoInert(Z) == Upd(Z, Top(Z))

\* path construction
CtmPts(f, a) == [i \in 1..(Len(a) \div 2) |-> Apply(f.ctm, a[2*i - 1], a[2*i])]
Seg(f, m, a) == [m |-> m, p |-> CtmPts(f, a)]
DoSegment(Z) == LET f == Top(Z) IN Upd(Z, [f EXCEPT !.path = Append(@, Seg(f, Op(Z).o, Op(Z).a))])
DoRect(Z) ==
  LET f == Top(Z) a == Op(Z).a x == a[1] y == a[2] x1 == a[1] + a[3] y1 == a[2] + a[4] IN
  Upd(Z, [f EXCEPT !.path = @ \o << Seg(f, "m", <<x, y>>), Seg(f, "l", <<x1, y>>), Seg(f, "l", <<x1, y1>>),
                                    Seg(f, "l", <<x, y1>>), Seg(f, "h", << >>) >>])
DoPaint(Z) ==
  LET f == Top(Z) o == Op(Z).o
      p == IF o \in {"s", "b", "b*"} THEN Append(f.path, Seg(f, "h", << >>)) ELSE f.path
  IN Upd(Z, [f EXCEPT !.path = << >>, !.out = Append(@, PathItem(f, p, o \in {"f*", "B*", "b*"}))])
DoEndPath(Z) == Upd(Z, [Top(Z) EXCEPT !.path = << >>])

\* colours
SpaceN(f, n) == IF n \in DOMAIN Res(f).cs THEN Res(f).cs[n] ELSE [sp |-> n, n |-> Predefined[n]]
KnownSpace(f, n) == n \in DOMAIN Res(f).cs \/ n \in DOMAIN Predefined
NComp(f, sp) == IF sp \in DOMAIN Predefined THEN Predefined[sp]
                ELSE (CHOOSE s \in Range(Res(f).cs) : s.sp = sp).n
DoSpace(Z) ==
  LET f == Top(Z) n == Op(Z).n IN
  IF ~KnownSpace(f, n) THEN Fail(Z, "InvalidOperation")
  ELSE LET s == SpaceN(f, n).sp IN
       Upd(Z, IF Op(Z).o = "CS" THEN [f EXCEPT !.g.scs = s] ELSE [f EXCEPT !.g.ncs = s])
DoColor(Z) ==
  LET f == Top(Z) o == Op(Z).o a == Op(Z).a
      stroke == o \in {"G", "RG", "K", "SC", "SCN"}
      c == CASE o \in {"G", "g"} -> [sp |-> "DeviceGray", v |-> a]
             [] o \in {"RG", "rg"} -> [sp |-> "DeviceRGB", v |-> [i \in 1..3 |-> Rgb255(a[i]) * 1000]]
             [] o \in {"K", "k"} -> [sp |-> "DeviceCMYK", v |-> a]
             [] OTHER -> [sp |-> IF stroke THEN f.g.scs ELSE f.g.ncs, v |-> a]
  IN Upd(Z, IF stroke THEN [f EXCEPT !.g.sc = c] ELSE [f EXCEPT !.g.nc = c])

\* text
DoBT(Z) == LET f == Top(Z) IN
  IF f.blk.open THEN Fail(Z, "InvalidOperation")
  ELSE Upd(Z, [f EXCEPT !.t.m = Ident, !.t.off = 0, !.blk = [open |-> TRUE, kids |-> << >>]])
DoET(Z) == LET f == Top(Z) IN
  Upd(Z, [f EXCEPT !.blk = NoBlk,
                   !.out = IF f.blk.open /\ f.blk.kids # << >> THEN Append(@, BlockItem(f)) ELSE @])
DoTextParam(Z) ==
  LET f == Top(Z) a == Op(Z).a IN
  CASE Op(Z).o = "Tc" -> Upd(Z, [f EXCEPT !.t.tc = a[1]])
    [] Op(Z).o = "Tw" -> Upd(Z, [f EXCEPT !.t.tw = a[1]])
    [] Op(Z).o = "Tz" -> Upd(Z, [f EXCEPT !.t.tz = a[1] \div 1000])
    [] Op(Z).o = "TL" -> Upd(Z, [f EXCEPT !.t.tl = -a[1]])
    [] Op(Z).o = "Ts" -> Upd(Z, [f EXCEPT !.t.rise = a[1]])
DoFont(Z) == LET f == Top(Z) IN
  IF Op(Z).n \notin DOMAIN Res(f).fonts THEN Fail(Z, "InvalidOperation")
  ELSE Upd(Z, [f EXCEPT !.t.font = Op(Z).n, !.t.fs = Op(Z).a[1]])
DoMove(Z) ==
  LET f == Top(Z) a == Op(Z).a IN
  CASE Op(Z).o = "Td" -> Upd(Z, [f EXCEPT !.t = Move(@, a[1], a[2])])
    [] Op(Z).o = "TD" -> Upd(Z, [f EXCEPT !.t = [Move(@, a[1], a[2]) EXCEPT !.tl = a[2]]])
    [] Op(Z).o = "Tm" -> Upd(Z, [f EXCEPT !.t.m = a, !.t.off = 0])
    [] Op(Z).o = "T*" -> Upd(Z, [f EXCEPT !.t = NewLine(@)])
DoShow(Z) ==
  LET f  == Top(Z) o == Op(Z).o a == Op(Z).a
      t1 == IF o = "\"" THEN [f.t EXCEPT !.tw = a[1], !.tc = a[2]] ELSE f.t
      t2 == IF o \in {"'", "\""} THEN NewLine(t1) ELSE t1
  IN IF t2.font = "" \/ ~f.blk.open THEN Fail(Z, "InvalidOperation")
     ELSE LET font == Res(f).fonts[t2.font]
              r    == ShowSeq(Op(Z).s, font, MulM(t2.m, f.ctm), t2, << >>)
              blk  == [font |-> font.name, fs |-> t2.fs, nc |-> f.g.nc, ch |-> r.ch,
                       bbox |-> Hull(FlattenSeq([i \in 1..Len(r.ch) |-> Corners(r.ch[i].bbox)]))]
          IN IF r.bad THEN Fail(Z, "UnicodeNotDefined")
             ELSE Upd(Z, [f EXCEPT !.t = r.t, !.blk.kids = IF r.ch = << >> THEN @ ELSE Append(@, blk)])

\* external objects
DoXObject(Z) ==
  LET f == Top(Z) n == Op(Z).n IN
  IF n \notin DOMAIN Res(f).xo THEN Fail(Z, "InvalidOperation")
  ELSE LET x == Res(f).xo[n] IN
       IF x.k = "image" THEN Upd(Z, [f EXCEPT !.out = Append(@, ImageItem(f, x.src, x.data))])
       ELSE LET m == MulM(x.matrix, f.ctm)
                b == Hull([i \in 1..4 |-> Apply(m, Corners(x.bbox)[i][1], Corners(x.bbox)[i][2])])
                res == IF x.res > 0 THEN x.res ELSE f.res
            IN [Upd(Z, f) EXCEPT !.fr = Append(@, Frame(m, res, x.prog, f.g, [bbox |-> b]))]
\* an inline image (from BI to EI) is drawn like an image object
DoInline(Z) == LET f == Top(Z) IN Upd(Z, [f EXCEPT !.out = Append(@, ImageItem(f, Op(Z).a, Op(Z).s[1].b))])
\* the program of a form is exhausted: its items become the children of one item
DoReturn(Z) ==
  LET f == Top(Z) below == Front(Z.fr) p == Last(below)
      it == [Item EXCEPT !.k = "form", !.bbox = f.form.bbox, !.kids = f.out]
  IN [Z EXCEPT !.fr = Append(Front(below), [p EXCEPT !.out = Append(@, it)])]

Segments == {"m", "l", "c", "v", "y", "h"}
Paints == {"S", "s", "f", "F", "f*", "B", "B*", "b", "b*"}
Colors == {"G", "g", "RG", "rg", "K", "k", "SC", "SCN", "sc", "scn"}
TextParams == {"Tc", "Tw", "Tz", "TL", "Ts"}
Moves == {"Td", "TD", "Tm", "T*"}
Shows == {"Tj", "TJ", "'", "\""}

(*********************************** the next-state relation ***************)
Save      == AtOp(M, {"q"}) /\ M' = DoSave(M) /\ UNCHANGED tag
Restore   == AtOp(M, {"Q"}) /\ M' = DoRestore(M) /\ UNCHANGED tag
Concat    == AtOp(M, {"cm"}) /\ M' = DoConcat(M) /\ UNCHANGED tag
LineWidth == AtOp(M, {"w"}) /\ M' = DoWidth(M) /\ UNCHANGED tag
NoEffect  == AtOp(M, Inert) /\ M' = DoInert(M) /\ UNCHANGED tag
Construct == AtOp(M, Segments) /\ M' = DoSegment(M) /\ UNCHANGED tag
Rectangle == AtOp(M, {"re"}) /\ M' = DoRect(M) /\ UNCHANGED tag
Paint     == AtOp(M, Paints) /\ M' = DoPaint(M) /\ UNCHANGED tag
EndPath   == AtOp(M, {"n"}) /\ M' = DoEndPath(M) /\ UNCHANGED tag
SetSpace  == AtOp(M, {"CS", "cs"}) /\ M' = DoSpace(M) /\ UNCHANGED tag
SetColor  == AtOp(M, Colors) /\ M' = DoColor(M) /\ UNCHANGED tag
BeginText == AtOp(M, {"BT"}) /\ M' = DoBT(M) /\ UNCHANGED tag
EndText   == AtOp(M, {"ET"}) /\ M' = DoET(M) /\ UNCHANGED tag
TextParam == AtOp(M, TextParams) /\ M' = DoTextParam(M) /\ UNCHANGED tag
SetFont   == AtOp(M, {"Tf"}) /\ M' = DoFont(M) /\ UNCHANGED tag
MoveText  == AtOp(M, Moves) /\ M' = DoMove(M) /\ UNCHANGED tag
ShowText  == AtOp(M, Shows) /\ M' = DoShow(M) /\ UNCHANGED tag
Invoke    == AtOp(M, {"Do"}) /\ M' = DoXObject(M) /\ UNCHANGED tag
Inline    == AtOp(M, {"EI"}) /\ M' = DoInline(M) /\ UNCHANGED tag
Return    == AtEnd(M) /\ M' = DoReturn(M) /\ UNCHANGED tag

InterpNext ==
  \/ Save \/ Restore \/ Concat \/ LineWidth \/ NoEffect \/ Construct \/ Rectangle \/ Paint \/ EndPath
  \/ SetSpace \/ SetColor \/ BeginText \/ EndText \/ TextParam \/ SetFont \/ MoveText \/ ShowText
  \/ Invoke \/ Inline \/ Return

OpNames == {"q", "Q", "cm", "w", "re", "n", "CS", "cs", "BT", "ET", "Tf", "Do", "EI"}
           \cup Inert \cup Segments \cup Paints \cup Colors \cup TextParams \cup Moves \cup Shows

(*********************************** invariants of the design **************)
\* Depth of saved states never exceeds the number of q executed minus effective Q
StackBalanced == \A i \in 1..Len(M.fr) :
   LET f == M.fr[i]
       n == FoldLeft(LAMBDA d, op : IF op.o = "q" THEN d + 1 ELSE IF op.o = "Q" THEN Max2(0, d - 1) ELSE d,
                     0, SubSeq(Prog(f), 1, f.pc - 1))
   IN Len(f.stk) = n
\* One item per executed painting operator, text object with glyphs, or external object
Emitters(f) == Len(SelectSeq(SubSeq(Prog(f), 1, f.pc - 1), LAMBDA op : op.o \in Paints \cup {"Do", "EI"}))
ItemCount == \A i \in 1..Len(M.fr) : LET f == M.fr[i] IN
   Len(SelectSeq(f.out, LAMBDA it : it.k # "text")) = Emitters(f) - (IF i < Len(M.fr) THEN 1 ELSE 0)
BoxOk(b) == b[1] <= b[3] /\ b[2] <= b[4]
BoxesOk == \A i \in 1..Len(M.fr) : \A j \in 1..Len(M.fr[i].out) : BoxOk(M.fr[i].out[j].bbox)
\* inside a text object, the box of the object covers each of its glyphs
Covers(b, c) == b[1] <= c[1] /\ b[2] <= c[2] /\ b[3] >= c[3] /\ b[4] >= c[4]
TextCovered == \A i \in 1..Len(M.fr) : \A j \in 1..Len(M.fr[i].out) :
   LET it == M.fr[i].out[j] IN
   \A b \in 1..Len(it.blocks) : /\ Covers(it.bbox, it.blocks[b].bbox)
                                /\ \A c \in 1..Len(it.blocks[b].ch) : Covers(it.blocks[b].bbox, it.blocks[b].ch[c].bbox)
=============================================================================
