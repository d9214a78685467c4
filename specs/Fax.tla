-------------------------------- MODULE Fax --------------------------------
(* Decoding CCITT Group 4 (T.6) data, one code at a time.                  *)
(* A row is the increasing sequence of positions where the colour changes, *)
(* from white before the row (so odd ones go to black), all < width.       *)
(* Case: [data, width, align, rows]; rows = 0: no limit.                   *)
(* d: bit position p, reference row, current row, a0, colour (0 white),    *)
(* state st = "mode" | "run1" | "run2" | "end" | "bad", pending run n, and *)
(* the length of the first run of a horizontal code.                       *)
EXTENDS Integers, Sequences, SequencesExt, FaxCodes
CONSTANT Case(_)
VARIABLES d, tag
C == Case(tag)
Wd == C.width

Start == [p |-> 0, ref |-> <<>>, cur |-> <<>>, a0 |-> -1, col |-> 0, st |-> "mode", n |-> 0, r1 |-> 0, rows |-> <<>>]
Left(p) == 8 * Len(C.data) - p
Byte(k) == IF k <= Len(C.data) THEN C.data[k] ELSE 0
Bits(p, l) == LET k == (p \div 8) + 1 o == p % 8 IN ((Byte(k) * 65536 + Byte(k + 1) * 256 + Byte(k + 2)) \div (2 ^ (24 - o - l))) % (2 ^ l)
Is(l, v) == Left(d.p) >= l /\ Bits(d.p, l) = v

\* ---- the changes of the reference row seen from a0
Opp(ref, a0, col) == {k \in 1..Len(ref) : ref[k] > a0 /\ k % 2 = 1 - col}
B1i(ref, a0, col) == LET s == Opp(ref, a0, col) IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j
B1(ref, a0, col, w) == LET k == B1i(ref, a0, col) IN IF k = 0 THEN w ELSE ref[k]
B2(ref, a0, col, w) == LET k == B1i(ref, a0, col) IN IF k = 0 \/ k = Len(ref) THEN w ELSE ref[k + 1]
\* a change at x; two changes at the same place cancel, and the right edge is none
Mark(row, x, w) == IF row # <<>> /\ Last(row) = x THEN Front(row) ELSE IF x >= w THEN row ELSE Append(row, x)

\* at x the row may be complete
Up8(p) == ((p + 7) \div 8) * 8
Settle(e, cur, x, col, p) ==
  IF x >= Wd
  THEN [e EXCEPT !.rows = Append(@, cur), !.ref = cur, !.cur = <<>>, !.a0 = -1, !.col = 0, !.p = IF C.align THEN Up8(p) ELSE p,
                 !.st = IF C.rows > 0 /\ Len(e.rows) + 1 = C.rows THEN "end" ELSE "mode"]
  ELSE [e EXCEPT !.cur = cur, !.a0 = x, !.col = col, !.p = p, !.st = "mode"]

Mode == d.st = "mode"
VCodes == {<<0, 1, 1>>, <<1, 3, 3>>, <<-1, 3, 2>>, <<2, 6, 3>>, <<-2, 6, 2>>, <<3, 7, 3>>, <<-3, 7, 2>>}
Vertical == /\ Mode /\ \E c \in VCodes : /\ Is(c[2], c[3])
                 /\ LET x == B1(d.ref, d.a0, d.col, Wd) + c[1] IN
                    d' = IF x < d.a0 \/ x < 0 \/ x > Wd THEN [d EXCEPT !.st = "bad"]
                         ELSE Settle(d, Mark(d.cur, x, Wd), x, 1 - d.col, d.p + c[2])
            /\ UNCHANGED tag
Pass == /\ Mode /\ Is(4, 1)
        /\ d' = Settle(d, d.cur, B2(d.ref, d.a0, d.col, Wd), d.col, d.p + 4)
        /\ UNCHANGED tag
Horizontal == Mode /\ Is(3, 1) /\ d' = [d EXCEPT !.st = "run1", !.n = 0, !.p = @ + 3] /\ UNCHANGED tag
EndBlock == Mode /\ Is(12, 1) /\ Left(d.p) >= 24 /\ Bits(d.p + 12, 12) = 1 /\ d' = [d EXCEPT !.st = "end"] /\ UNCHANGED tag
\* only fill bits are left
RECURSIVE Zeros(_)
Zeros(p) == IF Left(p) = 0 THEN TRUE ELSE IF Bits(p, 1) = 1 THEN FALSE ELSE Zeros(p + 1)
OutOfData == Mode /\ (IF Left(d.p) < 12 THEN Zeros(d.p) ELSE FALSE) /\ d' = [d EXCEPT !.st = "end"] /\ UNCHANGED tag
InRun == d.st \in {"run1", "run2"}
\* colour of the run being read
RunCol == IF d.st = "run1" THEN d.col ELSE 1 - d.col
Tab == IF RunCol = 0 THEN WhiteTab ELSE BlackTab
RunLens == {l \in 2..13 : Left(d.p) >= l /\ <<l, Bits(d.p, l)>> \in DOMAIN Tab}
RunLen == CHOOSE l \in RunLens : TRUE
RunVal == Tab[<<RunLen, Bits(d.p, RunLen)>>]
MakeUp == InRun /\ RunLens # {} /\ RunVal >= 64 /\ d' = [d EXCEPT !.n = @ + RunVal, !.p = @ + RunLen] /\ UNCHANGED tag
Run1 == d.st = "run1" /\ RunLens # {} /\ RunVal < 64 /\ d' = [d EXCEPT !.st = "run2", !.r1 = d.n + RunVal, !.n = 0, !.p = @ + RunLen] /\ UNCHANGED tag
Run2 == /\ d.st = "run2" /\ RunLens # {} /\ RunVal < 64
        /\ LET a == IF d.a0 < 0 THEN 0 ELSE d.a0 x1 == a + d.r1 x2 == x1 + d.n + RunVal IN
           d' = IF x2 > Wd THEN [d EXCEPT !.st = "bad"]
                ELSE Settle(d, Mark(Mark(d.cur, x1, Wd), x2, Wd), x2, d.col, d.p + RunLen)
        /\ UNCHANGED tag
DecodeNext == Vertical \/ Pass \/ Horizontal \/ EndBlock \/ OutOfData \/ MakeUp \/ Run1 \/ Run2
Over == d.st \in {"end", "bad"}

RowsProper == \A r \in 1..Len(d.rows) : \A k \in 1..Len(d.rows[r]) :
                d.rows[r][k] < Wd /\ (k > 1 => d.rows[r][k - 1] < d.rows[r][k])
=============================================================================
