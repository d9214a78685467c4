------------------------------ MODULE Filters ------------------------------
(* Undoing a chain of stream filters and predictors.                       *)
(*                                                                         *)
(* A case is [data, stages]; a stage is [f, pred, colors, cols, bpc,       *)
(* early, plain] with f \in "hex" "a85" "rl" "lzw" "opaque" (a filter left *)
(* to a library: plain is what was compressed) "pass" (DCT: not decoded).  *)
(* z: stage i, phase "dec" | "pred", input src read up to p, output out;   *)
(* n, b: pending digits; w: LZW code width; st: where the LZW codes since  *)
(* the last clear code put their strings in out (the string of code 258+j  *)
(* is the j-th of these with the first byte of the next one).              *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Case(_)
VARIABLES z, tag
C == Case(tag)
S == C.stages[z.i]

Start(c) == [i |-> 1, ph |-> "dec", src |-> <<>>, p |-> 0, out |-> <<>>, bad |-> FALSE, n |-> 0, b |-> <<0, 0, 0, 0>>, w |-> 9, st |-> <<>>]
\* the data of the first filter is not copied into the state
Src == IF z.i = 1 /\ z.ph = "dec" THEN C.data ELSE z.src
More == z.p < Len(Src)
Cur == Src[z.p + 1]
Running == ~z.bad /\ z.i <= Len(C.stages)
In(f) == Running /\ z.ph = "dec" /\ S.f = f
Stay == UNCHANGED tag

\* the filter is undone: on to its predictor; the predictor is undone: on to the next filter
EndFilter(out) == z' = [z EXCEPT !.ph = "pred", !.src = out, !.p = 0, !.out = <<>>, !.n = 0, !.b = <<0, 0, 0, 0>>, !.w = 9, !.st = <<>>]
EndStage(out) == z' = [z EXCEPT !.ph = "dec", !.src = out, !.p = 0, !.out = <<>>, !.i = @ + 1]

White(c) == c \in {0, 9, 10, 12, 13, 32}
\* ---- ASCIIHex
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexDigit == /\ In("hex") /\ More /\ HexVal(Cur) >= 0
            /\ z' = IF z.n = 0 THEN [z EXCEPT !.p = @ + 1, !.n = 1, !.b[1] = HexVal(Cur)]
                    ELSE [z EXCEPT !.p = @ + 1, !.n = 0, !.out = Append(@, z.b[1] * 16 + HexVal(Cur))]
            /\ Stay
HexSkip == In("hex") /\ More /\ White(Cur) /\ z' = [z EXCEPT !.p = @ + 1] /\ Stay
HexEnd == /\ In("hex") /\ (IF More THEN Cur = 62 ELSE TRUE)
          /\ EndFilter(IF z.n = 1 THEN Append(z.out, z.b[1] * 16) ELSE z.out) /\ Stay
HexBad == In("hex") /\ More /\ HexVal(Cur) < 0 /\ ~White(Cur) /\ Cur # 62 /\ z' = [z EXCEPT !.bad = TRUE] /\ Stay

\* ---- ASCII85: the value is kept as four bytes
Carry(b, k, c) == b[k] * 85 + c
MulAdd(b, c) ==
  LET v4 == Carry(b, 4, c) v3 == Carry(b, 3, v4 \div 256) v2 == Carry(b, 2, v3 \div 256) v1 == Carry(b, 1, v2 \div 256)
  IN [v |-> <<v1 % 256, v2 % 256, v3 % 256, v4 % 256>>, over |-> v1 > 255]
IsA85(c) == c \in 33..117
A85Digit == /\ In("a85") /\ More /\ IsA85(Cur)
            /\ LET m == MulAdd(z.b, Cur - 33) IN
               z' = IF m.over THEN [z EXCEPT !.bad = TRUE]
                    ELSE IF z.n = 4 THEN [z EXCEPT !.p = @ + 1, !.n = 0, !.b = <<0, 0, 0, 0>>, !.out = @ \o m.v]
                    ELSE [z EXCEPT !.p = @ + 1, !.n = @ + 1, !.b = m.v]
            /\ Stay
A85Zero == /\ In("a85") /\ More /\ Cur = 122
           /\ z' = IF z.n = 0 THEN [z EXCEPT !.p = @ + 1, !.out = @ \o <<0, 0, 0, 0>>] ELSE [z EXCEPT !.bad = TRUE]
           /\ Stay
A85Skip == In("a85") /\ More /\ White(Cur) /\ z' = [z EXCEPT !.p = @ + 1] /\ Stay
RECURSIVE Pad(_, _)
Pad(b, k) == IF k = 0 THEN [v |-> b, over |-> FALSE] ELSE LET m == MulAdd(b, 84) IN IF m.over THEN m ELSE Pad(m.v, k - 1)
A85End == /\ In("a85") /\ (IF More THEN Cur = 126 ELSE TRUE)
          /\ LET m == Pad(z.b, 5 - z.n) IN
             IF z.n = 0 THEN EndFilter(z.out)
             ELSE IF z.n = 1 \/ m.over THEN z' = [z EXCEPT !.bad = TRUE]
             ELSE EndFilter(z.out \o SubSeq(m.v, 1, z.n - 1))
          /\ Stay
A85Bad == In("a85") /\ More /\ ~IsA85(Cur) /\ ~White(Cur) /\ Cur \notin {122, 126} /\ z' = [z EXCEPT !.bad = TRUE] /\ Stay

\* ---- RunLength
RlLiteral == /\ In("rl") /\ More /\ Cur < 128
             /\ z' = IF z.p + 2 + Cur > Len(Src) THEN [z EXCEPT !.bad = TRUE]
                     ELSE [z EXCEPT !.p = @ + 2 + Cur, !.out = @ \o SubSeq(Src, z.p + 2, z.p + 2 + Cur)]
             /\ Stay
RlRepeat == /\ In("rl") /\ More /\ Cur > 128
            /\ z' = IF z.p + 2 > Len(Src) THEN [z EXCEPT !.bad = TRUE]
                    ELSE [z EXCEPT !.p = @ + 2, !.out = @ \o [k \in 1..(257 - Cur) |-> Src[z.p + 2]]]
            /\ Stay
RlEnd == In("rl") /\ (IF More THEN Cur = 128 ELSE TRUE) /\ EndFilter(z.out) /\ Stay

\* ---- LZW: p counts bits
Byte(k) == IF k <= Len(Src) THEN Src[k] ELSE 0
Bits(p, w) == LET k == (p \div 8) + 1 o == p % 8 v == Byte(k) * 65536 + Byte(k + 1) * 256 + Byte(k + 2)
              IN (v \div (2 ^ (24 - o - w))) % (2 ^ w)
Code == IF z.p + z.w <= 8 * Len(Src) THEN Bits(z.p, z.w) ELSE 257
Width(l, early) == IF l + early < 512 THEN 9 ELSE IF l + early < 1024 THEN 10 ELSE IF l + early < 2048 THEN 11 ELSE 12
LzwClear == In("lzw") /\ Code = 256 /\ z' = [z EXCEPT !.p = @ + z.w, !.w = 9, !.st = <<>>] /\ Stay
\* [from, to] in out, after the byte that a new string repeats
Text(c, m) == IF c < 256 THEN <<c>>
              ELSE LET j == c - 257 a == z.st[j] e == IF j = m THEN Len(z.out) + 1 ELSE z.st[j + 1] IN
                   \* the string of the last code ends with its own first byte
                   IF e = Len(z.out) + 1 THEN Append(SubSeq(z.out, a, Len(z.out)), z.out[a]) ELSE SubSeq(z.out, a, e)
LzwCode == /\ In("lzw") /\ Code \notin {256, 257}
           /\ LET m == Len(z.st) IN
              z' = IF Code > 257 + m THEN [z EXCEPT !.bad = TRUE]
                   ELSE [z EXCEPT !.out = @ \o Text(Code, m), !.st = Append(@, Len(z.out) + 1), !.p = @ + z.w,
                                  !.w = Width(258 + m, S.early)]
           /\ Stay
LzwEnd == In("lzw") /\ Code = 257 /\ EndFilter(z.out) /\ Stay

\* ---- the others
Opaque == In("opaque") /\ EndFilter(S.plain) /\ Stay
PassOn == In("pass") /\ EndFilter(Src) /\ Stay

\* ---- predictors
Pred == Running /\ z.ph = "pred"
RowLen == (S.colors * S.cols * S.bpc + 7) \div 8
Bpp == IF (S.colors * S.bpc) \div 8 > 1 THEN (S.colors * S.bpc) \div 8 ELSE 1
Abs(x) == IF x < 0 THEN -x ELSE x
Paeth(a, b, c) == LET p == a + b - c IN
  IF Abs(p - a) <= Abs(p - b) /\ Abs(p - a) <= Abs(p - c) THEN a ELSE IF Abs(p - b) <= Abs(p - c) THEN b ELSE c
Up(row, k) == IF row = <<>> \/ k < 1 THEN 0 ELSE row[k]
Pb(ft, l, u, ul) == CASE ft = 0 -> 0 [] ft = 1 -> l [] ft = 2 -> u [] ft = 3 -> (l + u) \div 2 [] OTHER -> Paeth(l, u, ul)
RECURSIVE Row(_, _, _, _)
Row(ft, prev, cur, acc) ==
  LET k == Len(acc) + 1 l == IF k > Bpp THEN acc[k - Bpp] ELSE 0 IN
  IF k > Len(cur) THEN acc ELSE Row(ft, prev, cur, Append(acc, (cur[k] + Pb(ft, l, Up(prev, k), Up(prev, k - Bpp))) % 256))
NoPredictor == Pred /\ S.pred < 10 /\ EndStage(z.src) /\ Stay
PngRow == /\ Pred /\ S.pred >= 10 /\ More
          /\ LET cur == SubSeq(z.src, z.p + 2, z.p + 1 + RowLen)
                 prev == IF z.out = <<>> THEN <<>> ELSE SubSeq(z.out, Len(z.out) - RowLen + 1, Len(z.out)) IN
             z' = IF Cur > 4 \/ z.p + 1 + RowLen > Len(z.src) THEN [z EXCEPT !.bad = TRUE]
                  ELSE [z EXCEPT !.p = @ + 1 + RowLen, !.out = @ \o Row(Cur, prev, cur, <<>>)]
          /\ Stay
PngEnd == Pred /\ S.pred >= 10 /\ ~More /\ EndStage(z.out) /\ Stay

Next == HexDigit \/ HexSkip \/ HexEnd \/ HexBad \/ A85Digit \/ A85Zero \/ A85Skip \/ A85End \/ A85Bad \/ RlLiteral \/ RlRepeat \/ RlEnd
        \/ LzwClear \/ LzwCode \/ LzwEnd \/ Opaque \/ PassOn \/ NoPredictor \/ PngRow \/ PngEnd
Done == z.i > Len(C.stages)
Result == Src

BytesOnly == \A k \in 1..Len(z.out) : z.out[k] \in 0..255
Progress == z.p <= 8 * Len(Src)
=============================================================================
