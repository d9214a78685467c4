------------------------------- MODULE FaxGen -------------------------------
(* Every bitmap of the sizes in conf, encoded in every legal way, then     *)
(* decoded again by Fax.tla: the bitmap must come back.                    *)
EXTENDS Fax, TLC, Json, IOUtils
VARIABLE e   \* encoder: [ph, r, a0, col, bits]
Conf == JsonDeserialize(IOEnv.CONF)
\* tag = [bm, width, align, rows, eofb, data]
GCase(t) == t
Bm == tag.bm
W == tag.width
RowsOf(w) == {SetToSortSeq(s, <) : s \in SUBSET (0..(w - 1))}
GenInit == /\ \E i \in 1..Len(Conf.sizes) : \E bm \in [1..Conf.sizes[i][2] -> RowsOf(Conf.sizes[i][1])], al \in BOOLEAN, end \in 0..2 :
                \* 0: end-of-block code; 1: a number of rows; 2: the data just end
                tag = [bm |-> bm, width |-> Conf.sizes[i][1], align |-> al, rows |-> IF end = 1 THEN Len(bm) ELSE 0, eofb |-> end = 0, data |-> <<>>]
           /\ e = [ph |-> "enc", r |-> 1, a0 |-> -1, col |-> 0, bits |-> <<>>] /\ d = Start
Row == Bm[e.r]
Ref == IF e.r = 1 THEN <<>> ELSE Bm[e.r - 1]
After(row, x) == LET s == SelectSeq(row, LAMBDA c : c > x) IN IF s = <<>> THEN W ELSE s[1]
A1 == After(Row, e.a0)
A2 == IF A1 = W THEN W ELSE After(Row, A1)
EB1 == B1(Ref, e.a0, e.col, W)
EB2 == B2(Ref, e.a0, e.col, W)
CodeBits(l, v) == [k \in 1..l |-> (v \div (2 ^ (l - k))) % 2]
RECURSIVE RunBits(_, _)
RunBits(col, n) == LET T == IF col = 0 THEN WhiteCod ELSE BlackCod IN
  IF n > 2623 THEN CodeBits(T[2560][1], T[2560][2]) \o RunBits(col, n - 2560)
  ELSE (IF n >= 64 THEN CodeBits(T[64 * (n \div 64)][1], T[64 * (n \div 64)][2]) ELSE <<>>) \o CodeBits(T[n % 64][1], T[n % 64][2])
Emit(bits, x, col) ==
  LET b == e.bits \o bits
      pad == IF x >= W /\ tag.align THEN [k \in 1..(Up8(Len(b)) - Len(b)) |-> 0] ELSE <<>>
  IN e' = IF x >= W THEN [ph |-> IF e.r = Len(Bm) THEN "done" ELSE "enc", r |-> e.r + 1, a0 |-> -1, col |-> 0, bits |-> b \o pad]
          ELSE [e EXCEPT !.a0 = x, !.col = col, !.bits = b]
Enc == e.ph = "enc"
EncPass == Enc /\ EB2 < A1 /\ Emit(CodeBits(4, 1), EB2, e.col) /\ UNCHANGED <<d, tag>>
EncVert == Enc /\ \E c \in VCodes : A1 - EB1 = c[1] /\ Emit(CodeBits(c[2], c[3]), A1, 1 - e.col) /\ UNCHANGED <<d, tag>>
EncHoriz == Enc /\ Emit(CodeBits(3, 1) \o RunBits(e.col, A1 - (IF e.a0 < 0 THEN 0 ELSE e.a0)) \o RunBits(1 - e.col, A2 - A1), A2, e.col) /\ UNCHANGED <<d, tag>>
RECURSIVE PackBits(_)
PackBits(bits) == IF bits = <<>> THEN <<>>
  ELSE LET B(k) == IF k <= Len(bits) THEN bits[k] ELSE 0 IN
       <<B(1) * 128 + B(2) * 64 + B(3) * 32 + B(4) * 16 + B(5) * 8 + B(6) * 4 + B(7) * 2 + B(8)>> \o PackBits(SubSeq(bits, 9, Len(bits)))
Finish == /\ e.ph = "done"
          /\ tag' = [tag EXCEPT !.data = PackBits(e.bits \o (IF tag.eofb THEN CodeBits(12, 1) \o CodeBits(12, 1) ELSE <<>>))]
          /\ e' = [e EXCEPT !.ph = "dec"] /\ UNCHANGED d
Decode == e.ph = "dec" /\ DecodeNext /\ UNCHANGED e
GenNext == EncPass \/ EncVert \/ EncHoriz \/ Finish \/ Decode
ComesBack == Over => d.st = "end" /\ d.rows = Bm
Emitted == Over => PrintT("@@" \o ToJson(tag))
=============================================================================
