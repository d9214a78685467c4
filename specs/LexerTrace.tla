------------------------------ MODULE LexerTrace ------------------------------
(* Validation of recorded tokenizer runs: each case is the input and the      *)
(* tokens the code delivered, possibly several runs that must agree.          *)
EXTENDS Lexer, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

\* clause for one run r = [toks, off, from]: tokens from the from-th on, offsets shifted by off
TokClause(exp, r) ==
  LET e == SubSeq(exp, r.from, Len(exp))
      n == IF Len(e) < Len(r.toks) THEN Len(e) ELSE Len(r.toks)
      bad == {i \in 1..n : e[i].k # r.toks[i].k \/ e[i].v # r.toks[i].v}
      badp == {i \in 1..n : e[i].p + r.off # r.toks[i].p}
  IN IF r.exc # "none" THEN "exception " \o r.exc
     ELSE IF bad # {} THEN "token value"
     ELSE IF Len(r.toks) < Len(e) THEN "token lost"
     ELSE IF Len(r.toks) > Len(e) THEN "token invented"
     ELSE IF badp # {} THEN "token offset" ELSE ""

LineVerdict(c) ==
  IF "lines" \notin DOMAIN c THEN ""
  ELSE LET f == {x \in {LinesClause(c.data, c.lines[i].l, c.lines[i].p) : i \in 1..Len(c.lines)}
                       \union {RevClause(c.data, c.rlines[i]) : i \in 1..Len(c.rlines)} : x # ""}
       IN IF f = {} THEN "" ELSE CHOOSE x \in f : TRUE
Verdict(c, l) ==
  IF LineVerdict(c) # "" THEN LineVerdict(c)
  ELSE IF l.mode = "unspec" THEN "unspec"
  ELSE LET cl == [i \in 1..Len(c.runs) |-> TokClause(l.out, c.runs[i])]
           bad == {i \in 1..Len(cl) : cl[i] # ""}
       IN IF bad # {} THEN cl[CHOOSE i \in bad : \A j \in bad : i <= j] ELSE ""

TraceInit == \E i \in 1..Len(Cases) : L = LInit0 @@ [id |-> i, done |-> FALSE]
\* the next byte, or -1 at the end of the data
Cur == IF ~L.done /\ L.pos < Len(Cases[L.id].data) THEN Cases[L.id].data[L.pos + 1] ELSE -1
EndOfData == ~L.done /\ (Cur = -1 \/ L.mode = "unspec") /\ L' = [AtEnd(L) EXCEPT !.done = TRUE]
\* one named action per kind of step, so that the coverage report tells them apart
DoSkipWhite == SkipWhite(Cur)
DoStartToken == StartToken(Cur)
DoExtendToken == ExtendToken(Cur)
DoEndToken == EndToken(Cur)
DoCommentByte == CommentByte(Cur)
DoStringByte == StringByte(Cur)
DoEscapeByte == EscapeByte(Cur)
DoOctalByte == OctalByte(Cur)
DoAngleByte == AngleByte(Cur)
DoHexByte == HexByte(Cur)
TraceNext == DoSkipWhite \/ DoStartToken \/ DoExtendToken \/ DoEndToken \/ DoCommentByte \/ DoStringByte \/ DoEscapeByte \/ DoOctalByte \/ DoAngleByte \/ DoHexByte \/ EndOfData
TraceVerdict == L.done => PrintT("@@" \o ToJson([id |-> L.id, ideal |-> OddHexIdeal, clause |-> Verdict(Cases[L.id], L)]))
=============================================================================
