--------------------------- MODULE YamlTextTrace ---------------------------
(* Text written by the real code for recorded calls.  Case: [cs, text, exc]. *)
EXTENDS YamlText, TLC, Json, IOUtils
VARIABLES tag, w, r, pos, ph
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
Block == 40
TraceInit == tag \in 1..Len(Cases) /\ w = Open0 /\ r = Read0 /\ pos = 1 /\ ph = "calls"
Meaning == /\ ph = "calls" /\ pos <= Len(C.cs)
           /\ w' = Call(w, C.cs[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tag, r, ph>>
Turn == ph = "calls" /\ pos > Len(C.cs) /\ ph' = "text" /\ pos' = 1 /\ UNCHANGED <<tag, w, r>>
Reading == /\ ph = "text" /\ pos <= Len(C.text)
           /\ LET to == IF pos + Block - 1 < Len(C.text) THEN pos + Block - 1 ELSE Len(C.text) IN
              r' = ReadSome(r, SubSeq(C.text, pos, to)) /\ pos' = to + 1
           /\ UNCHANGED <<tag, w, ph>>
Ending == ph = "text" /\ pos > Len(C.text) /\ ph' = "done" /\ r' = Finish(r) /\ UNCHANGED <<tag, w, pos>>
TraceNext == Meaning \/ Turn \/ Reading \/ Ending
Done == ph = "done"
F == r
\* a string of decimal digits given to write() may be the number
Same(e, f) == IF e.t = "raw" THEN f = Ev("str", e.v) \/ (e.v # S0 /\ e.v[1] # 45 /\ IntText(e.v) /\ f = Ev("num", Canon(e.v))) ELSE e = f
FirstDiff == LET n == IF Len(F.ev) < Len(w.ev) THEN Len(F.ev) ELSE Len(w.ev)
                 b == {i \in 1..n : ~Same(w.ev[i], F.ev[i])} IN
  IF b = {} THEN (IF Len(F.ev) = Len(w.ev) THEN "" ELSE "structure") ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN
    IF F.ev[i].t # w.ev[i].t THEN w.ev[i].t \o " expected, " \o F.ev[i].t ELSE "another " \o w.ev[i].t
Clause == IF C.exc # "none" THEN "fails with " \o C.exc
          ELSE IF F.mode = "bad" THEN "not well-formed: " \o ToString(F.buf[1]) ELSE FirstDiff
TraceVerdict == Done => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause, ev |-> IF Clause = "" THEN F.ev ELSE S0]))
=============================================================================
