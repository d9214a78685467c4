--------------------------- MODULE JsonTextTrace ---------------------------
(* Text written by the real code for recorded calls.  Case: [cs, text, exc]. *)
EXTENDS JsonText, TLC, Json, IOUtils
VARIABLES tag, w, r, pos, ph
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
Block == 40
TraceInit == tag \in 1..Len(Cases) /\ w = Open0 /\ r = Read0 /\ pos = 1 /\ ph = "calls"
Meaning == /\ ph = "calls" /\ pos <= Len(C.cs)
           /\ w' = Call(w, C.cs[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tag, r, ph>>
Turn == ph = "calls" /\ pos > Len(C.cs) /\ ph' = "text" /\ pos' = 1 /\ UNCHANGED <<tag, w, r>>
Reading == /\ ph = "text" /\ pos <= Len(C.text)
           /\ LET to == IF pos + Block - 1 < Len(C.text) THEN pos + Block - 1 ELSE Len(C.text) IN
              r' = ReadSome(r, SubSeq(C.text, pos, to)) /\ pos' = to + 1
           /\ UNCHANGED <<tag, w, ph>>
TraceNext == Meaning \/ Turn \/ Reading
Done == ph = "text" /\ pos > Len(C.text)
FirstDiff == LET n == IF Len(r.ev) < Len(w.ev) THEN Len(r.ev) ELSE Len(w.ev)
                 b == {i \in 1..n : r.ev[i] # w.ev[i]} IN
  IF b = {} THEN "structure" ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN
    IF r.ev[i].t # w.ev[i].t THEN w.ev[i].t \o " expected, " \o r.ev[i].t ELSE "another " \o w.ev[i].t
Clause == IF C.exc # "none" THEN "fails with " \o C.exc
          ELSE IF r.mode = "bad" THEN "not well-formed: " \o ToString(r.buf[1])
          ELSE IF r.mode # "done" THEN "incomplete" ELSE IF r.ev = w.ev THEN "" ELSE FirstDiff
TraceVerdict == Done => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
