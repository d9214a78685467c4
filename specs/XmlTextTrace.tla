---------------------------- MODULE XmlTextTrace ----------------------------
(* Text written by the real code for recorded calls.  Case: [fmt, codec, cs, text, exc]. *)
EXTENDS XmlText, TLC, Json, IOUtils
VARIABLES tag, w, r, pos, ph
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
Block == 40
TraceInit == tag \in 1..Len(Cases) /\ w = Open0 /\ r = Read0(C.fmt) /\ pos = 1 /\ ph = "calls"
Meaning == /\ ph = "calls" /\ pos <= Len(C.cs)
           /\ w' = Call(C.fmt, w, C.cs[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tag, r, ph>>
Turn == ph = "calls" /\ pos > Len(C.cs) /\ ph' = "text" /\ pos' = 1 /\ w' = Flush(w) /\ UNCHANGED <<tag, r>>
Reading == /\ ph = "text" /\ pos <= Len(C.text)
           /\ LET to == IF pos + Block - 1 < Len(C.text) THEN pos + Block - 1 ELSE Len(C.text) IN
              r' = ReadSome(r, SubSeq(C.text, pos, to)) /\ pos' = to + 1
           /\ UNCHANGED <<tag, w, ph>>
TraceNext == Meaning \/ Turn \/ Reading
Done == ph = "text" /\ pos > Len(C.text)
F == Finish(r)
FirstDiff == LET n == IF Len(F.ev) < Len(w.ev) THEN Len(F.ev) ELSE Len(w.ev)
                 b == {i \in 1..n : ~SameEv(w.ev[i], F.ev[i])} IN
  IF b = {} THEN (IF Len(F.ev) = Len(w.ev) THEN "" ELSE "structure")
  ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN
    IF F.ev[i].t # w.ev[i].t THEN "structure" ELSE IF w.ev[i].t = "t" THEN "another text" ELSE IF w.ev[i].v # F.ev[i].v THEN "another element" ELSE "another attribute"
Clause == IF C.exc # "none" THEN "fails with " \o C.exc
          ELSE IF r.mode = "bad" THEN "not well-formed: " \o ToString(r.buf[1])
          ELSE IF ~Complete(F, C.codec) THEN "incomplete" ELSE FirstDiff
TraceVerdict == Done => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
