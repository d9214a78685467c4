---------------------------- MODULE CryptTrace ----------------------------
(* Attempts at opening real encrypted documents, and what was then read. *)
EXTENDS Crypt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TDoc(i) == Cases[i].d
TraceInit == tag \in 1..Len(Cases) /\ m = Start(Doc(tag))
TraceNext == CryptNext
Obs == Cases[tag].obs
What(i) == LET e == D.script[i] k == D.objs[e.o].k IN (IF e.op = "get" THEN "strings" ELSE "contents") \o " of " \o k
FirstBad == LET b == {i \in 1..Len(m.got) : Obs.got[i] # m.got[i]} IN
  IF b = {} THEN "" ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN What(i) \o " " \o Obs.got[i]
Clause == IF Obs.open # m.ph THEN m.ph \o " expected, " \o Obs.open
          ELSE IF Obs.doc # (IF m.ph = "denied" THEN "open" ELSE m.ph) THEN "document: " \o m.ph \o " expected, " \o Obs.doc
          ELSE IF m.ph # "open" THEN ""
          ELSE IF Obs.page # "plain" THEN "page content " \o Obs.page
          ELSE IF Len(Obs.got) # Len(m.got) THEN "reads missing" ELSE FirstBad
TraceVerdict == Done(m) => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
