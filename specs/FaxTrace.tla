------------------------------ MODULE FaxTrace ------------------------------
(* Bitmaps decoded by the real code, against the specification's decoding. *)
EXTENDS Fax, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TCase(i) == Cases[i]
TraceInit == tag \in 1..Len(Cases) /\ d = Start
TraceNext == DecodeNext
Obs == C.obs
Clause == IF Obs.exc # "none" THEN "fails with " \o Obs.exc
          ELSE IF Len(Obs.rows) # Len(d.rows) THEN "number of rows"
          ELSE IF Obs.rows # d.rows THEN "other pixels" ELSE ""
\* the case also says which bitmap was encoded: the specification must agree
TraceVerdict == Over => PrintT("@@" \o ToJson([id |-> tag, bad |-> d.st = "bad" \/ d.rows # C.bm, clause |-> Clause]))
=============================================================================
