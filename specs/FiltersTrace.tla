---------------------------- MODULE FiltersTrace ----------------------------
(* What the real code decoded, against the specification's own decoding. *)
EXTENDS Filters, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TCase(i) == Cases[i]
TraceInit == tag \in 1..Len(Cases) /\ z = Start(Case(tag))
TraceNext == Next
Obs == C.obs
Clause == IF Obs.exc # "none" THEN "fails with " \o Obs.exc
          ELSE IF Len(Obs.data) < Len(Result) THEN "bytes missing"
          ELSE IF Len(Obs.data) > Len(Result) THEN "bytes too many"
          ELSE IF Obs.data # Result THEN "other bytes"
          ELSE IF ~Obs.same THEN "another reading differs" ELSE ""
TraceVerdict == (Done \/ z.bad) => PrintT("@@" \o ToJson([id |-> tag, bad |-> z.bad, clause |-> IF z.bad THEN "" ELSE Clause]))
=============================================================================
