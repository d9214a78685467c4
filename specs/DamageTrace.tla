---------------------------- MODULE DamageTrace ----------------------------
(* What the real code delivered from damaged documents, page by page. *)
EXTENDS Damage, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TDoc(i) == Cases[i].d
TraceInit == tag \in 1..Len(Cases) /\ w = Start
TraceNext == Next0
\* page objects outside a tree have no order
Obs == IF w.loose THEN SortSeq(Cases[tag].out, LAMBDA a, b : a.n < b.n) ELSE Cases[tag].out
Err == Cases[tag].err
FirstBad(s) == LET b == SelectSeq(s, LAMBDA x : x # "") IN IF b = <<>> THEN "" ELSE b[1]
OnePage(e, o) ==
  IF o.n # e.n THEN "another page"
  ELSE IF o.err # e.err THEN (IF e.err = "" THEN "page fails with " \o o.err ELSE IF o.err = "" THEN "error not reported: " \o e.err ELSE "reported as " \o o.err \o ", not " \o e.err)
  ELSE IF o.items # e.items THEN (IF e.err = "" THEN "items of a page" ELSE "items before the error")
  ELSE ""
Clause ==
  IF Err # w.err THEN (IF w.err = "" THEN "document fails with " \o Err ELSE IF Err = "" THEN "error not reported: " \o w.err ELSE "reported as " \o Err \o ", not " \o w.err)
  ELSE IF Len(Obs) < Len(w.out) THEN "page missing" ELSE IF Len(Obs) > Len(w.out) THEN "page too many"
  ELSE FirstBad([i \in 1..Len(w.out) |-> OnePage(w.out[i], Obs[i])])
TraceVerdict == Done(w) => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
