---------------------------- MODULE XrefTrace ----------------------------
(* Lookups recorded from the real code on files with a known history. *)
EXTENDS Xref, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TObjs == 1..40
VARIABLE t
Cur == Cases[t.id]
TraceInit == t \in {[id |-> i, d |-> InitDoc, i |-> 1, j |-> 1, n |-> 0, clause |-> ""] : i \in 1..Len(Cases)}
DoRevise(c) == /\ t.i <= Len(c.h)
               /\ t' = [t EXCEPT !.d = Revise(@, c.h[t.i].kind, c.h[t.i].chs, c.h[t.i].hide), !.i = @ + 1]
DoDamage(c) == /\ t.i = Len(c.h) + 1
               /\ t' = [t EXCEPT !.d = [@ EXCEPT !.dam = c.dam, !.at = c.at], !.i = @ + 1]
Clause(c, l) == LET w == Find(t.d, l.o) IN
  IF l.exc = "none" /\ l.v = w THEN ""
  ELSE IF l.exc # "none" THEN "lookup fails with " \o l.exc
  ELSE IF w = NotFound THEN "object that is free or undefined is found"
  ELSE IF l.v = NotFound THEN "object is not found"
  ELSE "not the newest definition"
DoLookup(c) == /\ t.i = Len(c.h) + 2 /\ t.j <= Len(c.obs) /\ t.clause = ""
               /\ t' = [t EXCEPT !.clause = Clause(c, c.obs[t.j]), !.j = @ + 1]
TraceNext == DoRevise(Cur) \/ DoDamage(Cur) \/ DoLookup(Cur)
Finished == t.clause # "" \/ (t.i = Len(Cur.h) + 2 /\ t.j > Len(Cur.obs))
TraceVerdict == Finished => PrintT("@@" \o ToJson([id |-> t.id, ok |-> t.clause = "", clause |-> t.clause, at |-> t.j]))
\* the refinement is checked where the lookups begin
Inv == (t.i > Len(Cur.h) /\ t.j = 1) => Refines(t.d) /\ Recovered(t.d) /\ ScanAgrees(t.d)
=============================================================================
