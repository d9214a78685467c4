--------------------------- MODULE IterHistTrace ---------------------------
(* Recorded histories: each answer of the code against the specification. *)
EXTENDS IterHist, TLC, Json, IOUtils
VARIABLE s
Cases == JsonDeserialize(IOEnv.CASES)
TFiles(t) == Cases[t].files
Ops == Cases[tag].ops
TraceInit == tag \in 1..Len(Cases) /\ h = H0 /\ s = [n |-> 0, clause |-> ""]
Cur == Ops[s.n + 1]
Todo(o) == s.n < Len(Ops) /\ s.clause = "" /\ Cur.o = o
Same(a, b) == a.k = b.k /\ a.p = b.p /\ a.v = b.v
Judge == s' = [n |-> s.n + 1, clause |-> IF Same(h'.res, Cur.r) THEN ""
               ELSE IF h'.res.k # Cur.r.k THEN "wanted " \o h'.res.k \o ", got " \o Cur.r.k
               ELSE IF h'.res.k = "page" THEN "another page" ELSE "another item"]
TOpen == Todo("open") /\ Open(Cur.a, Cur.b = 1) /\ Judge
TPass == Todo("pass") /\ Pass(Cur.a) /\ Judge
TRead == Todo("read") /\ Read(Cur.a) /\ Judge
TNextPage == Todo("next") /\ AdvanceDoc(Cur.a) /\ Judge
TNextItem == Todo("next") /\ AdvancePage(Cur.a) /\ Judge
TOver == Todo("next") /\ AdvanceOver(Cur.a) /\ Judge
TAbandon == Todo("drop") /\ Abandon(Cur.a) /\ Judge
TraceNext == TOpen \/ TPass \/ TRead \/ TNextPage \/ TNextItem \/ TOver \/ TAbandon
\* items given earlier must not have changed by the end
Late == IF Cases[tag].late THEN "" ELSE "an item given earlier changed"
Over == s.n = Len(Ops) \/ s.clause # ""
TraceVerdict == Over => PrintT("@@" \o ToJson([id |-> tag, n |-> s.n, clause |-> IF s.clause # "" THEN s.clause ELSE Late]))
=============================================================================
