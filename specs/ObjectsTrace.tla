----------------------------- MODULE ObjectsTrace -----------------------------
EXTENDS Objects, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
\* a run [ev, pos]: the events the code produced; offsets are compared only where the surface shows them
RunClause(exp, r) ==
  IF r.exc # "none" THEN "exception " \o r.exc
  ELSE IF Len(r.ev) < Len(exp) THEN "object lost"
  ELSE IF Len(r.ev) > Len(exp) THEN "object invented"
  ELSE IF \E i \in 1..Len(exp) : r.ev[i].s # exp[i].s THEN "object value"
  ELSE IF r.pos /\ \E i \in 1..Len(exp) : r.ev[i].p # exp[i].p THEN "object offset" ELSE ""
Verdict(c, o) == IF o.mode = "unspec" THEN "unspec"
                 ELSE LET f == {x \in {RunClause(o.out, c.runs[i]) : i \in 1..Len(c.runs)} : x # ""}
                      IN IF f = {} THEN "" ELSE CHOOSE x \in f : TRUE
TraceInit == \E i \in 1..Len(Cases) : O = OInit0 @@ [id |-> i, done |-> FALSE]
Cur == IF ~O.done /\ O.mode = "ok" /\ O.n <= Len(Cases[O.id].toks) THEN Cases[O.id].toks[O.n] ELSE [k |-> "end", v |-> 0, p |-> 0, s |-> ""]
EndOfData == ~O.done /\ Cur.k = "end" /\ O' = [O EXCEPT !.done = TRUE]
TraceNext == Leaf(Cur) \/ NullTok(Cur) \/ Open(Cur) \/ CloseSeq(Cur) \/ CloseDict(Cur) \/ OddDict(Cur) \/ StrayClose(Cur)
             \/ RefTok(Cur) \/ EndOfData
TraceVerdict == O.done => PrintT("@@" \o ToJson([id |-> O.id, clause |-> Verdict(Cases[O.id], O)]))
=============================================================================
