--------------------------- MODULE NameTreeTrace ---------------------------
(* Lookups in the real code. Case: [t, old, qs: queries [k, tree, dest]],     *)
(* tree and dest being what lookup_name and get_dest gave, or "missing".     *)
EXTENDS NameTree, TLC, Json, IOUtils
VARIABLES tag, pos, s, clause, ph
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
Q == C.qs[pos]
TraceInit == tag \in 1..Len(Cases) /\ pos = 1 /\ s = Search0(C.t) /\ clause = "" /\ ph = "search"
Going == ph = "search" /\ pos <= Len(C.qs)
Again == Going /\ ~Over(s) /\ Seen(s) /\ s' = [s EXCEPT !.todo = Tail(@)] /\ UNCHANGED <<tag, pos, clause, ph>>
Exclude == Going /\ ~Over(s) /\ ~Seen(s) /\ Outside(C.t, s, Q.k) /\ s' = Pass(s) /\ UNCHANGED <<tag, pos, clause, ph>>
Search == Going /\ ~Over(s) /\ ~Seen(s) /\ ~Outside(C.t, s, Q.k) /\ s' = Look(C.t, s, Q.k) /\ UNCHANGED <<tag, pos, clause, ph>>
Verdict == IF Q.tree # s.found THEN (IF s.found = Missing THEN "found though not in the tree" ELSE IF Q.tree = Missing THEN "not found" ELSE "value")
           ELSE IF Q.dest # Dest(s.found, C.old, Q.k) THEN "destination" ELSE ""
Answer == /\ Going /\ Over(s)
          /\ IF Verdict = "" THEN pos' = pos + 1 /\ s' = Search0(C.t) /\ UNCHANGED <<clause, ph>>
             ELSE clause' = Verdict /\ ph' = "done" /\ UNCHANGED <<pos, s>>
          /\ UNCHANGED tag
Finish == ph = "search" /\ pos > Len(C.qs) /\ ph' = "done" /\ UNCHANGED <<tag, pos, s, clause>>
TraceNext == Again \/ Exclude \/ Search \/ Answer \/ Finish
TraceVerdict == ph = "done" => PrintT("@@" \o ToJson([id |-> tag, clause |-> clause]))
=============================================================================
