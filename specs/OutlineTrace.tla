---------------------------- MODULE OutlineTrace ----------------------------
(* Lists of outline entries the real code gave. Case: [d, obs: entries, exc]. *)
EXTENDS Outline, TLC, Json, IOUtils
VARIABLES tag, w, pos, clause, ph
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
TraceInit == tag \in 1..Len(Cases) /\ w = Walk0 /\ pos = 1 /\ clause = "" /\ ph = "walk"
End(c) == ph' = "done" /\ clause' = c /\ UNCHANGED <<tag, w, pos>>
Skip == ph = "walk" /\ w.todo # << >> /\ Again(w) /\ w' = Pop(w) /\ UNCHANGED <<tag, pos, clause, ph>>
Descend == /\ ph = "walk" /\ w.todo # << >> /\ ~Again(w) /\ ~Listed(C.d, Top(w).n)
           /\ w' = Visit(C.d, w) /\ UNCHANGED <<tag, pos, clause, ph>>
Want == Entry(C.d, Top(w))
Verdict == IF pos > Len(C.obs) THEN (IF C.exc = "none" THEN "entry missing" ELSE "fails with " \o C.exc)
           ELSE IF C.obs[pos].level # Want.level THEN "level"
           ELSE IF C.obs[pos].title # Want.title THEN "title"
           ELSE IF C.obs[pos].dest # Want.dest THEN "destination"
           ELSE IF C.obs[pos].act # Want.act THEN "action"
           ELSE IF C.obs[pos].se # Want.se THEN "structure element" ELSE ""
List == /\ ph = "walk" /\ w.todo # << >> /\ ~Again(w) /\ Listed(C.d, Top(w).n)
        /\ IF Verdict = "" THEN w' = Visit(C.d, w) /\ pos' = pos + 1 /\ UNCHANGED <<tag, clause, ph>> ELSE End(Verdict)
Finish == /\ ph = "walk" /\ w.todo = << >>
          /\ End(IF pos <= Len(C.obs) THEN "entry too many" ELSE IF C.exc # "none" THEN "fails with " \o C.exc ELSE "")
TraceNext == Skip \/ Descend \/ List \/ Finish
TraceVerdict == ph = "done" => PrintT("@@" \o ToJson([id |-> tag, clause |-> clause]))
=============================================================================
