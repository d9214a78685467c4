------------------------------ MODULE Session ------------------------------
(* What reading any file amounts to, however damaged it is: pages one after *)
(* the other, numbered from 0, each with items until it ends or fails; then *)
(* the end or an error, and a document without pages is an error.  Reading  *)
(* the document again gives the same again.  Nothing else ever happens: in  *)
(* particular reading does not hang, exhaust the memory or die.             *)
(* Events: [e, v]: "page" (v: its number), "item" (v: what it is), "endpage",*)
(* "pageerror", "end", "error" (v: which).                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tag, ph, i, n, again
vars == <<tag, ph, i, n, again>>
Init == tag \in 1..Len(Cases) /\ ph = "pages" /\ i = 1 /\ n = 0 /\ again = 0
Ev == Cases[tag]
E == Ev[i]
More == i <= Len(Ev)
\* the second time everything is as it was
Same == again = 0 \/ (i - again <= Len(Ev) /\ E = Ev[i - again])
On(e) == More /\ E.e = e /\ Same
Step == i' = i + 1 /\ UNCHANGED tag
Page == ph = "pages" /\ On("page") /\ E.v = ToString(n) /\ ph' = "page" /\ n' = n + 1 /\ UNCHANGED again /\ Step
Item == ph = "page" /\ On("item") /\ UNCHANGED <<ph, n, again>> /\ Step
EndPage == ph = "page" /\ On("endpage") /\ ph' = "pages" /\ UNCHANGED <<n, again>> /\ Step
PageError == ph = "page" /\ On("pageerror") /\ ph' = "pages" /\ UNCHANGED <<n, again>> /\ Step
Over == n' = 0 /\ (IF again = 0 THEN ph' = "pages" /\ again' = i ELSE ph' = "over" /\ UNCHANGED again) /\ Step
End == ph = "pages" /\ On("end") /\ n > 0 /\ Over
Error == ph = "pages" /\ On("error") /\ Over
Next == Page \/ Item \/ EndPage \/ PageError \/ End \/ Error
\* what cannot be an event of any reading
Clause == IF ~More THEN (IF ph = "over" THEN "" ELSE "reading stops halfway")
          ELSE IF E.e = "fate" THEN "reading " \o E.v
          ELSE IF ph = "over" THEN "something after the end"
          ELSE IF ~Same THEN "read again, the document is different"
          ELSE "out of place: " \o E.e
Verdict == (~ENABLED Next) => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
