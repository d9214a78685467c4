---------------------------- MODULE CidFontTrace ----------------------------
(* Characters the real code yields for strings shown in a composite font.    *)
(* Case: [f, strs, ignore, x0, y0, os: [t, x0, y0, x1, y1], exc, what].       *)
EXTENDS CidFont, TLC, Json, IOUtils
\* cids: the codes of the strings with their CIDs
VARIABLES tag, ph, pos, str, m, bf, q, ld, cids, x, y, clause
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
F == C.f
vars == <<tag, ph, pos, str, m, bf, q, ld, cids, x, y, clause>>
TraceInit == /\ tag \in 1..Len(Cases) /\ ph = "cmap" /\ pos = 1 /\ str = 1 /\ m = {} /\ bf = {} /\ q = Scan0 /\ ld = Load0
             /\ cids = << >> /\ x = C.x0 /\ y = C.y0 /\ clause = ""
Step(k) == pos' = pos + 1 /\ UNCHANGED <<tag, ph, str, cids, x, y, clause>>
Turn(to) == ph' = to /\ pos' = 1 /\ UNCHANGED <<tag, str, m, bf, q, ld, cids, x, y, clause>>
Coding == /\ ph = "cmap" /\ pos <= Len(F.cm.entries) /\ m' = AddCode(m, F.cm.entries[pos]) /\ Step(1) /\ UNCHANGED <<bf, q, ld>>
Coded == ph = "cmap" /\ pos > Len(F.cm.entries) /\ Turn("map")
Mapping == /\ ph = "map" /\ pos <= Len(F.bf) /\ bf' = AddEntry(bf, F.bf[pos]) /\ Step(1) /\ UNCHANGED <<m, q, ld>>
Mappings == ph = "map" /\ pos > Len(F.bf) /\ Turn("metrics")
V == F.cm.wmode = 1
Items == IF V THEN F.w2 ELSE F.w
Measuring == /\ ph = "metrics" /\ pos <= Len(Items) /\ ld' = Load(ld, Items[pos], IF V THEN 3 ELSE 1) /\ Step(1) /\ UNCHANGED <<m, bf, q>>
Measured == ph = "metrics" /\ pos > Len(Items) /\ Turn("cut")
\* a string is cut into codes; what is left at its end is dropped
Cutting == /\ ph = "cut" /\ str <= Len(C.strs) /\ pos <= Len(C.strs[str])
           /\ q' = Scan(F.cm, m, q, C.strs[str][pos]) /\ Step(1) /\ UNCHANGED <<m, bf, ld>>
Dropping == /\ ph = "cut" /\ str <= Len(C.strs) /\ pos > Len(C.strs[str])
            /\ cids' = cids \o q.out /\ q' = [Scan0 EXCEPT !.silent = q.silent]
            /\ str' = str + 1 /\ pos' = 1 /\ UNCHANGED <<tag, ph, m, bf, ld, x, y, clause>>
Cut == /\ ph = "cut" /\ str > Len(C.strs)
       /\ IF q.silent THEN ph' = "done" /\ clause' = "silent" ELSE ph' = "show" /\ UNCHANGED clause
       /\ pos' = 1 /\ UNCHANGED <<tag, str, m, bf, q, ld, cids, x, y>>
T == Text(F, bf, cids[pos])
O == C.os[pos]
W == Width(F, ld.t, cids[pos].cid)[1]
D == Vertical(F, ld.t, cids[pos].cid)
Judged == C.what = "width" \/ V
Verdict ==
  IF pos > Len(C.os) THEN "fewer characters"
  ELSE IF C.what = "text" /\ O.t # (IF T = None THEN << >> ELSE T) THEN "text"
  ELSE IF ~Judged THEN ""
  ELSE IF V THEN (IF O.y1 - O.y0 # (IF D[1] < 0 THEN -D[1] ELSE D[1]) THEN "height"
                  ELSE IF (IF D[1] < 0 THEN O.y1 ELSE O.y0) # y + 10000 - D[3] THEN "pen movement"
                  ELSE IF D[2] # -99999 /\ O.x0 # x - D[2] THEN "vertical origin" ELSE "")
  ELSE IF O.x0 # x THEN "pen movement" ELSE IF O.x1 # x + W THEN "width" ELSE ""
Failed == /\ ph = "show" /\ C.exc # "none"
          /\ clause' = (IF C.exc = "UnicodeNotDefined" /\ ~C.ignore /\ \E i \in 1..Len(cids) : Text(F, bf, cids[i]) = None THEN "" ELSE "fails with " \o C.exc)
          /\ ph' = "done" /\ UNCHANGED <<tag, pos, str, m, bf, q, ld, cids, x, y>>
Shown == /\ ph = "show" /\ C.exc = "none" /\ pos <= Len(cids)
         /\ clause' = (IF T = None /\ ~C.ignore THEN "undefined code accepted" ELSE Verdict)
         /\ ph' = (IF clause' = "" THEN ph ELSE "done") /\ pos' = pos + 1
         /\ x' = (IF V THEN x ELSE x + W) /\ y' = (IF V THEN y + D[1] ELSE y)
         /\ UNCHANGED <<tag, str, m, bf, q, ld, cids>>
End == /\ ph = "show" /\ C.exc = "none" /\ pos > Len(cids)
       /\ clause' = (IF Len(C.os) > Len(cids) THEN "more characters" ELSE "")
       /\ ph' = "done" /\ UNCHANGED <<tag, pos, str, m, bf, q, ld, cids, x, y>>
TraceNext == Coding \/ Coded \/ Mapping \/ Mappings \/ Measuring \/ Measured \/ Cutting \/ Dropping \/ Cut \/ Failed \/ Shown \/ End
TraceVerdict == ph = "done" => PrintT("@@" \o ToJson([id |-> tag, clause |-> clause]))
=============================================================================
