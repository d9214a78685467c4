-------------------------- MODULE SimpleFontTrace --------------------------
(* Characters the real code yields for shown strings.  Case: [f, codes,      *)
(* ignore, x0, os: characters [t, x0, x1], exc].                             *)
EXTENDS SimpleFont
VARIABLES tag, p, pos, ph, x, clause
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
F == C.f
vars == <<tag, p, pos, ph, x, clause>>
TraceInit == tag \in 1..Len(Cases) /\ p = Part0(F) /\ pos = 1 /\ ph = "encoding" /\ x = C.x0 /\ clause = ""
Difference == /\ ph = "encoding" /\ pos <= Len(F.diffs)
              /\ p' = AddDifference(p, F.diffs[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tag, ph, x, clause>>
Encoded == ph = "encoding" /\ pos > Len(F.diffs) /\ ph' = "map" /\ pos' = 1 /\ UNCHANGED <<tag, p, x, clause>>
Mapping == /\ ph = "map" /\ pos <= Len(F.bf)
           /\ p' = AddMapping(p, F.bf[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tag, ph, x, clause>>
Mappings == ph = "map" /\ pos > Len(F.bf) /\ ph' = "show" /\ pos' = 1 /\ UNCHANGED <<tag, p, x, clause>>
T == Text(p, C.codes[pos])
W == F.scale * Width(F, p, C.codes[pos])
Bad == NoText(T) /\ ~C.ignore
O == C.os[pos]
Verdict == IF pos > Len(C.os) THEN "fewer characters"
           ELSE IF C.what = "text" /\ T # <<-1>> /\ O.t # (IF NoText(T) THEN << >> ELSE T) THEN (IF Mapped(p.bf, C.codes[pos]) # None THEN "text by the ToUnicode map" ELSE "text by the encoding")
           ELSE IF W < 0 \/ C.what # "width" THEN "" ELSE IF O.x0 # x THEN "pen movement" ELSE IF O.x1 # x + W THEN "width" ELSE ""
\* a code without a character, which ends the text object if it counts
Failed == /\ ph = "show" /\ C.exc # "none"
          /\ LET ts == {Text(p, C.codes[i]) : i \in 1..Len(C.codes)} IN
             clause' = (IF C.exc = "UnicodeNotDefined" /\ ~C.ignore /\ (<<0>> \in ts \/ <<-1>> \in ts) THEN "" ELSE "fails with " \o C.exc)
          /\ ph' = "done" /\ UNCHANGED <<tag, p, pos, x>>
Shown == /\ ph = "show" /\ C.exc = "none" /\ pos <= Len(C.codes) /\ ~Bad
         /\ clause' = Verdict /\ pos' = pos + 1
         /\ x' = (IF Verdict = "" THEN O.x1 ELSE x)
         /\ ph' = (IF Verdict = "" THEN ph ELSE "done") /\ UNCHANGED <<tag, p>>
Undefined == /\ ph = "show" /\ C.exc = "none" /\ pos <= Len(C.codes) /\ Bad
             /\ clause' = "undefined code accepted"
             /\ ph' = "done" /\ UNCHANGED <<tag, p, pos, x>>
End == /\ ph = "show" /\ C.exc = "none" /\ pos > Len(C.codes)
       /\ clause' = (IF Len(C.os) > Len(C.codes) THEN "more characters" ELSE "")
       /\ ph' = "done" /\ UNCHANGED <<tag, p, pos, x>>
TraceNext == Difference \/ Encoded \/ Mapping \/ Mappings \/ Failed \/ Shown \/ Undefined \/ End
TraceVerdict == ph = "done" => PrintT("@@" \o ToJson([id |-> tag, clause |-> clause]))
=============================================================================
