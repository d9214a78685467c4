---------------------------- MODULE ConvertTrace ----------------------------
(* Recorded conversions.  Case: fmt, src (nodes), sexc, exc (exceptions of    *)
(* the interpreter and the conversion), read (error of a reader of the        *)
(* format), nodes, text (what the file says), same (also when repeated).      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES tag, i, j, rest, why
CodeOf == JsonDeserialize(IOEnv.ASCII)
AsciiOf(s) == CodeOf[s]
CV == INSTANCE Convert WITH Ascii <- AsciiOf
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
S0 == <<>>
Early == IF ~C.same THEN "another result when repeated" ELSE IF C.sexc # C.exc THEN "interpreter: " \o C.sexc \o ", conversion: " \o C.exc
  ELSE IF C.read # "none" THEN "not well-formed: " \o C.read ELSE ""
TraceInit == tag \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ rest = S0 /\ why = Early
Live == why = "" /\ C.exc = "none" /\ i <= Len(C.src)
N == C.src[i]
At(k) == Live /\ N.k = k
Fail(x) == why' = x /\ UNCHANGED <<tag, i, j, rest>>
\* the text that comes next in a text file
Says(s) == IF SubSeq(C.text, j, j + Len(s) - 1) = s /\ j + Len(s) - 1 <= Len(C.text)
           THEN i' = i + 1 /\ j' = j + Len(s) /\ UNCHANGED <<tag, rest, why>> ELSE Fail("text file")
Passed == i' = i + 1 /\ UNCHANGED <<tag, j, rest, why>>
Shows == IF rest # S0 THEN Fail("text")
  ELSE IF j > Len(C.nodes) THEN Fail("missing " \o N.k)
  ELSE LET e == CV!Seen(C.fmt, N)
           f == CV!Found(C.fmt, C.nodes[j]) IN
       IF e # f THEN Fail(CV!Differs(e, f))
       ELSE IF N.k = "block" /\ CV!Tree(C.fmt) /\ ToSet(C.nodes[j].desc) # CV!Entries(C.fmt, N) THEN Fail("descriptor")
       ELSE i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<tag, why>> /\ rest' = IF N.k = "block" /\ CV!Tree(C.fmt) THEN C.nodes[j].text ELSE S0
Page == At("page") /\ IF C.fmt = "text" THEN Says((IF i > 1 THEN <<10>> ELSE S0) \o CV!Header(N.id)) ELSE Shows
Text == At("text") /\ IF C.fmt = "text" THEN Passed ELSE Shows
Block == At("block") /\ IF C.fmt = "text" THEN Passed ELSE Shows
Char == At("char") /\ IF C.fmt = "text" THEN Says(N.text)
  ELSE IF ~CV!Tree(C.fmt) THEN Shows
  ELSE IF IsPrefix(N.text, rest) THEN rest' = SubSeq(rest, Len(N.text) + 1, Len(rest)) /\ i' = i + 1 /\ UNCHANGED <<tag, j, why>> ELSE Fail("text")
Form == At("form") /\ IF C.fmt = "text" THEN Passed ELSE Shows
Image == At("image") /\ IF C.fmt = "text" THEN Passed ELSE Shows
Shape == Live /\ CV!Shape(N.k) /\ IF C.fmt = "text" THEN Passed ELSE Shows
TraceNext == Page \/ Text \/ Block \/ Char \/ Form \/ Image \/ Shape
Ended == why # "" \/ C.exc # "none" \/ i > Len(C.src)
Clause == IF why # "" \/ C.exc # "none" THEN why
  ELSE IF C.fmt = "text" THEN (IF SubSeq(C.text, j, Len(C.text)) = <<10>> THEN "" ELSE "text file")
  ELSE IF rest # S0 THEN "text" ELSE IF j <= Len(C.nodes) THEN "additional " \o C.nodes[j].k ELSE ""
TraceVerdict == Ended => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
