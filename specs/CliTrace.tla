------------------------------ MODULE CliTrace ------------------------------
(* Recorded requests.  Case: req, doc, got (as Result), left (were no files   *)
(* made or changed other than the output asked for), input (is the input      *)
(* unchanged).                                                                *)
EXTENDS Cli, TLC, Json, IOUtils
VARIABLE tag
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
TraceInit == tag \in 1..Len(Cases) /\ Begin(C.req, C.doc)
TRefuse == Refuse /\ UNCHANGED tag
TSkip == Skip /\ UNCHANGED tag
TDeliver == Deliver /\ UNCHANGED tag
TFinish == Finish /\ UNCHANGED tag
TraceNext == TRefuse \/ TSkip \/ TDeliver \/ TFinish
Clause == IF ~C.input THEN "the input file is changed"
  ELSE IF Unclear(req) THEN ""
  ELSE IF C.got.ok # Result.ok THEN (IF Result.ok THEN "fails" ELSE "is not refused: " \o end)
  ELSE IF Untouched /\ ~C.left THEN "refused but files are left"
  ELSE IF ~Result.ok THEN ""
  ELSE IF C.got.where # Result.where THEN "output elsewhere"
  ELSE IF C.got.type # Result.type THEN "format"
  ELSE IF C.got.pages # Result.pages THEN "pages"
  ELSE IF ~C.left THEN "other files are left" ELSE ""
TraceVerdict == Ended => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
