--------------------------- MODULE PageTreeTrace ---------------------------
(* Pages delivered by the real code, one by one, against the walk. *)
EXTENDS PageTree, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
TDoc(i) == Cases[i].d
TraceInit == tag \in 1..Len(Cases) /\ w = Start(Doc(tag))
TraceNext == WalkNext
Obs == Cases[tag].obs
Exc == Cases[tag].exc
Attr(e, o) == IF o.n # e.n THEN "another page" ELSE IF o.pn # e.pn THEN "page number"
  ELSE IF o.mb # e.mb THEN "media box" ELSE IF o.cb # e.cb THEN "crop box"
  ELSE IF o.rot # e.rot THEN "rotation" ELSE IF o.res # e.res THEN "resources"
  ELSE IF o.size # e.mb THEN "page size" ELSE ""
FirstBad(s) == LET b == SelectSeq(s, LAMBDA x : x # "") IN IF b = <<>> THEN "" ELSE b[1]
\* the tree holds pages
InTree(want) ==
  IF w.err THEN (IF Len(Obs) < Len(want) THEN "page before the cycle missing" ELSE IF Len(Obs) > Len(want) THEN "page beyond the cycle"
                 ELSE IF Exc # "PDFSyntaxError" THEN "cycle reported as " \o Exc
                 ELSE FirstBad([i \in 1..Len(want) |-> Attr(want[i], Obs[i])]))
  ELSE IF want = <<>> THEN (IF Obs # <<>> THEN "page not selected" ELSE IF Exc # "EmptyDocumentError" THEN "no pages: " \o Exc ELSE "")
  ELSE IF Exc # "none" THEN "fails with " \o Exc
  ELSE IF Len(Obs) < Len(want) THEN "page missing" ELSE IF Len(Obs) > Len(want) THEN "page too many"
  ELSE FirstBad([i \in 1..Len(want) |-> Attr(want[i], Obs[i])])
\* no page in the tree: page objects, each once
Loosely == LET set == {Obs[i].n : i \in 1..Len(Obs)} IN
  IF Loose(D) = {} THEN (IF Exc # "EmptyDocumentError" THEN "no pages: " \o Exc ELSE "")
  ELSE IF Exc # "none" THEN "fails with " \o Exc
  ELSE IF Cardinality(set) # Len(Obs) THEN "page object delivered twice"
  ELSE IF set # Loose(D) THEN "page objects missing"
  ELSE IF \E i \in 1..Len(Obs) : Obs[i].pn # i - 1 \/ Obs[i].mb # Usable(D.nodes[Obs[i].n].mb) THEN "loose page" ELSE ""
Clause == IF Cyclic(D) \/ AllLeaves(D) # <<>> THEN InTree(w.out) ELSE IF D.sel = <<>> /\ D.lim = 0 THEN Loosely ELSE ""
TraceVerdict == Done(w) => PrintT("@@" \o ToJson([id |-> tag, clause |-> Clause]))
=============================================================================
