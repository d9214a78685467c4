---------------------------- MODULE InterpTrace -----------------------------
(***************************************************************************)
(* Validates recorded page runs: each case holds a page (program, resources*)
(* and nested forms) and what iterating that page yielded.  Every case is  *)
(* run through two variants of the machine: the ideal one, and the one that*)
(* describes the recorded deviation of the implementation (Q keeps colours *)
(* and line width).  The verdict names the first clause that differs.      *)
(***************************************************************************)
EXTENDS Interp, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

CaseWorld(i) == Cases[i].page

TraceInit == /\ tag \in 1..Len(Cases)
             /\ \E qg \in {TRUE, FALSE} : M = Machine(Cases[tag].page, qg)
TraceNext == InterpNext

FirstOf(ds) == LET bad == SelectSeq(ds, LAMBDA d : d # "") IN IF bad = << >> THEN "" ELSE bad[1]

DiffGlyph(e, o, P) == IF e.u # o.u THEN "text-char"
                      ELSE IF "glyphbox" \in P /\ e.bbox # o.bbox THEN "glyph-box" ELSE ""
DiffBlock(e, o, P) ==
  IF Len(e.ch) # Len(o.ch) THEN "glyph-count"
  ELSE LET d == FirstOf([i \in 1..Len(e.ch) |-> DiffGlyph(e.ch[i], o.ch[i], P)]) IN
       IF d # "" THEN d
       ELSE IF "font" \in P /\ (e.font # o.font \/ e.fs # o.fs) THEN "text-font"
       ELSE IF "glyphbox" \in P /\ e.bbox # o.bbox THEN "block-box"
       ELSE IF "color" \in P /\ e.nc # o.nc THEN "text-color" ELSE ""

RECURSIVE DiffItems(_, _, _)
DiffItem(e, o, P) ==
  IF e.k # o.k THEN "item-kind"
  ELSE IF "box" \in P /\ e.k # "text" /\ e.bbox # o.bbox THEN e.k \o "-box"
  ELSE IF "color" \in P /\ e.sc # o.sc THEN "stroke-color"
  ELSE IF "color" \in P /\ e.nc # o.nc THEN "fill-color"
  ELSE IF "width" \in P /\ e.lw # o.lw THEN "line-width"
  ELSE IF "path" \in P /\ e.eo # o.eo THEN "even-odd"
  ELSE IF "path" \in P /\ e.pts # o.pts THEN "path-points"
  ELSE IF "src" \in P /\ e.src # o.src THEN "image-size"
  ELSE IF "data" \in P /\ e.data # o.data THEN "image-data"
  ELSE IF Len(e.blocks) # Len(o.blocks) THEN "block-count"
  ELSE LET d == FirstOf([i \in 1..Len(e.blocks) |-> DiffBlock(e.blocks[i], o.blocks[i], P)]) IN
       IF d # "" THEN d
       ELSE IF "glyphbox" \in P /\ e.k = "text" /\ e.bbox # o.bbox THEN "text-box"
       ELSE LET kd == DiffItems(e.kids, o.kids, P) IN IF kd = "" THEN "" ELSE "in-form-" \o kd
DiffItems(es, os, P) ==
  IF Len(es) # Len(os) THEN "item-count"
  ELSE FirstOf([i \in 1..Len(es) |-> DiffItem(es[i], os[i], P)])

Diff == LET obs == Cases[tag].obs P == Range(Cases[tag].proj) IN
  IF obs.exc # M.err THEN "outcome-" \o M.err \o "-vs-" \o obs.exc
  ELSE DiffItems(M.fr[1].out, obs.items, P)

TraceVerdict == Done(M) => PrintT("@@" \o ToJson([id |-> tag, qg |-> M.qg, clause |-> Diff]))
=============================================================================
