----------------------------- MODULE XrefGen -----------------------------
(* All histories of a few revisions over a few objects, with every damage. *)
EXTENDS Xref, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
GObjs == 1..Conf.objs
VARIABLES d, h, done
vars == <<d, h, done>>
GenInit == d = InitDoc /\ h = <<>> /\ done = FALSE
Hows(k) == IF k = "table" THEN {"d", "f"} ELSE {"d", "c", "f"}
\* one change for each object of a non-empty set; values are the revision number times ten plus the object
Seq2Set(k, S, f) == LET s == SetToSeq(S) IN [i \in 1..Len(s) |-> Change(s[i], f[s[i]], 10 * (Len(h) + 1) + s[i])]
Update == /\ ~done /\ Len(h) < Conf.revs
          /\ \E k \in Kinds, S \in (SUBSET GObjs) \ {{}} : \E f \in [S -> Hows(k)] :
             LET chs == Seq2Set(k, S, f)
                 cs == {o \in S : f[o] = "c"} IN
             \E hide \in (IF k = "hybrid" THEN {{}, cs} ELSE {{}}) :
               /\ (k = "hybrid" => cs # {})
               /\ d' = Revise(d, k, chs, SetToSeq(hide))
               /\ h' = Append(h, [kind |-> k, chs |-> chs, hide |-> SetToSeq(hide)])
          /\ UNCHANGED done
Close == /\ ~done /\ h # <<>> /\ UNCHANGED h /\ done' = TRUE
         /\ \E dam \in Range(Conf.damages) :
            \E at \in (CASE dam = "prev" -> 2..Len(h) [] dam = "offset" -> {o \in GObjs : d.cur[o] # NotFound} [] OTHER -> {0}) :
               d' = [d EXCEPT !.dam = dam, !.at = at]
GenNext == Update \/ Close
Inv == Refines(d) /\ Recovered(d) /\ ScanAgrees(d)
Emitted == done => PrintT("@@" \o ToJson([h |-> h, dam |-> d.dam, at |-> d.at, out |-> [o \in GObjs |-> Find(d, o)]]))
=============================================================================
