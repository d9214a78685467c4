----------------------------- MODULE ConvertGen -----------------------------
(* All documents of up to conf.n items on pages and in forms, with the pages  *)
(* that options ask for; emitted are the structure and the options.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES doc, depth, left, pages, opt
Conf == JsonDeserialize(IOEnv.CONF)
AsciiOf(s) == <<>>
CV == INSTANCE Convert WITH Ascii <- AsciiOf
Nos == {{}} \cup {{p} : p \in 0..2} \cup {{0, 2}}
None == [nos |-> {}, max |-> -1]
Add(k) == doc' = Append(doc, [k |-> k, d |-> depth])
NewPage == opt = None /\ pages < 3 /\ doc' = Append(doc, [k |-> "page", d |-> 0]) /\ depth' = 1 /\ pages' = pages + 1 /\ UNCHANGED <<left, opt>>
Item == opt = None /\ pages > 0 /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<depth, pages, opt>> /\ \E k \in {"text", "rect", "image"} : Add(k)
OpenForm == opt = None /\ pages > 0 /\ left > 0 /\ depth < 3 /\ left' = left - 1 /\ Add("form") /\ depth' = depth + 1 /\ UNCHANGED <<pages, opt>>
CloseForm == opt = None /\ depth > 1 /\ depth' = depth - 1 /\ doc' = Append(doc, [k |-> "end", d |-> depth]) /\ UNCHANGED <<left, pages, opt>>
Choose1 == /\ opt = None /\ pages > 0
           /\ \E nos \in Nos, max \in 0..2 : opt' = [nos |-> nos, max |-> max]
           /\ UNCHANGED <<doc, depth, left, pages>>
GenInit == doc = <<>> /\ depth = 0 /\ left = Conf.n /\ pages = 0 /\ opt = None
GenNext == NewPage \/ Item \/ OpenForm \/ CloseForm \/ Choose1
Done == opt # None
Sel == CV!Wanted(pages, opt.nos, opt.max)
PageOf(i) == Cardinality({x \in 1..i : doc[x].k = "page"}) - 1
Shown == SelectSeq([i \in 1..Len(doc) |-> [k |-> doc[i].k, d |-> doc[i].d, p |-> PageOf(i)]], LAMBDA x : x.p \in Sel /\ x.k # "end")
\* nesting: an item is as deep as the forms around it
Nested == \A i \in 1..Len(doc) : doc[i].k # "page" => doc[i].d > 0
Emitted == Done => PrintT("@@" \o ToJson([doc |-> doc, nos |-> SetToSeq(opt.nos), max |-> opt.max, sel |-> Cardinality(Sel),
                                          want |-> [i \in 1..Len(Shown) |-> <<Shown[i].k, Shown[i].d>>]]))
=============================================================================
