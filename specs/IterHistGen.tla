---------------------------- MODULE IterHistGen ----------------------------
(* Every history of up to conf.max operations on the files of conf. *)
EXTENDS IterHist, TLC, Json, IOUtils
VARIABLE ops
Conf == JsonDeserialize(IOEnv.CONF)
GFiles(t) == Conf.files
MaxIts == Conf.its
MaxDocs == Conf.docs
Log(o, a, b) == ops' = Append(ops, [o |-> o, a |-> a, b |-> b, r |-> h'.res])
More == Len(ops) < Conf.max
GenInit == h = H0 /\ tag = 1 /\ ops = <<>>
GOpen == More /\ Len(h.docs) < MaxDocs /\ \E f \in 1..Len(F) : \E pre \in BOOLEAN :
           (ops # <<>> => ~pre) /\ Open(f, pre) /\ Log("open", f, IF pre THEN 1 ELSE 0)
GPass == More /\ Len(h.its) < MaxIts /\ \E d \in 1..Len(h.docs) : Pass(d) /\ Log("pass", d, 0)
GRead == More /\ Len(h.its) < MaxIts /\ \E n \in 1..Len(h.hold) : Read(n) /\ Log("read", n, 0)
GNextPage == More /\ \E j \in 1..Len(h.its) : AdvanceDoc(j) /\ Log("next", j, 0)
GNextItem == More /\ \E j \in 1..Len(h.its) : AdvancePage(j) /\ Log("next", j, 0)
GOver == More /\ \E j \in 1..Len(h.its) : AdvanceOver(j) /\ ops[Len(ops)].o # "next" /\ Log("next", j, 0)
GAbandon == More /\ \E j \in 1..Len(h.its) : h.its[j].i > 0 /\ Abandon(j) /\ Log("drop", j, 0)
GenNext == GOpen \/ GPass \/ GRead \/ GNextPage \/ GNextItem \/ GOver \/ GAbandon
\* histories worth running end with an answer
Emitted == (ops # <<>> /\ Len(ops) >= Conf.min /\ ops[Len(ops)].o = "next") => PrintT("@@" \o ToJson(ops))
=============================================================================
