---------------------------- MODULE LookupGen ----------------------------
(* All small documents, all short sequences of lookups, with and without caching. *)
EXTENDS Lookup, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
N == Conf.n
Obj(k, to, at) == [k |-> k, to |-> to, at |-> at]
Kinds == {Obj("val", 0, c) : c \in 0..N} \cup {Obj("ref", t, 0) : t \in 1..(N + 1)} \cup {Obj("str", t, 0) : t \in 0..(N + 1)}
         \cup {Obj(k, 0, 0) : k \in {"off", "orphan", "none"}}
VARIABLES doc, caching, m, asked, n
vars == <<doc, caching, m, asked, n>>
GenInit == /\ doc \in {d \in [1..N -> Kinds] : \A o \in 1..N : d[o].at > 0 => d[d[o].at].k # "ref"} /\ caching \in BOOLEAN /\ m = InitM /\ asked = 0 /\ n = 0
Lookup == /\ Idle(m) /\ n < Conf.lookups
          /\ \E o \in 1..(N + 1) :
             /\ asked' = o /\ n' = n + 1
             /\ m' = IF o \in m.cache THEN [m EXCEPT !.ans = Mean(doc, o)] ELSE Push(m, o)
          /\ UNCHANGED <<doc, caching>>
Work == ~Idle(m) /\ m' = StepOf(m, doc, caching) /\ UNCHANGED <<doc, caching, asked, n>>
GenNext == Lookup \/ Work
\* every answer is the meaning of the object asked for
Right == (Idle(m) /\ n > 0) => m.ans = Mean(doc, asked)
Acyclic == NoRepeat(m)
Terminates == Len(m.stack) <= N + 1
Emitted == (n = 0 /\ caching) =>
   PrintT("@@" \o ToJson([doc |-> doc, get |-> [o \in 1..(N + 1) |-> Mean(doc, o)], fin |-> [o \in 1..(N + 1) |-> Final(doc, o)],
                          usable |-> [o \in 1..N |-> IF doc[o].k = "str" THEN LenUsable(doc, o) ELSE FALSE]]))
=============================================================================
