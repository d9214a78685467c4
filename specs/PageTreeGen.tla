---------------------------- MODULE PageTreeGen ----------------------------
(* All page trees with conf.n nodes over a small set of attribute placements. *)
EXTENDS PageTree, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
N == Conf.n
\* tag = [p |-> parents, k |-> kinds, a |-> attribute sets, s |-> selection index, l |-> limit]
Kids(t, i) == SelectSeq([j \in 1..N |-> j], LAMBDA j : j > 1 /\ t.p[j] = i)
Node(t, i) == [k |-> IF Kids(t, i) # <<>> \/ i = 1 THEN "pages" ELSE t.k[i], kids |-> Kids(t, i),
               mb |-> IF i = 1 \/ t.a[i] = 1 THEN i ELSE 0, cb |-> IF t.a[i] = 2 THEN 10 + i ELSE 0,
               rot |-> IF t.a[i] = 1 THEN i * 90 - 180 ELSE NoRot, res |-> IF i = 1 \/ t.a[i] = 2 THEN i ELSE 0]
GDoc(t) == [root |-> 1, nodes |-> [i \in 1..N |-> Node(t, i)], sel |-> Conf.sels[t.s], lim |-> t.l]
GenInit == /\ \E p \in {f \in [1..N -> 0..(N - 1)] : f[1] = 0 /\ \A i \in 2..N : f[i] > 0 /\ f[i] < i},
                 k \in [1..N -> {"page", "pages", "other"}], a \in [1..N -> 0..2], s \in 1..Len(Conf.sels), l \in Range(Conf.lims) :
                /\ k[1] = "pages" /\ \A i \in 2..N : (\E j \in 1..N : p[j] = i) => k[i] = "pages"
                /\ Cardinality({i \in 1..N : k[i] = "other"}) <= 1
                /\ tag = [p |-> p, k |-> k, a |-> a, s |-> s, l |-> l]
           /\ w = Start(Doc(tag))
GenNext == WalkNext
Emitted == Done(w) => PrintT("@@" \o ToJson([d |-> D, out |-> w.out]))
=============================================================================
