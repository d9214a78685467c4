----------------------------- MODULE OutlineGen -----------------------------
(* Every graph of outline entries: trees, shared entries and cycles.         *)
EXTENDS Outline, TLC, Json, IOUtils
VARIABLES d, w, out
Conf == JsonDeserialize(IOEnv.CONF)
N == Conf.n
Node(f, x, l, a) == [first |-> f, next |-> x, last |-> l, titled |-> TRUE, title |-> <<65>>, dest |-> a, act |-> 0, se |-> 0]
Nodes == {Node(f, x, TRUE, a) : f \in 0..N, x \in 0..N, a \in {0, 1}}
GenInit == /\ d \in {g \in [1..N -> Nodes] : g[1].dest = 0}
           /\ w = Walk0 /\ out = << >>
Skip == w.todo # << >> /\ Again(w) /\ w' = Pop(w) /\ UNCHANGED <<d, out>>
Enter == /\ w.todo # << >> /\ ~Again(w) /\ w' = Visit(d, w)
         /\ out' = (IF Listed(d, Top(w).n) THEN Append(out, Top(w)) ELSE out) /\ UNCHANGED d
GenNext == Skip \/ Enter
Done == w.todo = << >>
\* ---- what must hold
Once == \A i, j \in 1..Len(out) : out[i].n = out[j].n => i = j
Bounded == Len(w.todo) <= 1 + Cardinality(w.seen)
Complete == Done => {out[i].n : i \in 1..Len(out)} = {n \in Reach(d, {1}) : Listed(d, n)}
Ordered == Done /\ Tree(d) => out = Order(d, 1, 0)
Emitted == Done => PrintT("@@" \o ToJson([d |-> [i \in 1..N |-> <<d[i].first, d[i].next, d[i].dest>>], out |-> out, tree |-> Tree(d)]))
=============================================================================
