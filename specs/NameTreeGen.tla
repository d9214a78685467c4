---------------------------- MODULE NameTreeGen ----------------------------
(* Name trees of a few shapes over the names 2, 4, 6.. with the names 1..    *)
(* looked up, found in the tree, the old dictionary, both or not at all.     *)
EXTENDS NameTree, TLC, Json, IOUtils
VARIABLES t, k, old, s
Conf == JsonDeserialize(IOEnv.CONF)
N == Conf.n
Name(i) == <<96 + 2 * i>>
V(i) == Conf.values[1 + (i % Len(Conf.values))]
Seg(a, z) == [j \in 1..(z - a) |-> [k |-> Name(a + j), v |-> V(a + j)]]
Leaf(a, z, l) == [limits |-> IF l /\ z > a THEN <<Name(a + 1), Name(z)>> ELSE << >>, names |-> Seg(a, z), kids |-> << >>]
Inner(a, z, l, ks) == [Leaf(a, z, l) EXCEPT !.names = << >>, !.kids = ks]
\* the shapes: three leaves with the names cut at x and y, empty leaves included
Trees == UNION {{ <<Leaf(0, N, l)>>,
            <<Inner(0, N, FALSE, <<2, 3>>), Leaf(0, x, l), Leaf(x, N, l)>>,
            <<Inner(0, N, l, <<2, 4>>), Inner(0, y, l, <<3, 5>>), Leaf(0, x, l), Leaf(y, N, l), Leaf(x, y, l)>>,
            <<Inner(0, N, FALSE, <<2, 3>>), Leaf(0, x, l), Inner(x, N, l, <<4, 5>>), Leaf(x, y, l), Leaf(y, N, l)>>,
            \* a node that is its own descendant
            <<Inner(0, N, FALSE, <<2, 3>>), Inner(0, x, l, <<1, 4>>), Leaf(x, N, l), Leaf(0, x, l)>>}
            : x \in 0..N, y \in 0..N, l \in BOOLEAN}
GenInit == /\ t \in {u \in Trees \cup {<< >>} : Sound(u) /\ Cardinality(Pairs(u)) \in {0, N}}
           /\ \E i \in 1..(2 * N + 1) : k = <<96 + i>>
           /\ old \in {<< >>, <<[k |-> <<98>>, v |-> "a900"], [k |-> <<97>>, v |-> "n0"]>>}
           /\ s = Search0(t)
Again == ~Over(s) /\ Seen(s) /\ s' = [s EXCEPT !.todo = Tail(@)] /\ UNCHANGED <<t, k, old>>
Exclude == ~Over(s) /\ ~Seen(s) /\ Outside(t, s, k) /\ s' = Pass(s) /\ UNCHANGED <<t, k, old>>
Search == ~Over(s) /\ ~Seen(s) /\ ~Outside(t, s, k) /\ s' = Look(t, s, k) /\ UNCHANGED <<t, k, old>>
GenNext == Again \/ Exclude \/ Search
\* ---- what must hold
Right == Over(s) => s.found = Found(t, k)
Only == s.found # Missing => s.found = Found(t, k)
Emitted == Over(s) => PrintT("@@" \o ToJson([t |-> t, old |-> old, k |-> k, found |-> s.found, dest |-> Dest(s.found, old, k)]))
=============================================================================
