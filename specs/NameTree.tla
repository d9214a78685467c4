------------------------------ MODULE NameTree ------------------------------
(* Looking up names. Tree nodes t[i], the root is t[1] (t = << >>: no tree): *)
(* [limits: << >> or <<low, high>>, names: pairs [k: bytes, v], kids: nodes]; *)
(* old: pairs [k, v] of the dictionary of destinations.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Missing == "missing"
RECURSIVE Less(_, _)
Less(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
AtMost(a, b) == ~Less(b, a)
Inside(l, k) == l = << >> \/ (AtMost(l[1], k) /\ AtMost(k, l[2]))
At(ps, k) == LET hit == {i \in 1..Len(ps) : ps[i].k = k} IN IF hit = {} THEN Missing ELSE ps[CHOOSE i \in hit : TRUE].v

\* ---- the search: nodes still to be searched, the next one first
Search0(t) == [todo |-> IF t = << >> THEN << >> ELSE <<1>>, seen |-> {}, found |-> Missing]
Over(s) == s.todo = << >> \/ s.found # Missing
Node(s) == s.todo[1]
Seen(s) == Node(s) \in s.seen
Outside(t, s, k) == ~Inside(t[Node(s)].limits, k)
Pass(s) == [s EXCEPT !.todo = Tail(@), !.seen = @ \cup {s.todo[1]}]
Look(t, s, k) == [todo |-> t[Node(s)].kids \o Tail(s.todo), seen |-> s.seen \cup {Node(s)}, found |-> At(t[Node(s)].names, k)]

\* ---- what must be found
RECURSIVE Below(_, _)
Below(t, s) == LET u == s \cup UNION {ToSet(t[i].kids) : i \in s} IN IF u = s THEN s ELSE Below(t, u)
Pairs(t) == IF t = << >> THEN {} ELSE UNION {ToSet(t[i].names) : i \in Below(t, {1})}
Found(t, k) == IF \E p \in Pairs(t) : p.k = k THEN (CHOOSE p \in Pairs(t) : p.k = k).v ELSE Missing
\* limits are those of the names below (the root has none), names are different
Sound(t) == /\ \A i \in 1..Len(t) : t[i].limits # << >> => \A p \in UNION {ToSet(t[j].names) : j \in Below(t, {i})} : Inside(t[i].limits, p.k)
            /\ \A p, q \in Pairs(t) : p.k = q.k => p = q
\* a destination: in the tree, otherwise in the dictionary
Dest(found, old, k) == IF found # Missing THEN found ELSE At(old, k)
=============================================================================
