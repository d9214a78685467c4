------------------------------- MODULE Objects -------------------------------
(* Assembly of objects from tokens: a push-down machine.  A token is          *)
(* [k |-> kind, v |-> value, p |-> offset]; kinds int, leaf kinds (real, bool,*)
(* name, str), null, open/close with v marked a, d, p in s for [ ] << >> { },    *)
(* and R.  An object is [k, v, s] with s its canonical text, v a number for   *)
(* integers and names.  Output events: [p, s], with p = -1 for an error.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE O

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE " " \o Head(ss) \o Join(Tail(ss))
Arr(objs) == [k |-> "arr", v |-> 0, s |-> "[" \o Join([i \in 1..Len(objs) |-> objs[i].s]) \o " ]"]
Null == [k |-> "null", v |-> 0, s |-> "null"]
ErrEv == [p |-> -1, s |-> "error"]

OInit0 == [stack |-> <<>>, out |-> <<>>, mode |-> "ok", n |-> 1]
Adv(o) == [o EXCEPT !.n = @ + 1]
Top(o) == o.stack[Len(o.stack)]
Pop(o) == [o EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

\* deliver object ob, which started at p, to the container under construction or to the reader
Deliver(o, p, ob) == IF o.stack = <<>> THEN [o EXCEPT !.out = Append(@, [p |-> p, s |-> ob.s])]
                     ELSE [o EXCEPT !.stack[Len(o.stack)].objs = Append(@, ob)]

\* dictionary from alternating keys and values: the last value of a key counts, a null value means absence;
\* entries are listed in the order of the keys' numbers (keys are numbered names)
Keys(objs) == {objs[i].v : i \in {j \in 1..Len(objs) : j % 2 = 1}}
RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                           IN <<m>> \o SetToSeqAsc(S \ {m})
Last(objs, key) == LET is == {i \in 1..Len(objs) : i % 2 = 1 /\ objs[i].v = key}
                       nn == {i \in is : objs[i + 1].k # "null"}
                   IN IF nn = {} THEN Null ELSE objs[(CHOOSE i \in nn : \A j \in nn : j <= i) + 1]
MkDict(objs) == LET ks == SelectSeq(SetToSeqAsc(Keys(objs)), LAMBDA x : Last(objs, x).k # "null")
                    text(key) == (objs[CHOOSE i \in 1..Len(objs) : i % 2 = 1 /\ objs[i].v = key]).s
                IN [k |-> "dict", v |-> 0,
                    s |-> "<<" \o Join([i \in 1..Len(ks) |-> text(ks[i]) \o "=" \o Last(objs, ks[i]).s]) \o " >>"]
\* a null after a value for the same key: the grammar does not say which one counts
Ambiguous(objs) == \E i, j \in 1..Len(objs) : i % 2 = 1 /\ j % 2 = 1 /\ i # j /\ objs[i].v = objs[j].v
                                              /\ objs[i + 1].k = "null"

IsOpen(t) == t.k = "open"
Unspec(o) == [o EXCEPT !.mode = "unspec"]

Leaf(t)  == t.k \in {"int", "real", "bool", "name", "str"} /\ O' = Adv(Deliver(O, t.p, [k |-> t.k, v |-> t.v, s |-> t.s]))
NullTok(t) == t.k = "null" /\ O' = Adv(Deliver(O, t.p, Null))
Open(t)  == t.k = "open" /\ O' = Adv([O EXCEPT !.stack = Append(@, [t |-> t.s, p |-> t.p, objs |-> <<>>])])
CloseSeq(t) == /\ t.k = "close" /\ O.stack # <<>> /\ Top(O).t = t.s /\ t.s # "d"
               /\ O' = Adv(Deliver(Pop(O), Top(O).p, Arr(Top(O).objs)))
CloseDict(t) == /\ t.k = "close" /\ O.stack # <<>> /\ Top(O).t = t.s /\ t.s = "d" /\ Len(Top(O).objs) % 2 = 0
                /\ O' = IF (\E i \in 1..Len(Top(O).objs) : i % 2 = 1 /\ Top(O).objs[i].k # "name") \/ Ambiguous(Top(O).objs)
                        THEN Unspec(O)
                        ELSE Adv(Deliver(Pop(O), Top(O).p, MkDict(Top(O).objs)))
OddDict(t) == /\ t.k = "close" /\ O.stack # <<>> /\ Top(O).t = t.s /\ t.s = "d" /\ Len(Top(O).objs) % 2 = 1
              /\ O' = Adv([Pop(O) EXCEPT !.out = Append(@, ErrEv)])
StrayClose(t) == t.k = "close" /\ (IF O.stack = <<>> THEN TRUE ELSE Top(O).t # t.s) /\ O' = Adv(O)
RefTok(t) == /\ t.k = "R"
             /\ LET n == IF O.stack = <<>> THEN 0 ELSE Len(Top(O).objs) IN
                O' = IF n < 2 THEN Unspec(O)
                     ELSE LET a == Top(O).objs[n - 1]  b == Top(O).objs[n] IN
                          IF a.k # "int" \/ b.k # "int" THEN Unspec(O)
                          ELSE Adv([O EXCEPT !.stack[Len(O.stack)].objs =
                                  Append(SubSeq(@, 1, n - 2), [k |-> "ref", v |-> 0, s |-> "ref" \o a.s])])
Take(t) == Leaf(t) \/ NullTok(t) \/ Open(t) \/ CloseSeq(t) \/ CloseDict(t) \/ OddDict(t) \/ StrayClose(t) \/ RefTok(t)

\* invariants of the machine
FramesTyped == \A i \in 1..Len(O.stack) : O.stack[i].t \in {"a", "d", "p"}
PosOrdered == \A i, j \in 1..Len(O.out) : i < j /\ O.out[i].p >= 0 /\ O.out[j].p >= 0 => O.out[i].p < O.out[j].p
\* nothing is both delivered and still under construction
NotEarly == \A i \in 1..Len(O.out) : O.stack # <<>> => O.out[i].p < O.stack[1].p \/ O.out[i].p = -1
NoDictNull == \A i \in 1..Len(O.stack) : \A j \in 1..Len(O.stack[i].objs) : O.stack[i].objs[j].k # "close"
=============================================================================
