------------------------------ MODULE Lookup ------------------------------
(* Reading objects of an open document, one lookup at a time.              *)
(*                                                                         *)
(* An object is [k, to, at]:                                               *)
(*   "val"  a value      at = 0 direct, at = c > 0 inside object stream c  *)
(*   "ref"  a reference to object `to' (the object is itself a reference)  *)
(*   "str"  a stream; to = 0: direct Length, to > 0: Length is object `to' *)
(*   "off"  a direct value whose cross-reference entry points elsewhere    *)
(*   "orphan" a value in the file that no cross-reference entry mentions   *)
(*   "none" no such object                                                 *)
(* A lookup may need other lookups (the object stream, the Length), for    *)
(* which the reader works on one shared file position, a cache and the set *)
(* of objects being read.  The small-step machine below is that reader;    *)
(* TLC checks that every answer is the meaning (Mean) of the object, which *)
(* depends on the document only: not on earlier lookups, not on caching.   *)
EXTENDS Integers, Sequences, FiniteSets

NotFound == -1
Val(o) == 100 + o
Strm(o) == 300 + o
RefTo(o) == 500 + o

Has(doc, o) == o \in 1..Len(doc)
Kind(doc, o) == IF Has(doc, o) THEN doc[o].k ELSE "none"

\* ---- the meaning of an object
Mean(doc, o) ==
  CASE Kind(doc, o) \in {"none", "orphan"} -> NotFound
    [] Kind(doc, o) = "off" -> Val(o)
    [] Kind(doc, o) = "val" -> IF doc[o].at = 0 \/ Kind(doc, doc[o].at) = "str" THEN Val(o) ELSE NotFound
    [] Kind(doc, o) = "ref" -> RefTo(doc[o].to)
    [] OTHER -> Strm(o)

RECURSIVE Chase(_, _, _)
Chase(doc, o, seen) == LET m == Mean(doc, o) IN
  IF m <= 500 THEN m ELSE IF doc[o].to \in seen THEN NotFound ELSE Chase(doc, doc[o].to, seen \cup {doc[o].to})
\* where a chain of references ends
Final(doc, o) == Chase(doc, o, {o})

\* the objects that reading o may need
RECURSIVE Needs(_, _, _)
Needs(doc, T, seen) ==
  LET step(o) == CASE Kind(doc, o) = "val" /\ doc[o].at > 0 -> {doc[o].at}
                   [] Kind(doc, o) = "str" /\ doc[o].to > 0 -> {doc[o].to}
                   [] Kind(doc, o) = "ref" -> {doc[o].to} [] OTHER -> {}
      new == UNION {step(o) : o \in T} \ seen
  IN IF new = {} THEN seen ELSE Needs(doc, new, seen \cup new)
\* the Length of a stream is of no use if it cannot be read without the stream
LenUsable(doc, o) == \/ doc[o].to = 0
                     \/ o \notin Needs(doc, {o}, {}) /\ Final(doc, doc[o].to) \in 101..299

\* ---- the reader: a stack of frames [o, ph, r]; ph "start" | "wait", r what the nested lookup gave
Idle(m) == m.stack = <<>>
InitM == [stack |-> <<>>, cache |-> {}, ans |-> 0]
Push(m, o) == [m EXCEPT !.stack = Append(@, [o |-> o, ph |-> "start"])]
InStack(m, o) == \E i \in 1..Len(m.stack) : m.stack[i].o = o
Top(m) == m.stack[Len(m.stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
\* the top frame answers v
Answer(m, caching, o, v) ==
  [m EXCEPT !.stack = Pop(@), !.ans = v, !.cache = IF caching /\ v # NotFound THEN @ \cup {o} ELSE @]
Wait(m) == [m EXCEPT !.stack[Len(m.stack)].ph = "wait"]
\* asking for n while the top frame waits: cached, or being read, or a nested read
Ask(m, doc, n) ==
  IF n \in m.cache THEN [Wait(m) EXCEPT !.ans = Mean(doc, n)]
  ELSE IF InStack(m, n) THEN [Wait(m) EXCEPT !.ans = NotFound]
  ELSE Push(Wait(m), n)

StepOf(m, doc, caching) ==
  LET f == Top(m) o == f.o k == Kind(doc, o) IN
  CASE k \in {"none", "orphan"} -> Answer(m, caching, o, NotFound)
    [] k = "off" -> Answer(m, caching, o, Val(o))
    [] k = "ref" -> Answer(m, caching, o, RefTo(doc[o].to))
    [] k = "val" /\ doc[o].at = 0 -> Answer(m, caching, o, Val(o))
    [] k = "val" /\ f.ph = "start" -> Ask(m, doc, doc[o].at)
    [] k = "val" -> Answer(m, caching, o, IF m.ans \in 301..499 THEN Val(o) ELSE NotFound)
    [] k = "str" /\ doc[o].to > 0 /\ f.ph = "start" -> Ask(m, doc, doc[o].to)
    [] OTHER -> Answer(m, caching, o, Strm(o))      \* whatever its Length turned out to be

NoRepeat(m) == \A i, j \in 1..Len(m.stack) : i # j => m.stack[i].o # m.stack[j].o
=============================================================================
