------------------------------- MODULE Calls -------------------------------
(* The meaning of calls that write nested data.                               *)
(*                                                                            *)
(* A call is [op, key, val]: op "obj" "arr" opens a container, "end" closes   *)
(* the innermost one, "str" "num" "lit" put a value (val: the code points of  *)
(* the string; <<negative, exponent>> \o digits of the number; of the word).  *)
(* Inside an object every value has a key, and a key given again is ignored   *)
(* together with all that is put into it.  The meaning of a list of calls is  *)
(* a list of events "{" "}" "[" "]" "key" "str" "num" "lit".                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Ev(t, v) == [t |-> t, v |-> v]
S0 == <<>>
Pop(s) == SubSeq(s, 1, Len(s) - 1)

\* ---- the meaning of calls
\* w: ev events, st stack of open containers [t, keys, n children], mute: depth of open containers that are ignored
Open0 == [ev |-> <<Ev("{", S0)>>, st |-> <<[t |-> "o", keys |-> {}, n |-> 0]>>, mute |-> 0]
TopW(w) == w.st[Len(w.st)]
Repeated(w, c) == TopW(w).t = "o" /\ c.key \in TopW(w).keys
Keyed(w, c) == IF TopW(w).t = "o"
  THEN [w EXCEPT !.ev = Append(@, Ev("key", c.key)), !.st[Len(w.st)].keys = @ \cup {c.key}, !.st[Len(w.st)].n = @ + 1]
  ELSE [w EXCEPT !.st[Len(w.st)].n = @ + 1]
Call(w, c) ==
  IF w.mute > 0 THEN [w EXCEPT !.mute = CASE c.op \in {"obj", "arr"} -> @ + 1 [] c.op = "end" -> @ - 1 [] OTHER -> @]
  ELSE IF c.op = "end" THEN [w EXCEPT !.ev = Append(@, Ev(IF TopW(w).t = "o" THEN "}" ELSE "]", S0)), !.st = Pop(@)]
  ELSE IF Repeated(w, c) THEN (IF c.op \in {"obj", "arr"} THEN [w EXCEPT !.mute = 1] ELSE w)
  ELSE LET k == Keyed(w, c) IN
       IF c.op \in {"obj", "arr"}
       THEN [k EXCEPT !.ev = Append(@, Ev(IF c.op = "obj" THEN "{" ELSE "[", S0)),
                      !.st = Append(@, [t |-> IF c.op = "obj" THEN "o" ELSE "a", keys |-> {}, n |-> 0])]
       ELSE [k EXCEPT !.ev = Append(@, Ev(c.op, c.val))]

\* ---- numbers: canonical <<negative, exponent>> \o digits without zeros at either end
RECURSIVE Num(_, _)
Num(ds, acc) == IF ds = S0 THEN acc ELSE Num(Tail(ds), acc * 10 + Head(ds) - 48)
RECURSIVE Front0(_)
Front0(ds) == IF ds # S0 /\ Head(ds) = 48 THEN Front0(Tail(ds)) ELSE ds
RECURSIVE Back0(_, _)
Back0(ds, e) == IF ds # S0 /\ ds[Len(ds)] = 48 THEN Back0(Pop(ds), e + 1) ELSE <<ds, e>>
IndexOf(s, set) == LET b == {i \in 1..Len(s) : s[i] \in set} IN IF b = {} THEN 0 ELSE CHOOSE i \in b : \A j \in b : i <= j
Canon(t) ==
  LET neg == t[1] = 45
      u == IF neg THEN Tail(t) ELSE t
      ie == IndexOf(u, {69, 101})
      man == IF ie = 0 THEN u ELSE SubSeq(u, 1, ie - 1)
      ex == IF ie = 0 THEN S0 ELSE SubSeq(u, ie + 1, Len(u))
      eneg == ex # S0 /\ ex[1] = 45
      edig == IF ex # S0 /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
      id == IndexOf(man, {46})
      int == IF id = 0 THEN man ELSE SubSeq(man, 1, id - 1)
      frac == IF id = 0 THEN S0 ELSE SubSeq(man, id + 1, Len(man))
      b == Back0(Front0(int \o frac), Num(edig, 0) * (IF eneg THEN -1 ELSE 1) - Len(frac))
  IN IF b[1] = S0 THEN <<0, 0>> ELSE <<IF neg THEN 1 ELSE 0, b[2]>> \o b[1]

=============================================================================
