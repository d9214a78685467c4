------------------------------- MODULE Xref -------------------------------
(* The cross-reference data of a document under incremental updates.       *)
(*                                                                         *)
(* Every revision appends object definitions to the file and one section   *)
(* of cross-reference data: a classical table, a cross-reference stream,   *)
(* or a hybrid of both (a table plus a stream for the objects hidden from  *)
(* older readers).  `cur' is what a reader must see: the newest revision   *)
(* that mentions an object number decides.  The file-level lookup that a   *)
(* reader performs (Find) is defined over the sections, and TLC checks     *)
(* that it refines `cur'.  Damage makes sections unusable; then objects    *)
(* are recovered from the definitions in the file, the last one winning.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Objs
NotFound == -1
Values == Nat
Kinds == {"table", "stream", "hybrid"}
Damages == {"none", "start", "prev", "cycle", "offset"}

\* A change of one object: how = "d" defined directly, "c" defined inside an object stream, "f" freed
Change(o, how, v) == [o |-> o, how |-> how, v |-> v]

InitDoc == [file |-> <<>>, secs |-> <<>>, cur |-> [o \in Objs |-> NotFound], dam |-> "none", at |-> 0]

Last2(s, P(_)) == LET I == {i \in 1..Len(s) : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

\* hide: the objects in object streams that the table of a hybrid section declares free
Revise(d, kind, chs, hide) ==
  LET defs == SelectSeq(chs, LAMBDA c : c.how # "f")
      ent(w) == SelectSeq(chs, LAMBDA c : c.how = w)
      tab == IF kind = "stream" THEN <<>>
             ELSE ent("d") \o ent("f") \o [i \in 1..Len(hide) |-> Change(hide[i], "f", 0)]
      stm == CASE kind = "table" -> <<>> [] kind = "hybrid" -> ent("c") [] OTHER -> chs
  IN [d EXCEPT !.file = @ \o [i \in 1..Len(defs) |-> [o |-> defs[i].o, v |-> defs[i].v]],
               !.secs = Append(@, [kind |-> kind, tab |-> tab, stm |-> stm]),
               !.cur = [o \in Objs |-> LET i == Last2(chs, LAMBDA c : c.o = o) IN
                          IF i = 0 THEN @[o] ELSE IF chs[i].how = "f" THEN NotFound ELSE chs[i].v]]

\* ---- what a reader does
Mentions(es, o) == \E i \in 1..Len(es) : es[i].o = o
Entry(es, o) == es[Last2(es, LAMBDA c : c.o = o)]
\* the answer of one section: a value, "free" (NotFound, decided) or silence
SecHas(s, o) == Mentions(s.tab, o) \/ Mentions(s.stm, o)
SecFind(s, o) == IF Mentions(s.tab, o) /\ Entry(s.tab, o).how # "f" THEN Entry(s.tab, o).v
                 ELSE IF Mentions(s.stm, o) THEN (IF Entry(s.stm, o).how = "f" THEN NotFound ELSE Entry(s.stm, o).v)
                 ELSE NotFound

\* the last definition in the file
Scan(d, o) == LET i == Last2(d.file, LAMBDA x : x.o = o) IN IF i = 0 THEN NotFound ELSE d.file[i].v

\* the sections from `from' on are readable
FindFrom(d, o, from) ==
  LET i == Last2(d.secs, LAMBDA s : SecHas(s, o)) IN
  IF i = 0 THEN [has |-> FALSE, v |-> NotFound]
  ELSE IF i < from THEN [has |-> FALSE, v |-> NotFound] ELSE [has |-> TRUE, v |-> SecFind(d.secs[i], o)]

Find(d, o) ==
  CASE d.dam = "start" -> Scan(d, o)                          \* no section can be found
    [] d.dam = "prev" -> LET r == FindFrom(d, o, d.at) IN IF r.has THEN r.v ELSE Scan(d, o)
    [] d.dam = "offset" -> LET r == FindFrom(d, o, 1) IN      \* the entries of object `at' point elsewhere
                           IF o = d.at /\ r.v # NotFound THEN Scan(d, o) ELSE r.v
    [] OTHER -> FindFrom(d, o, 1).v

\* ---- invariants
Refines(d) == d.dam \in {"none", "cycle"} => \A o \in Objs : Find(d, o) = d.cur[o]
\* whatever the damage, a live object is never reported missing and an undefined one never invented
Recovered(d) == \A o \in Objs : /\ (d.cur[o] # NotFound => Find(d, o) # NotFound)
                                /\ (Find(d, o) # NotFound => \E i \in 1..Len(d.file) : d.file[i].o = o /\ d.file[i].v = Find(d, o))
\* without frees, scanning the file gives the same as the sections
ScanAgrees(d) == (\A i \in 1..Len(d.secs) : \A j \in 1..Len(d.secs[i].tab) : d.secs[i].tab[j].how # "f") /\ 
                 (\A i \in 1..Len(d.secs) : \A j \in 1..Len(d.secs[i].stm) : d.secs[i].stm[j].how # "f")
                 => \A o \in Objs : Scan(d, o) = d.cur[o]
=============================================================================
