------------------------------ MODULE IterHist ------------------------------
(* Iterators over opened documents and their pages, in any interleaving.   *)
(*                                                                         *)
(* A file is [pages, err]: err is "" or the error that ends a pass over    *)
(* its pages.  A page is [items, err], items being opaque identities.      *)
(* State h:                                                                *)
(*   docs   opened documents [f, loaded, failed]: pages are loaded once,   *)
(*          on demand, and shared by every pass over the document          *)
(*   its    iterators [k, d, p, i, st]; k = "doc" | "page"; i = how many   *)
(*          things it gave; st = "live" | "over" | "gone" (abandoned)      *)
(*   hold   pages given so far, [d, p]: a page may be iterated any time    *)
(*          later, also through several iterators                          *)
(*   res    the answer to the last operation [k, d, p, v]                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Files(_)
VARIABLES h, tag
F == Files(tag)

NoRes == [k |-> "none", p |-> 0, v |-> 0]
Gives(k, p, v) == [k |-> k, p |-> p, v |-> v]
H0 == [docs |-> <<>>, its |-> <<>>, hold |-> <<>>, res |-> NoRes]
PagesOf(d) == F[h.docs[d].f].pages
ErrOf(d) == F[h.docs[d].f].err

\* ---- operations
\* open a document; preloading makes one pass over it at once
Open(f, pre) ==
  LET fails == pre /\ F[f].err # "" IN
  /\ h' = [h EXCEPT !.docs = IF fails THEN @ ELSE Append(@, [f |-> f, loaded |-> IF pre THEN Len(F[f].pages) ELSE 0, failed |-> FALSE]),
                    !.res = IF fails THEN Gives("error:" \o F[f].err, 0, 0) ELSE Gives("opened", 0, 0)]
  /\ UNCHANGED tag
Pass(d) == /\ h' = [h EXCEPT !.its = Append(@, [k |-> "doc", d |-> d, p |-> 0, i |-> 0, st |-> "live"]), !.res = Gives("started", 0, 0)]
           /\ UNCHANGED tag
Read(n) == /\ h' = [h EXCEPT !.its = Append(@, [k |-> "page", d |-> h.hold[n].d, p |-> h.hold[n].p, i |-> 0, st |-> "live"]), !.res = Gives("started", 0, 0)]
           /\ UNCHANGED tag
\* the next page: one already loaded, or the next one of the file
NextPage(j) ==
  LET it == h.its[j] d == it.d n == it.i + 1 IN
  IF n <= h.docs[d].loaded
  THEN h' = [h EXCEPT !.its[j].i = n, !.hold = Append(@, [d |-> d, p |-> n]), !.res = Gives("page", n, 0)]
  ELSE IF h.docs[d].failed \/ h.docs[d].loaded = Len(PagesOf(d))
  THEN h' = [h EXCEPT !.its[j].st = "over", !.docs[d].failed = ErrOf(d) # "",
                      !.res = IF ErrOf(d) = "" THEN Gives("end", 0, 0) ELSE Gives("error:" \o ErrOf(d), 0, 0)]
  ELSE h' = [h EXCEPT !.docs[d].loaded = n, !.its[j].i = n, !.hold = Append(@, [d |-> d, p |-> n]), !.res = Gives("page", n, 0)]
NextItem(j) ==
  LET it == h.its[j] pg == PagesOf(it.d)[it.p] n == it.i + 1 IN
  IF n <= Len(pg.items) THEN h' = [h EXCEPT !.its[j].i = n, !.res = Gives("item", it.p, pg.items[n])]
  ELSE h' = [h EXCEPT !.its[j].st = "over", !.res = IF pg.err = "" THEN Gives("end", 0, 0) ELSE Gives("error:" \o pg.err, 0, 0)]
Live(j) == j \in 1..Len(h.its) /\ h.its[j].st = "live"
AdvanceDoc(j) == Live(j) /\ h.its[j].k = "doc" /\ NextPage(j) /\ UNCHANGED tag
AdvancePage(j) == Live(j) /\ h.its[j].k = "page" /\ NextItem(j) /\ UNCHANGED tag
\* an iterator that is over stays over
AdvanceOver(j) == /\ j \in 1..Len(h.its) /\ h.its[j].st = "over" /\ h' = [h EXCEPT !.res = Gives("end", 0, 0)] /\ UNCHANGED tag
Abandon(j) == /\ Live(j) /\ h' = [h EXCEPT !.its[j].st = "gone", !.res = Gives("abandoned", 0, 0)] /\ UNCHANGED tag

\* ---- what it must amount to: the k-th thing an iterator gives depends on
\* nothing but the document, the page and k
RightAnswer(j, old) ==
  LET it == old.its[j] k == it.i + 1 IN
  IF it.k = "doc"
  THEN LET ps == F[old.docs[it.d].f].pages e == F[old.docs[it.d].f].err IN
       IF k <= Len(ps) THEN h'.res = Gives("page", k, 0) ELSE h'.res.k = IF e = "" THEN "end" ELSE "error:" \o e
  ELSE LET pg == F[old.docs[it.d].f].pages[it.p] IN
       IF k <= Len(pg.items) THEN h'.res = Gives("item", it.p, pg.items[k]) ELSE h'.res.k = IF pg.err = "" THEN "end" ELSE "error:" \o pg.err
Moved == {j \in 1..Len(h.its) : h.its[j].st = "live" /\ (h'.its[j].i # h.its[j].i \/ h'.its[j].st = "over")}
Independent == [][Cardinality(Moved) <= 1 /\ \A j \in Moved : RightAnswer(j, h)]_<<h, tag>>
\* only pages that are loaded are held, and a document never forgets a page
HeldLoaded == \A n \in 1..Len(h.hold) : h.hold[n].p <= h.docs[h.hold[n].d].loaded
NeverForgets == [][\A d \in 1..Len(h.docs) : h'.docs[d].loaded >= h.docs[d].loaded]_<<h, tag>>
=============================================================================
