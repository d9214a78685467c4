------------------------------- MODULE Damage -------------------------------
(* Reading a document in which objects are lost or references lead astray. *)
(*                                                                         *)
(* doc = [root, objs]: object i is                                         *)
(*   [k, st, up, kids, res, prog, font, form]                              *)
(* k: "catalog" (kids: its page tree), "pages" (kids), "page" (kids: its   *)
(* content streams), "res" (resources: font, form), "stream" and "form"    *)
(* (prog: what they do), "font", "num", "objstm".  up is the object stream *)
(* that holds it, or 0.  References are object numbers; 0: no such entry.  *)
(* st: "ok", "moved" (not where the cross-reference table says), "gone"    *)
(* (not in the file), "bad" (malformed), "other" (some unrelated value).   *)
(*                                                                         *)
(* prog is a sequence of                                                   *)
(*   n > 0 paint mark n          0  invoke the form X                      *)
(*  -1 show text in font F      -2  operator without its operands          *)
(*  -3 unknown operator         -4  text outside a text object             *)
(*  -5 text object in another   -6  stray closing delimiters               *)
(*  -7 array, dictionary or string that is never closed                    *)
(*  -8 dictionary with a key but no value                                  *)
(*  -9 operand of a type the operator has no use for                       *)
(*                                                                         *)
(* A lost object is null wherever it is referred to, and everything else   *)
(* is as if the document was whole: a lost content stream draws nothing, a *)
(* lost form is not drawn, lost resources define nothing, a lost font is   *)
(* replaced, lost pages are left out.  Errors end the page they are in,    *)
(* after the items before them; a page tree node that is its own           *)
(* descendant ends the document.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Doc(_)
VARIABLES w, tag
D == Doc(tag)
Here(o) == o \in 1..Len(D.objs)
RECURSIVE Lost(_)
Lost(o) == D.objs[o].st \in {"gone", "bad", "other"} \/ (D.objs[o].up # 0 /\ Lost(D.objs[o].up))
Kind(o) == IF ~Here(o) THEN "null" ELSE IF Lost(o) THEN "null" ELSE D.objs[o].k
O(o) == D.objs[o]

\* ---- what a page shows: the programs of its content streams, one after the other
Prog(cs) == FlattenSeq([i \in 1..Len(cs) |-> IF Kind(cs[i]) \in {"stream", "form"} THEN O(cs[i]).prog ELSE <<>>])
HasForm(r) == Kind(r) = "res" /\ O(r).form # 0
HasFont(r) == Kind(r) = "res" /\ O(r).font # 0
Frame(p, r, own) == [p |-> p, i |-> 0, r |-> r, own |-> own, out |-> <<>>]

Start == [ph |-> "tree", st |-> IF Kind(D.root) = "catalog" /\ O(D.root).kids # <<>> THEN <<[n |-> 0, kids |-> <<O(D.root).kids[1]>>, i |-> 0, r |-> 0]>> ELSE <<>>,
          fr |-> <<>>, out |-> <<>>, n |-> 0, err |-> "", loose |-> FALSE]
Done(x) == x.ph = "done"
Top == Last(w.st)
Set(x) == w' = x /\ UNCHANGED tag

\* ---- the page tree
InTree == w.ph = "tree" /\ w.st # <<>>
Kid == Top.kids[Top.i + 1]
MoreKids == InTree /\ Top.i < Len(Top.kids)
Step(x) == [x EXCEPT !.st[Len(x.st)].i = @ + 1]
Res(o, r) == IF O(o).res = 0 THEN r ELSE O(o).res
OpenPage(x, o, r) == [x EXCEPT !.ph = "page", !.n = o, !.fr = <<Frame(Prog(O(o).kids), r, 0)>>]
OnPath(o) == \E i \in 1..Len(w.st) : w.st[i].n = o
EnterPage == MoreKids /\ Kind(Kid) = "page" /\ Set(OpenPage(Step(w), Kid, Res(Kid, Top.r)))
EnterNode == MoreKids /\ Kind(Kid) = "pages" /\ ~OnPath(Kid)
             /\ Set([Step(w) EXCEPT !.st = Append(@, [n |-> Kid, kids |-> O(Kid).kids, i |-> 0, r |-> Res(Kid, Top.r)])])
OwnDescendant == MoreKids /\ Kind(Kid) = "pages" /\ OnPath(Kid) /\ Set([w EXCEPT !.ph = "done", !.err = "PDFSyntaxError"])
NotANode == MoreKids /\ Kind(Kid) \notin {"page", "pages"} /\ Set(Step(w))
LeaveNode == InTree /\ Top.i = Len(Top.kids) /\ Set([w EXCEPT !.st = Front(@)])
\* no page at all: the page objects of the file, in the order of their numbers here
Loose == SelectSeq([i \in 1..Len(D.objs) |-> i], LAMBDA o : Kind(o) = "page")
EndOfTree == w.ph = "tree" /\ w.st = <<>>
             /\ Set(IF w.out # <<>> THEN [w EXCEPT !.ph = "done"] ELSE [w EXCEPT !.ph = "loose", !.n = 0, !.loose = TRUE])
LooseAfter(n) == SelectSeq(Loose, LAMBDA o : o > n)
LoosePage == w.ph = "loose" /\ LooseAfter(w.n) # <<>> /\ Set(OpenPage(w, LooseAfter(w.n)[1], O(LooseAfter(w.n)[1]).res))
NoMorePages == w.ph = "loose" /\ LooseAfter(w.n) = <<>>
               /\ Set([w EXCEPT !.ph = "done", !.err = IF w.out = <<>> THEN "EmptyDocumentError" ELSE ""])

\* ---- the content of a page
F == Last(w.fr)
OnPage == w.ph = "page"
AtOp == OnPage /\ F.i < Len(F.p)
Op == F.p[F.i + 1]
Adv(x) == [x EXCEPT !.fr[Len(x.fr)].i = @ + 1]
Give(x) == [Adv(w) EXCEPT !.fr[Len(w.fr)].out = Append(@, x)]
\* back to where the page was found
Close(x, items, err) ==
  [x EXCEPT !.ph = IF w.st = <<>> THEN "loose" ELSE "tree", !.fr = <<>>, !.out = Append(@, [n |-> x.n, items |-> items, err |-> err])]
Fail(err) == Set(Close(w, w.fr[1].out, err))
Mark == AtOp /\ Op > 0 /\ Set(Give(Op))
Invoke ==
  AtOp /\ Op = 0 /\ IF ~HasForm(F.r) THEN Fail("InvalidOperation")
                    ELSE LET f == O(F.r).form IN
                         IF Kind(f) # "form" THEN Set(Adv(w))
                         ELSE IF \E i \in 1..Len(w.fr) : w.fr[i].own = f THEN Fail("InvalidOperation")
                         ELSE Set([Adv(w) EXCEPT !.fr = Append(@, Frame(O(f).prog, IF O(f).res = 0 THEN F.r ELSE O(f).res, f))])
Text == AtOp /\ Op = -1 /\ IF HasFont(F.r) THEN Set(Give(-1)) ELSE Fail("InvalidOperation")
NoOperands == AtOp /\ Op \in {-2, -9} /\ Fail("CommandProcessorError")
Unknown == AtOp /\ Op \in {-3, -6} /\ Set(Adv(w))
Misplaced == AtOp /\ Op \in {-4, -5} /\ Fail("InvalidOperation")
Unclosed == AtOp /\ Op = -7 /\ Set([w EXCEPT !.fr[Len(w.fr)].i = Len(F.p)])
OddDict == AtOp /\ Op = -8 /\ Fail("PSSyntaxError")
EndForm == OnPage /\ F.i = Len(F.p) /\ Len(w.fr) > 1
           /\ Set([w EXCEPT !.fr = [Front(@) EXCEPT ![Len(@) - 1].out = @ \o <<-2>> \o F.out \o <<-3>>]])
EndPage == OnPage /\ F.i = Len(F.p) /\ Len(w.fr) = 1 /\ Set(Close(w, F.out, ""))

Next0 == EnterPage \/ EnterNode \/ OwnDescendant \/ NotANode \/ LeaveNode \/ EndOfTree \/ LoosePage \/ NoMorePages
         \/ Mark \/ Invoke \/ Text \/ NoOperands \/ Unknown \/ Misplaced \/ Unclosed \/ OddDict \/ EndForm \/ EndPage

\* ---- what this amounts to
\* nothing is delivered from lost objects, and every page that is whole is delivered whole
OnlyPages == \A i \in 1..Len(w.out) : Kind(w.out[i].n) = "page"
\* no node is open twice, no form is being drawn inside itself: so the walk is bounded
Nested == /\ \A i, j \in 1..Len(w.st) : i # j => w.st[i].n # w.st[j].n
          /\ \A i, j \in 2..Len(w.fr) : i # j => w.fr[i].own # w.fr[j].own
Ends == <>Done(w)
=============================================================================
