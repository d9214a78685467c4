----------------------------- MODULE PageTree -----------------------------
(* Walking a page tree, inheriting page attributes, selecting pages.       *)
(*                                                                         *)
(* doc = [nodes, sel, lim]: node 1 is the root named by the catalog (none  *)
(* if the document has no page tree: root = 0).  A node is                 *)
(*   [k, kids, mb, cb, rot, res]   k \in "pages" | "page" | "other"        *)
(* with 0 (rotation: NoRot) for an attribute it does not set; a box that   *)
(* is set but unusable is -1, a page shown without a usable box has box 0  *)
(* (letter).  A node that is its own descendant ends the walk in an error, *)
(* after the pages before it.  sel is a                                    *)
(* set of 0-based page numbers as a sequence (empty: every page), lim a    *)
(* limit (0: none).  The machine is the walk, one kid at a time.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Doc(_)
VARIABLES w, tag
D == Doc(tag)
NoRot == 99999

Inherit(n, a) == [mb |-> IF n.mb = 0 THEN a.mb ELSE n.mb, cb |-> IF n.cb = 0 THEN a.cb ELSE n.cb,
                  rot |-> IF n.rot = NoRot THEN a.rot ELSE n.rot, res |-> IF n.res = 0 THEN a.res ELSE n.res]
NoAttr == [mb |-> 0, cb |-> 0, rot |-> NoRot, res |-> 0]
Usable(b) == IF b < 0 THEN 0 ELSE b
Shown(i, a, pn) == [n |-> i, pn |-> pn, mb |-> Usable(a.mb), cb |-> IF a.cb <= 0 THEN Usable(a.mb) ELSE a.cb,
                    rot |-> IF a.rot = NoRot THEN 0 ELSE a.rot % 360, res |-> a.res]

Wanted(d, no) == d.sel = <<>> \/ no \in Range(d.sel)

Start(d) == [st |-> IF d.root = 0 THEN <<>> ELSE <<[n |-> d.root, i |-> 0, a |-> Inherit(d.nodes[d.root], NoAttr)]>>,
             no |-> 0, out |-> <<>>, stop |-> FALSE, err |-> FALSE]
Done(x) == x.stop \/ x.st = <<>>
Top(x) == Last(x.st)

\* ---- the walk, one action per kind of step
AtPage == ~Done(w) /\ D.nodes[Top(w).n].k = "page"
Give == /\ AtPage /\ Wanted(D, w.no)
        /\ w' = [w EXCEPT !.out = Append(@, Shown(Top(w).n, Top(w).a, Len(w.out))), !.no = @ + 1, !.st = Front(@),
                          !.stop = D.lim > 0 /\ D.lim <= w.no + 1]
        /\ UNCHANGED tag
Skip == AtPage /\ ~Wanted(D, w.no) /\ w' = [w EXCEPT !.no = @ + 1, !.st = Front(@)] /\ UNCHANGED tag
\* nodes that are being walked
Open(x) == {x.st[i].n : i \in 1..Len(x.st)}
NextKid == D.nodes[Top(w).n].kids[Top(w).i + 1]
Loops == D.nodes[NextKid].k = "pages" /\ NextKid \in Open(w)
Loop == /\ ~Done(w) /\ D.nodes[Top(w).n].k = "pages" /\ Top(w).i < Len(D.nodes[Top(w).n].kids) /\ Loops
        /\ w' = [w EXCEPT !.stop = TRUE, !.err = TRUE]
        /\ UNCHANGED tag
Descend == /\ ~Done(w) /\ D.nodes[Top(w).n].k = "pages" /\ Top(w).i < Len(D.nodes[Top(w).n].kids) /\ ~Loops
           /\ LET c == D.nodes[Top(w).n].kids[Top(w).i + 1] IN
              w' = [w EXCEPT !.st = Append([@ EXCEPT ![Len(@)].i = @ + 1], [n |-> c, i |-> 0, a |-> Inherit(D.nodes[c], Top(w).a)])]
           /\ UNCHANGED tag
Leave == /\ ~Done(w) /\ D.nodes[Top(w).n].k = "pages" /\ Top(w).i = Len(D.nodes[Top(w).n].kids)
         /\ w' = [w EXCEPT !.st = Front(@)] /\ UNCHANGED tag
Ignore == ~Done(w) /\ D.nodes[Top(w).n].k = "other" /\ w' = [w EXCEPT !.st = Front(@)] /\ UNCHANGED tag
WalkNext == Give \/ Skip \/ Descend \/ Leave \/ Ignore \/ Loop

\* ---- what the walk must amount to
RECURSIVE Leaves(_, _, _)
Leaves(d, n, a) ==
  LET here == Inherit(d.nodes[n], a) k == d.nodes[n].k IN
  CASE k = "page" -> <<[n |-> n, a |-> here]>>
    [] k = "pages" -> FlattenSeq([i \in 1..Len(d.nodes[n].kids) |-> Leaves(d, d.nodes[n].kids[i], here)])
    [] OTHER -> <<>>
AllLeaves(d) == IF d.root = 0 THEN <<>> ELSE Leaves(d, d.root, NoAttr)
\* the page that ends the delivery: the first wanted one that reaches the limit
LastNo(d, n) == IF d.lim = 0 THEN n
                ELSE LET c == {i \in 1..n : Wanted(d, i - 1) /\ i >= d.lim} IN IF c = {} THEN n ELSE CHOOSE i \in c : \A j \in c : i <= j
Delivered(d) ==
  LET all == AllLeaves(d)
      nos == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : Wanted(d, i - 1) /\ i <= LastNo(d, Len(all)))
  IN [j \in 1..Len(nos) |-> Shown(all[nos[j]].n, all[nos[j]].a, j - 1)]
\* without any page in the tree, every page object of the file, each once (in any order)
Loose(d) == {n \in 1..Len(d.nodes) : d.nodes[n].k = "page"}

Cyclic(d) == "cyclic" \in DOMAIN d
WalkRight == Done(w) => ((Cyclic(D) /\ w.err) \/ (~Cyclic(D) /\ ~w.err /\ w.out = Delivered(D)) \/ (Cyclic(D) /\ D.lim > 0))
Numbered == \A i \in 1..Len(w.out) : w.out[i].pn = i - 1
InOrder == \A i \in 1..(Len(w.out) - 1) : w.out[i].n # w.out[i + 1].n
=============================================================================
