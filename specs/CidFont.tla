------------------------------ MODULE CidFont ------------------------------
(* A composite font: how strings are cut into codes by the CMap, which CID a *)
(* code selects, its text and its metrics.                                   *)
(* Font f: cm [kind "identity" | "table", wmode, entries], entries [k "char" *)
(* | "range" | "use", lo, hi bytes, cid, of: entries of the CMap used];      *)
(* bf: entries of ToUnicode.tla by code, hasbf; coll: pairs [cid, v] of the   *)
(* character collection, for both writing modes (collh, collv), hascoll;     *)
(* ttf: subtables [plat, enc, map: [ch, gid]], hasttf;                       *)
(* w, w2: items [n | list] of W and W2, dw, dw2 <<vy, w>> (tenths).          *)
EXTENDS ToUnicode, SequencesExt

\* ---- the CMap: a set of pairs <<code bytes, cid>>
Put(m, b, n) == {p \in m : p[1] # b} \cup {<<b, n>>}
RECURSIVE CodeRange(_, _, _, _, _)
CodeRange(m, pre, a, z, n) == IF a > z THEN m ELSE CodeRange(Put(m, Append(pre, a), n), pre, a + 1, z, n + 1)
RECURSIVE AddCode(_, _)
AddCode(m, e) ==
  CASE e.k = "char" -> Put(m, e.lo, e.cid)
    [] e.k = "range" -> CodeRange(m, SubSeq(e.lo, 1, Len(e.lo) - 1), e.lo[Len(e.lo)], e.hi[Len(e.hi)], e.cid)
    [] e.k = "use" -> FoldLeft(AddCode, m, e.of)
Starts(b, s) == Len(b) < Len(s) /\ SubSeq(s, 1, Len(b)) = b
Number(b) == FoldLeft(LAMBDA n, x : n * 256 + x, 0, b)
Code(b, cid) == [code |-> Number(b), cid |-> cid]
\* one more byte: what the string has said so far (codes and their CIDs) and the bytes of a code that is not complete
Scan(cm, m, q, byte) ==
  LET b == Append(q.buf, byte) IN
  IF cm.kind = "identity" THEN (IF Len(b) = 2 THEN [q EXCEPT !.buf = << >>, !.out = Append(@, Code(b, b[1] * 256 + b[2]))] ELSE [q EXCEPT !.buf = b])
  ELSE IF \E p \in m : p[1] = b THEN [q EXCEPT !.buf = << >>, !.out = Append(@, Code(b, (CHOOSE p \in m : p[1] = b)[2]))]
  ELSE IF \E p \in m : Starts(b, p[1]) THEN [q EXCEPT !.buf = b]
  ELSE [q EXCEPT !.buf = << >>, !.silent = TRUE]
Scan0 == [buf |-> << >>, out |-> << >>, silent |-> FALSE]

\* ---- the cmap table of an embedded TrueType font: Unicode subtables if there are any
Unicodes(ts) == LET u == SelectSeq(ts, LAMBDA t : t.plat = 0 \/ (t.plat = 3 /\ t.enc = 1)) IN IF u = << >> THEN ts ELSE u
GlyphText(ts, gid) == LET cs == {x.ch : x \in UNION {ToSet(Unicodes(ts)[i].map) : i \in 1..Len(Unicodes(ts))}}
                          hit == {x \in UNION {ToSet(Unicodes(ts)[i].map) : i \in 1..Len(Unicodes(ts))} : x.gid = gid} IN
  IF hit = {} THEN None ELSE <<(CHOOSE x \in hit : TRUE).ch>>

\* ---- text: ToUnicode maps go by the character code, the others by the CID
Text(f, bf, x) == LET cid == x.cid IN
  IF f.hasbf THEN Mapped(bf, x.code)
  ELSE IF f.hascoll THEN (LET t == IF f.cm.wmode = 1 THEN f.collv ELSE f.collh
                              hit == {i \in 1..Len(t) : t[i].cid = cid} IN IF hit = {} THEN None ELSE t[CHOOSE i \in hit : TRUE].v)
  ELSE IF f.hasttf THEN GlyphText(f.ttf, cid) ELSE None

\* ---- W and W2: n numbers for a range (3 or 5), or a first CID and a list in groups of k (1 or 3)
Load0 == [nums |-> << >>, t |-> {}]
SetW(t, cid, v) == {p \in t : p[1] # cid} \cup {<<cid, v>>}
RECURSIVE Groups(_, _, _, _)
Groups(t, cid, l, k) == IF Len(l) < k THEN t ELSE Groups(SetW(t, cid, SubSeq(l, 1, k)), cid + 1, SubSeq(l, k + 1, Len(l)), k)
Load(q, it, k) ==
  IF it.k = "list" THEN (IF q.nums = << >> THEN q ELSE [nums |-> << >>, t |-> Groups(q.t, q.nums[Len(q.nums)], it.list, k)])
  ELSE LET ns == Append(q.nums, it.n) IN
       IF Len(ns) < 2 + k THEN [q EXCEPT !.nums = ns]
       ELSE [nums |-> << >>, t |-> {p \in q.t : p[1] < ns[1] \/ p[1] > ns[2]} \cup {<<c, SubSeq(ns, 3, 2 + k)>> : c \in ns[1]..ns[2]}]
Metric(t, cid, default) == IF \E p \in t : p[1] = cid THEN (CHOOSE p \in t : p[1] = cid)[2] ELSE default
\* horizontal: <<w>>; vertical: <<w1y, vx, vy>>, vx "middle" not judged (none: -1)
Width(f, t, cid) == Metric(t, cid, <<f.dw>>)
Vertical(f, t, cid) == Metric(t, cid, <<f.dw2[2], -99999, f.dw2[1]>>)
=============================================================================
