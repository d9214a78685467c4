------------------------------ MODULE Outline ------------------------------
(* Listing the outlines of a document. Nodes d[i], the root is d[1]:         *)
(* [first, next: node or 0, last: has Last, titled, title: bytes,            *)
(*  dest, act, se: identity of the value or 0].                              *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- text strings: UTF-16 with a byte order mark, or PDFDocEncoding (0: not defined there)
Low == <<728, 711, 710, 729, 733, 731, 730, 732>>
High == <<8226, 8224, 8225, 8230, 8212, 8211, 402, 8260, 8249, 8250, 8722, 8240, 8222, 8220, 8221, 8216, 8217, 8218, 8482, 64257, 64258,
          321, 338, 352, 376, 381, 305, 322, 339, 353, 382, 0, 8364>>
DocChar(b) == IF b \in 24..31 THEN Low[b - 23] ELSE IF b \in 128..160 THEN High[b - 127] ELSE b
RECURSIVE Utf16(_)
Utf16(s) == IF Len(s) < 2 THEN << >>
            ELSE LET u == s[1] * 256 + s[2] IN
                 IF u \in 55296..56319 /\ Len(s) >= 4
                 THEN <<65536 + (u - 55296) * 1024 + (s[3] * 256 + s[4] - 56320)>> \o Utf16(SubSeq(s, 5, Len(s)))
                 ELSE <<u>> \o Utf16(SubSeq(s, 3, Len(s)))
Marked(s) == Len(s) >= 2 /\ s[1] = 254 /\ s[2] = 255
TextString(s) == IF Marked(s) THEN Utf16(SubSeq(s, 3, Len(s))) ELSE [i \in 1..Len(s) |-> DocChar(s[i])]

\* ---- the walk: the entries still to be visited, the next one last
Walk0 == [todo |-> <<[n |-> 1, level |-> 0]>>, seen |-> {}]
Top(w) == w.todo[Len(w.todo)]
Again(w) == Top(w).n \in w.seen
Pop(w) == [w EXCEPT !.todo = SubSeq(@, 1, Len(@) - 1)]
Listed(d, n) == d[n].titled /\ (d[n].dest # 0 \/ d[n].act # 0)
Entry(d, x) == [level |-> x.level, title |-> TextString(d[x.n].title), dest |-> d[x.n].dest, act |-> d[x.n].act, se |-> d[x.n].se]
Down(d, x) == IF d[x.n].first # 0 /\ d[x.n].last THEN <<[n |-> d[x.n].first, level |-> x.level + 1]>> ELSE << >>
Along(d, x) == IF d[x.n].next # 0 THEN <<[n |-> d[x.n].next, level |-> x.level]>> ELSE << >>
Visit(d, w) == LET x == Top(w) IN [todo |-> Pop(w).todo \o Along(d, x) \o Down(d, x), seen |-> w.seen \cup {x.n}]

\* ---- what is listed, where no entry is reached twice: the entry, those below it, those after it
Pointers(d) == {<<i, 1>> : i \in {j \in 1..Len(d) : d[j].first # 0 /\ d[j].last}} \cup {<<i, 2>> : i \in {j \in 1..Len(d) : d[j].next # 0}}
Aim(d, p) == IF p[2] = 1 THEN d[p[1]].first ELSE d[p[1]].next
Tree(d) == \A p, q \in Pointers(d) : (Aim(d, p) = Aim(d, q) => p = q) /\ Aim(d, p) # 1
RECURSIVE Order(_, _, _)
Order(d, n, level) ==
  (IF Listed(d, n) THEN <<[n |-> n, level |-> level]>> ELSE << >>)
  \o (IF d[n].first # 0 /\ d[n].last THEN Order(d, d[n].first, level + 1) ELSE << >>)
  \o (IF d[n].next # 0 THEN Order(d, d[n].next, level) ELSE << >>)
RECURSIVE Reach(_, _)
Reach(d, s) == LET t == s \cup {Aim(d, p) : p \in {q \in Pointers(d) : q[1] \in s}} IN IF t = s THEN s ELSE Reach(d, t)
=============================================================================
