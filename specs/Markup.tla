------------------------------- MODULE Markup -------------------------------
(* Characters of XML and HTML documents, given by their code points. *)
EXTENDS Integers, Sequences
XmlIllegal(c) == \/ c \in 0..31 /\ c \notin {9, 10, 13}
                 \/ c \in 55296..57343 \/ c \in {65534, 65535}
\* characters that HTML, or a reference in it, cannot hold or turns into others
HtmlIllegal(c) == \/ XmlIllegal(c) \/ c \in 127..159 \/ c \in 64976..65007
                  \/ c >= 65536 /\ (c % 65536) \in {65534, 65535}
\* what is shown of a text: U+FFFD instead of what cannot be shown
Shown(fmt, s) == [i \in 1..Len(s) |-> IF (fmt = "xml" /\ XmlIllegal(s[i])) \/ (fmt = "html" /\ HtmlIllegal(s[i])) THEN 65533 ELSE s[i]]
White(c) == c \in {9, 10, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ White(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ White(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
=============================================================================
