-------------------------------- MODULE Lexer --------------------------------
(* The lexical grammar of PDF as a machine that reads one byte at a time.     *)
(* Bytes are integers; a token is [p |-> offset of its first byte, k |-> kind,*)
(* v |-> value].  Kinds: int, real (value times 10^4), bool, name, str        *)
(* (literal and hexadecimal strings alike), kw (keywords and delimiters).     *)
(* The machine knows nothing about read blocks: that is the point.  Input on  *)
(* which the grammar is silent leads to mode "unspec", where it stays.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT OddHexIdeal   \* TRUE: a missing last hex digit counts as 0 (grammar); FALSE: as built (pinned by a test)

VARIABLES L            \* the machine state
          
White == {0, 9, 10, 12, 13, 32}
Delim == {40, 41, 60, 62, 91, 93, 123, 125, 47, 37}
Digit == 48..57
Alpha == (65..90) \union (97..122)
HexDigit == Digit \union (65..70) \union (97..102)
Octal == 48..55
\* printable bytes that stand for an operator of one character
Single == {33, 34, 36, 38, 39, 42, 44, 58, 59, 61, 63, 64, 94, 95, 96, 124, 126}
Ends(c) == c \in White \union Delim

HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87

LInit0 == [mode |-> "main", tok |-> <<>>, start |-> 0, depth |-> 0, num |-> 0, frac |-> 0,
           neg |-> FALSE, any |-> FALSE, out |-> <<>>, pos |-> 0, last |-> 0]

Pow10 == <<10000, 1000, 100, 10, 1>>      \* indexed by number of fraction digits + 1

Emit(l, k, v) == [l EXCEPT !.out = Append(@, [p |-> l.start, k |-> k, v |-> v]), !.mode = "main", !.tok = <<>>]

Unspec(l) == [l EXCEPT !.mode = "unspec"]

\* ---- starting a token (or skipping white space) at byte c
Begin(l, c) ==
  LET b == [l EXCEPT !.start = l.pos, !.tok = <<>>, !.depth = 0, !.num = 0, !.frac = 0, !.neg = FALSE, !.any = FALSE] IN
  IF c \in White THEN l
  ELSE IF c = 37 THEN [b EXCEPT !.mode = "comment"]
  ELSE IF c = 47 THEN [b EXCEPT !.mode = "name"]
  ELSE IF c \in Digit THEN [b EXCEPT !.mode = "int", !.num = c - 48, !.any = TRUE]
  ELSE IF c \in {43, 45} THEN [b EXCEPT !.mode = "int", !.neg = (c = 45)]
  ELSE IF c = 46 THEN [b EXCEPT !.mode = "frac"]
  ELSE IF c \in Alpha THEN [b EXCEPT !.mode = "kw", !.tok = <<c>>]
  ELSE IF c = 40 THEN [b EXCEPT !.mode = "str", !.depth = 1]
  ELSE IF c = 60 THEN [b EXCEPT !.mode = "wopen"]
  ELSE IF c = 62 THEN [b EXCEPT !.mode = "wclose"]
  ELSE IF c \in {91, 93, 123, 125} THEN Emit(b, "kw", <<c>>)
  ELSE IF c \in Single THEN [b EXCEPT !.mode = "single", !.tok = <<c>>]
  ELSE Unspec(b)

\* ---- the token under way, if a white space or delimiter follows
Number(l) == IF l.mode = "int"
             THEN Emit(l, "int", IF l.neg THEN -l.num ELSE l.num)
             ELSE Emit(l, "real", (IF l.neg THEN -1 ELSE 1) * l.num * Pow10[l.frac + 1])
Keyword(l) == IF l.tok = <<116, 114, 117, 101>> THEN Emit(l, "bool", 1)
              ELSE IF l.tok = <<102, 97, 108, 115, 101>> THEN Emit(l, "bool", 0)
              ELSE Emit(l, "kw", l.tok)
RECURSIVE Pairs(_)
Pairs(s) == IF s = <<>> THEN <<>>
            ELSE IF Len(s) = 1 THEN <<IF OddHexIdeal THEN 16 * HexVal(s[1]) ELSE HexVal(s[1])>>
            ELSE <<16 * HexVal(s[1]) + HexVal(s[2])>> \o Pairs(SubSeq(s, 3, Len(s)))

Close(l) == IF l.mode = "name" THEN Emit(l, "name", l.tok)
            ELSE IF l.mode \in {"int", "frac"} THEN (IF l.any THEN Number(l) ELSE Unspec(l))
            ELSE IF l.mode = "kw" THEN Keyword(l)
            ELSE IF l.mode = "single" THEN Emit(l, "kw", l.tok)
            ELSE l

\* ---- one byte
InToken == {"name", "int", "frac", "kw", "single"}
EscOf(c) == IF c = 110 THEN 10 ELSE IF c = 114 THEN 13 ELSE IF c = 116 THEN 9 ELSE IF c = 98 THEN 8
            ELSE IF c = 102 THEN 12 ELSE c

StrByte(l, c) == IF c = 92 THEN [l EXCEPT !.mode = "esc"]
                 ELSE IF c = 40 THEN [l EXCEPT !.depth = @ + 1, !.tok = Append(@, c)]
                 ELSE IF c = 41 THEN (IF l.depth = 1 THEN Emit(l, "str", l.tok)
                                      ELSE [l EXCEPT !.depth = @ - 1, !.tok = Append(@, c)])
                 ELSE [l EXCEPT !.tok = Append(@, c)]

Byte(l, c) ==
  CASE l.mode = "main" -> Begin(l, c)
    [] l.mode \in InToken /\ Ends(c) -> LET e == Close(l) IN IF e.mode = "unspec" THEN e ELSE Begin(e, c)
    [] l.mode = "name" /\ ~Ends(c) -> IF c = 35 THEN [l EXCEPT !.mode = "name#"]
                                      ELSE IF c = 11 THEN Unspec(l) ELSE [l EXCEPT !.tok = Append(@, c)]
    [] l.mode = "name#" -> IF c \in HexDigit THEN [l EXCEPT !.mode = "name#h", !.num = HexVal(c)] ELSE Unspec(l)
    [] l.mode = "name#h" -> IF c \in HexDigit
                            THEN [l EXCEPT !.mode = "name", !.tok = Append(@, 16 * l.num + HexVal(c))] ELSE Unspec(l)
    [] l.mode = "int" /\ ~Ends(c) -> IF c \in Digit /\ l.num < 100000000
                                     THEN [l EXCEPT !.num = 10 * @ + c - 48, !.any = TRUE]
                                     ELSE IF c = 46 THEN [l EXCEPT !.mode = "frac"] ELSE Unspec(l)
    [] l.mode = "frac" /\ ~Ends(c) -> IF c \in Digit /\ l.frac < 4 /\ l.num < 20000
                                      THEN [l EXCEPT !.num = 10 * @ + c - 48, !.frac = @ + 1, !.any = TRUE]
                                      ELSE Unspec(l)
    [] l.mode = "kw" /\ ~Ends(c) -> IF c \in {35, 11} THEN Unspec(l) ELSE [l EXCEPT !.tok = Append(@, c)]
    [] l.mode = "single" /\ ~Ends(c) -> Unspec(l)
    [] l.mode = "comment" -> IF c \in {10, 13} THEN [l EXCEPT !.mode = "main"] ELSE l
    [] l.mode = "str" -> StrByte(l, c)
    [] l.mode = "esc" -> IF c \in Octal THEN [l EXCEPT !.mode = "oct", !.num = c - 48, !.frac = 1]
                         ELSE IF c = 13 THEN [l EXCEPT !.mode = "esccr"]
                         ELSE IF c = 10 THEN [l EXCEPT !.mode = "str"]
                         ELSE [l EXCEPT !.mode = "str", !.tok = Append(@, EscOf(c))]
    [] l.mode = "esccr" -> IF c = 10 THEN [l EXCEPT !.mode = "str"] ELSE StrByte([l EXCEPT !.mode = "str"], c)
    [] l.mode = "oct" -> IF c \in Octal /\ l.frac < 3
                         THEN [l EXCEPT !.num = 8 * @ + c - 48, !.frac = @ + 1]
                         ELSE StrByte([l EXCEPT !.mode = "str", !.tok = Append(@, l.num % 256)], c)
    [] l.mode = "wopen" -> IF c = 60 THEN Emit(l, "kw", <<60, 60>>)
                           ELSE IF c \in HexDigit THEN [l EXCEPT !.mode = "hex", !.tok = <<c>>]
                           ELSE IF c \in White THEN [l EXCEPT !.mode = "hex"]
                           ELSE IF c = 62 THEN Emit(l, "str", <<>>) ELSE Unspec(l)
    [] l.mode = "hex" -> IF c \in HexDigit THEN [l EXCEPT !.tok = Append(@, c)]
                         ELSE IF c \in White THEN l
                         ELSE IF c = 62 THEN Emit(l, "str", Pairs(l.tok)) ELSE Unspec(l)
    [] l.mode = "wclose" -> IF c = 62 THEN Emit(l, "kw", <<62, 62>>) ELSE Unspec(l)
    [] OTHER -> l

Feed(l, c) == [Byte(l, c) EXCEPT !.pos = l.pos + 1, !.last = c]

\* ---- the end of the data ends a token like white space does
AtEnd(l) == IF l.mode \in InToken THEN Close(l) ELSE IF l.mode \in {"main", "comment"} THEN l ELSE Unspec(l)

\* ---- actions, one per kind of step (named for the coverage report)
Next0(c) == c >= 0 /\ L' = Feed(L, c)
SkipWhite(c)   == L.mode = "main" /\ c \in White /\ Next0(c)
StartToken(c)  == L.mode = "main" /\ c \notin White /\ Next0(c)
ExtendToken(c) == L.mode \in {"name#", "name#h"} \union InToken /\ (L.mode \in InToken => ~Ends(c)) /\ Next0(c)
EndToken(c)    == L.mode \in InToken /\ Ends(c) /\ Next0(c)
CommentByte(c) == L.mode = "comment" /\ Next0(c)
StringByte(c)  == L.mode = "str" /\ Next0(c)
EscapeByte(c)  == L.mode \in {"esc", "esccr"} /\ Next0(c)
OctalByte(c)   == L.mode = "oct" /\ Next0(c)
AngleByte(c)   == L.mode \in {"wopen", "wclose"} /\ Next0(c)
HexByte(c)     == L.mode = "hex" /\ Next0(c)
Read(c) == SkipWhite(c) \/ StartToken(c) \/ ExtendToken(c) \/ EndToken(c) \/ CommentByte(c) \/ StringByte(c)
           \/ EscapeByte(c) \/ OctalByte(c) \/ AngleByte(c) \/ HexByte(c)

\* ---- invariants of the machine
Ordered == \A i \in 1..Len(L.out) - 1 : L.out[i].p < L.out[i + 1].p
InRange == \A i \in 1..Len(L.out) : L.out[i].p < L.pos
Balanced == L.depth >= 0 /\ (L.mode = "str" => L.depth >= 1)
\* a token under way never reaches back over a delivered one
Progress == L.out # <<>> /\ L.mode \in InToken => L.out[Len(L.out)].p < L.start

\* ---- lines: read forwards, a line ends with CR, LF or CRLF; read backwards, a piece starts with CR or LF
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rev(ss) == [i \in 1..Len(ss) |-> ss[Len(ss) + 1 - i]]
IsEol(c) == c \in {10, 13}
LineOk(s, final) ==
  /\ s # <<>>
  /\ (final \/ IsEol(s[Len(s)]))
  /\ \A i \in 1..Len(s) - 1 : IsEol(s[i]) => (i = Len(s) - 1 /\ s[i] = 13 /\ s[i + 1] = 10)
RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(ss, p) == IF ss = <<>> THEN <<>> ELSE <<p>> \o OffsetsFrom(Tail(ss), p + Len(Head(ss)))
LinesClause(data, ls, ps) ==
  IF Flat(ls) # data THEN "lines do not make up the data"
  ELSE IF \E i \in 1..Len(ls) : ~LineOk(ls[i], i = Len(ls)) THEN "line cut at the wrong place"
  ELSE IF \E i \in 1..Len(ls) - 1 : ls[i][Len(ls[i])] = 13 /\ ls[i + 1][1] = 10 THEN "CRLF split"
  ELSE IF ps # OffsetsFrom(ls, 0) THEN "line offset" ELSE ""
RevClause(data, ls) ==
  IF Flat(Rev(ls)) # data THEN "backward lines do not make up the data"
  ELSE IF \E i \in 1..Len(ls) : \E j \in 2..Len(ls[i]) : IsEol(ls[i][j]) THEN "backward line cut at the wrong place"
  ELSE IF \E i \in 1..Len(ls) - 1 : ~IsEol(ls[i][1]) THEN "backward line without its line end" ELSE ""
=============================================================================
