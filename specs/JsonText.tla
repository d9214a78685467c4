----------------------------- MODULE JsonText -----------------------------
(* Reading JSON text (RFC 8259) character by character into the events of    *)
(* Calls.tla, and a writer of the text for calls.                            *)
EXTENDS Calls
\* ---- reading a text
\* p: ev, st (sequence of "o" "a"), mode, buf, key (the string read is a key), n number parts
Read0 == [ev |-> S0, st |-> S0, mode |-> "val", buf |-> S0, key |-> FALSE, hex |-> S0]
Space(c) == c \in {32, 9, 10, 13}
Digit(c) == c \in 48..57
Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Bad(p, why) == [p EXCEPT !.mode = "bad", !.buf = <<why>>]
\* after a complete value
Next(p) == IF p.st = S0 THEN "done" ELSE "after"
Valued(p, e) == [p EXCEPT !.ev = Append(@, e), !.mode = Next(p), !.buf = S0, !.hex = S0]
OpenC(p, k) == [p EXCEPT !.ev = Append(@, Ev(IF k = "o" THEN "{" ELSE "[", S0)), !.st = Append(@, k), !.mode = IF k = "o" THEN "key1" ELSE "val1"]
Close(p, k) == IF p.st = S0 \/ p.st[Len(p.st)] # k THEN Bad(p, 1)
  ELSE LET q == [p EXCEPT !.st = Pop(@), !.ev = Append(@, Ev(IF k = "o" THEN "}" ELSE "]", S0))] IN [q EXCEPT !.mode = Next(q)]
Words == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
Value(p, c) ==
  CASE c = 123 -> OpenC(p, "o") [] c = 91 -> OpenC(p, "a")
    [] c = 34 -> [p EXCEPT !.mode = "str", !.buf = S0, !.key = FALSE]
    [] c = 45 -> [p EXCEPT !.mode = "minus", !.buf = <<c>>]
    [] c = 48 -> [p EXCEPT !.mode = "zero", !.buf = <<c>>]
    [] c \in 49..57 -> [p EXCEPT !.mode = "int", !.buf = <<c>>]
    [] c \in {116, 102, 110} -> [p EXCEPT !.mode = "word", !.buf = <<c>>]
    [] OTHER -> Bad(p, 2)
HighS(c) == c \in 55296..56319
LowS(c) == c \in 56320..57343
\* a \u escape may be the second half of a character
AddU(buf, c) == IF LowS(c) /\ buf # S0 /\ HighS(buf[Len(buf)])
  THEN Append(Pop(buf), 65536 + (buf[Len(buf)] - 55296) * 1024 + (c - 56320)) ELSE Append(buf, c)
Esc(c) == CASE c \in {34, 92, 47} -> c [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

\* the character after a number belongs to what follows
After(p, c) ==
  CASE Space(c) -> p
    [] c = 44 /\ p.mode = "after" -> [p EXCEPT !.mode = IF p.st[Len(p.st)] = "o" THEN "key" ELSE "val"]
    [] c = 125 /\ p.mode = "after" -> Close(p, "o")
    [] c = 93 /\ p.mode = "after" -> Close(p, "a")
    [] OTHER -> Bad(p, 3)
EndNum(p, c) == After(Valued(p, Ev("num", Canon(p.buf))), c)
More(p, m, c) == [p EXCEPT !.mode = m, !.buf = Append(@, c)]
Char(p, c) ==
  CASE p.mode = "bad" -> p
    [] p.mode \in {"val", "val1", "key", "key1", "colon"} /\ Space(c) -> p
    [] p.mode = "val" -> Value(p, c)
    [] p.mode = "val1" -> IF c = 93 THEN Close(p, "a") ELSE Value(p, c)
    [] p.mode \in {"key", "key1"} -> IF c = 34 THEN [p EXCEPT !.mode = "str", !.buf = S0, !.key = TRUE]
                                     ELSE IF c = 125 /\ p.mode = "key1" THEN Close(p, "o") ELSE Bad(p, 4)
    [] p.mode = "colon" -> IF c = 58 THEN [p EXCEPT !.mode = "val"] ELSE Bad(p, 5)
    [] p.mode \in {"after", "done"} -> After(p, c)
    [] p.mode = "str" ->
         IF c = 92 THEN [p EXCEPT !.mode = "esc"] ELSE IF c < 32 THEN Bad(p, 6)
         ELSE IF c # 34 THEN [p EXCEPT !.buf = Append(@, c)]
         ELSE IF p.key THEN [p EXCEPT !.ev = Append(@, Ev("key", p.buf)), !.mode = "colon", !.buf = S0]
         ELSE Valued(p, Ev("str", p.buf))
    [] p.mode = "esc" -> IF c = 117 THEN [p EXCEPT !.mode = "u", !.hex = S0]
                         ELSE IF Esc(c) < 0 THEN Bad(p, 7) ELSE [p EXCEPT !.mode = "str", !.buf = Append(@, Esc(c))]
    [] p.mode = "u" -> IF Hex(c) < 0 THEN Bad(p, 8) ELSE LET h == Append(p.hex, Hex(c)) IN
         IF Len(h) < 4 THEN [p EXCEPT !.hex = h]
         ELSE [p EXCEPT !.mode = "str", !.hex = S0, !.buf = AddU(@, ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4])]
    [] p.mode = "word" -> LET b == Append(p.buf, c) IN
         IF ~\E x \in Words : IsPrefix(b, x) THEN Bad(p, 9) ELSE IF b \in Words THEN Valued(p, Ev("lit", b)) ELSE [p EXCEPT !.buf = b]
    [] p.mode = "minus" -> IF c = 48 THEN More(p, "zero", c) ELSE IF Digit(c) THEN More(p, "int", c) ELSE Bad(p, 10)
    [] p.mode \in {"zero", "int", "frac", "exp"} ->
         IF Digit(c) THEN (IF p.mode = "zero" THEN Bad(p, 11) ELSE More(p, p.mode, c))
         ELSE IF c = 46 /\ p.mode \in {"zero", "int"} THEN More(p, "dot", c)
         ELSE IF c \in {69, 101} /\ p.mode # "exp" THEN More(p, "e", c) ELSE EndNum(p, c)
    [] p.mode = "dot" -> IF Digit(c) THEN More(p, "frac", c) ELSE Bad(p, 12)
    [] p.mode \in {"e", "esign"} -> IF Digit(c) THEN More(p, "exp", c)
                                    ELSE IF c \in {43, 45} /\ p.mode = "e" THEN More(p, "esign", c) ELSE Bad(p, 13)
    [] OTHER -> Bad(p, 14)
ReadSome(p, s) == FoldLeft(Char, p, s)

\* ---- a writer
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U4(c) == <<92, 117, HexD(c \div 4096), HexD((c \div 256) % 16), HexD((c \div 16) % 16), HexD(c % 16)>>
Escaped(s, ascii) == FlattenSeq([i \in 1..Len(s) |-> LET c == s[i] IN
  IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 \/ (ascii /\ c \in 127..65535) THEN U4(c)
  ELSE IF ascii /\ c > 65535 THEN U4(55296 + ((c - 65536) \div 1024)) \o U4(56320 + ((c - 65536) % 1024)) ELSE <<c>>])
Quoted(s, ascii) == <<34>> \o Escaped(s, ascii) \o <<34>>
RECURSIVE DecText(_)
DecText(n) == IF n < 0 THEN <<45>> \o DecText(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
NumText(v) == (IF v[1] = 1 THEN <<45>> ELSE S0) \o (IF Len(v) = 2 THEN <<48>> ELSE SubSeq(v, 3, Len(v)) \o <<101>> \o DecText(v[2]))
\* the text of one call after the calls with meaning w
Chunk(w, c, ascii) ==
  IF w.mute > 0 THEN S0
  ELSE IF c.op = "end" THEN (IF TopW(w).t = "o" THEN <<10, 125>> ELSE <<93>>)
  ELSE IF Repeated(w, c) THEN S0
  ELSE (IF TopW(w).n > 0 THEN <<44, 10>> ELSE S0) \o (IF TopW(w).t = "o" THEN Quoted(c.key, ascii) \o <<58, 32>> ELSE S0) \o
       (CASE c.op = "obj" -> <<123>> [] c.op = "arr" -> <<91>> [] c.op = "str" -> Quoted(c.val, ascii)
          [] c.op = "num" -> NumText(c.val) [] OTHER -> c.val)
=============================================================================
