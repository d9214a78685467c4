----------------------------- MODULE YamlText -----------------------------
(* Reading YAML text into the events of Calls.tla, character by character:   *)
(* block mappings and sequences by indentation, flow collections, plain,     *)
(* single- and double-quoted scalars on one line.  Plain scalars are what    *)
(* every reader of YAML 1.1 or 1.2 takes them for; others, comments, tags,   *)
(* anchors and scalars of several lines are not accepted.                    *)
EXTENDS Calls
\* p: ev, st containers [t, ind] (t "m" "s" block, "fm" "fs" flow), mode, buf, esc, col, at (column of the token),
\*    pend: a value is due, line: what may come ("item" or, after a key, "value"), fl: where in a flow collection
Read0 == [ev |-> S0, st |-> S0, mode |-> "bol", buf |-> S0, esc |-> S0, col |-> 0, at |-> 0, pend |-> TRUE, line |-> "item", fl |-> ""]
Bad(p, why) == [p EXCEPT !.mode = "bad", !.buf = <<why>>]
Digit(c) == c \in 48..57
Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Letter(c) == c \in 65..90 \cup 97..122 \/ c > 160
Printable(c) == c \in 32..126 \/ c \in 160..8231 \/ c \in 8234..55295 \/ c \in 57344..65278 \/ c \in 65280..65533 \/ c > 65535
Top(p) == p.st[Len(p.st)]
InFlow(p) == p.st # S0 /\ Top(p).t \in {"fm", "fs"}
NullWord == <<110, 117, 108, 108>>
Null == Ev("lit", NullWord)

\* ---- plain scalars
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
TrueWord == <<116, 114, 117, 101>>
FalseWord == <<102, 97, 108, 115, 101>>
\* words that are not the same for all readers: yes, no, on, off, y, n
Unclear == {<<121, 101, 115>>, <<110, 111>>, <<111, 110>>, <<111, 102, 102>>, <<121>>, <<110>>}
RECURSIVE Trail(_)
Trail(s) == IF s # S0 /\ s[Len(s)] = 32 THEN Trail(Pop(s)) ELSE s
AllDigits(s) == \A i \in 1..Len(s) : Digit(s[i])
IntText(s) == LET u == IF s # S0 /\ s[1] = 45 THEN Tail(s) ELSE s IN u # S0 /\ AllDigits(u) /\ (u[1] # 48 \/ Len(u) = 1)
FloatText(s) ==
  LET u == IF s # S0 /\ s[1] = 45 THEN Tail(s) ELSE s
      d == IndexOf(u, {46})
      e == IndexOf(u, {101, 69})
      frac == SubSeq(u, d + 1, IF e = 0 THEN Len(u) ELSE e - 1)
      ex == SubSeq(u, e + 2, Len(u)) IN
  /\ d > 1 /\ AllDigits(SubSeq(u, 1, d - 1)) /\ (e = 0 \/ e > d) /\ AllDigits(frac)
  /\ e # 0 => u[e + 1] \in {43, 45} /\ ex # S0 /\ AllDigits(ex)
Plain(s) ==
  IF Lower(s) = NullWord THEN Null ELSE IF Lower(s) = TrueWord THEN Ev("lit", TrueWord) ELSE IF Lower(s) = FalseWord THEN Ev("lit", FalseWord)
  ELSE IF Lower(s) \in Unclear THEN Ev("bad", <<1>>) ELSE IF Letter(s[1]) THEN Ev("str", s)
  ELSE IF IntText(s) \/ FloatText(s) THEN Ev("num", Canon(s)) ELSE Ev("bad", <<2>>)

\* ---- block structure
Closing(t) == Ev(IF t \in {"m", "fm"} THEN "}" ELSE "]", S0)
RECURSIVE Unwind(_, _)
Unwind(p, n) == IF p.st # S0 /\ Top(p).ind > n THEN Unwind([p EXCEPT !.ev = Append(@, Closing(Top(p).t)), !.st = Pop(@)], n) ELSE p
Filled(p) == IF p.pend THEN [p EXCEPT !.ev = Append(@, Null), !.pend = FALSE] ELSE p
\* a line whose text starts at column n
Indent(p, n) ==
  IF p.pend /\ (p.st = S0 \/ n > Top(p).ind) THEN p
  ELSE LET q == Unwind(Filled(p), n) IN IF q.st # S0 /\ Top(q).ind = n THEN q ELSE Bad(q, 1)
\* an entry of a container at column n, which may be the first
Entry(p, t, n) ==
  IF p.mode = "bad" THEN p
  ELSE IF p.pend THEN [p EXCEPT !.ev = Append(@, Ev(IF t = "m" THEN "{" ELSE "[", S0)), !.st = Append(@, [t |-> t, ind |-> n])]
  ELSE IF p.st # S0 /\ Top(p).t = t /\ Top(p).ind = n THEN p ELSE Bad(p, 2)
Dash(p) == LET q == Entry(p, "s", p.at) IN IF q.mode = "bad" THEN q ELSE [q EXCEPT !.pend = TRUE, !.mode = "sp", !.buf = S0, !.line = "item"]
Key(p, e) ==
  IF e.t = "bad" THEN Bad(p, 3)
  ELSE IF p.line # "item" THEN Bad(p, 4)
  ELSE LET q == Entry(p, "m", p.at) IN
    IF q.mode = "bad" THEN q ELSE [q EXCEPT !.ev = Append(@, Ev("key", e.v)), !.pend = TRUE, !.line = "value", !.mode = "sp", !.buf = S0]
Value(p, e) ==
  IF e.t = "bad" THEN Bad(p, 5) ELSE IF ~p.pend THEN Bad(p, 6)
  ELSE [p EXCEPT !.ev = Append(@, e), !.pend = FALSE, !.mode = "eol", !.buf = S0]
NewLine(p) == [p EXCEPT !.mode = "bol", !.col = 0, !.line = "item", !.buf = S0]

\* ---- flow collections
FlowOpen(p, t) ==
  IF InFlow(p) \/ p.pend
  THEN [p EXCEPT !.ev = Append(@, Ev(IF t = "fm" THEN "{" ELSE "[", S0)), !.st = Append(@, [t |-> t, ind |-> 1000000]), !.mode = "flow", !.fl = "first", !.buf = S0]
  ELSE Bad(p, 7)
FlowClose(p, t) ==
  IF ~InFlow(p) \/ Top(p).t # t THEN Bad(p, 8)
  ELSE LET q == [p EXCEPT !.ev = Append(@, Closing(t)), !.st = Pop(@), !.buf = S0] IN
    IF InFlow(q) THEN [q EXCEPT !.mode = "flow", !.fl = "after"] ELSE [q EXCEPT !.mode = "eol", !.pend = FALSE, !.fl = ""]
FlowValue(p, e) == IF e.t = "bad" THEN Bad(p, 9) ELSE IF Top(p).t = "fm" /\ p.fl # "val" THEN Bad(p, 10)
  ELSE [p EXCEPT !.ev = Append(@, e), !.mode = "flow", !.fl = "after", !.buf = S0]
FlowKey(p, e) == IF e.t = "bad" THEN Bad(p, 11) ELSE IF Top(p).t # "fm" \/ p.fl = "val" THEN Bad(p, 12)
  ELSE [p EXCEPT !.ev = Append(@, Ev("key", e.v)), !.mode = "flow", !.fl = "val", !.buf = S0]

\* ---- scalars
Indicator(c) == c \in {44, 91, 93, 123, 125, 35, 38, 42, 33, 124, 62, 39, 34, 37, 64, 96}
Start(p, c) ==
  IF c = 34 THEN [p EXCEPT !.mode = "dq", !.buf = S0] ELSE IF c = 39 THEN [p EXCEPT !.mode = "sq", !.buf = S0]
  ELSE IF c = 91 THEN FlowOpen(p, "fs") ELSE IF c = 123 THEN FlowOpen(p, "fm")
  ELSE IF Indicator(c) \/ c \in {58, 63} \/ ~Printable(c) THEN Bad(p, 13) ELSE [p EXCEPT !.mode = "plain", !.buf = <<c>>]
FlowChar(p, c) ==
  CASE c = 32 -> p
    [] c = 93 -> IF p.fl \in {"first", "after"} THEN FlowClose(p, "fs") ELSE Bad(p, 14)
    [] c = 125 -> IF p.fl \in {"first", "after"} THEN FlowClose(p, "fm") ELSE Bad(p, 15)
    [] c = 44 -> IF p.fl = "after" THEN [p EXCEPT !.fl = "next"] ELSE Bad(p, 16)
    [] OTHER -> IF p.fl = "after" \/ c = 10 THEN Bad(p, 17)
                ELSE IF c \in {91, 123} /\ Top(p).t = "fm" /\ p.fl # "val" THEN Bad(p, 18) ELSE Start(p, c)
\* the character after a scalar, e: what it says
AfterScalar(p, e, c) ==
  IF InFlow(p) THEN (IF c = 32 THEN [p EXCEPT !.mode = "sep"] ELSE IF c = 10 THEN Bad(p, 19) ELSE FlowChar(FlowValue(p, e), c))
  ELSE IF c = 10 THEN NewLine(Value(p, e)) ELSE Bad(p, 20)
AsKey(p, e) == IF InFlow(p) THEN FlowKey(p, e) ELSE Key(p, e)
BadStay(q, r) == IF q.mode = "bad" THEN q ELSE r
Quoted(p) == Ev("str", p.buf)
Esc(c) == CASE c = 48 -> 0 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13
            [] c = 101 -> 27 [] c = 78 -> 133 [] c = 95 -> 160 [] c = 76 -> 8232 [] c = 80 -> 8233 [] c \in {32, 34, 47, 92} -> c [] OTHER -> -1
RECURSIVE HexNum(_, _)
HexNum(h, acc) == IF h = S0 THEN acc ELSE HexNum(Tail(h), acc * 16 + Head(h))
Step(p, c) ==
  CASE p.mode = "bad" -> p
    [] p.mode = "bol" -> IF c = 32 THEN p ELSE IF c = 10 THEN p
                         ELSE LET q == Indent(p, p.col) IN
                              IF q.mode = "bad" THEN q
                              ELSE IF c = 45 THEN [q EXCEPT !.mode = "dash", !.at = p.col] ELSE Start([q EXCEPT !.at = p.col], c)
    [] p.mode = "sp" -> IF c = 32 THEN p ELSE IF c = 10 THEN p
                        ELSE IF c = 45 THEN [p EXCEPT !.mode = "dash", !.at = p.col] ELSE Start([p EXCEPT !.at = p.col], c)
    [] p.mode = "dash" -> IF c \in {10, 32} THEN (IF p.line = "item" THEN Dash(p) ELSE Bad(p, 21)) ELSE [p EXCEPT !.mode = "plain", !.buf = <<45, c>>]
    [] p.mode = "eol" -> IF c \in {10, 32} THEN p ELSE Bad(p, 22)
    [] p.mode = "flow" -> FlowChar(p, c)
    [] p.mode = "plain" ->
         IF c = 58 THEN [p EXCEPT !.mode = "colon"]
         ELSE IF c = 35 /\ p.buf[Len(p.buf)] = 32 THEN Bad(p, 23)
         ELSE IF c = 10 THEN (IF InFlow(p) THEN Bad(p, 24) ELSE Value(p, Plain(Trail(p.buf))))
         ELSE IF InFlow(p) /\ c \in {44, 93, 125} THEN FlowChar(FlowValue(p, Plain(Trail(p.buf))), c)
         ELSE IF ~Printable(c) \/ (InFlow(p) /\ c \in {91, 123}) THEN Bad(p, 25) ELSE [p EXCEPT !.buf = Append(@, c)]
    [] p.mode = "colon" -> IF c \in {10, 32} THEN AsKey(p, Plain(Trail(p.buf))) ELSE IF ~Printable(c) \/ InFlow(p) THEN Bad(p, 26) ELSE [p EXCEPT !.mode = "plain", !.buf = @ \o <<58, c>>]
    [] p.mode = "sq" -> IF c = 39 THEN [p EXCEPT !.mode = "sqq"] ELSE IF Printable(c) THEN [p EXCEPT !.buf = Append(@, c)] ELSE Bad(p, 27)
    [] p.mode = "dq" -> IF c = 34 THEN [p EXCEPT !.mode = "qend"] ELSE IF c = 92 THEN [p EXCEPT !.mode = "esc"]
                        ELSE IF Printable(c) THEN [p EXCEPT !.buf = Append(@, c)] ELSE Bad(p, 28)
    [] p.mode = "esc" -> IF c \in {120, 117, 85} THEN [p EXCEPT !.mode = "hex", !.esc = <<IF c = 120 THEN 2 ELSE IF c = 117 THEN 4 ELSE 8>>]
                         ELSE IF Esc(c) < 0 THEN Bad(p, 29) ELSE [p EXCEPT !.mode = "dq", !.buf = Append(@, Esc(c))]
    [] p.mode = "hex" -> IF Hex(c) < 0 THEN Bad(p, 30)
                         ELSE LET h == Append(p.esc, Hex(c)) IN
                              IF Len(h) <= h[1] THEN [p EXCEPT !.esc = h]
                              ELSE IF h[1] = 8 /\ (h[2] > 0 \/ h[3] > 0 \/ h[4] > 1) THEN Bad(p, 31)
                              ELSE [p EXCEPT !.mode = "dq", !.esc = S0, !.buf = Append(@, HexNum(Tail(h), 0))]
    [] p.mode \in {"qend", "sqq"} ->
         IF p.mode = "sqq" /\ c = 39 THEN [p EXCEPT !.mode = "sq", !.buf = Append(@, 39)]
         ELSE IF c = 58 THEN [p EXCEPT !.mode = "qcolon"] ELSE AfterScalar(p, Quoted(p), c)
    [] p.mode = "qcolon" -> IF c \in {10, 32} THEN AsKey(p, Quoted(p)) ELSE Bad(p, 32)
    \* spaces after a quoted scalar in a flow collection
    [] p.mode = "sep" -> IF c = 32 THEN p ELSE FlowChar(FlowValue(p, Quoted(p)), c)
    [] OTHER -> Bad(p, 33)
Char(p, c) ==
  LET q == Step(p, c) IN
  IF q.mode = "bad" THEN q
  ELSE IF c = 10 THEN [q EXCEPT !.col = 0, !.mode = "bol", !.line = "item", !.buf = S0] ELSE [q EXCEPT !.col = @ + 1]
ReadSome(p, s) == FoldLeft(Char, p, s)
Finish(p) == LET q == Char(p, 10) IN IF q.mode = "bad" THEN q ELSE IF q.st # S0 /\ InFlow(q) THEN Bad(q, 34) ELSE Unwind(Filled(q), -1)

\* ---- a writer
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexText(_, _)
HexText(n, k) == IF k = 0 THEN S0 ELSE HexText(n \div 16, k - 1) \o <<HexD(n % 16)>>
QuotedText(s) == <<34>> \o FlattenSeq([i \in 1..Len(s) |-> LET c == s[i] IN
  IF c \in {34, 92} THEN <<92, c>> ELSE IF Printable(c) THEN <<c>> ELSE IF c < 65536 THEN <<92, 117>> \o HexText(c, 4) ELSE <<92, 85>> \o HexText(c, 8)]) \o <<34>>
RECURSIVE DecText(_)
DecText(n) == IF n < 0 THEN <<45>> \o DecText(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
NumText(v) == (IF v[1] = 1 THEN <<45>> ELSE S0) \o
  (IF Len(v) = 2 THEN <<48>> ELSE SubSeq(v, 3, Len(v)) \o <<46, 48, 101>> \o (IF v[2] < 0 THEN S0 ELSE <<43>>) \o DecText(v[2]))
Spaces(n) == [i \in 1..n |-> 32]
\* the text of one call after the calls with meaning w, in block style; depth by open containers
Chunk(w, c) ==
  IF w.mute > 0 \/ (c.op # "end" /\ Repeated(w, c)) THEN S0
  ELSE IF c.op = "end" THEN (IF TopW(w).n > 0 THEN S0 ELSE IF TopW(w).t = "o" THEN <<32, 123, 125>> ELSE <<32, 91, 93>>)
  ELSE <<10>> \o Spaces(2 * (Len(w.st) - 1)) \o (IF TopW(w).t = "o" THEN QuotedText(c.key) \o <<58>> ELSE <<45>>) \o
       (CASE c.op \in {"obj", "arr"} -> S0 [] c.op \in {"str", "raw"} -> <<32>> \o QuotedText(c.val)
          [] c.op = "num" -> <<32>> \o NumText(c.val) [] OTHER -> <<32>> \o c.val)
=============================================================================
