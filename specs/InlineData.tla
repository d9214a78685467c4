----------------------------- MODULE InlineData -----------------------------
(* Where the data of an inline image ends.  After ID and one white space the  *)
(* bytes are read one by one; EI between white space ends the data, and one   *)
(* line end before it is not data.  Inputs on which the end is a matter of    *)
(* taste (EI glued to the data, a blank instead of a line end) are "unspec".  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
VARIABLES h, st       \* bytes after "ID ", and the scanner: [mode, data]
White == {0, 9, 10, 12, 13, 32}
Eol == {10, 13}
E == 69   I == 73
Alphabet == {Conf.bytes[i] : i \in 1..Len(Conf.bytes)}
\* the mode says what the last bytes were: "start", "ws" (white space just read), "E" (an E after white space or at the
\* start), "EI", "in" (anything else), "in-E", "in-EI" (glued); "done" when the end is found
Init == h = <<>> /\ st = [mode |-> "start"]
Front(s, n) == SubSeq(s, 1, Len(s) - n)
StripEol(s) == IF s = <<>> THEN s
               ELSE IF Len(s) >= 2 /\ s[Len(s)] = 10 /\ s[Len(s) - 1] = 13 THEN Front(s, 2)
               ELSE IF s[Len(s)] \in Eol THEN Front(s, 1) ELSE s
Step(m, c) ==
  CASE m \in {"start", "ws"} -> IF c = E THEN "E" ELSE IF c \in White THEN "ws" ELSE "in"
    [] m = "E" -> IF c = I THEN "EI" ELSE IF c = E THEN "in-E" ELSE IF c \in White THEN "ws" ELSE "in"
    [] m = "EI" -> IF c \in White THEN "done" ELSE IF c = E THEN "in-E" ELSE "in"
    [] m = "in" -> IF c = E THEN "in-E" ELSE IF c \in White THEN "ws" ELSE "in"
    [] m = "in-E" -> IF c = I THEN "in-EI" ELSE IF c = E THEN "in-E" ELSE IF c \in White THEN "ws" ELSE "in"
    [] m = "in-EI" -> IF c \in White THEN "unspec" ELSE IF c = E THEN "in-E" ELSE "in"
    [] OTHER -> m
Data == StripEol(Front(h, 3))
\* after a done run the byte before EI must be a line end (or there is none)
Sure == LET s == Front(h, 3) IN s = <<>> \/ s[Len(s)] \in Eol
Scan == /\ st.mode \notin {"done", "unspec"} /\ Len(h) < Conf.max
        /\ \E c \in Alphabet : h' = Append(h, c) /\ st' = [mode |-> Step(st.mode, c)]
Next == Scan
\* the data if other data, ending with a line, came before
After == StripEol(<<120, 10>> \o Front(h, 3))
Emitted == st.mode = "done" /\ Sure => PrintT("@@" \o ToJson([h |-> h, data |-> Data, after |-> After]))
\* the data never contains EI between white space
NoInnerEnd == st.mode = "done" =>
  \A i \in 1..Len(h) - 4 : ~(h[i] = E /\ h[i + 1] = I /\ h[i + 2] \in White /\ (i = 1 \/ h[i - 1] \in White))
=============================================================================
