------------------------------- MODULE LexerGen -------------------------------
(* All inputs over an alphabet of bytes up to a length, with their tokens.    *)
EXTENDS Lexer, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
VARIABLES hist
Alphabet == {Conf.bytes[i] : i \in 1..Len(Conf.bytes)}
GenInit == hist = <<>> /\ L = LInit0
GenNext == /\ Len(hist) < Conf.max
           /\ \E c \in Alphabet : Read(c) /\ L'.mode # "unspec" /\ hist' = Append(hist, c)
Emitted == LET e == AtEnd(L) IN
           (hist # <<>> /\ e.mode # "unspec") => PrintT("@@" \o ToJson([h |-> hist, out |-> e.out]))
=============================================================================
