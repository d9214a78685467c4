------------------------------ MODULE InterpGen ------------------------------
(***************************************************************************)
(* Enumerates (or, under -simulate, samples) page programs built from the  *)
(* statement alphabet of a configuration and computes what they must yield.*)
(* A statement is a short sequence of operators, e.g. a whole path.        *)
(***************************************************************************)
EXTENDS Interp, Json, IOUtils

\* [pages |-> <<worlds without a main program>>, stmts |-> << <<op, ...>>, ...>>, min, max]
Conf == JsonDeserialize(IOEnv.CONF)
GenWorld(t) == [Conf.pages[t.pg] EXCEPT !.progs = << FlattenSeq([i \in 1..Len(t.hist) |-> Conf.stmts[t.hist[i]]]) >> \o Tail(@)]

GenInit == \E p \in 1..Len(Conf.pages) :
             /\ tag = [pg |-> p, hist |-> << >>]
             /\ M = Machine(Conf.pages[p], TRUE)

\* the program grows while the machine runs: appending is only possible when
\* the outermost program is exhausted
AppendStmt == /\ Done(M) /\ M.err = None /\ Len(tag.hist) < Conf.max
              /\ IF tag.hist = << >> THEN TRUE ELSE Last(tag.hist) \notin Range(Conf.stop)
              /\ \E s \in IF tag.hist = << >> THEN Range(Conf.first) ELSE 1..Len(Conf.stmts) : tag' = [tag EXCEPT !.hist = Append(@, s)]
              /\ UNCHANGED M
GenNext == AppendStmt \/ InterpNext

Emit == (Done(M) /\ Len(tag.hist) >= Conf.min /\ Last(tag.hist) \in Range(Conf.last)) =>
           PrintT("@@" \o ToJson([pg |-> tag.pg, hist |-> tag.hist, err |-> M.err, out |-> M.fr[1].out]))
=============================================================================
