------------------------------- MODULE CliGen -------------------------------
(* Requests with up to conf.most options, given one after the other.          *)
EXTENDS Cli, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
VARIABLE given
Plain == [api |-> FALSE, t |-> "", o |-> "", p |-> <<>>, m |-> 0, w |-> "", d |-> FALSE, nc |-> FALSE, c |-> "", files |-> 1, name |-> 0]
N == Cardinality(given)
ToSet(s) == {s[i] : i \in 1..Len(s)}
GenInit == \E api \in BOOLEAN, lock \in {"", "user", "print"}, n \in ToSet(Conf.pages) :
  Begin([Plain EXCEPT !.api = api], [n |-> n, lock |-> lock]) /\ given = {}
Free(k) == "run" \notin given /\ N < Conf.most /\ k \notin given /\ at = 1 /\ end = "" /\ given' = given \union {k} /\ UNCHANGED <<doc, at, out, end>>
GiveType == \E v \in ToSet(Conf.types) : Free("t") /\ req' = [req EXCEPT !.t = v]
GiveOutput == \E v \in ToSet(Conf.outputs) : (v = "-" => ~req.api) /\ Free("o") /\ req' = [req EXCEPT !.o = v]
GivePages == \E v \in ToSet(Conf.selections) : Free("p") /\ req' = [req EXCEPT !.p = v]
GiveLimit == \E v \in ToSet(Conf.limits) : Free("m") /\ req' = [req EXCEPT !.m = v]
GivePassword == \E v \in {"right", "wrong"} : Free("w") /\ req' = [req EXCEPT !.w = v]
GiveDebug == Free("d") /\ req' = [req EXCEPT !.d = TRUE]
GiveNoCaching == Free("nc") /\ req' = [req EXCEPT !.nc = TRUE]
GiveCodec == \E v \in ToSet(Conf.codecs) : Free("c") /\ req' = [req EXCEPT !.c = v]
GiveFiles == ~req.api /\ Free("files") /\ req' = [req EXCEPT !.files = 2]
GiveName == \E v \in 1..Conf.names : req.api /\ Free("name") /\ req' = [req EXCEPT !.name = v]
Go == ~Unclear(req) /\ "run" \notin given /\ given' = {"run"} /\ UNCHANGED vars
Run == given = {"run"} /\ Work /\ UNCHANGED given
GenNext == GiveType \/ GiveOutput \/ GivePages \/ GiveLimit \/ GivePassword \/ GiveDebug \/ GiveNoCaching \/ GiveCodec \/ GiveFiles \/ GiveName
           \/ Go \/ Run
GenSpec == GenInit /\ [][GenNext]_<<vars, given>> /\ WF_<<vars, given>>(Run)
GenEnds == ("run" \in given) ~> Ended
Emitted == Ended => PrintT("@@" \o ToJson([req |-> req, doc |-> doc, want |-> Result, why |-> end, untouched |-> Untouched]))
=============================================================================
