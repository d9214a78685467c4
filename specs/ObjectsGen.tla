------------------------------ MODULE ObjectsGen ------------------------------
(* All token sequences over an alphabet, with the objects they make.          *)
EXTENDS Objects, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
VARIABLE hist
GenInit == hist = <<>> /\ O = OInit0
GenNext == /\ Len(hist) < Conf.max
           /\ \E i \in 1..Len(Conf.toks) :
                /\ Take([Conf.toks[i] EXCEPT !.p = Len(hist)]) /\ O'.mode = "ok" /\ hist' = Append(hist, i)
Emitted == hist # <<>> => PrintT("@@" \o ToJson([h |-> hist, out |-> O.out]))
=============================================================================
