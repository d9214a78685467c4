--------------------------- MODULE LookupTrace ---------------------------
(* Sequences of lookups recorded from the real code. *)
EXTENDS Lookup, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE t
Cur == Cases[t.id]
TraceInit == t \in {[id |-> i, j |-> 1, clause |-> ""] : i \in 1..Len(Cases)}
Want(c, x) == IF x.op = "get" THEN Mean(c.doc, x.o) ELSE Final(c.doc, x.o)
Clause(c, x) == IF x.exc # "none" THEN x.op \o " fails with " \o x.exc
                ELSE IF x.v = Want(c, x) THEN ""
                ELSE IF x.v = NotFound THEN x.op \o ": object is not found"
                ELSE IF Want(c, x) = NotFound THEN x.op \o ": found what is not there"
                ELSE x.op \o ": wrong object"
Get(c) == /\ t.clause = "" /\ t.j <= Len(c.obs) /\ c.obs[t.j].op = "get"
          /\ t' = [t EXCEPT !.clause = Clause(c, c.obs[t.j]), !.j = @ + 1]
Resolve(c) == /\ t.clause = "" /\ t.j <= Len(c.obs) /\ c.obs[t.j].op = "resolve"
              /\ t' = [t EXCEPT !.clause = Clause(c, c.obs[t.j]), !.j = @ + 1]
TraceNext == Get(Cur) \/ Resolve(Cur)
TraceVerdict == (t.clause # "" \/ t.j > Len(Cur.obs)) => PrintT("@@" \o ToJson([id |-> t.id, clause |-> t.clause]))
\* what the harness assumed about the streams of the document (whose Length it may rely on)
AgreedUsable == t.j = 1 => \A o \in 1..Len(Cur.doc) : Cur.doc[o].k = "str" => Cur.usable[o] = LenUsable(Cur.doc, o)
=============================================================================
