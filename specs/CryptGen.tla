----------------------------- MODULE CryptGen -----------------------------
(* Every scheme, password pair and attempt over conf.pws; and every short   *)
(* history of reads.  tag = [s, u, w, a, p, c, m, k, h].                    *)
EXTENDS Crypt, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
Objs == <<[k |-> "plain", at |-> 0], [k |-> "stream", at |-> 0], [k |-> "cont", at |-> 0], [k |-> "member", at |-> 3],
          [k |-> "meta", at |-> 0], [k |-> "xref", at |-> 0]>>
Ops == {[op |-> "get", o |-> o] : o \in 1..6} \cup {[op |-> "data", o |-> o] : o \in {2, 3, 5, 6}}
GDoc(t) == [s |-> t.s, user |-> Conf.pws[t.u], owner |-> Conf.pws[t.w], pw |-> Conf.pws[t.a], perm |-> t.p, check |-> t.c,
            meta |-> t.m, caching |-> t.k, objs |-> Objs, script |-> t.h]
PW == 1..Len(Conf.pws)
Schemes == {"R2", "R3", "V2", "AESV2", "Identity", "AESV3", "bad"}
\* the documents one can write: old passwords are latin
Fits(s, i) == s = "AESV3" \/ Latin(Conf.pws[i])
InitOpen == \E s \in Schemes, u, w, a \in PW, p, c \in BOOLEAN :
  /\ Fits(s, u) /\ Fits(s, w)
  /\ tag = [s |-> s, u |-> u, w |-> w, a |-> a, p |-> p, c |-> c, m |-> TRUE, k |-> TRUE, h |-> <<>>]
InitRead == \E s \in Schemes \ {"bad"}, k, me \in BOOLEAN, h \in SeqOf(Ops, Conf.n) :
  /\ Len(h) = Conf.n /\ (s \in {"R2", "R3"} => me)
  /\ tag = [s |-> s, u |-> 1, w |-> 2, a |-> IF h[1].op = "get" THEN 1 ELSE 2, p |-> TRUE, c |-> FALSE, m |-> me, k |-> k, h |-> h]
GenInit == (IF Conf.n = 0 THEN InitOpen ELSE InitRead) /\ m = Start(Doc(tag))
GenNext == CryptNext
Emitted == Done(m) => PrintT("@@" \o ToJson([t |-> tag, ph |-> m.ph, got |-> m.got]))
=============================================================================
