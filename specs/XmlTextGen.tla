----------------------------- MODULE XmlTextGen -----------------------------
(* All lists of calls with up to conf.n elements and texts, written and read again. *)
EXTENDS XmlText, TLC, Json, IOUtils
VARIABLES fmt, ascii, cs, w, r, tags, left
Conf == JsonDeserialize(IOEnv.CONF)
Attrs == {S0} \cup {<<<<Conf.tag, v>>>> : v \in Range(Conf.vals)}
C1(op, tag, a, css, x, v) == [op |-> op, tag |-> tag, attrs |-> a, css |-> css, exact |-> x, val |-> v]
Prolog == IF fmt = "xml" THEN <<60, 63, 120, 109, 108, 32>> \o VersionPart \o <<32>> \o EncodingPart(<<120>>) \o <<32, 63, 62>> ELSE S0
Do(c) == /\ cs' = Append(cs, c) /\ w' = Call(fmt, w, c) /\ r' = ReadSome(r, Chunk(fmt, tags, w, c, ascii)) /\ UNCHANGED <<fmt, ascii>>
Inside == tags # S0
Room == left > 0 /\ (Inside \/ (cs = S0 \/ fmt = "html"))
NotExact == ~Last1(w.st)
OpenElm == Room /\ NotExact /\ \E a \in Attrs, x \in BOOLEAN : left' = left - 1 /\ Do(C1("open", Conf.tag, a, S0, x, S0)) /\ tags' = Append(tags, Conf.tag)
OpenStyled == Room /\ NotExact /\ fmt = "html" /\ \E v \in Range(Conf.vals) :
  left' = left - 1 /\ Do(C1("open", Conf.tag, S0, <<<<Conf.tag, v>>, <<<<99>>, <<48>>>>>>, FALSE, S0)) /\ tags' = Append(tags, Conf.tag)
Single == Room /\ NotExact /\ Inside /\ \E a \in Attrs : left' = left - 1 /\ Do(C1("single", Conf.tag, a, S0, FALSE, S0)) /\ UNCHANGED tags
Text == Room /\ Inside /\ \E v \in Range(Conf.texts) : left' = left - 1 /\ Do(C1("text", S0, S0, S0, FALSE, v)) /\ UNCHANGED tags
Close1 == Inside /\ UNCHANGED left /\ Do(C1("end", S0, S0, S0, FALSE, S0)) /\ tags' = Pop(tags)
GenInit == fmt \in {"xml", "html"} /\ ascii \in BOOLEAN /\ cs = S0 /\ w = Open0 /\ tags = S0 /\ left = Conf.n /\ r = ReadSome(Read0(fmt), Prolog)
GenNext == OpenElm \/ OpenStyled \/ Single \/ Text \/ Close1
Finished == tags = S0 /\ cs # S0
Expected == Flush(w).ev
ReadBack == /\ r.mode # "bad"
            /\ Finished => LET f == Finish(r).ev IN Complete(Finish(r), <<120>>) /\ Len(f) = Len(Expected) /\ \A i \in 1..Len(f) : SameEv(Expected[i], f[i])
\* the text of no element gets lost
EventsBalanced == Cardinality({i \in 1..Len(w.ev) : w.ev[i].t = "<"}) - Cardinality({i \in 1..Len(w.ev) : w.ev[i].t = ">"}) = Len(tags)
Emitted == Finished /\ ~ascii => PrintT("@@" \o ToJson([fmt |-> fmt, cs |-> cs]))
=============================================================================
