---------------------------- MODULE JsonTextGen ----------------------------
(* All lists of calls with up to conf.n values, written and read again. *)
EXTENDS JsonText, TLC, Json, IOUtils
VARIABLES tag, cs, w, r, left
Conf == JsonDeserialize(IOEnv.CONF)
Vals == {[op |-> "obj", val |-> S0], [op |-> "arr", val |-> S0]} \cup {[op |-> v.op, val |-> v.val] : v \in Range(Conf.vals)}
Do(c) == /\ cs' = Append(cs, c) /\ w' = Call(w, c) /\ r' = ReadSome(r, Chunk(w, c, tag)) /\ UNCHANGED tag
Depth == Len(w.st) + w.mute
Keys == Range(Conf.keys)
Fits(op, v, k) == left > 0 /\ Depth > 0 /\ v.op = op /\ (w.mute > 0 \/ TopW(w).t = "a" => k = Conf.keys[1])
Give(v, k) == left' = left - 1 /\ Do([op |-> v.op, key |-> k, val |-> v.val])
PutObject == \E v \in Vals, k \in Keys : Fits("obj", v, k) /\ Give(v, k)
PutArray == \E v \in Vals, k \in Keys : Fits("arr", v, k) /\ Give(v, k)
PutString == \E v \in Vals, k \in Keys : Fits("str", v, k) /\ Give(v, k)
PutNumber == \E v \in Vals, k \in Keys : Fits("num", v, k) /\ Give(v, k)
PutWord == \E v \in Vals, k \in Keys : Fits("lit", v, k) /\ Give(v, k)
Close1 == Depth > 0 /\ UNCHANGED left /\ Do([op |-> "end", key |-> S0, val |-> S0])
GenInit == tag \in BOOLEAN /\ cs = S0 /\ w = Open0 /\ r = ReadSome(Read0, <<123>>) /\ left = Conf.n
GenNext == PutObject \/ PutArray \/ PutString \/ PutNumber \/ PutWord \/ Close1
Finished == Depth = 0
ReadBack == /\ r.mode # "bad"
            /\ Finished => r.mode = "done" /\ r.ev = w.ev
Emitted == Finished /\ ~tag => PrintT("@@" \o ToJson([cs |-> cs, ev |-> w.ev]))
=============================================================================
