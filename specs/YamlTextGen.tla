---------------------------- MODULE YamlTextGen ----------------------------
(* All lists of calls with up to conf.n values, written and read again. *)
EXTENDS YamlText, TLC, Json, IOUtils
VARIABLES cs, w, r, left
Conf == JsonDeserialize(IOEnv.CONF)
Vals == {[op |-> "obj", val |-> S0], [op |-> "arr", val |-> S0]} \cup {[op |-> v.op, val |-> v.val] : v \in Range(Conf.vals)}
Do(c) == /\ cs' = Append(cs, c) /\ w' = Call(w, c) /\ r' = ReadSome(r, Chunk(w, c))
Depth == Len(w.st) + w.mute
Keys == Range(Conf.keys)
InArray == w.mute = 0 /\ TopW(w).t = "a"
Fits(op, v, k) == left > 0 /\ Depth > 0 /\ v.op = op /\ (w.mute > 0 \/ TopW(w).t = "a" => k = Conf.keys[1])
Give(v, k) == left' = left - 1 /\ Do([op |-> v.op, key |-> k, val |-> v.val])
PutObject == \E v \in Vals, k \in Keys : Fits("obj", v, k) /\ Give(v, k)
\* the writers have no call that opens an array in an array
PutArray == \E v \in Vals, k \in Keys : Fits("arr", v, k) /\ ~InArray /\ Give(v, k)
PutString == \E v \in Vals, k \in Keys : Fits("raw", v, k) /\ Give(v, k)
PutNumber == \E v \in Vals, k \in Keys : Fits("num", v, k) /\ Give(v, k)
PutWord == \E v \in Vals, k \in Keys : Fits("lit", v, k) /\ Give(v, k)
Close1 == Depth > 0 /\ UNCHANGED left /\ Do([op |-> "end", key |-> S0, val |-> S0])
GenInit == cs = S0 /\ w = Open0 /\ r = Read0 /\ left = Conf.n
GenNext == PutObject \/ PutArray \/ PutString \/ PutNumber \/ PutWord \/ Close1
Finished == Depth = 0
AsStr(e) == IF e.t = "raw" THEN Ev("str", e.v) ELSE e
ReadBack == /\ r.mode # "bad"
            /\ Finished => LET f == Finish(r) IN f.mode # "bad" /\ f.ev = [i \in 1..Len(w.ev) |-> AsStr(w.ev[i])]
Emitted == Finished => PrintT("@@" \o ToJson([cs |-> cs, ev |-> w.ev]))
=============================================================================
