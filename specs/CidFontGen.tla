----------------------------- MODULE CidFontGen -----------------------------
(* CMaps with the strings they cut, and width arrays, put together from a    *)
(* few parts.                                                                *)
EXTENDS CidFont, TLC, Json, IOUtils
VARIABLES es, m, s, q, ws, ld, ph
Conf == JsonDeserialize(IOEnv.CONF)
Entries == ToSet(Conf.entries)
Bytes == ToSet(Conf.bytes)
Items == ToSet(Conf.items)
K == Conf.k
vars == <<es, m, s, q, ws, ld, ph>>
Table == [kind |-> "table", wmode |-> 0, entries |-> << >>]
Cm == IF Conf.identity THEN [Table EXCEPT !.kind = "identity"] ELSE Table
GenInit == es = << >> /\ m = {} /\ s = << >> /\ q = Scan0 /\ ws = << >> /\ ld = Load0 /\ ph = "cmap"
Coding == /\ ph = "cmap" /\ Len(es) < Conf.n
          /\ \E e \in Entries : es' = Append(es, e) /\ m' = AddCode(m, e)
          /\ UNCHANGED <<s, q, ws, ld, ph>>
Coded == ph = "cmap" /\ ph' = "string" /\ UNCHANGED <<es, m, s, q, ws, ld>>
Cutting == /\ ph = "string" /\ Len(s) < Conf.len /\ ~q.silent
           /\ \E b \in Bytes : s' = Append(s, b) /\ q' = Scan(Cm, m, q, b)
           /\ UNCHANGED <<es, m, ws, ld, ph>>
Cut == ph = "string" /\ ~q.silent /\ ph' = "metrics" /\ UNCHANGED <<es, m, s, q, ws, ld>>
Measuring == /\ ph = "metrics" /\ Len(ws) < Conf.items_n
             /\ \E i \in Items : ws' = Append(ws, i) /\ ld' = Load(ld, i, K)
             /\ UNCHANGED <<es, m, s, q, ph>>
Measured == ph = "metrics" /\ ph' = "done" /\ UNCHANGED <<es, m, s, q, ws, ld>>
GenNext == Coding \/ Coded \/ Cutting \/ Cut \/ Measuring \/ Measured
\* ---- what must hold
Coder(c) == IF Conf.identity THEN <<c \div 256, c % 256>> ELSE (CHOOSE p \in m : p[2] = c)[1]
\* the codes of the CIDs found, and the bytes left, are the string
Cuts == ~q.silent /\ (Conf.identity \/ \A a, b \in m : a[2] = b[2] => a = b) => FlattenSeq([i \in 1..Len(q.out) |-> Coder(q.out[i].cid)]) \o q.buf = s
Numbered == \A i \in 1..Len(q.out) : Conf.identity => q.out[i].code = q.out[i].cid
\* no code starts another one (the entries are chosen so), so codes are found one by one
PrefixFree == \A a, b \in m : ~Starts(a[1], b[1])
\* a CID has at most one width, and numbers that wait are fewer than an entry has
Single == Len(ld.nums) < 2 + K /\ \A a, b \in ld.t : a[1] = b[1] => a = b
Grouped == \A a \in ld.t : Len(a[2]) = K
Emitted == ph = "done" => PrintT("@@" \o ToJson([es |-> es, s |-> s, ws |-> ws]))
=============================================================================
