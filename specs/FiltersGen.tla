----------------------------- MODULE FiltersGen -----------------------------
(* Every encoded string of the jobs of conf, decoded; then the result is   *)
(* encoded in the plainest way and decoded again: it must come back.       *)
EXTENDS Filters, TLC, Json, IOUtils, FiniteSets
VARIABLE g    \* [turn, data, want]
Conf == JsonDeserialize(IOEnv.CONF)
Job(t) == Conf.jobs[t.j]
GCase(t) == [data |-> t.data, stages |-> <<Job(t).stage>>]

RECURSIVE PackBits(_)
PackBits(bits) == IF bits = <<>> THEN <<>>
  ELSE LET B(k) == IF k <= Len(bits) THEN bits[k] ELSE 0 IN
       <<B(1) * 128 + B(2) * 64 + B(3) * 32 + B(4) * 16 + B(5) * 8 + B(6) * 4 + B(7) * 2 + B(8)>> \o PackBits(SubSeq(bits, 9, Len(bits)))
Pack9(codes) == PackBits(FlattenSeq([k \in 1..Len(codes) |-> [j \in 1..9 |-> (codes[k] \div (2 ^ (9 - j))) % 2]]))
\* ---- the plainest encoders
HexEnc(x) == FlattenSeq([k \in 1..Len(x) |-> LET H(v) == IF v < 10 THEN 48 + v ELSE 55 + v IN <<H(x[k] \div 16), H(x[k] % 16)>>]) \o <<62>>
DivMod85(b) ==
  LET r1 == b[1] v2 == (r1 % 85) * 256 + b[2] v3 == (v2 % 85) * 256 + b[3] v4 == (v3 % 85) * 256 + b[4]
  IN [q |-> <<r1 \div 85, v2 \div 85, v3 \div 85, v4 \div 85>>, r |-> v4 % 85]
RECURSIVE Digits85(_, _)
Digits85(b, k) == IF k = 0 THEN <<>> ELSE LET d == DivMod85(b) IN Append(Digits85(d.q, k - 1), d.r + 33)
RECURSIVE A85Enc(_)
A85Enc(x) == IF x = <<>> THEN <<126, 62>>
  ELSE IF Len(x) >= 4 THEN Digits85(SubSeq(x, 1, 4), 5) \o A85Enc(SubSeq(x, 5, Len(x)))
  ELSE SubSeq(Digits85(x \o [k \in 1..(4 - Len(x)) |-> 0], 5), 1, Len(x) + 1) \o <<126, 62>>
RECURSIVE RlEnc(_)
RlEnc(x) == IF x = <<>> THEN <<128>> ELSE LET n == IF Len(x) > 128 THEN 128 ELSE Len(x) IN <<n - 1>> \o SubSeq(x, 1, n) \o RlEnc(SubSeq(x, n + 1, Len(x)))
LzwEnc(x) == Pack9(<<256>> \o x \o <<257>>)
\* PNG rows, types in turn: an independent inverse over the whole bitmap
PngEnc(x) ==
  LET st == Job(tag).stage
      rl == (st.colors * st.cols * st.bpc + 7) \div 8
      bpp == IF (st.colors * st.bpc) \div 8 > 1 THEN (st.colors * st.bpc) \div 8 ELSE 1
      At(r, k) == IF r < 1 \/ k < 1 THEN 0 ELSE x[(r - 1) * rl + k]
      Enc(r, k) == (x[(r - 1) * rl + k] + 256 - Pb(r % 5, At(r, k - bpp), At(r - 1, k), At(r - 1, k - bpp))) % 256
  IN RlEnc(FlattenSeq([r \in 1..(Len(x) \div rl) |-> <<r % 5>> \o [k \in 1..rl |-> Enc(r, k)]]))
Encode(x) == CASE Job(tag).kind = "png" -> PngEnc(x)
               [] Job(tag).stage.f = "hex" -> HexEnc(x) [] Job(tag).stage.f = "a85" -> A85Enc(x)
               [] Job(tag).stage.f = "rl" -> RlEnc(x) [] OTHER -> LzwEnc(x)

Data(t, s) == CASE Job(t).kind = "raw" -> s [] Job(t).kind = "lzw" -> Pack9(s) [] OTHER -> <<Len(s) - 1>> \o s
GenInit == /\ \E j \in 1..Len(Conf.jobs) : \E n \in Conf.jobs[j].min..Conf.jobs[j].max : \E s \in [1..n -> Range(Conf.jobs[j].alphabet)] :
                /\ (Conf.jobs[j].head = <<>> \/ \E k \in 1..Len(Conf.jobs[j].head) : s[1] = Conf.jobs[j].head[k])
                /\ tag = [j |-> j, data |-> Data([j |-> j], s)]
           /\ g = [turn |-> 1, data |-> tag.data, want |-> <<>>]
           /\ z = Start(0)
Again == /\ g.turn = 1 /\ Done /\ z' = Start(0) /\ g' = [g EXCEPT !.turn = 2, !.want = Result] /\ tag' = [tag EXCEPT !.data = Encode(Result)]
GenNext == (Next /\ UNCHANGED g) \/ Again
ComesBack == (g.turn = 2 => ~z.bad) /\ (g.turn = 2 /\ Done => Result = g.want)
Emitted == (g.turn = 1 /\ Done) => PrintT("@@" \o ToJson([j |-> tag.j, data |-> g.data, out |-> Result]))
=============================================================================
