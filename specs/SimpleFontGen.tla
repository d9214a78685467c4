--------------------------- MODULE SimpleFontGen ---------------------------
(* Fonts put together from a few parts, with what every code then means.     *)
EXTENDS SimpleFont, FiniteSets, SequencesExt
VARIABLES f, p, ph
Conf == JsonDeserialize(IOEnv.CONF)
Bases == ToSet(Conf.bases)
Diffs == ToSet(Conf.diffs)
Entries == ToSet(Conf.entries)
Tables == ToSet(Conf.tables)
GenInit == \E b \in Bases, t \in Tables :
  /\ f = [base |-> b, diffs |-> << >>, bf |-> << >>, first |-> t.first, widths |-> t.widths, haswidths |-> t.haswidths, missing |-> t.missing, std |-> t.std, scale |-> 1]
  /\ p = Part0(f) /\ ph = "encoding"
Difference == /\ ph = "encoding" /\ Len(f.diffs) < Conf.n
              /\ \E d \in Diffs : f' = [f EXCEPT !.diffs = Append(@, d)] /\ p' = AddDifference(p, d)
              /\ UNCHANGED ph
Encoded == ph = "encoding" /\ ph' = "map" /\ UNCHANGED <<f, p>>
Mapping == /\ ph = "map" /\ Len(f.bf) < Conf.m
           /\ \E e \in Entries : f' = [f EXCEPT !.bf = Append(@, e)] /\ p' = AddMapping(p, e)
           /\ UNCHANGED ph
Complete == ph = "map" /\ ph' = "done" /\ UNCHANGED <<f, p>>
GenNext == Difference \/ Encoded \/ Mapping \/ Complete
\* ---- what must hold of any font
RECURSIVE Position(_, _)
Position(ds, i) == IF i = 0 THEN 0 ELSE IF ds[i].k = "at" THEN ds[i].n ELSE Position(ds, i - 1) + 1
\* the last understood name given to a code counts, the base encoding otherwise
Encodes == \A c \in ToSet(Conf.codes) :
  LET at == {i \in 1..Len(f.diffs) : f.diffs[i].k = "name" /\ Position(f.diffs, i - 1) = c /\ NameChars(f.diffs[i].cs) # None} IN
  p.enc[c + 1] = (IF at = {} THEN <<BaseEncoding(f.base)[c + 1]>> ELSE NameChars(f.diffs[CHOOSE i \in at : \A j \in at : j <= i].cs))
Functional == \A a, b \in p.bf : a[1] = b[1] => a = b
Emitted == ph = "done" => PrintT("@@" \o ToJson([f |-> f]))
=============================================================================
