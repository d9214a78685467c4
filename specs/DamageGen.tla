----------------------------- MODULE DamageGen -----------------------------
(* Every base document with one or two objects lost or references redirected. *)
EXTENDS Damage, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
\* a modification: [o, what, to]: object o gets status `what`, or its reference `what` leads to object `to`
N(b) == Len(Conf.bases[b].objs)
Lossy(b, o) == LET x == Conf.bases[b].objs[o] IN
  IF x.up # 0 THEN {"gone", "other"} ELSE {"gone", "other", "bad", "moved"}
Mods(b) == {[o |-> o, what |-> s, i |-> 0, to |-> 0] : o \in 1..N(b), s \in {"gone", "bad", "other", "moved"}}
  \cup {[o |-> o, what |-> s, i |-> 0, to |-> t] : o \in 1..N(b), s \in {"res", "font", "form"}, t \in 0..(N(b) + 1)}
  \cup UNION {{[o |-> o, what |-> "kid", i |-> i, to |-> t] : i \in 1..Len(Conf.bases[b].objs[o].kids), t \in 1..(N(b) + 1)} : o \in 1..N(b)}
  \cup {[o |-> 0, what |-> "root", i |-> 0, to |-> t] : t \in 1..N(b)}
Sense(b, m) ==
  IF m.o = 0 THEN Conf.bases[b].objs[m.to].k # "objstm"
  ELSE LET x == Conf.bases[b].objs[m.o] IN
    CASE m.to \in 1..N(b) /\ Conf.bases[b].objs[m.to].k = "objstm" -> FALSE
      [] m.what \in {"gone", "bad", "other", "moved"} -> m.what \in Lossy(b, m.o)
      [] m.what = "res" -> x.k \in {"pages", "page", "form"}
      [] m.what \in {"font", "form"} -> x.k = "res"
      [] OTHER -> x.k # "catalog" \/ m.to # 0
Apply(d, m) ==
  CASE m.what = "none" -> d
    [] m.what = "root" -> [d EXCEPT !.root = m.to]
    [] m.what \in {"gone", "bad", "other", "moved"} -> [d EXCEPT !.objs[m.o].st = m.what]
    [] m.what = "res" -> [d EXCEPT !.objs[m.o].res = m.to]
    [] m.what = "font" -> [d EXCEPT !.objs[m.o].font = m.to]
    [] m.what = "form" -> [d EXCEPT !.objs[m.o].form = m.to]
    [] OTHER -> [d EXCEPT !.objs[m.o].kids[m.i] = m.to]
None == [o |-> 0, what |-> "none", i |-> 0, to |-> 0]
Hash(m) == m.o * 7 + m.i * 3 + m.to * 5 + Len(m.what)
GDoc(t) == Apply(Apply(Conf.bases[t.b], t.m1), t.m2)
GenInit == /\ \E b \in 1..Len(Conf.bases) : \E m1 \in {m \in Mods(b) : Sense(b, m)} \cup {None} :
                \E m2 \in (IF Conf.pairs = 0 THEN {} ELSE {m \in Mods(b) : Sense(b, m) /\ (Hash(m1) * 11 + Hash(m)) % Conf.pairs = Conf.pick}) \cup {None} :
                  tag = [b |-> b, m1 |-> m1, m2 |-> m2]
           /\ w = Start
GenNext == Next0
GenSpec == GenInit /\ [][GenNext]_<<w, tag>> /\ WF_<<w, tag>>(GenNext)
Emitted == Done(w) => PrintT("@@" \o ToJson([d |-> D, out |-> w.out, err |-> w.err, loose |-> w.loose]))
=============================================================================
