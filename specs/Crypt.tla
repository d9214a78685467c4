------------------------------- MODULE Crypt -------------------------------
(* Opening an encrypted document and reading its objects.                   *)
(*                                                                          *)
(* Cryptography is symbolic: a key is the (padded or encoded) password it   *)
(* was derived from, a piece of the file is the stack of layers wrapped     *)
(* around its plain content, and taking off a layer with another key than   *)
(* the one it was put on with only adds another layer of garbage.           *)
(*                                                                          *)
(* A document is [s, user, owner, perm, meta, objs]:                        *)
(*   s      "R2" "R3" RC4, "V2" "AESV2" "Identity" the crypt filters,       *)
(*          "AESV3" AES-256, "bad" a scheme that is not supported           *)
(*   user, owner  the passwords, as code points;  perm  extraction allowed  *)
(*   meta   metadata streams are encrypted too                              *)
(*   objs   [k, at]: k "plain" an object with strings, "stream" a stream    *)
(*          with strings in its dictionary, "meta" a metadata stream,       *)
(*          "xref" a cross-reference stream, "cont" an object stream,       *)
(*          "member" an object in the object stream `at'                    *)
(* and an attempt at it [pw, check, caching, script]: the password given,   *)
(* whether the caller asked for the permission check, and the objects and   *)
(* stream contents it then reads ([op, o], op "get" or "data").             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANT Doc(_)
VARIABLES tag, m
D == Doc(tag)

Padding == <<40, 191, 78, 94, 78, 117, 138, 65, 100, 0, 78, 86, 255, 250, 1, 8,
             46, 46, 0, 182, 208, 104, 62, 128, 47, 12, 169, 254, 100, 83, 105, 122>>
Pad(pw) == SubSeq(pw \o Padding, 1, 32)
Latin(pw) == \A i \in 1..Len(pw) : pw[i] < 256
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encoded(pw) == LET b == FlattenSeq([i \in 1..Len(pw) |-> Utf8(pw[i])]) IN SubSeq(b, 1, IF Len(b) < 127 THEN Len(b) ELSE 127)

\* ---- what the writer put into the file
Old(d) == d.s # "AESV3"
Garbage == <<-1>>
\* the owner entry: the user password, under a key from the owner password (the user password if there is none)
OwnerPw(d) == IF d.owner = <<>> THEN d.user ELSE d.owner
OwnerKey(d) == Pad(OwnerPw(d))
UserKey(d) == Pad(d.user)
FileKey(d) == IF Old(d) THEN UserKey(d) ELSE <<0>>          \* AES-256: a random key
UnderOwner(d, k) == IF k = OwnerKey(d) THEN UserKey(d) ELSE Garbage
Layer(d, o) == [key |-> FileKey(d), o |-> IF Old(d) THEN o ELSE 0]
Encrypts(d) == d.s # "Identity"
StrLayers(d, o) == IF Encrypts(d) /\ d.objs[o].k \notin {"member", "xref"} THEN <<Layer(d, o)>> ELSE <<>>
IsStream(d, o) == d.objs[o].k \in {"stream", "meta", "xref", "cont"}
DataLayers(d, o) == IF ~IsStream(d, o) \/ ~Encrypts(d) \/ d.objs[o].k = "xref" \/ (d.objs[o].k = "meta" /\ ~d.meta)
                    THEN <<>> ELSE <<Layer(d, o)>>

\* ---- what should come of it
RightPassword(d) == IF Old(d) THEN Latin(d.pw) /\ Pad(d.pw) \in {UserKey(d), OwnerKey(d)}
                    ELSE Encoded(d.pw) \in {Encoded(d.user), Encoded(OwnerPw(d))}
Outcome(d) == IF d.s = "bad" THEN "unsupported" ELSE IF ~RightPassword(d) THEN "refused"
              ELSE IF d.check /\ ~d.perm THEN "denied" ELSE "open"

\* ---- the reader
\* mem[o]: what it holds of object o: [str, dat] layers left, in "no" not read
NotRead == [st |-> "no", str |-> <<>>, dat |-> <<>>]
Start(d) == [ph |-> "auth", cand |-> <<>>, key |-> <<>>, mem |-> [o \in 1..Len(d.objs) |-> NotRead], pc |-> 1, got |-> <<>>]
Strip(layers, l) == IF layers # <<>> /\ Head(layers) = l THEN Tail(layers) ELSE <<l>> \o layers

Unsupported == m.ph = "auth" /\ D.s = "bad" /\ m' = [m EXCEPT !.ph = "unsupported"] /\ UNCHANGED tag
\* the password as bytes
Encode == /\ m.ph = "auth" /\ D.s # "bad"
          /\ m' = IF Old(D) THEN IF Latin(D.pw) THEN [m EXCEPT !.ph = "user", !.cand = Pad(D.pw)] ELSE [m EXCEPT !.ph = "refused"]
                  ELSE [m EXCEPT !.ph = "hash", !.cand = Encoded(D.pw)]
          /\ UNCHANGED tag
\* is it the user password
TryUser == /\ m.ph = "user"
           /\ m' = IF m.cand = UserKey(D) THEN [m EXCEPT !.ph = "in", !.key = m.cand] ELSE [m EXCEPT !.ph = "owner"]
           /\ UNCHANGED tag
\* is it the owner password: does it uncover the user password
TryOwner == /\ m.ph = "owner"
            /\ m' = LET u == UnderOwner(D, m.cand) IN
                    IF u = UserKey(D) THEN [m EXCEPT !.ph = "in", !.key = u] ELSE [m EXCEPT !.ph = "refused"]
            /\ UNCHANGED tag
TryHash == /\ m.ph = "hash"
           /\ m' = IF m.cand = Encoded(OwnerPw(D)) \/ m.cand = Encoded(D.user) THEN [m EXCEPT !.ph = "in", !.key = <<0>>]
                   ELSE [m EXCEPT !.ph = "refused"]
           /\ UNCHANGED tag
Permit == /\ m.ph = "in"
          /\ m' = [m EXCEPT !.ph = IF D.check /\ ~D.perm THEN "denied" ELSE "open"]
          /\ UNCHANGED tag

ReaderLayer(o) == [key |-> m.key, o |-> IF Old(D) THEN o ELSE 0]
\* reading an object from the file: its strings are uncovered at once, stream contents when they are asked for
Load(mm, o) == LET k == D.objs[o].k IN
  [mm EXCEPT !.mem[o] = [st |-> "read", dat |-> DataLayers(D, o),
     str |-> IF k \in {"member", "xref"} \/ D.s = "Identity" THEN StrLayers(D, o) ELSE Strip(StrLayers(D, o), ReaderLayer(o))]]
Uncover(mm, o) == LET k == D.objs[o].k IN
  [mm EXCEPT !.mem[o].st = "decoded",
     !.mem[o].dat = IF k = "xref" \/ D.s = "Identity" \/ (k = "meta" /\ ~D.meta) THEN @ ELSE Strip(@, ReaderLayer(o))]
Have(mm, o) == IF mm.mem[o].st = "no" THEN Load(mm, o) ELSE mm
Decoded(mm, o) == LET a == Have(mm, o) IN IF a.mem[o].st = "read" THEN Uncover(a, o) ELSE a
\* without the cache every object is read anew
Forget(mm) == IF D.caching THEN mm ELSE [mm EXCEPT !.mem = [o \in 1..Len(D.objs) |-> NotRead]]
E == D.script[m.pc]
Say(mm, o, layers) == [Forget(mm) EXCEPT !.pc = m.pc + 1, !.got = Append(m.got, IF layers = <<>> THEN "plain" ELSE "other")]
Running == m.ph = "open" /\ m.pc <= Len(D.script)
Get == /\ Running /\ E.op = "get" /\ D.objs[E.o].k # "member"
       /\ m' = LET a == Have(m, E.o) IN Say(a, E.o, a.mem[E.o].str)
       /\ UNCHANGED tag
GetMember == /\ Running /\ E.op = "get" /\ D.objs[E.o].k = "member"
             /\ m' = LET a == Have(Decoded(m, D.objs[E.o].at), E.o) IN Say(a, E.o, a.mem[D.objs[E.o].at].dat \o a.mem[E.o].str)
             /\ UNCHANGED tag
Data == /\ Running /\ E.op = "data"
        /\ m' = LET a == Decoded(m, E.o) IN Say(a, E.o, a.mem[E.o].dat)
        /\ UNCHANGED tag
CryptNext == Unsupported \/ Encode \/ TryUser \/ TryOwner \/ TryHash \/ Permit \/ Get \/ GetMember \/ Data
Done(mm) == mm.ph \in {"unsupported", "refused", "denied"} \/ (mm.ph = "open" /\ mm.pc > Len(D.script))

\* ---- theorems
OutcomeRight == Done(m) => m.ph = Outcome(D)
AllPlain == \A i \in 1..Len(m.got) : m.got[i] = "plain"
=============================================================================
