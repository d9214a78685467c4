---------------------------- MODULE SimpleFont ----------------------------
(* A simple font: how its encoding, ToUnicode map and widths are put         *)
(* together, and what showing a code gives.                                  *)
(* Font f: base (encoding name), diffs (items [k, n, cs]: "at" n; "name" with*)
(* components cs), bf (entries of ToUnicode.tla, or hasbf FALSE), first,     *)
(* widths, haswidths, missing, std (name of a standard font or "").          *)
EXTENDS ToUnicode, Encodings, TLC, Json, IOUtils
CONSTANTS Glyphs, Metrics       \* the Adobe glyph list; widths of the standard fonts
AllGlyphs == JsonDeserialize("glyphs.json")
AllMetrics == JsonDeserialize("metrics.json")

\* ---- glyph names: a component is of the glyph list ("agl"), uniXXXX.. ("uni", units), uXXXXX ("u", code) or not known ("?")
RECURSIVE NameChars(_)
ComponentChars(c) == CASE c.k = "agl" -> Glyphs[c.s] [] c.k \in {"uni", "u"} -> c.v [] OTHER -> None
NameChars(cs) ==
  IF Len(cs) = 1 THEN ComponentChars(cs[1])
  ELSE LET a == ComponentChars(cs[1])  b == NameChars(Tail(cs)) IN IF a = None \/ b = None THEN None ELSE a \o b

\* ---- the parts: enc (characters by code + 1; <<0>> none, <<-1>> not judged), at (next code of Differences), bf
Part0(f) == [enc |-> [i \in 1..256 |-> <<BaseEncoding(f.base)[i]>>], at |-> 0, bf |-> {}]
AddDifference(p, d) ==
  IF d.k = "at" THEN [p EXCEPT !.at = d.n]
  ELSE LET t == NameChars(d.cs) IN
       [p EXCEPT !.at = @ + 1, !.enc = IF t # None /\ p.at \in 0..255 THEN [@ EXCEPT ![p.at + 1] = t] ELSE @]
AddMapping(p, e) == [p EXCEPT !.bf = AddEntry(@, e)]

\* ---- showing a code: <<0>> no character, <<-1>> not judged
Text(p, c) == LET t == Mapped(p.bf, c) IN IF t # None THEN t ELSE p.enc[c + 1]
NoText(t) == t = <<0>>
Width(f, p, c) ==
  IF f.haswidths /\ c >= f.first /\ c < f.first + Len(f.widths) THEN f.widths[c - f.first + 1]
  ELSE IF ~f.haswidths /\ f.std # "" /\ p.enc[c + 1] # <<0>> /\ Len(p.enc[c + 1]) = 1 /\ ToString(p.enc[c + 1][1]) \in DOMAIN Metrics[f.std]
  THEN 10 * Metrics[f.std][ToString(p.enc[c + 1][1])]
  ELSE IF ~f.haswidths /\ f.std # "" /\ Mapped(p.bf, c) # None THEN -1        \* not judged: a glyph without metrics
  ELSE f.missing
=============================================================================
