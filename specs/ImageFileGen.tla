---------------------------- MODULE ImageFileGen ----------------------------
(* Small images and the bitmaps the format allows for them, read back row by *)
(* row; every image is also exported by the real code.                       *)
EXTENDS ImageFile, TLC, Json, IOUtils
VARIABLES im, ch, f, y, clause
Conf == JsonDeserialize(IOEnv.CONF)
Fill(n, s) == [i \in 1..n |-> (s * 77 + i * i * 59 + i * 31) % 256]
Base(w, h, k) == [w |-> w, h |-> h, bits |-> IF k = 1 THEN 1 ELSE 8, fam |-> IF k = 24 THEN "rgb" ELSE "gray", n |-> IF k = 24 THEN 3 ELSE 1, jpeg |-> FALSE, data |-> << >>]
Images == {LET b == Base(w, h, k) IN [b EXCEPT !.data = Fill(h * Line(b) + x, s)] :
             w \in 1..Conf.w, h \in 1..Conf.h, k \in {1, 8, 24}, s \in 1..Conf.fills, x \in {0, 2}}
\* a writer: order of the rows, what is written for padding, palette size given or left open
Choices == [down : BOOLEAN, pad : {0, 255}, used : BOOLEAN]
Bytes4(n) == IF n < 0 THEN LET m == -n - 1 IN <<255 - (m % 256), 255 - ((m \div 256) % 256), 255, 255>> ELSE <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
WStride(i) == ((Line(i) + 3) \div 4) * 4
Swap(l) == [k \in 1..Len(l) |-> l[CASE k % 3 = 1 -> k + 2 [] k % 3 = 2 -> k [] OTHER -> k - 2]]
WRow(i, c, r) == LET l == SubSeq(i.data, r * Line(i) + 1, (r + 1) * Line(i)) IN
  (IF Depth(i) = 24 THEN Swap(l) ELSE l) \o [k \in 1..(WStride(i) - Line(i)) |-> c.pad]
RECURSIVE WRows(_, _, _)
WRows(i, c, k) == IF k = i.h THEN << >> ELSE WRow(i, c, IF c.down THEN k ELSE i.h - 1 - k) \o WRows(i, c, k + 1)
RECURSIVE WPal(_, _)
WPal(n, k) == IF k = n THEN << >> ELSE (IF n = 2 THEN <<255 * k, 255 * k, 255 * k, 0>> ELSE <<k, k, k, 0>>) \o WPal(n, k + 1)
Cols(i) == IF Depth(i) = 24 THEN 0 ELSE Pow2(Depth(i))
WFile(i, c) ==
  LET off == 54 + 4 * Cols(i)  rows == i.h * WStride(i) IN
  <<66, 77>> \o Bytes4(off + rows) \o <<0, 0, 0, 0>> \o Bytes4(off) \o Bytes4(40) \o Bytes4(i.w) \o Bytes4(IF c.down THEN -i.h ELSE i.h)
  \o <<1, 0, Depth(i), 0>> \o Bytes4(0) \o Bytes4(rows) \o Bytes4(0) \o Bytes4(0) \o Bytes4(IF c.used THEN Cols(i) ELSE 0) \o Bytes4(0)
  \o WPal(Cols(i), 0) \o WRows(i, c, 0)
GenInit == im \in Images /\ ch \in Choices /\ f = << >> /\ y = -2 /\ clause = ""
Write == y = -2 /\ f' = WFile(im, ch) /\ y' = -1 /\ UNCHANGED <<im, ch, clause>>
Open == /\ y = -1 /\ y' = 0
        /\ clause' = (IF Header(im, f) # "" THEN Header(im, f) ELSE Palette(im, f)) /\ UNCHANGED <<im, ch, f>>
Row == /\ y \in 0..(im.h - 1) /\ y' = y + 1
       /\ clause' = (IF clause = "" /\ ~RowRight(im, f, y) THEN "samples" ELSE clause) /\ UNCHANGED <<im, ch, f>>
GenNext == Write \/ Open \/ Row
\* what is written is read back, whatever the writer's choices
Readable == clause = ""
Padded == y >= 0 => Stride(f) = WStride(im) /\ Stride(f) % 4 = 0 /\ Len(f) = Offset(f) + im.h * Stride(f)
Emitted == y = im.h /\ ch = [down |-> FALSE, pad |-> 0, used |-> TRUE] => PrintT("@@" \o ToJson(im))
=============================================================================
