----------------------------- MODULE ImageFile -----------------------------
(* The file an image is exported to. Image im: [w, h, bits, fam: family of   *)
(* the colour space, n: its components, jpeg, data: decoded samples (the      *)
(* JPEG file if it is one)]. Bitmaps are read as the format says.            *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- which file
Form(im) == IF im.jpeg THEN (IF im.fam = "cmyk" THEN "converted" ELSE "jpg")
            ELSE IF (im.bits = 1 /\ im.n = 1) \/ (im.bits = 8 /\ im.fam \in {"gray", "rgb"}) THEN "bmp" ELSE "img"
Depth(im) == IF im.bits = 1 THEN 1 ELSE IF im.fam = "gray" THEN 8 ELSE 24

\* ---- samples of a row: 0 or 1, a byte, or three bytes; Line bytes in the data
Line(im) == IF Depth(im) = 1 THEN (im.w + 7) \div 8 ELSE IF Depth(im) = 8 THEN im.w ELSE 3 * im.w
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(b, k) == (b \div Pow2(7 - k)) % 2
SampleAt(im, x, y) ==
  LET at == y * Line(im) IN
  CASE Depth(im) = 1 -> at + (x \div 8) + 1
    [] Depth(im) = 8 -> at + x + 1
    [] OTHER -> at + 3 * x + 3
\* the colour of a sample; samples that are not in the data are not judged
Known(im, x, y) == SampleAt(im, x, y) <= Len(im.data)
Grey(v) == <<v, v, v>>
Colour(im, x, y) ==
  LET i == SampleAt(im, x, y) IN
  CASE Depth(im) = 1 -> Grey(255 * Bit(im.data[i], x % 8))
    [] Depth(im) = 8 -> Grey(im.data[i])
    [] OTHER -> <<im.data[i - 2], im.data[i - 1], im.data[i]>>

\* ---- reading a bitmap f
RECURSIVE LE(_, _, _)
LE(f, i, n) == IF n = 0 THEN 0 ELSE f[i] + 256 * LE(f, i + 1, n - 1)
Big(f, i) == f[i + 3] >= 128
\* a number with sign, as far as small ones go
Signed(f, i) == IF Big(f, i) THEN -(LE(<<255 - f[i], 255 - f[i + 1], 255 - f[i + 2], 255 - f[i + 3]>>, 1, 4) + 1) ELSE LE(f, i, 4)
Bits(f) == LE(f, 29, 2)
Offset(f) == LE(f, 11, 4)
Stride(f) == (((LE(f, 19, 4) * Bits(f) + 31) \div 32) * 4)
Rows(f) == IF Signed(f, 23) < 0 THEN -Signed(f, 23) ELSE Signed(f, 23)
Used(f) == IF LE(f, 47, 4) = 0 THEN Pow2(Bits(f)) ELSE LE(f, 47, 4)
Header(im, f) ==
  IF Len(f) < 54 \/ f[1] # 66 \/ f[2] # 77 THEN "no bitmap"
  ELSE IF \E i \in {14, 18, 22, 38, 50} : Big(f, i - 3) THEN "numbers out of range"
  ELSE IF LE(f, 3, 4) # Len(f) THEN "file size"
  ELSE IF LE(f, 15, 4) < 40 \/ LE(f, 27, 2) # 1 \/ LE(f, 31, 4) # 0 THEN "header"
  ELSE IF LE(f, 19, 4) # im.w THEN "width"
  ELSE IF Rows(f) # im.h THEN "height"
  ELSE IF Bits(f) # Depth(im) THEN "depth"
  ELSE IF Bits(f) <= 8 /\ Offset(f) < 14 + LE(f, 15, 4) + 4 * Used(f) THEN "palette and samples overlap"
  ELSE IF Len(f) < Offset(f) + Rows(f) * Stride(f) THEN "rows missing" ELSE ""
Entry(f, i) == LET p == 14 + LE(f, 15, 4) + 4 * i IN <<f[p + 3], f[p + 2], f[p + 1]>>
Palette(im, f) ==
  IF Bits(f) > 8 THEN ""
  ELSE IF Used(f) # Pow2(Bits(f)) THEN "palette size"
  ELSE IF \E i \in 0..(Used(f) - 1) : Entry(f, i) # Grey(IF Bits(f) = 1 THEN 255 * i ELSE i) THEN "palette" ELSE ""
RowAt(f, y) == Offset(f) + Stride(f) * (IF Signed(f, 23) < 0 THEN y ELSE Rows(f) - 1 - y)
Pixel(f, x, y) ==
  LET r == RowAt(f, y) IN
  CASE Bits(f) = 1 -> Entry(f, Bit(f[r + (x \div 8) + 1], x % 8))
    [] Bits(f) = 8 -> Entry(f, f[r + x + 1])
    [] OTHER -> <<f[r + 3 * x + 3], f[r + 3 * x + 2], f[r + 3 * x + 1]>>
RowRight(im, f, y) == \A x \in 0..(im.w - 1) : Known(im, x, y) => Pixel(f, x, y) = Colour(im, x, y)
=============================================================================
