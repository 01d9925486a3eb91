-------------------------------- MODULE Png ---------------------------------
(***************************************************************************)
(* PNG files.  Decompression belongs to zlib, not to this repository: the  *)
(* image data is given as the decompressed stream `raw`, or read from      *)
(* stored (uncompressed) blocks.                                           *)
(***************************************************************************)
EXTENDS Bytes, TLC
Signature == <<137, 80, 78, 71, 13, 10, 26, 10>>
IHDR == <<73, 72, 68, 82>>
PLTE == <<80, 76, 84, 69>>
IDAT == <<73, 68, 65, 84>>
IEND == <<73, 69, 78, 68>>
\* offsets of the data and lengths of the chunks of a type
RECURSIVE Chunks(_, _, _)
Chunks(b, i, acc) ==
  IF ~Has(b, i, 8) THEN acc
  ELSE LET n == M32(b, i) t == SubSeq(b, i + 5, i + 8)
       IN IF n = Huge \/ ~Has(b, i + 8, n + 4) THEN acc
          ELSE Chunks(b, i + 12 + n, Append(acc, [t |-> t, at |-> i + 8, n |-> n]))
RECURSIVE Joined(_, _, _)
Joined(b, cs, k) == IF k > Len(cs) THEN <<>>
                    ELSE (IF cs[k].t = IDAT THEN SubSeq(b, cs[k].at + 1, cs[k].at + cs[k].n) ELSE <<>>) \o Joined(b, cs, k + 1)
RECURSIVE StoredBlocks(_, _)
StoredBlocks(z, i) ==
  IF ~Has(z, i, 5) \/ (At(z, i) \div 2) % 4 # 0 THEN <<>>
  ELSE LET n == U16(z, i + 1)
       IN SubSeq(z, i + 6, i + 5 + n) \o (IF At(z, i) % 2 = 1 THEN <<>> ELSE StoredBlocks(z, i + 5 + n))

Channels(ct) == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 1 [] ct = 4 -> 2 [] ct = 6 -> 4
Legal(ct, d) == d \in (CASE ct = 0 -> {1, 2, 4, 8, 16} [] ct = 3 -> {1, 2, 4, 8} [] ct \in {2, 4, 6} -> {8, 16} [] OTHER -> {})
RowLen(w, ct, d) == ((w * d * Channels(ct)) + 7) \div 8
Step(ct, d) == LET n == (d * Channels(ct)) \div 8 IN IF n = 0 THEN 1 ELSE n

Abs(v) == IF v < 0 THEN -v ELSE v
Paeth(a, b, c) == LET p == a + b - c
                      pa == Abs(p - a) pb == Abs(p - b) pc == Abs(p - c)
                  IN IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
Predict(f, a, b, c) == CASE f = 0 -> 0 [] f = 1 -> a [] f = 2 -> b [] f = 3 -> (a + b) \div 2 [] OTHER -> Paeth(a, b, c)
RECURSIVE Row(_, _, _, _, _, _)
Row(raw, o, n, s, prev, acc) ==
  LET k == Len(acc)
  IN IF k = n THEN acc
     ELSE LET a == IF k < s THEN 0 ELSE acc[k - s + 1]
              up == IF prev = <<>> THEN 0 ELSE prev[k + 1]
              c == IF k < s \/ prev = <<>> THEN 0 ELSE prev[k - s + 1]
          IN Row(raw, o, n, s, prev, Append(acc, (At(raw, o + 1 + k) + Predict(At(raw, o), a, up, c)) % 256))
RECURSIVE Rows(_, _, _, _, _, _, _)
Rows(raw, o, h, n, s, prev, acc) ==
  IF h = 0 THEN acc
  ELSE LET r == Row(raw, o, n, s, prev, <<>>) IN Rows(raw, o + n + 1, h - 1, n, s, r, Append(acc, r))

\* passes: <<x0, y0, dx, dy>>
Adam7 == <<<<0, 0, 8, 8>>, <<4, 0, 8, 8>>, <<0, 4, 4, 8>>, <<2, 0, 4, 4>>, <<0, 2, 2, 4>>, <<1, 0, 2, 2>>, <<0, 1, 1, 2>>>>
Passes(i) == IF i = 1 THEN Adam7 ELSE <<<<0, 0, 1, 1>>>>
Across(p, w) == IF w <= p[1] THEN 0 ELSE (w - p[1] + p[3] - 1) \div p[3]
Down(p, h) == IF h <= p[2] THEN 0 ELSE (h - p[2] + p[4] - 1) \div p[4]
PassBytes(p, w, h, ct, d) == IF Across(p, w) = 0 THEN 0 ELSE Down(p, h) * (RowLen(Across(p, w), ct, d) + 1)
RECURSIVE Sets(_, _, _, _, _, _, _, _)
Sets(raw, o, ps, k, w, h, ct, d) ==
  IF k > Len(ps) THEN <<>>
  ELSE <<IF PassBytes(ps[k], w, h, ct, d) = 0 THEN <<>>
         ELSE Rows(raw, o, Down(ps[k], h), RowLen(Across(ps[k], w), ct, d), Step(ct, d), <<>>, <<>>)>>
       \o Sets(raw, o + PassBytes(ps[k], w, h, ct, d), ps, k + 1, w, h, ct, d)
RECURSIVE Total(_, _, _, _, _, _)
Total(ps, k, w, h, ct, d) == IF k > Len(ps) THEN 0 ELSE PassBytes(ps[k], w, h, ct, d) + Total(ps, k + 1, w, h, ct, d)

Pow(d) == CASE d = 0 -> 1 [] d = 1 -> 2 [] d = 2 -> 4 [] d = 3 -> 8 [] d = 4 -> 16 [] d = 5 -> 32 [] d = 6 -> 64 [] d = 7 -> 128 [] d = 8 -> 256
\* sample number k of a row, in the depth of the file but never more than 8 bits
Sample(row, k, d) == CASE d = 16 -> row[(2 * k) + 1]
                       [] d = 8 -> row[k + 1]
                       [] OTHER -> (row[((k * d) \div 8) + 1] \div Pow(8 - d - ((k * d) % 8))) % Pow(d)
Grey(v, d) == IF d >= 8 THEN v ELSE (v * 255) \div (Pow(d) - 1)
Pixel(row, x, ct, d, pal) ==
  LET c == Channels(ct)
  IN CASE ct \in {0, 4} -> GreyRGB(Grey(Sample(row, x * c, d), d))
       [] ct = 3 -> pal[Sample(row, x, d) + 1]
       [] OTHER -> RGB(Sample(row, x * c, d), Sample(row, (x * c) + 1, d), Sample(row, (x * c) + 2, d))

\* raw: the decompressed stream, or <<>> to take stored blocks
Decode(b, raw0) ==
  LET cs == Chunks(b, 8, <<>>)
      plte == SelectSeq(cs, LAMBDA c : c.t = PLTE)
      o == IF Len(plte) = 0 THEN 0 ELSE plte[1].at
      pal == IF Len(plte) = 0 THEN <<>> ELSE [k \in 1 .. plte[1].n \div 3 |-> RGB(At(b, o + (3 * k) - 3), At(b, o + (3 * k) - 2), At(b, o + (3 * k) - 1))]
  IN IF Len(b) < 8 THEN Short
     ELSE IF SubSeq(b, 1, 8) # Signature THEN Bad
     ELSE IF Len(cs) = 0 THEN Short
     ELSE IF cs[1].t # IHDR \/ cs[1].n # 13 THEN Bad
     ELSE IF cs[Len(cs)].t # IEND THEN Short
     ELSE LET w == M32(b, 16) h == M32(b, 20) d == At(b, 24) ct == At(b, 25) il == At(b, 28)
              ps == Passes(il)
          IN IF ~Legal(ct, d) \/ w \notin 1 .. 65535 \/ h \notin 1 .. 65535 THEN Bad
             ELSE LET raw == IF raw0 = <<>> THEN StoredBlocks(Joined(b, cs, 1), 2) ELSE raw0
                  IN IF Len(raw) < Total(ps, 1, w, h, ct, d) THEN Short
                     ELSE LET sets == Sets(raw, 0, ps, 1, w, h, ct, d)
                          IN Image(w, h, IF ct \in {0, 4} THEN 1 ELSE 3, [p \in 1 .. w * h |->
                               LET x == (p - 1) % w y == (p - 1) \div w
                                   k == CHOOSE k \in 1 .. Len(ps) : /\ x >= ps[k][1] /\ (x - ps[k][1]) % ps[k][3] = 0
                                                                    /\ y >= ps[k][2] /\ (y - ps[k][2]) % ps[k][4] = 0
                               IN Pixel(sets[k][((y - ps[k][2]) \div ps[k][4]) + 1], (x - ps[k][1]) \div ps[k][3], ct, d, pal)])
=============================================================================
