-------------------------------- MODULE Bmp ---------------------------------
(***************************************************************************)
(* Windows and OS/2 bitmap files.                                          *)
(***************************************************************************)
EXTENDS Bytes, TLC
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256
             [] k \in 9 .. 16 -> 256 * (CASE k = 9 -> 2 [] k = 10 -> 4 [] k = 11 -> 8 [] k = 12 -> 16 [] k = 13 -> 32 [] k = 14 -> 64 [] k = 15 -> 128 [] k = 16 -> 256)
Min2(a, b) == IF a < b THEN a ELSE b

\* ---- header: size class, dimensions, depth, compression, palette and pixel places
HeaderSizes == {12, 40, 108, 124} \union (56 .. 64)
Header(b) ==
  LET hs == U32(b, 14)
      old == hs = 12
      bpp == IF old THEN U16(b, 24) ELSE U16(b, 28)
      used == IF old THEN 0 ELSE U32(b, 46)
      entry == IF old THEN 3 ELSE 4
      offs == U32(b, 10)
  IN [hs |-> hs, w |-> IF old THEN U16(b, 18) ELSE I32(b, 18), h |-> IF old THEN U16(b, 20) ELSE I32(b, 22),
      planes |-> IF old THEN U16(b, 22) ELSE U16(b, 26), bpp |-> bpp, comp |-> IF old THEN 0 ELSE U32(b, 30),
      offs |-> offs, entry |-> entry,
      colours |-> IF bpp > 8 THEN 0 ELSE IF used = 0 THEN Pow2(bpp) ELSE used]

\* ---- channels
Bit(b, i, k) == (At(b, i + (k \div 8)) \div Pow2(k % 8)) % 2
MaskBits(b, i) == {k \in 0 .. 31 : Bit(b, i, k) = 1}
Lowest(S) == CHOOSE k \in S : \A j \in S : k <= j
Size(S) == LET RECURSIVE N(_) N(k) == IF k = 32 THEN 0 ELSE (IF k \in S THEN 1 ELSE 0) + N(k + 1) IN N(0)
\* value of the bits of set S (adjacent bits) of the number at i
Field(b, i, S) == LET lo == Lowest(S)
                      RECURSIVE V(_)
                      V(k) == IF k \notin S THEN 0 ELSE (Pow2(k - lo) * Bit(b, i, k)) + V(k + 1)
                  IN V(lo)
\* scaled to 0..255 and rounded
Channel(b, i, S) == IF S = {} THEN 0
                    ELSE LET m == Pow2(Size(S)) - 1 IN ((510 * Field(b, i, S)) + m) \div (2 * m)
DefaultMasks(bpp) == IF bpp = 16 THEN <<10 .. 14, 5 .. 9, 0 .. 4>> ELSE <<16 .. 23, 8 .. 15, 0 .. 7>>
\* the masks follow the 40 byte header, or are part of the longer ones: the same place
Masks(b, hd) == IF hd.comp = 3 THEN <<MaskBits(b, 54), MaskBits(b, 58), MaskBits(b, 62)>> ELSE DefaultMasks(hd.bpp)
\* masks the format allows: adjacent bits, at most 16 of them
GoodMask(S) == S = {} \/ (Size(S) <= 16 /\ \A k \in S : k = Lowest(S) \/ (k - 1) \in S)

\* ---- palette
PaletteAt(b, hd) == 14 + hd.hs
Colour(b, hd, i) == IF i >= hd.colours THEN 0
                    ELSE LET p == PaletteAt(b, hd) + (hd.entry * i) IN RGB(At(b, p + 2), At(b, p + 1), At(b, p))

\* ---- uncompressed rows
RowBytes(hd) == (((hd.w * hd.bpp) + 31) \div 32) * 4
AbsH(hd) == IF hd.h < 0 THEN -hd.h ELSE hd.h
\* the stored row that is shown as row y
Stored(hd, y) == IF hd.h < 0 THEN y ELSE hd.h - 1 - y
Index(b, hd, o, x) == (At(b, o + ((x * hd.bpp) \div 8)) \div Pow2(8 - hd.bpp - ((x * hd.bpp) % 8))) % Pow2(hd.bpp)
RowPixel(b, hd, masks, o, x) ==
  CASE hd.bpp <= 8 -> Colour(b, hd, Index(b, hd, o, x))
    [] hd.bpp = 24 -> RGB(At(b, o + (3 * x) + 2), At(b, o + (3 * x) + 1), At(b, o + (3 * x)))
    [] OTHER -> LET p == o + (x * (hd.bpp \div 8)) IN RGB(Channel(b, p, masks[1]), Channel(b, p, masks[2]), Channel(b, p, masks[3]))
Needed(hd) == (RowBytes(hd) * AbsH(hd)) - (IF hd.bpp > 8 THEN 0 ELSE RowBytes(hd) - (((hd.w * hd.bpp) + 7) \div 8))
Uncompressed(b, hd) ==
  LET masks == Masks(b, hd)
  IN IF ~Has(b, hd.offs, Needed(hd)) THEN Short
     ELSE Image(hd.w, AbsH(hd), 3, [p \in 1 .. hd.w * AbsH(hd) |->
            RowPixel(b, hd, masks, hd.offs + (Stored(hd, (p - 1) \div hd.w) * RowBytes(hd)), (p - 1) % hd.w)])

\* ---- run-length coding; s.px maps y*w + x (y counted from the bottom) to indices
PerByte(hd) == 8 \div hd.bpp
PixelOf(hd, v, k) == IF hd.bpp = 8 THEN v ELSE IF k % 2 = 0 THEN v \div 16 ELSE v % 16
PutRun(hd, px, x, y, n, v) ==
  [q \in DOMAIN px |-> IF q \div hd.w = y /\ q % hd.w \in x .. x + n - 1 THEN PixelOf(hd, v, (q % hd.w) - x) ELSE px[q]]
PutBytes(hd, b, px, x, y, n, i) ==
  [q \in DOMAIN px |-> IF q \div hd.w = y /\ q % hd.w \in x .. x + n - 1
                       THEN LET k == (q % hd.w) - x IN PixelOf(hd, At(b, i + (k \div PerByte(hd))), k) ELSE px[q]]
AbsBytes(hd, n) == LET m == (n + PerByte(hd) - 1) \div PerByte(hd) IN m + (m % 2)
RECURSIVE Rle(_, _, _, _, _, _)
Rle(b, hd, i, x, y, px) ==
  IF y >= AbsH(hd) THEN [px |-> px, ok |-> TRUE]
  ELSE IF ~Has(b, i, 2) THEN [px |-> px, ok |-> FALSE]
  ELSE LET n == At(b, i) v == At(b, i + 1)
       IN IF n > 0 THEN Rle(b, hd, i + 2, x + n, y, PutRun(hd, px, x, y, n, v))
          ELSE CASE v = 0 -> Rle(b, hd, i + 2, 0, y + 1, px)
                 [] v = 1 -> [px |-> px, ok |-> TRUE]
                 [] v = 2 -> IF ~Has(b, i, 4) THEN [px |-> px, ok |-> FALSE]
                             ELSE Rle(b, hd, i + 4, x + At(b, i + 2), y + At(b, i + 3), px)
                 [] OTHER -> IF ~Has(b, i + 2, (v + PerByte(hd) - 1) \div PerByte(hd)) THEN [px |-> px, ok |-> FALSE]
                             ELSE Rle(b, hd, i + 2 + AbsBytes(hd, v), x + v, y, PutBytes(hd, b, px, x, y, v, i + 2))
RunLength(b, hd) ==
  LET r == Rle(b, hd, hd.offs, 0, 0, [q \in 0 .. (hd.w * hd.h) - 1 |-> 0])
  IN IF ~r.ok THEN Short
     ELSE Image(hd.w, hd.h, 3, [p \in 1 .. hd.w * hd.h |->
            Colour(b, hd, r.px[((hd.h - 1 - ((p - 1) \div hd.w)) * hd.w) + ((p - 1) % hd.w)])])

Decode(b) ==
  IF ~Has(b, 0, 18) THEN Short
  ELSE LET hs == U32(b, 14)
       IN IF <<At(b, 0), At(b, 1)>> # <<66, 77>> THEN Bad
          ELSE IF hs \notin HeaderSizes THEN Bad
          ELSE IF ~Has(b, 14, hs) THEN Short
          ELSE LET hd == Header(b)
               IN IF hd.bpp \notin {1, 2, 4, 8, 16, 24, 32} \/ hd.planes # 1 \/ hd.w \notin 1 .. 65535 \/ AbsH(hd) \notin 1 .. 65535 THEN Bad
                  ELSE IF hd.comp \notin ({0} \union (IF hd.bpp = 8 THEN {1} ELSE IF hd.bpp = 4 THEN {2} ELSE {}) \union (IF hd.bpp \in {16, 32} THEN {3} ELSE {})) THEN Bad
                  ELSE IF hd.comp = 3 /\ ~Has(b, 54, 12) THEN Short
                  ELSE IF hd.comp = 3 /\ ~\A k \in 1 .. 3 : GoodMask(Masks(b, hd)[k]) THEN Bad
                  ELSE IF ~Has(b, PaletteAt(b, hd), hd.entry * hd.colours) THEN Short
                  ELSE IF hd.comp \in {1, 2} THEN (IF hd.h < 0 THEN Bad ELSE RunLength(b, hd)) ELSE Uncompressed(b, hd)
=============================================================================
