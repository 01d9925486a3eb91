-------------------------------- MODULE Tga ---------------------------------
(***************************************************************************)
(* Truevision files: types 1, 2, 3 raw, 9, 10, 11 run-length coded.        *)
(***************************************************************************)
EXTENDS Bytes
Header(b) == [id |-> At(b, 0), maptype |-> At(b, 1), type |-> At(b, 2), first |-> U16(b, 3), colours |-> U16(b, 5), mapbits |-> At(b, 7),
              w |-> U16(b, 12), h |-> U16(b, 14), bpp |-> At(b, 16), right |-> (At(b, 17) \div 16) % 2, top |-> (At(b, 17) \div 32) % 2]
Kind(hd) == hd.type % 8
Packed(hd) == hd.type >= 8
Supported(hd) == /\ hd.type \in {1, 2, 3, 9, 10, 11} /\ hd.w > 0 /\ hd.h > 0
                 /\ CASE Kind(hd) = 1 -> hd.maptype = 1 /\ hd.bpp = 8 /\ hd.mapbits \in {24, 32} /\ hd.colours > 0
                      [] Kind(hd) = 2 -> hd.maptype = 0 /\ hd.bpp \in {24, 32}
                      [] OTHER -> hd.maptype = 0 /\ hd.bpp \in {8, 16}
Unit(hd) == hd.bpp \div 8
MapAt(hd) == 18 + hd.id
DataAt(hd) == MapAt(hd) + (IF hd.maptype = 1 THEN hd.colours * (hd.mapbits \div 8) ELSE 0)
\* where the stored pixels are in the file: a sequence of offsets
RECURSIVE Places(_, _, _, _)
Places(b, hd, i, acc) ==
  IF Len(acc) >= hd.w * hd.h THEN acc
  ELSE IF ~Packed(hd) THEN IF Has(b, i, Unit(hd)) THEN Places(b, hd, i + Unit(hd), Append(acc, i)) ELSE <<>>
  ELSE IF ~Has(b, i, 1) THEN <<>>
  ELSE LET c == At(b, i) n == (c % 128) + 1
       IN IF c >= 128 THEN IF Has(b, i + 1, Unit(hd)) THEN Places(b, hd, i + 1 + Unit(hd), acc \o [k \in 1 .. n |-> i + 1]) ELSE <<>>
          ELSE IF Has(b, i + 1, n * Unit(hd)) THEN Places(b, hd, i + 1 + (n * Unit(hd)), acc \o [k \in 1 .. n |-> i + 1 + ((k - 1) * Unit(hd))])
          ELSE <<>>
Shown(b, hd, o) ==
  CASE Kind(hd) = 3 -> GreyRGB(At(b, o))
    [] Kind(hd) = 2 -> RGB(At(b, o + 2), At(b, o + 1), At(b, o))
    [] OTHER -> LET k == At(b, o) - hd.first p == MapAt(hd) + (k * (hd.mapbits \div 8))
                IN IF k \notin 0 .. hd.colours - 1 THEN 0 ELSE RGB(At(b, p + 2), At(b, p + 1), At(b, p))
Decode(b) ==
  IF ~Has(b, 0, 18) THEN Short
  ELSE LET hd == Header(b)
       IN IF ~Supported(hd) THEN Bad
          ELSE IF ~Has(b, 0, DataAt(hd)) THEN Short
          ELSE LET s == Places(b, hd, DataAt(hd), <<>>)
               IN IF Len(s) < hd.w * hd.h THEN Short
                  ELSE Image(hd.w, hd.h, 3, [p \in 1 .. hd.w * hd.h |->
                         LET x == (p - 1) % hd.w y == (p - 1) \div hd.w
                             u == IF hd.right = 1 THEN hd.w - 1 - x ELSE x
                             v == IF hd.top = 1 THEN y ELSE hd.h - 1 - y
                         IN Shown(b, hd, s[(v * hd.w) + u + 1])])
=============================================================================
