------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Files as sequences of bytes; offsets count from 0.  A decoder answers   *)
(* either Image(w, h, np, px) with the colours 0xRRGGBB in reading order,  *)
(* or Short (the file ends before the image does), or Bad.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
At(b, i) == b[i + 1]
Has(b, i, n) == i + n <= Len(b)
U16(b, i) == At(b, i) + (256 * At(b, i + 1))
\* 32 bits, little endian; what does not fit is cut down to a large number
Huge == 1000000000
U32(b, i) == IF At(b, i + 3) > 50 THEN Huge
             ELSE At(b, i) + (256 * At(b, i + 1)) + (65536 * At(b, i + 2)) + (16777216 * At(b, i + 3))
I32(b, i) == IF At(b, i + 3) < 128 THEN U32(b, i)
             ELSE IF At(b, i + 3) = 255 /\ At(b, i + 2) = 255 THEN U16(b, i) - 65536 ELSE -Huge
\* big endian
M16(b, i) == (256 * At(b, i)) + At(b, i + 1)
M24(b, i) == (65536 * At(b, i)) + M16(b, i + 1)
M32(b, i) == IF At(b, i) < 50 THEN (16777216 * At(b, i)) + M24(b, i + 1)
             ELSE IF At(b, i) > 205 THEN (16777216 * (At(b, i) - 256)) + M24(b, i + 1) ELSE Huge
RGB(r, g, b) == (65536 * r) + (256 * g) + b
GreyRGB(v) == 65793 * v

Image(w, h, np, px) == [ok |-> TRUE, short |-> FALSE, w |-> w, h |-> h, np |-> np, px |-> px]
Short == [ok |-> FALSE, short |-> TRUE]
Bad == [ok |-> FALSE, short |-> FALSE]
=============================================================================
