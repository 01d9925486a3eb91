------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Bitmaps as values.                                                      *)
(*                                                                         *)
(* An image is a record [w, h, px] where px is the row-major sequence of   *)
(* colours, row 0 at the top.  A colour is one integer, 65536*r+256*g+b    *)
(* (a grey image with one plane is widened to r=g=b exactly as the API's   *)
(* colour getter does).  NoBg stands for "no background colour was given". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoBg == -1

Px(img, r, c) == img.px[r * img.w + c + 1]

InImg(img, r, c) == r >= 0 /\ r < img.h /\ c >= 0 /\ c < img.w

Rows(img) == 0 .. (img.h - 1)
Cols(img) == 0 .. (img.w - 1)

(* Colour at a place, with every place outside the image off-colour. *)
IsCol(img, r, c, k) == InImg(img, r, c) /\ Px(img, r, c) = k

Channel(k, i) == IF i = 1 THEN k \div 65536
                 ELSE IF i = 2 THEN (k \div 256) % 256
                 ELSE k % 256

RGB(r, g, b) == 65536 * r + 256 * g + b

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
=============================================================================
