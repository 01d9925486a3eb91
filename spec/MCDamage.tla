------------------------------ MODULE MCDamage ------------------------------
(***************************************************************************)
(* Well-formed files losing their last bytes, one after the other.  What   *)
(* is left is the same image (only bytes after the image are gone) or no   *)
(* image at all, and never becomes an image again.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Pnm == INSTANCE Pnm
Bmp == INSTANCE Bmp
Tga == INSTANCE Tga
Png == INSTANCE Png
Gf == INSTANCE Gf
Files == ndJsonDeserialize(IOEnv.FILES)
Decoded(f, b) == CASE f.fmt = "pnm" -> Pnm!Decode(b) [] f.fmt = "bmp" -> Bmp!Decode(b) [] f.fmt = "tga" -> Tga!Decode(b)
                   [] f.fmt = "png" -> Png!Decode(b, f.raw) [] f.fmt = "gf" -> Gf!Decode(b, f.code)
VARIABLES file, left, state
vars == <<file, left, state>>
Seen(k, n) == LET d == Decoded(Files[k], SubSeq(Files[k].bytes, 1, n))
              IN IF ~d.ok THEN "none" ELSE IF d = Decoded(Files[k], Files[k].bytes) THEN "whole" ELSE "other"
Init == file \in 1 .. Len(Files) /\ left = Len(Files[file].bytes) /\ state = Seen(file, left)
Lose == left > 0 /\ left' = left - 1 /\ state' = Seen(file, left - 1) /\ UNCHANGED file
Next == Lose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
StartsWhole == left = Len(Files[file].bytes) => state = "whole"
\* the one exception: the last number of a plain any-map, which the format lets end with the file
LastNumber(k, n) == /\ Files[k].fmt = "pnm" /\ Files[k].bytes[2] \in {50, 51}
                    /\ n > 0 /\ Files[k].bytes[n] \in 48 .. 57 /\ Files[k].bytes[n + 1] \in 48 .. 57
NeverOther == state = "other" => LastNumber(file, left)
StaysGone == [][state = "none" => state' = "none"]_vars
EmptyIsNone == left = 0 => state = "none"
=============================================================================
