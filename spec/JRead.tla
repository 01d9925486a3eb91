------------------------------- MODULE JRead --------------------------------
(***************************************************************************)
(* Judges what a reader made of a file.  t.bytes: the file; t.w, t.h, t.np,*)
(* t.px: the bitmap; t.fatal, t.warn: messages; t.stable: reading again    *)
(* with other garbage in memory gives the same; t.live, t.fds: what is     *)
(* still allocated or open after freeing; t.opts: options unchanged.       *)
(***************************************************************************)
EXTENDS Judge
Pnm == INSTANCE Pnm
Bmp == INSTANCE Bmp
Tga == INSTANCE Tga
Png == INSTANCE Png
Gf == INSTANCE Gf
Decoded(t) == CASE t.fmt \in {"pnm", "pbm", "pgm", "ppm"} -> Pnm!Decode(t.bytes)
                [] t.fmt = "bmp" -> Bmp!Decode(t.bytes)
                [] t.fmt = "tga" -> Tga!Decode(t.bytes)
                [] t.fmt = "png" -> Png!Decode(t.bytes, t.raw)
                [] t.fmt = "gf" -> Gf!Decode(t.bytes, t.code)
\* a grey image may come in one plane or in three
Planes(t, d) == IF t.fmt = "bmp" THEN t.np \in {1, 3} ELSE t.np = d.np
SameImage(t, d) ==
  IF t.w # d.w \/ t.h # d.h THEN {"size"}
  ELSE Clause("planes", Planes(t, d)) \union Clause("pixels", t.px = d.px)
Clean(t) == Clause("unstable", t.stable) \union Clause("leak", t.live = 0) \union Clause("file-left-open", t.fds = 0)
            \union Clause("options-changed", t.opts)
\* a file known to be well-formed
GoodFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE LET d == Decoded(t)
       IN Clean(t) \union
          (IF ~d.ok THEN {"not-well-formed"}              \* the driver's fault, never the code's
           ELSE IF t.fatal > 0 THEN {"refused"}
           ELSE SameImage(t, d))
\* a character that is not in the font
AbsentFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE Clean(t) \union Clause("driver", ~Decoded(t).ok) \union Clause("accepted", t.fatal > 0)
\* any bytes at all
AnyFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE Clean(t)
       \union Clause("empty-without-message", t.fatal > 0 \/ (t.w > 0 /\ t.h > 0 /\ t.np \in {1, 3}) \/ t.fmt = "gf")
       \union Clause("fatal-twice", t.fatal <= 1)
\* the beginning of a well-formed file
CutFailed(t) ==
  AnyFailed(t) \union
  (IF Crashed(t) THEN {}
   ELSE LET d == Decoded(t)
        IN IF d.ok THEN IF t.fatal > 0 THEN {"refused"} ELSE SameImage(t, d)
           ELSE Clause("cut-unnoticed", t.fatal + t.warn > 0))
=============================================================================
