------------------------------ MODULE Prepare -------------------------------
(***************************************************************************)
(* What a trace does to the bitmap before it looks for outlines: remove    *)
(* specks, then reduce the colours, then (for centre lines) thin.  Options *)
(* o: level, tight, noise (hundredths), colours (0: all), centre, bg (-1:  *)
(* none) and np, the number of planes.  A stage that is not wished leaves  *)
(* the bitmap alone.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
S == INSTANCE Speck
Q == INSTANCE Quant
T == INSTANCE Thin

Stages == <<"despeckle", "reduce", "thin">>
On(o, s) == CASE s = "despeckle" -> o.level > 0
              [] s = "reduce" -> o.colours > 0
              [] OTHER -> o.centre
Image(w, h, px) == [w |-> w, h |-> h, px |-> px]
Paper(o) == IF o.bg < 0 THEN 16777215 ELSE o.bg

\* the thinned bitmap: of every colour but the paper's the skeleton is left
Thinned(im, o) ==
  LET cols == {im.px[k] : k \in 1 .. Len(im.px)} \ {Paper(o)}
      left == UNION {T!Skeleton(im.w, im.h, o.np, T!PixelsOf(im, k)) : k \in cols}
  IN [k \in 1 .. Len(im.px) |-> IF <<(k - 1) \div im.w, (k - 1) % im.w>> \in left THEN im.px[k] ELSE Paper(o)]

\* whether a stage may turn one bitmap into the other; ties between colours are open
May(s, im, out, o) ==
  CASE ~On(o, s) -> out = im.px
    [] s = "despeckle" ->
         IF S!TieFree(o.np, {im.px[k] : k \in 1 .. Len(im.px)})
         THEN out = S!Despeckled(im, o.np, o.level, o.tight, o.noise)
         ELSE S!NoNewColour(im, out) /\ S!WholeSpecks(im, out) /\ S!Rooted(im, out)
    [] s = "reduce" -> Q!Reductions(im.px, o.np, o.colours, o.bg, out)
    [] OTHER -> out = Thinned(im, o)

\* one way to do a stage
First(pal, k) == LET n == Q!Nearest(pal, k) IN pal[Q!Least({i \in 1 .. Len(pal) : pal[i] \in n})]
Reduced(im, o) ==
  LET pal == Q!Palette(im.px, o.colours)
      New(v) == LET p == First(pal, Q!Cell(v))
                IN IF o.bg >= 0 /\ p = First(pal, Q!Cell(o.bg)) THEN Q!BgOut(o.np, o.bg) ELSE Q!Rgb(p)
  IN [k \in 1 .. Len(im.px) |-> New(im.px[k])]
Do(s, im, o) ==
  CASE ~On(o, s) -> im.px
    [] s = "despeckle" -> S!Despeckled(im, o.np, o.level, o.tight, o.noise)
    [] s = "reduce" -> Reduced(im, o)
    [] OTHER -> Thinned(im, o)
=============================================================================
