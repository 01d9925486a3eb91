------------------------------- MODULE JSpeck -------------------------------
EXTENDS Speck, Judge
SpeckFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF Len(t.out) # Len(t.px) THEN {"size"}
  ELSE LET im == [w |-> t.w, h |-> t.h, px |-> t.px]
           L == UsedLevel(im, t.level)
           cols == {t.px[k] : k \in 1 .. Len(t.px)}
       IN Clause("size", t.size = <<t.w, t.h, t.np>>)
          \union Clause("new-colour", NoNewColour(im, t.out))
          \union Clause("speck-torn", WholeSpecks(im, t.out))
          \union Clause("large-region-changed", BigStay(im, t.out, L))
          \union Clause("colour-not-from-neighbour", Rooted(im, t.out))
          \union Clause("speck-left", t.tight = 0 /\ t.noise = 100 => NoSmallLeft(im, t.out, L))
          \union Clause("not-the-most-similar-colour", TieFree(t.np, cols) => t.out = Despeckled(im, t.np, t.level, t.tight, t.noise))
          \union Clause("message", t.msgs = 0)

\* a line winding through the whole bitmap: no region is smaller than a column less
\* one pixel, so a level whose specks are smaller than that changes nothing (BigStay)
WindingFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE Clause("large-region-changed", Pow2(t.level - 1) < t.h => t.changed = 0) \union Clause("message", t.msgs = 0)
=============================================================================
