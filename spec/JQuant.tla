------------------------------- MODULE JQuant -------------------------------
EXTENDS Quant, Judge
QuantFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF Len(t.out) # Len(t.px) THEN {"size"}
  ELSE Clause("size", t.size = <<t.w, t.h, t.np>>)
       \union Clause("too-many-colours", AtMost(t.n, t.out, t.bg, t.np))
       \union Clause("equal-colours-differ", SameToSame(t.px, t.out))
       \union Clause("background-changed", BgStays(t.px, t.out, t.bg, t.np))
       \union Clause("few-colours-merged", Separated(t.px, t.out, t.n, t.bg))
       \union Clause("not-the-nearest-palette-colour", Len(t.px) > 0 => Reductions(t.px, t.np, t.n, t.bg, t.out))
       \union Clause("message", t.msgs = 0)
       \union Clause("leak", t.live = 0)
=============================================================================
