------------------------------- MODULE JThin --------------------------------
(* Verdict on recorded thinning runs.                                      *)
EXTENDS Thin, Judge

ThinFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE LET im == [w |-> t.w, h |-> t.h, px |-> t.px]
           ot == [w |-> t.w, h |-> t.h, px |-> t.out]
           cols == {t.px[k] : k \in 1 .. Len(t.px)} \ {t.bg}
           S(k) == PixelsOf(im, k)
           T(k) == PixelsOf(ot, k)
       IN IF Len(t.out) # Len(t.px) THEN {"size"}
          ELSE Clause("size", t.size = <<t.w, t.h, t.np>>)
               \union Clause("gained-colour", \A k \in 1 .. Len(t.px) : t.out[k] \in {t.px[k], t.bg})
               \union Clause("region-split-or-lost", \A k \in cols : KeepsParts(S(k), T(k)))
               \union Clause("hole-lost-or-made", \A k \in cols : KeepsHoles(t.w, t.h, S(k), T(k)))
               \union Clause("line-end-removed", \A k \in cols : KeepsEnds(S(k), T(k)))
               \union Clause("not-thin", \A k \in cols : NothingLeft(t.w, t.h, t.np, T(k)))
               \union Clause("not-the-four-direction-result", \A k \in cols : T(k) = Skeleton(t.w, t.h, t.np, S(k)))
               \union Clause("not-idempotent", t.again = t.out)
               \union Clause("message", t.msgs = 0)
=============================================================================
