------------------------------- MODULE MCDist -------------------------------
(* The two sweeps as steps over every W x H image of the grey values GREYS. *)
EXTENDS Dist
CONSTANTS W, H, GREYS
VARIABLES g, d, at, up
vars == <<g, d, at, up>>
Init == /\ g \in [1 .. W * H -> GREYS] /\ d = Start(g, W, H) /\ at = 1 /\ up = FALSE
Down == /\ ~up /\ at <= W * H
        /\ d' = Relax(d, g, W, H, (at - 1) % W, (at - 1) \div W, UpLeft)
        /\ at' = at + 1 /\ UNCHANGED <<g, up>>
Turn == ~up /\ at > W * H /\ up' = TRUE /\ at' = W * H /\ UNCHANGED <<g, d>>
Up == /\ up /\ at >= 1
      /\ d' = Relax(d, g, W, H, (at - 1) % W, (at - 1) \div W, DownRight)
      /\ at' = at - 1 /\ UNCHANGED <<g, up>>
Next == Down \/ Turn \/ Up
Done == up /\ at = 0
NeverBelow == \A p \in 1 .. W * H : d[p] >= Exact(g, W, H)[p]
ExactIfUniform == Done /\ Uniform(g) => d = Exact(g, W, H) /\ NoShortcut(d, g, W, H)
WhiteIsZero == \A p \in 1 .. W * H : (d[p] = 0) = (g[p] = 255)
Falls == [][\A p \in 1 .. W * H : d'[p] <= d[p]]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
