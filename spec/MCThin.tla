------------------------------- MODULE MCThin -------------------------------
(* Thinning as a step machine: one transition per directional pass, for    *)
(* every set of pixels of a W x H image.                                   *)
EXTENDS Thin
CONSTANTS W, H
VARIABLES start, now, np, d, removed, done
vars == <<start, now, np, d, removed, done>>

Init == /\ start \in SUBSET ((0 .. (H - 1)) \X (0 .. (W - 1)))
        /\ now = start /\ np \in {1, 3} /\ d = NORTH /\ removed = FALSE /\ done = FALSE
DoPass == /\ ~done /\ d <= 4
          /\ now' = Pass(W, H, np, now, d)
          /\ removed' = (removed \/ now' # now)
          /\ d' = d + 1 /\ UNCHANGED <<start, np, done>>
Again == /\ ~done /\ d = 5 /\ removed /\ d' = NORTH /\ removed' = FALSE /\ UNCHANGED <<start, now, np, done>>
Stop  == /\ ~done /\ d = 5 /\ ~removed /\ done' = TRUE /\ UNCHANGED <<start, now, np, d, removed>>
Next == DoPass \/ Again \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnlyRemoves == now \subseteq start
Parts == KeepsParts(start, now)
Holes == KeepsHoles(W, H, start, now)
EndsStay == KeepsEnds(start, now)
Fix == done => NothingLeft(W, H, np, now) /\ now = Skeleton(W, H, np, start)
Shrinks == [][now' # now => Cardinality(now') < Cardinality(now)]_vars
Terminates == <>done
=============================================================================
