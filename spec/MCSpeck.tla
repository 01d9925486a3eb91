------------------------------ MODULE MCSpeck -------------------------------
(* Despeckling as a step machine: one transition per region looked at;     *)
(* ties may go either way.  Grey images over three levels.                 *)
EXTENDS Speck
CONSTANTS W, H, LEVEL, TIGHT, NOISE
VARIABLES im, px, i, k, seen
vars == <<im, px, i, k, seen>>
Greys == {0, 100 * 65793, 200 * 65793}
L == UsedLevel(im, LEVEL)
Init == /\ im \in {[w |-> W, h |-> H, px |-> p] : p \in [1 .. (W * H) -> Greys]}
        /\ px = im.px /\ i = 0 /\ k = 1 /\ seen = {}
Here == i < L /\ k <= W * H
R == Region(im, px, k)
T == IF Cardinality(R) < Pow2(i) THEN Takes(im, 1, px, R, Limit(1, L, TIGHT, NOISE, i)) ELSE {}
SkipSeen == Here /\ k \in seen /\ k' = k + 1 /\ UNCHANGED <<im, px, i, seen>>
Leave == Here /\ k \notin seen /\ T = {} /\ seen' = seen \union R /\ UNCHANGED <<im, px, i, k>>
Recolour == /\ Here /\ k \notin seen
            /\ \E c \in T : px' = [j \in Places(im) |-> IF j \in R THEN c ELSE px[j]]
            /\ seen' = seen \union R /\ UNCHANGED <<im, i, k>>
NextPass == i < L /\ k > W * H /\ i' = i + 1 /\ k' = 1 /\ seen' = {} /\ UNCHANGED <<im, px>>
Next == SkipSeen \/ Leave \/ Recolour \/ NextPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i >= L
NoNew == NoNewColour(im, px)
Whole == WholeSpecks(im, px)
Big == BigStay(im, px, L)
Root == Rooted(im, px)
Small == Done /\ TIGHT = 0 /\ NOISE = 100 => NoSmallLeft(im, px, L)
SameWithoutTies == Done /\ TieFree(1, {im.px[j] : j \in Places(im)}) => px = Despeckled(im, 1, LEVEL, TIGHT, NOISE)
(* regions only ever merge *)
Merges == [][\A j \in Places(im) : Region(im, px, j) \subseteq Region(im', px', j)]_vars
Ends == <>Done
=============================================================================
