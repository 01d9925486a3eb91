------------------------------ MODULE MCQuant -------------------------------
(* Splitting, choosing and repainting as steps, for every image of LEN     *)
(* pixels over PAL and every number of colours up to MAXN.                 *)
EXTENDS Quant
CONSTANTS PAL, LEN, MAXN, BGS
VARIABLES px, n, bg, boxes, out, at, phase
vars == <<px, n, bg, boxes, out, at, phase>>

F == Histogram(px)
Pal == [i \in 1 .. Len(boxes) |-> Mean(boxes[i], F)]
NoBg == 16777216

Init == /\ px \in [1 .. LEN -> PAL] /\ n \in 1 .. MAXN /\ bg \in BGS
        /\ boxes = <<{Cell(px[i]) : i \in 1 .. LEN}>>
        /\ out = <<>> /\ at = 1 /\ phase = "cut"
Bg == IF bg = NoBg THEN 0 - 1 ELSE bg
Halve == /\ phase = "cut" /\ CanSplit(boxes, n)
         /\ boxes' = Split(boxes)
         /\ UNCHANGED <<px, n, bg, out, at, phase>>
Paint == /\ phase = "cut" /\ ~CanSplit(boxes, n)
         /\ phase' = "map" /\ UNCHANGED <<px, n, bg, boxes, out, at>>
\* ties are resolved one way for the whole image: the first palette entry
First(k) == LET s == Nearest(Pal, k) IN Pal[Least({i \in 1 .. Len(Pal) : Pal[i] \in s})]
Pixel == /\ phase = "map" /\ at <= LEN
         /\ LET p == First(Cell(px[at]))
            IN out' = Append(out, IF Bg >= 0 /\ p = First(Cell(Bg)) THEN Bg ELSE Rgb(p))
         /\ at' = at + 1 /\ UNCHANGED <<px, n, bg, boxes, phase>>
Done == phase = "map" /\ at > LEN
Next == Halve \/ Paint \/ Pixel \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Partition == /\ UNION {boxes[i] : i \in 1 .. Len(boxes)} = {Cell(px[i]) : i \in 1 .. LEN}
             /\ \A i \in 1 .. Len(boxes) : boxes[i] # {}
             /\ \A i, j \in 1 .. Len(boxes) : i # j => boxes[i] \cap boxes[j] = {}
             /\ Len(boxes) <= n
\* a palette colour lies inside its box
Inside == \A i \in 1 .. Len(boxes) : \A c \in 1 .. 3 :
            2 * Lo(boxes[i], c) <= Pal[i][c] /\ Pal[i][c] <= 2 * Hi(boxes[i], c) + 2
Alone == phase = "map" /\ Cardinality({Cell(px[i]) : i \in 1 .. LEN}) <= n => \A i \in 1 .. Len(boxes) : Cardinality(boxes[i]) = 1
Guarantees == Done => /\ AtMost(n, out, Bg, 3)
                      /\ SameToSame(px, out)
                      /\ BgStays(px, out, Bg, 3)
                      /\ Separated(px, out, n, Bg)
                      /\ Reductions(px, 3, n, Bg, out)
Ends == <>Done
=============================================================================
