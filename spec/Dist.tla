-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Distance of every pixel to the nearest white pixel or to the world      *)
(* outside the bitmap.  A step into a pixel costs its darkness (0..255)    *)
(* times 1000 along a row or column and times 1414 diagonally; outside is  *)
(* one straight step from every border pixel.  Exact is the shortest path, *)
(* Swept what one sweep down and one sweep up find.  They agree when all   *)
(* non-white pixels are equally dark.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Far == 1000000000
Grey(np, v) == IF np = 1 THEN v % 256
               ELSE (30 * (v \div 65536) + 59 * ((v \div 256) % 256) + 11 * (v % 256) + 50) \div 100
\* g: grey values 1..w*h in reading order
At(w, x, y) == (y * w) + x + 1
Border(w, h, x, y) == x = 0 \/ y = 0 \/ x = w - 1 \/ y = h - 1
Start(g, w, h) == [p \in 1 .. w * h |->
   LET x == (p - 1) % w y == (p - 1) \div w
   IN IF g[p] = 255 THEN 0 ELSE IF Border(w, h, x, y) THEN 1000 * (255 - g[p]) ELSE Far]
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE SetMin(_, _)
SetMin(S, m) == IF S = {} THEN m ELSE LET e == CHOOSE e \in S : TRUE IN SetMin(S \ {e}, MinOf(e, m))
\* relax one pixel against the neighbours at the given offsets
Relax(d, g, w, h, x, y, offs) ==
  LET p == At(w, x, y)
      cand == {LET q == At(w, x + o[1], y + o[2])
               IN d[q] + (IF o[1] # 0 /\ o[2] # 0 THEN 1414 ELSE 1000) * (255 - g[p])
               : o \in {o \in offs : x + o[1] \in 0 .. w - 1 /\ y + o[2] \in 0 .. h - 1}}
  IN [d EXCEPT ![p] = SetMin(cand, d[p])]
UpLeft == {<<-1, -1>>, <<0, -1>>, <<1, -1>>, <<-1, 0>>}
DownRight == {<<1, 1>>, <<0, 1>>, <<-1, 1>>, <<1, 0>>}
Around == UpLeft \union DownRight

RECURSIVE SweepDown(_, _, _, _, _)
SweepDown(d, g, w, h, p) ==
  IF p > w * h THEN d ELSE SweepDown(Relax(d, g, w, h, (p - 1) % w, (p - 1) \div w, UpLeft), g, w, h, p + 1)
RECURSIVE SweepUp(_, _, _, _, _)
SweepUp(d, g, w, h, p) ==
  IF p < 1 THEN d ELSE SweepUp(Relax(d, g, w, h, (p - 1) % w, (p - 1) \div w, DownRight), g, w, h, p - 1)
Swept(g, w, h) == SweepUp(SweepDown(Start(g, w, h), g, w, h, 1), g, w, h, w * h)
RECURSIVE Settle(_, _, _, _)
Settle(d, g, w, h) ==
  LET e == SweepUp(SweepDown(d, g, w, h, 1), g, w, h, w * h) IN IF e = d THEN d ELSE Settle(e, g, w, h)
Exact(g, w, h) == Settle(Start(g, w, h), g, w, h)

Uniform(g) == Cardinality({g[p] : p \in 1 .. Len(g)} \ {255}) <= 1
\* nothing better is available next door: the declarative reading of "shortest"
NoShortcut(d, g, w, h) ==
  \A p \in 1 .. w * h : LET x == (p - 1) % w y == (p - 1) \div w IN Relax(d, g, w, h, x, y, Around) = d

\* the largest distance in the 3x3 neighbourhood of a pixel, as used for the stroke width there
WidthAt(d, w, h, x, y) ==
  LET S == {d[At(w, u, v)] : u \in {x - 1, x, x + 1} \cap (0 .. w - 1), v \in {y - 1, y, y + 1} \cap (0 .. h - 1)}
  IN CHOOSE m \in S : \A e \in S : e <= m
=============================================================================
