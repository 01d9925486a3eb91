-------------------------------- MODULE Thin --------------------------------
(***************************************************************************)
(* Thinning: every colour except the background is eroded to a skeleton    *)
(* by four-direction parallel thinning.  A colour is a set of pixels       *)
(* <<r, c>>; everything else, including the outside, counts as off.        *)
(***************************************************************************)
EXTENDS Raster

(* the eight neighbours, counterclockwise from east *)
Ring(p) == LET r == p[1] c == p[2]
           IN << <<r, c+1>>, <<r-1, c+1>>, <<r-1, c>>, <<r-1, c-1>>,
                 <<r, c-1>>, <<r+1, c-1>>, <<r+1, c>>, <<r+1, c+1>> >>
N8(p) == {Ring(p)[k] : k \in 1 .. 8}
N4(p) == {Ring(p)[k] : k \in {1, 3, 5, 7}}

(* Yokoi's number: 1 when removing p neither splits nor joins nor opens    *)
(* anything around it                                                      *)
Yokoi(S, p) ==
  LET off == [k \in 1 .. 8 |-> IF Ring(p)[k] \in S THEN 0 ELSE 1]
      nx(k) == (k % 8) + 1
      term(k) == off[k] - off[k] * off[nx(k)] * off[nx(nx(k))]
  IN term(1) + term(3) + term(5) + term(7)
LineEnd(S, p) == Cardinality(N8(p) \cap S) < 2

(* the four directions in the order of the passes *)
NORTH == 1
SOUTH == 2
WEST == 3
EAST == 4
Toward(p, d) == CASE d = NORTH -> <<p[1] - 1, p[2]>> [] d = SOUTH -> <<p[1] + 1, p[2]>>
                  [] d = WEST -> <<p[1], p[2] - 1>>  [] d = EAST -> <<p[1], p[2] + 1>>

(* In colour images a pass never erodes the image's own left, right or     *)
(* bottom border inwards (the bottom right pixel excepted, which the east  *)
(* pass may take); in grey images it does.                                 *)
Kept(w, h, np, d, p) ==
  np = 3 /\ \/ d = WEST /\ p[2] = 0
            \/ d = EAST /\ p[2] = w - 1 /\ p[1] < h - 1
            \/ d = SOUTH /\ p[1] = h - 1

Removable(S, d, p) == /\ Toward(p, d) \notin S
                      /\ ~LineEnd(S, p)
                      /\ Yokoi(S, p) = 1

(* one pass removes all candidates at once *)
Candidates(w, h, np, S, d) == {p \in S : Removable(S, d, p) /\ ~Kept(w, h, np, d, p)}
Pass(w, h, np, S, d) == S \ Candidates(w, h, np, S, d)
Round(w, h, np, S) ==
  Pass(w, h, np, Pass(w, h, np, Pass(w, h, np, Pass(w, h, np, S, NORTH), SOUTH), WEST), EAST)
RECURSIVE Skeleton(_, _, _, _)
Skeleton(w, h, np, S) == LET T == TLCEval(Round(w, h, np, S)) IN IF T = S THEN S ELSE Skeleton(w, h, np, T)

-----------------------------------------------------------------------------
(* connectivity *)
RECURSIVE Spread8(_, _, _)
Spread8(S, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nb == (UNION {N8(p) : p \in front} \cap S) \ acc IN Spread8(S, nb, acc \cup nb)
Part8(S, p) == Spread8(S, {p}, {p})
RECURSIVE Parts8(_)
Parts8(S) == IF S = {} THEN {} ELSE LET P == Part8(S, CHOOSE p \in S : TRUE) IN {P} \cup Parts8(S \ P)
Connected8(S) == S = {} \/ Part8(S, CHOOSE p \in S : TRUE) = S

RECURSIVE Spread4(_, _, _)
Spread4(S, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nb == (UNION {N4(p) : p \in front} \cap S) \ acc IN Spread4(S, nb, acc \cup nb)
Part4(S, p) == Spread4(S, {p}, {p})
RECURSIVE Parts4(_)
Parts4(S) == IF S = {} THEN {} ELSE LET P == Part4(S, CHOOSE p \in S : TRUE) IN {P} \cup Parts4(S \ P)

(* the image's pixels with one ring of outside *)
Frame(w, h) == (-1 .. h) \X (-1 .. w)

(* same parts, same holes *)
KeepsParts(S, T) == \A P \in Parts8(S) : P \cap T # {} /\ Connected8(P \cap T)
KeepsHoles(w, h, S, T) ==
  LET A == Parts4(Frame(w, h) \ S) B == Parts4(Frame(w, h) \ T)
  IN Cardinality(A) = Cardinality(B) /\ \A X \in A : \E Y \in B : X \subseteq Y
KeepsEnds(S, T) == \A p \in S : LineEnd(S, p) => p \in T
NothingLeft(w, h, np, T) == \A d \in 1 .. 4 : Candidates(w, h, np, T, d) = {}

PixelsOf(img, k) == {p \in (0 .. (img.h - 1)) \X (0 .. (img.w - 1)) : Px(img, p[1], p[2]) = k}
=============================================================================
