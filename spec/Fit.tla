-------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Curve fitting seen from outside: an outline (a closed loop or an open   *)
(* line of grid points) becomes one chain of splines.                      *)
(*                                                                         *)
(* A result list is [color, cw, open, s]; each spline also carries the bit *)
(* patterns b of its two end points, so "exactly" means exactly.           *)
(***************************************************************************)
EXTENDS Outline, Geom

(* -- structure -- *)
Finite(l) == \A i \in 1 .. Len(l.s) : l.s[i].ok /\ l.s[i].d \in {1, 3}
Chained(l) == \A i \in 2 .. Len(l.s) : l.s[i].b[1] = l.s[i - 1].b[2]
Returns(l) == l.open \/ l.s[Len(l.s)].b[2] = l.s[1].b[1]

(* end points of the splines of a chain, in order *)
Ends(l) == <<l.s[1].f[1]>> \o [i \in 1 .. Len(l.s) |-> l.s[i].f[4]]

(* E[j..] appears in this order along the outline, starting the search at  *)
(* position i; the outline is pts, read around once for a closed one       *)
RECURSIVE Follows(_, _, _, _, _)
Follows(E, j, pts, i, last) ==
  IF j > Len(E) THEN TRUE
  ELSE IF i > last THEN FALSE
  ELSE LET p == pts[((i - 1) % Len(pts)) + 1]
       IN IF Scaled(p) = E[j] THEN Follows(E, j + 1, pts, i + 1, last)
          ELSE Follows(E, j, pts, i + 1, last)

(* without smoothing every spline begins and ends on the outline, in the   *)
(* outline's order, once around (a spline may be a single point: the end   *)
(* of an open line can be a corner)                                        *)
RECURSIVE Squeeze(_, _)
Squeeze(E, i) == IF i > Len(E) THEN <<>>
                 ELSE IF i > 1 /\ E[i] = E[i - 1] THEN Squeeze(E, i + 1)
                 ELSE <<E[i]>> \o Squeeze(E, i + 1)
EndsOnOutline(o, l) ==
  LET E == Squeeze(Ends(l), 1) n == Len(o.pts)
  IN IF o.open
     THEN E[1] = Scaled(o.pts[1]) /\ E[Len(E)] = Scaled(o.pts[n]) /\ Follows(E, 1, o.pts, 1, n)
     ELSE \E i \in 1 .. n : Scaled(o.pts[i]) = E[1] /\ Follows(E, 2, o.pts, i + 1, i + n)

(* -- accuracy -- *)
Closed(o) == IF o.open THEN o.pts ELSE Append(o.pts, o.pts[1])
ScaledPts(pts) == [i \in 1 .. Len(pts) |-> Scaled(pts[i])]
OutlineNearChain(o, l, t) ==
  LET P == TLCEval(Poly(l.s)) IN \A i \in 1 .. Len(o.pts) : NearPoly(Scaled(o.pts[i]), P, t)
ChainNearOutline(o, l, t) ==
  LET P == TLCEval(Poly(l.s)) Q == TLCEval(ScaledPts(Closed(o)))
  IN \A i \in 1 .. Len(P) : NearPoly(P[i], Q, t)

(* -- corners: a point between two straight perpendicular runs of at least *)
(* n steps each                                                            *)
At(pts, i) == pts[((i - 1) % Len(pts)) + 1]
Dir(pts, i) == LET p == At(pts, i + Len(pts) - 1) q == At(pts, i + Len(pts)) IN <<q[1] - p[1], q[2] - p[2]>>
RightAngle(o, i, n) ==
  /\ ~o.open /\ Len(o.pts) >= 4 * n
  /\ \A k \in 0 .. (n - 1) : Dir(o.pts, i + Len(o.pts) - k) = Dir(o.pts, i)
  /\ \A k \in 1 .. n : Dir(o.pts, i + k) = Dir(o.pts, i + 1)
  /\ Dir(o.pts, i) # Dir(o.pts, i + 1)
  /\ Dir(o.pts, i)[1] * Dir(o.pts, i + 1)[1] + Dir(o.pts, i)[2] * Dir(o.pts, i + 1)[2] = 0
CornersKept(o, l, n) ==
  LET E == Ends(l) S == {E[j] : j \in 1 .. Len(E)}
  IN \A i \in 1 .. Len(o.pts) : RightAngle(o, i, n) => Scaled(o.pts[i]) \in S
(* a straight side between two such corners is drawn as one straight line  *)
SidesStraight(o, l, n) ==
  \A i \in 1 .. Len(o.pts) : \A m \in (2 * n) .. (Len(o.pts) - 1) :
     /\ RightAngle(o, i, n) /\ RightAngle(o, i + m, n)
     /\ \A k \in 1 .. m : Dir(o.pts, i + k) = Dir(o.pts, i + 1)
     => \E j \in 1 .. Len(l.s) : /\ l.s[j].f[1] = Scaled(o.pts[i])
                                 /\ l.s[j].f[4] = Scaled(At(o.pts, i + m))
                                 /\ l.s[j].d = 1 \/ \A q \in {2, 3} : Cross(l.s[j].f[1], l.s[j].f[4], l.s[j].f[q]) = 0

(* -- painting -- *)
(* all pixels within k of (r,c) exist and have its colour *)
Deep(img, r, c, k) ==
  /\ r >= k /\ c >= k /\ r + k < img.h /\ c + k < img.w
  /\ \A a \in (r - k) .. (r + k), b \in (c - k) .. (c + k) : Px(img, a, b) = Px(img, r, c)
Centre(img, r, c) == <<One * c + One \div 2, One * (img.h - 1 - r) + One \div 2>>
RECURSIVE FitPaintAt(_, _, _, _, _)
FitPaintAt(polys, ls, bg, p, i) ==
  IF i = 0 THEN bg
  ELSE IF Wind(polys[i], p) # 0 THEN (IF ls[i].cw THEN bg ELSE ls[i].color)
  ELSE FitPaintAt(polys, ls, bg, p, i - 1)
(* the painting shows the bitmap's colour at every m-th pixel that is      *)
(* deeper than k inside its colour                                         *)
FitPaintOK(img, bg, ls, k, m) ==
  LET polys == TLCEval([i \in 1 .. Len(ls) |-> Poly(ls[i].s)])
  IN \A r \in Rows(img), c \in Cols(img) :
       (r * img.w + c) % m = 0 /\ Deep(img, r, c, k) =>
         LET want == Px(img, r, c) got == FitPaintAt(polys, ls, bg, Centre(img, r, c), Len(ls))
         IN got = want \/ (want = bg /\ InMixedHole(img, bg, r, c))
=============================================================================
