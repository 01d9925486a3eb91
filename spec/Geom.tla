-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Plane geometry in fixed point: coordinates are integers in 1/256 of a   *)
(* pixel.  A spline is a record [d, f]: degree 1 or 3 and the four points  *)
(* start, control 1, control 2, end.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

One == 256
AbsG(x) == IF x < 0 THEN -x ELSE x

(* integer square root, by bisection *)
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Root(n) == RootIn(n, 0, 46340)

(* point of a cubic at k/m; the division rounds towards minus infinity *)
Bez(p, k, m) ==
  LET u == m - k
      a == u * u * u  b == 3 * u * u * k  c == 3 * u * k * k  d == k * k * k
      At(i) == (a * p[1][i] + b * p[2][i] + c * p[3][i] + d * p[4][i]) \div (m * m * m)
  IN <<At(1), At(2)>>

(* a spline as a polyline, without its first point *)
Pieces == 8
Flat(s) == IF s.d = 1 THEN <<s.f[4]>>
           ELSE [k \in 1 .. Pieces |-> IF k = Pieces THEN s.f[4] ELSE Bez(s.f, k, Pieces)]

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE Flat(ss[i]) \o FlatFrom(ss, i + 1)
(* a chain of splines as a polyline *)
Poly(ss) == IF Len(ss) = 0 THEN <<>> ELSE <<ss[1].f[1]>> \o FlatFrom(ss, 1)

Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2])

(* winding number of the closed polygon P around p (p not on an edge) *)
RECURSIVE WindFrom(_, _, _)
WindFrom(P, p, i) ==
  IF i = 0 THEN 0
  ELSE LET a == P[i]
           b == IF i = Len(P) THEN P[1] ELSE P[i + 1]
           w == IF a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a, b, p) > 0 THEN 1
                ELSE IF a[2] > p[2] /\ b[2] <= p[2] /\ Cross(a, b, p) < 0 THEN -1 ELSE 0
       IN w + WindFrom(P, p, i - 1)
Wind(P, p) == WindFrom(P, p, Len(P))

Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

(* is p within t of the segment a-b?  (t grows by less than 2 units of     *)
(* 1/256 through the rounding of the square root)                          *)
NearSeg(p, a, b, t) ==
  /\ p[1] + t >= (IF a[1] < b[1] THEN a[1] ELSE b[1])
  /\ p[1] - t <= (IF a[1] < b[1] THEN b[1] ELSE a[1])
  /\ p[2] + t >= (IF a[2] < b[2] THEN a[2] ELSE b[2])
  /\ p[2] - t <= (IF a[2] < b[2] THEN b[2] ELSE a[2])
  /\ LET L == Dist2(a, b)
         dot == (p[1] - a[1]) * (b[1] - a[1]) + (p[2] - a[2]) * (b[2] - a[2])
     IN IF L = 0 \/ dot <= 0 THEN Dist2(p, a) <= t * t
        ELSE IF dot >= L THEN Dist2(p, b) <= t * t
        ELSE AbsG(Cross(a, b, p)) <= t * (Root(L) + 1)

NearPoly(p, P, t) == IF Len(P) = 1 THEN Dist2(p, P[1]) <= t * t
                     ELSE \E i \in 1 .. (Len(P) - 1) : NearSeg(p, P[i], P[i + 1], t)

Scaled(q) == <<One * q[1], One * q[2]>>
=============================================================================
