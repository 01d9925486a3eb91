------------------------------ MODULE Corners -------------------------------
(***************************************************************************)
(* Where an outline is split into curves.  Positions count from 0.  The    *)
(* search sees of every position only how sharp it is: rank[i] orders the  *)
(* angles (0 is the sharpest), cand are the positions below the corner     *)
(* threshold, low those below the threshold that makes a corner always.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* One search, started at a candidate: it goes on as long as it looks less *)
(* than `around' positions past the best one, keeping those just as good.  *)
StartSearch(p, low) == [q |-> p, i |-> p + 1, best |-> p, eq |-> <<>>, out |-> IF p \in low THEN <<p>> ELSE <<>>]
SearchOn(s, last, around) == s.i < s.best + around /\ s.i <= last
SearchStep(s, rank, low) ==
  LET q == s.i
  IN [q |-> q, i |-> q + 1,
      best |-> IF rank[q] < rank[s.best] THEN q ELSE s.best,
      eq |-> IF rank[q] = rank[s.best] THEN Append(s.eq, q) ELSE IF rank[q] < rank[s.best] THEN <<>> ELSE s.eq,
      out |-> IF q \in low THEN Append(s.out, q) ELSE s.out]
SearchResult(s, low) == IF s.best \in low THEN s.out ELSE s.out \o <<s.best>> \o s.eq

RECURSIVE Search(_, _, _, _, _)
Search(s, last, around, rank, low) == IF SearchOn(s, last, around) THEN Search(SearchStep(s, rank, low), last, around, rank, low) ELSE s

(* the scan of a whole outline; an open one begins with a corner and its   *)
(* ends are too close to the edge to be looked at                          *)
RECURSIVE Scan(_, _, _, _, _, _)
Scan(p, last, around, rank, cand, low) ==
  IF p > last THEN <<>>
  ELSE IF p \notin cand THEN Scan(p + 1, last, around, rank, cand, low)
  ELSE LET s == Search(StartSearch(p, low), last, around, rank, low)
       IN SearchResult(s, low) \o Scan(s.q + 1, last, around, rank, cand, low)
First(open, around) == IF open THEN around ELSE 0
Last(open, n, around) == IF open THEN n - 1 - around ELSE n - 1
Found(open, n, around, rank, cand, low) ==
  (IF open THEN <<0>> ELSE <<>>) \o Scan(First(open, around), Last(open, n, around), around, rank, cand, low)

(* neighbouring corners: on request the second of two is dropped, and the  *)
(* last one always if it follows the one before, or if it is the end of    *)
(* the outline and the first one is its beginning                          *)
RECURSIVE Thinned(_, _, _)
Thinned(q, j, remove) ==
  IF j >= Len(q) THEN <<>>
  ELSE <<q[j]>> \o Thinned(q, IF remove /\ q[j + 1] = q[j] + 1 THEN j + 2 ELSE j + 1, remove)
Kept(q, end, remove) ==
  IF q = <<>> THEN <<>>
  ELSE LET k == Thinned(q, 1, remove)
           z == q[Len(q)]
       IN IF k # <<>> /\ (z = k[Len(k)] + 1 \/ (z = end /\ q[1] = 0)) THEN k ELSE Append(k, z)

(* outlines too short for the surround wished use a smaller one or have no *)
(* corners at all                                                          *)
Around(n, wished) == IF n > 2 * wished + 2 THEN wished
                     ELSE IF n >= 3 /\ (n - 3) \div 2 >= 2 THEN (n - 3) \div 2 ELSE 0
NoSearch(open, n, around) == around = 0 \/ (open /\ n - 1 <= 2 * around)

(* -- angles of points of the grid -- *)
Point(pts, i) == pts[(i % Len(pts)) + 1]
RECURSIVE Sum(_, _, _, _, _)
Sum(pts, i, step, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET j == (i + Len(pts) + step) % Len(pts)
       IN Sum(pts, j, step, k - 1, <<acc[1] + Point(pts, j)[1], acc[2] + Point(pts, j)[2]>>)
Toward(pts, i, step, around) ==
  LET s == Sum(pts, i, step, around, <<0, 0>>) p == Point(pts, i)
  IN <<s[1] - around * p[1], s[2] - around * p[2]>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* the angle at position i as the square of its cosine with the cosine's   *)
(* sign, sc / nn; without a direction on one side it counts as right angle *)
Angle(pts, i, around) ==
  LET a == Toward(pts, i, -1, around) b == Toward(pts, i, 1, around)
      d == a[1] * b[1] + a[2] * b[2]
      m == (a[1] * a[1] + a[2] * a[2]) * (b[1] * b[1] + b[2] * b[2])
      Norm(v) == LET x == Abs(v[1]) y == Abs(v[2]) IN IF x > y THEN <<x, y>> ELSE <<y, x>>
  IN IF m = 0 THEN [sc |-> 0, nn |-> 1, d |-> 0, k |-> {}]
     ELSE [sc |-> d * Abs(d), nn |-> m, d |-> d, k |-> {Norm(a), Norm(b)}]
(* thresholds come as 10000 times such a square *)
Below(a, t) == a.sc * 10000 >= t * a.nn
Unsure(a, t) == Abs(a.sc * 10000 - t * a.nn) <= 5 * a.nn
Sharper(a, b) == a.sc * b.nn > b.sc * a.nn
Same(a, b) == a.sc * b.nn = b.sc * a.nn
(* single precision may see a difference where there is none, or none      *)
(* where there is a tiny one                                               *)
Twins(a, b) == a.nn = b.nn /\ a.d = b.d /\ a.k = b.k
Close(a, b) == Abs(a.sc * b.nn - b.sc * a.nn) <= (a.nn * b.nn) \div 5000
CannotTell(a, b) == Close(a, b) /\ ~Twins(a, b)

(* -- knees: single steps round the corner of a pixel -- *)
Knee(p, c, n, cw) ==
  LET a == <<p[1] - c[1], p[2] - c[2]>> b == <<n[1] - c[1], n[2] - c[2]>>
      One(v) == (v[1] = 0) # (v[2] = 0)
      left == \/ a[2] = 1 /\ b[1] = -1
              \/ a[1] = 1 /\ b[2] = 1
              \/ a[2] = -1 /\ b[1] = 1
              \/ a[1] = -1 /\ b[2] = -1
      right == \/ a[1] = -1 /\ b[2] = 1
               \/ a[2] = 1 /\ b[1] = 1
               \/ a[1] = 1 /\ b[2] = -1
               \/ a[2] = -1 /\ b[1] = -1
  IN One(a) /\ One(b) /\ IF cw THEN right ELSE left
(* how many points of the curve between two corners are left *)
RECURSIVE LeftOver(_, _, _, _)
LeftOver(c, i, prev, cw) ==
  IF i >= Len(c) THEN 0
  ELSE IF Knee(prev, c[i], c[i + 1], cw) THEN LeftOver(c, i + 1, prev, cw)
  ELSE 1 + LeftOver(c, i + 1, c[i], cw)
Size(c, cw) == 2 + LeftOver(c, 2, c[1], cw)
=============================================================================
