------------------------------ MODULE JCorners ------------------------------
(***************************************************************************)
(* Verdict on traces with an error threshold so large that curves are only *)
(* split at corners.  t.sur, t.thr, t.alw, t.rm are the corner options     *)
(* (thresholds as in Corners), t.line the line threshold in 1/256 pixel.   *)
(***************************************************************************)
EXTENDS Fit, Judge
C == INSTANCE Corners

Angles(o, k) == [i \in C!First(o.open, k) .. C!Last(o.open, Len(o.pts), k) |-> C!Angle(o.pts, i, k)]
Around(o, t) == C!Around(Len(o.pts), t.sur)
Cand(A, t) == {i \in DOMAIN A : C!Below(A[i], t.thr)}
Low(A, t) == {i \in DOMAIN A : C!Below(A[i], t.alw)}

(* single precision cannot change the outcome *)
Clear(o, A, k, t) ==
  LET cand == Cand(A, t)
  IN /\ \A i \in DOMAIN A : ~C!Unsure(A[i], t.thr) /\ ~C!Unsure(A[i], t.alw)
     /\ \A i \in cand : \A j \in (i + 1) .. (i + k) : j \in cand => ~C!CannotTell(A[i], A[j])

CornersOf(o, t) ==
  LET n == Len(o.pts) k == Around(o, t)
  IN IF C!NoSearch(o.open, n, k) THEN <<>>
     ELSE LET A == TLCEval(Angles(o, k))
              cand == TLCEval(Cand(A, t))
              rank == TLCEval([i \in DOMAIN A |-> IF i \in cand THEN Cardinality({j \in cand : C!Sharper(A[j], A[i])}) ELSE n + 1])
              low == Low(A, t)
          IN IF ~Clear(o, A, k, t) THEN <<-1>>
             ELSE C!Kept(C!Found(o.open, n, k, rank, cand, low), n - (IF o.open THEN 2 ELSE 1), t.rm)

(* the curves between the corners, as sequences of points *)
Piece(o, a, b) == [i \in 1 .. (b - a + 1) |-> C!Point(o.pts, a + i - 1)]
Curves(o, cs) ==
  LET n == Len(o.pts)
      All == [j \in 1 .. Len(cs) |-> Piece(o, cs[j], IF j < Len(cs) THEN cs[j + 1] ELSE IF o.open THEN n - 1 ELSE cs[1] + n)]
  IN IF cs = <<>> THEN <<Piece(o, 0, n - 1)>>
     ELSE All

(* the whole root of a number below 2^31 *)
ISqrt(x) ==
  LET RECURSIVE R(_, _)
      R(lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN R(m, hi) ELSE R(lo, m - 1)
  IN R(0, 46340)

(* mean distance of the curve from the line through its ends, at 16 places *)
At16(f, k) ==
  LET u == 16 - k
      B(i) == (u * u * u * f[1][i] + 3 * k * u * u * f[2][i] + 3 * k * k * u * f[3][i] + k * k * k * f[4][i]) \div 4096
  IN <<B(1), B(2)>>
Small(f) == \A i \in 1 .. 4 : f[i][1] \in -60000 .. 60000 /\ f[i][2] \in -60000 .. 60000
Mean(s) ==
  LET a == s.f[1] b == s.f[4]
      len == ISqrt((b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2]))
      D(k) == LET p == At16(s.f, k)
              IN C!Abs((b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])) \div len
      RECURSIVE Total(_)
      Total(k) == IF k = 0 THEN 0 ELSE D(k) + Total(k - 1)
  IN Total(15) \div 16
Chord2(s) == LET dx == (s.f[4][1] - s.f[1][1]) \div 256 dy == (s.f[4][2] - s.f[1][2]) \div 256 IN dx * dx + dy * dy
Limit(s, t) == LET half == Chord2(s) * 128 IN IF half > t.line THEN t.line ELSE half

Splits(o, l, t) ==
  LET cs == CornersOf(o, t)
  IN IF cs = <<-1>> THEN {}
     ELSE IF cs = <<>> /\ ~o.open THEN Clause("split without corners", Len(l.s) <= 2)
     ELSE LET P == Curves(o, cs)
          IN IF Len(P) # Len(l.s) THEN {"number of curves"}
             ELSE Clause("begins at a corner", \A j \in 1 .. Len(P) : l.s[j].f[1] = Scaled(P[j][1]))
                  \cup Clause("ends at a corner", \A j \in 1 .. Len(P) : l.s[j].f[4] = Scaled(P[j][Len(P[j])]))
                  \cup Clause("short curves are lines", \A j \in 1 .. Len(P) : C!Size(P[j], o.cw) < 4 => l.s[j].d = 1)
                  \cup Clause("no lines wished", t.line = 0 => \A j \in 1 .. Len(P) : C!Size(P[j], o.cw) >= 4 => l.s[j].d = 3)
                  \cup Clause("straight enough", t.line > 0 /\ ~t.wide => \A j \in 1 .. Len(P) :
                         C!Size(P[j], o.cw) >= 4 /\ Small(l.s[j].f) /\ Chord2(l.s[j]) > 0 =>
                           /\ l.s[j].d = 3 => 2 * Mean(l.s[j]) + 8 >= Limit(l.s[j], t)
                           /\ l.s[j].d = 1 => Mean(l.s[j]) * 2 <= 3 * Limit(l.s[j], t) + 16)

CornersFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null \/ t.fatal # 0 THEN {"no result"}
  ELSE LET ls == t.res.lists os == t.loops
       IN IF Len(ls) # Len(os) THEN {"list per outline"}
          ELSE UNION {Splits(os[i], ls[i], t) : i \in 1 .. Len(ls)}
(* how many outlines are decided *)
Undecided(t) == IF ~Crashed(t) /\ \A i \in 1 .. Len(t.loops) : CornersOf(t.loops[i], t) # <<-1>> THEN {} ELSE {"undecided"}
=============================================================================
