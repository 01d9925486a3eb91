------------------------------ MODULE Outline -------------------------------
(***************************************************************************)
(* Outline extraction: the walk along pixel sides that turns a bitmap into *)
(* closed loops, and the declarative facts that make the loops the exact   *)
(* colour boundaries of the bitmap.                                        *)
(*                                                                         *)
(* A side is <<r, c, e>>: side e of pixel (r,c).  Every side is walked in  *)
(* the direction that keeps its pixel on the left, so its end corner is    *)
(* determined by the side alone.  Corners are Cartesian: x to the right,   *)
(* y upwards, (0,0) at the bottom left of the image.                       *)
(***************************************************************************)
EXTENDS Raster

TOP == 1
LEFT == 2
BOTTOM == 3
RIGHT == 4
NoSide == <<-1, -1, 0>>

(* Does side e of pixel (r,c) separate colour k from something else? *)
IsSide(img, r, c, e, k) ==
  /\ IsCol(img, r, c, k)
  /\ CASE e = TOP    -> ~IsCol(img, r - 1, c, k)
       [] e = BOTTOM -> ~IsCol(img, r + 1, c, k)
       [] e = LEFT   -> ~IsCol(img, r, c - 1, k)
       [] e = RIGHT  -> ~IsCol(img, r, c + 1, k)

Free(img, marked, r, c, e, k) ==
  /\ InImg(img, r, c)
  /\ <<r, c, e>> \notin marked
  /\ IsSide(img, r, c, e, k)

(* Corner reached when the side has been walked. *)
EndOf(img, s) ==
  LET r == s[1]  c == s[2]  e == s[3]
  IN  CASE e = TOP    -> <<c, img.h - r>>
        [] e = LEFT   -> <<c, img.h - r - 1>>
        [] e = BOTTOM -> <<c + 1, img.h - r - 1>>
        [] e = RIGHT  -> <<c + 1, img.h - r>>

StartOf(img, s) ==
  LET r == s[1]  c == s[2]  e == s[3]
  IN  CASE e = TOP    -> <<c + 1, img.h - r>>
        [] e = LEFT   -> <<c, img.h - r>>
        [] e = BOTTOM -> <<c, img.h - r - 1>>
        [] e = RIGHT  -> <<c + 1, img.h - r - 1>>

(* Around the end corner of a side there are three candidate               *)
(* continuations: straight on along the neighbour (S), across the corner   *)
(* to the diagonal pixel (D), and turning around the own pixel (T).        *)
Straight(s) ==
  CASE s[3] = TOP    -> <<s[1], s[2] - 1, TOP>>
    [] s[3] = RIGHT  -> <<s[1] - 1, s[2], RIGHT>>
    [] s[3] = BOTTOM -> <<s[1], s[2] + 1, BOTTOM>>
    [] s[3] = LEFT   -> <<s[1] + 1, s[2], LEFT>>
Diagonal(s) ==
  CASE s[3] = TOP    -> <<s[1] - 1, s[2] - 1, RIGHT>>
    [] s[3] = RIGHT  -> <<s[1] - 1, s[2] + 1, BOTTOM>>
    [] s[3] = BOTTOM -> <<s[1] + 1, s[2] + 1, LEFT>>
    [] s[3] = LEFT   -> <<s[1] + 1, s[2] - 1, TOP>>
Turn(s) ==
  CASE s[3] = TOP    -> <<s[1], s[2], LEFT>>
    [] s[3] = RIGHT  -> <<s[1], s[2], TOP>>
    [] s[3] = BOTTOM -> <<s[1], s[2], RIGHT>>
    [] s[3] = LEFT   -> <<s[1], s[2], BOTTOM>>

(* The diagonal step of an outer walk is refused when another colour has   *)
(* already been joined across this corner the other way round: the other   *)
(* two pixels at the corner (straight neighbour's cell P and the cell Q    *)
(* above it) have both of their walked-together sides marked.              *)
Crossed(marked, s) ==
  LET r == s[1]  c == s[2]
      M(rr, cc, e) == <<rr, cc, e>> \in marked
  IN CASE s[3] = TOP ->
            \/ M(r - 1, c, LEFT) /\ M(r, c - 1, TOP)
            \/ M(r - 1, c, BOTTOM) /\ M(r, c - 1, RIGHT)
       [] s[3] = RIGHT ->
            \/ M(r, c + 1, LEFT) /\ M(r - 1, c, BOTTOM)
            \/ M(r, c + 1, TOP) /\ M(r - 1, c, RIGHT)
       [] s[3] = BOTTOM ->
            \/ M(r + 1, c, TOP) /\ M(r, c + 1, LEFT)
            \/ M(r + 1, c, RIGHT) /\ M(r, c + 1, BOTTOM)
       [] s[3] = LEFT ->
            \/ M(r, c - 1, RIGHT) /\ M(r + 1, c, TOP)
            \/ M(r, c - 1, BOTTOM) /\ M(r + 1, c, LEFT)

(* One step of the walk: the next side, or NoSide when the loop is done. *)
NextSide(img, marked, s, k, inner) ==
  LET F(t) == Free(img, marked, t[1], t[2], t[3], k)
      a == Straight(s)  d == Diagonal(s)  t == Turn(s)
  IN  IF ~inner
      THEN IF F(a) THEN a
           ELSE IF F(d) /\ ~Crossed(marked, s) THEN d
           ELSE IF F(t) THEN t ELSE NoSide
      ELSE IF F(t) THEN t
           ELSE IF F(a) THEN a
           ELSE IF F(d) THEN d ELSE NoSide

RECURSIVE Loop(_, _, _, _, _, _)
Loop(img, marked, s, k, inner, acc) ==
  LET m2 == marked \union {s}
      n  == NextSide(img, m2, s, k, inner)
      a2 == Append(acc, s)
  IN  IF n = NoSide THEN [sides |-> a2, marked |-> m2]
      ELSE Loop(img, m2, n, k, inner, a2)

(* What the scan does at one pixel: at most one outer and one inner loop. *)
OuterHere(img, bg, marked, r, c) ==
  LET k == Px(img, r, c) IN k # bg /\ Free(img, marked, r, c, TOP, k)
InnerHere(img, bg, marked, r, c) ==
  r > 0 /\ LET k == Px(img, r - 1, c) IN k # bg /\ Free(img, marked, r - 1, c, BOTTOM, k)

ScanPixel(img, bg, st, r, c) ==
  LET k1 == Px(img, r, c)
      s1 == IF OuterHere(img, bg, st.marked, r, c)
            THEN LET l == Loop(img, st.marked, <<r, c, TOP>>, k1, FALSE, <<>>)
                 IN [marked |-> l.marked,
                     loops |-> Append(st.loops, [sides |-> l.sides, color |-> k1, cw |-> FALSE])]
            ELSE st
  IN IF InnerHere(img, bg, s1.marked, r, c)
     THEN LET k2 == Px(img, r - 1, c)
              l == Loop(img, s1.marked, <<r - 1, c, BOTTOM>>, k2, TRUE, <<>>)
          IN [marked |-> l.marked,
              loops |-> IF k1 = bg
                        THEN Append(s1.loops, [sides |-> l.sides, color |-> k2, cw |-> TRUE])
                        ELSE s1.loops]
     ELSE s1

RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(img, bg, st, i) ==
  IF i >= img.w * img.h THEN st
  ELSE ScanFrom(img, bg, ScanPixel(img, bg, st, i \div img.w, i % img.w), i + 1)

Outlines(img, bg) == ScanFrom(img, bg, [marked |-> {}, loops |-> <<>>], 0).loops

(* The observable form: corners instead of sides. *)
Corners(img, loop) == [i \in 1 .. Len(loop.sides) |-> EndOf(img, loop.sides[i])]
Observed(img, bg) ==
  LET ls == Outlines(img, bg)
  IN [i \in 1 .. Len(ls) |-> [color |-> ls[i].color, cw |-> ls[i].cw,
                              pts |-> Corners(img, ls[i])]]

-----------------------------------------------------------------------------
(* Declarative facts about a list of loops [color, cw, pts].               *)

PrevPt(pts, i) == IF i = 1 THEN pts[Len(pts)] ELSE pts[i - 1]

(* the side of the pixel on the left of the step p -> q *)
SideOfStep(img, p, q) ==
  LET dx == q[1] - p[1]  dy == q[2] - p[2]
  IN  CASE dx = -1 /\ dy = 0 -> <<img.h - p[2], q[1], TOP>>
        [] dx = 1 /\ dy = 0  -> <<img.h - p[2] - 1, p[1], BOTTOM>>
        [] dx = 0 /\ dy = -1 -> <<img.h - p[2], p[1], LEFT>>
        [] dx = 0 /\ dy = 1  -> <<img.h - q[2], p[1] - 1, RIGHT>>
        [] OTHER -> NoSide

StepSides(img, o) ==
  [i \in 1 .. Len(o.pts) |-> SideOfStep(img, PrevPt(o.pts, i), o.pts[i])]

(* closed, unit steps along sides of its own colour *)
WellFormedLoop(img, bg, o) ==
  /\ Len(o.pts) >= 4
  /\ LET ss == StepSides(img, o)
     IN \A i \in 1 .. Len(ss) : /\ ss[i] # NoSide
                                /\ InImg(img, ss[i][1], ss[i][2])
                                /\ IsSide(img, ss[i][1], ss[i][2], ss[i][3], o.color)
  /\ o.color # bg

AllSides(img, bg) ==
  {s \in (Rows(img) \X Cols(img) \X {TOP, LEFT, BOTTOM, RIGHT}) :
      LET k == Px(img, s[1], s[2]) IN k # bg /\ IsSide(img, s[1], s[2], s[3], k)}

SideSeqs(img, os) == [i \in 1 .. Len(os) |-> StepSides(img, os[i])]
RECURSIVE SumLen(_, _)
SumLen(seqs, i) == IF i = 0 THEN 0 ELSE Len(seqs[i]) + SumLen(seqs, i - 1)
SideSet(seqs) == UNION {{seqs[i][j] : j \in 1 .. Len(seqs[i])} : i \in 1 .. Len(seqs)}

(* no side is walked twice *)
NoSideTwice(img, os) ==
  LET ss == SideSeqs(img, os) IN Cardinality(SideSet(ss)) = SumLen(ss, Len(ss))

(* winding number of the loop around the centre of pixel (r,c) *)
Winding(img, o, r, c) ==
  LET y == img.h - 1 - r
      ss == StepSides(img, o)
      Dn == {i \in 1 .. Len(ss) : ss[i][3] = LEFT /\ ss[i][1] = r /\ ss[i][2] <= c}
      Up == {i \in 1 .. Len(ss) : ss[i][3] = RIGHT /\ ss[i][1] = r /\ ss[i][2] < c}
  IN  Cardinality(Dn) - Cardinality(Up)

Covers(img, o, r, c) == Winding(img, o, r, c) # 0

(* the picture obtained by filling the loops one after the other; a loop   *)
(* around a background hole is filled with the background                  *)
RECURSIVE PaintAt(_, _, _, _, _, _)
PaintAt(img, bg, os, r, c, i) ==
  IF i = 0 THEN bg
  ELSE IF Covers(img, os[i], r, c) THEN (IF os[i].cw THEN bg ELSE os[i].color)
  ELSE PaintAt(img, bg, os, r, c, i - 1)
Painted(img, bg, os) ==
  [i \in 1 .. (img.w * img.h) |-> PaintAt(img, bg, os, (i - 1) \div img.w, (i - 1) % img.w, Len(os))]

-----------------------------------------------------------------------------
(* Signed doubled area; positive for a counterclockwise loop.              *)
RECURSIVE Area2(_, _)
Area2(pts, i) ==
  IF i = 0 THEN 0
  ELSE LET p == PrevPt(pts, i) q == pts[i]
       IN (p[1] * q[2] - q[1] * p[2]) + Area2(pts, i - 1)
Turning(o) == LET a == Area2(o.pts, Len(o.pts)) IN IF o.cw THEN a < 0 ELSE a > 0

(* Reading order of the sides the loops start with.  The first side of an  *)
(* outer loop is the top of its first pixel; the first side of a hole loop *)
(* is the bottom of the pixel above the hole.                              *)
FirstSide(img, o) == SideOfStep(img, PrevPt(o.pts, 1), o.pts[1])
ScanKey(img, o) == LET s == FirstSide(img, o)
                   IN IF o.cw THEN 2 * ((s[1] + 1) * img.w + s[2]) + 1
                      ELSE 2 * (s[1] * img.w + s[2])
InScanOrder(img, os) ==
  /\ \A i \in 1 .. Len(os) : FirstSide(img, os[i])[3] = (IF os[i].cw THEN BOTTOM ELSE TOP)
  /\ \A i \in 2 .. Len(os) : ScanKey(img, os[i - 1]) < ScanKey(img, os[i])

(* The cell on the other side of a side. *)
Across(s) == CASE s[3] = TOP    -> <<s[1] - 1, s[2]>>
               [] s[3] = BOTTOM -> <<s[1] + 1, s[2]>>
               [] s[3] = LEFT   -> <<s[1], s[2] - 1>>
               [] s[3] = RIGHT  -> <<s[1], s[2] + 1>>
Reverse(s) == LET q == Across(s)
              IN <<q[1], q[2], CASE s[3] = TOP -> BOTTOM [] s[3] = BOTTOM -> TOP
                                 [] s[3] = LEFT -> RIGHT [] s[3] = RIGHT -> LEFT>>

(* 8-connected set of cells (of the image and the ring around it) that are *)
(* not of colour k, grown from a seed.                                     *)
Near8(p) == {<<p[1] + a, p[2] + b>> : a \in {-1, 0, 1}, b \in {-1, 0, 1}}
RECURSIVE GrowNot(_, _, _, _)
GrowNot(img, k, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nb == {q \in UNION {Near8(p) : p \in front} :
                     /\ q[1] \in -1 .. img.h /\ q[2] \in -1 .. img.w
                     /\ q \notin acc
                     /\ ~IsCol(img, q[1], q[2], k)}
       IN GrowNot(img, k, nb, acc \union nb)
Surround(img, k, q) == GrowNot(img, k, {q}, {q})
AllBg(img, bg, S) == \A p \in S : InImg(img, p[1], p[2]) => Px(img, p[1], p[2]) = bg

(* Every place where two colours meet is walked from at least one side;    *)
(* towards the background (or the edge of the image) it is walked on the   *)
(* coloured side, unless the background is only part of a hole that holds  *)
(* other colours too.                                                      *)
Complete(img, bg, os) ==
  LET W == SideSet(SideSeqs(img, os))
      OutSides == AllSides(img, bg)
      Other(s) == LET q == Across(s) IN IF InImg(img, q[1], q[2]) THEN Px(img, q[1], q[2]) ELSE -2
      seeds == {<<Px(img, s[1], s[2]), Across(s)>> : s \in {t \in OutSides : t \notin W /\ Other(t) \in {bg, -2}}}
  IN /\ \A s \in OutSides : s \in W \/ Reverse(s) \in W \/ Other(s) \in {bg, -2}
     /\ \A z \in seeds : ~AllBg(img, bg, Surround(img, z[1], z[2]))

(* a clockwise loop bounds a hole whose first pixel is background *)
HolesAreBg(img, bg, os) ==
  \A i \in 1 .. Len(os) : os[i].cw => LET q == Across(FirstSide(img, os[i]))
                                      IN InImg(img, q[1], q[2]) /\ Px(img, q[1], q[2]) = bg

(* pixel (r,c) belongs to a hole that mixes the background with other      *)
(* colours: such a hole is not cut out                                     *)
InMixedHole(img, bg, r, c) ==
  \E k \in {img.px[i] : i \in 1 .. Len(img.px)} \ {bg} :
     LET S == Surround(img, k, <<r, c>>) IN ~AllBg(img, bg, S)

PaintOK(img, bg, os) ==
  \A r \in Rows(img), c \in Cols(img) :
     LET k == Px(img, r, c) p == PaintAt(img, bg, os, r, c, Len(os))
     IN p = k \/ (k = bg /\ InMixedHole(img, bg, r, c))
=============================================================================
