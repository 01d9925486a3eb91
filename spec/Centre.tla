------------------------------- MODULE Centre -------------------------------
(***************************************************************************)
(* Centre lines: walks over touching pixels of one colour of a (thinned)   *)
(* bitmap.  A line is [color, open, pts] with pts the pixels <<r, c>> in   *)
(* order.  Every walked link is marked at both of its pixels.              *)
(***************************************************************************)
EXTENDS Raster

(* directions, counterclockwise from north *)
Dirs == 0 .. 7
E == 6
SE == 5
S == 4
SW == 3
DR(d) == IF d \in {7, 0, 1} THEN -1 ELSE IF d \in {3, 4, 5} THEN 1 ELSE 0
DC(d) == IF d \in {1, 2, 3} THEN -1 ELSE IF d \in {5, 6, 7} THEN 1 ELSE 0
To(p, d) == <<p[1] + DR(d), p[2] + DC(d)>>
Back(d) == (d + 4) % 8
Touch(p, q) == p # q /\ Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1

PixCol(img, p) == Px(img, p[1], p[2])
Same(img, p, q) == InImg(img, q[1], q[2]) /\ PixCol(img, q) = PixCol(img, p)
Neighbours(img, p) == Cardinality({d \in Dirs : Same(img, p, To(p, d))})

-----------------------------------------------------------------------------
(* What a walk may do.  M is the set of marks <<p, d>>.                    *)
Free(img, M, p, d) == Same(img, p, To(p, d)) /\ <<p, d>> \notin M
Crossed(M, p, d) == \E e \in Dirs \ {d, Back(d)} : <<p, e>> \in M
BothCrossed(M, p, d) == Crossed(M, p, d) /\ Crossed(M, To(p, d), d)

(* straight on, then the quarter turns, the eighth turns, the sharp turns, *)
(* left before right                                                       *)
Preference(d) == << d, (d + 2) % 8, (d + 6) % 8, (d + 1) % 8, (d + 7) % 8, (d + 3) % 8, (d + 5) % 8 >>
NoDir == -1
Choice(img, M, p, d) ==
  LET free == {k \in 1 .. 7 : Free(img, M, p, Preference(d)[k])}
      first == CHOOSE k \in free : \A j \in free : k <= j
      e == Preference(d)[first]
  IN IF free = {} \/ BothCrossed(M, p, e) THEN NoDir ELSE e

(* One step of the walk from start (begun in direction d0).                *)
(* State: [at, dir, pts, M, fin, open]                                     *)
WalkStep(img, start, d0, s) ==
  LET e == Choice(img, s.M, s.at, s.dir)
  IN IF e = NoDir
     THEN [s EXCEPT !.fin = TRUE, !.open = TRUE, !.M = @ \union {<<start, d0>>}]
     ELSE LET q == To(s.at, e)
              M1 == s.M \union {<<q, Back(e)>>} \union (IF s.at = start THEN {} ELSE {<<s.at, e>>})
          IN IF q = start
             THEN [s EXCEPT !.at = q, !.dir = e, !.fin = TRUE, !.open = FALSE, !.M = M1 \union {<<start, d0>>}]
             ELSE [s EXCEPT !.at = q, !.dir = e, !.pts = Append(@, q), !.M = M1]
WalkBegin(M, start, d0) == [at |-> start, dir |-> d0, pts |-> <<start>>, M |-> M, fin |-> FALSE, open |-> FALSE]
RECURSIVE WalkOn(_, _, _, _)
WalkOn(img, start, d0, s) == IF s.fin THEN s ELSE WalkOn(img, start, d0, WalkStep(img, start, d0, s))
Walk(img, M, start, d0) == WalkOn(img, start, d0, WalkBegin(M, start, d0))

(* where a scan may begin a walk *)
CanBegin(img, M, p, d) ==
  /\ Free(img, M, p, d)
  /\ Free(img, M, To(p, d), d) \/ Neighbours(img, p) <= 2
  /\ Neighbours(img, p) <= 4 /\ Neighbours(img, To(p, d)) <= 4
  /\ ~BothCrossed(M, p, d)
FirstDirs == <<E, SE, S, SW>>
BeginDir(img, M, p) ==
  LET ok == {k \in 1 .. 4 : CanBegin(img, M, p, FirstDirs[k])}
  IN IF ok = {} THEN NoDir ELSE FirstDirs[CHOOSE k \in ok : \A j \in ok : k <= j]
(* an open line is also followed the other way from its first pixel *)
OtherWays(d) == CASE d = E -> <<S, SW, SE>> [] d = SE -> <<SW, E, S>>
                  [] d = S -> <<E, SE, SW>> [] d = SW -> <<SE, E, S>>
OtherDir(img, M, p, d) ==
  LET ok == {k \in 1 .. 3 : Free(img, M, p, OtherWays(d)[k])}
  IN IF ok = {} THEN NoDir ELSE OtherWays(d)[CHOOSE k \in ok : \A j \in ok : k <= j]
Reversed(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
Joined(first, second) == Reversed(Tail(second)) \o first

(* the whole extraction as a function *)
RECURSIVE ScanFrom(_, _, _, _, _)
ScanFrom(img, bg, pos, M, lines) ==
  IF pos >= img.w * img.h THEN lines
  ELSE LET p == <<pos \div img.w, pos % img.w>>
           d == IF PixCol(img, p) = bg THEN NoDir ELSE BeginDir(img, M, p)
       IN IF d = NoDir THEN ScanFrom(img, bg, pos + 1, M, lines)
          ELSE LET a == Walk(img, M, p, d)
                   o == IF a.open THEN OtherDir(img, a.M, p, d) ELSE NoDir
                   b == Walk(img, a.M, p, o)
                   pts == IF o = NoDir THEN a.pts ELSE Joined(a.pts, b.pts)
                   M2 == IF o = NoDir THEN a.M ELSE b.M
                   more == IF Len(pts) > 1 THEN Append(lines, [color |-> PixCol(img, p), open |-> a.open, pts |-> pts]) ELSE lines
               IN ScanFrom(img, bg, IF a.open /\ o = NoDir THEN pos + 1 ELSE pos, M2, more)
Lines(img, bg) == ScanFrom(img, bg, 0, {}, <<>>)

-----------------------------------------------------------------------------
(* What every result must satisfy, whatever order the walks took.          *)
OnColour(img, bg, l) == \A k \in 1 .. Len(l.pts) :
  /\ InImg(img, l.pts[k][1], l.pts[k][2])
  /\ PixCol(img, l.pts[k]) = l.color /\ l.color # bg
Connected(l) == Len(l.pts) >= 2 /\ \A k \in 2 .. Len(l.pts) : Touch(l.pts[k - 1], l.pts[k])
ClosedTouches(l) == ~l.open => Touch(l.pts[1], l.pts[Len(l.pts)])
LinksOf(l) == [k \in 1 .. (Len(l.pts) - (IF l.open THEN 1 ELSE 0)) |->
                  {l.pts[k], l.pts[IF k = Len(l.pts) THEN 1 ELSE k + 1]}]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
LinksOnce(lines) ==
  Total([j \in 1 .. Len(lines) |-> Len(LinksOf(lines[j]))])
    = Cardinality(UNION {{LinksOf(lines[j])[k] : k \in 1 .. Len(LinksOf(lines[j]))} : j \in 1 .. Len(lines)})

(* the pixels of one colour, and the parts that are plain strokes: every   *)
(* pixel has at most two neighbours, so the part is a path or a ring       *)
Fore(img, bg) == {p \in (Rows(img) \X Cols(img)) : PixCol(img, p) # bg}
RECURSIVE Grow(_, _, _)
Grow(img, seen, edge) ==
  IF edge = {} THEN seen
  ELSE LET nxt == {q \in UNION {{To(p, d) : d \in Dirs} : p \in edge} :
                     q \notin seen /\ \E p \in edge : Touch(p, q) /\ Same(img, p, q)}
       IN Grow(img, seen \union nxt, nxt)
PartOf(img, p) == Grow(img, {p}, {p})
Stroke(img, part) == Cardinality(part) >= 2 /\ \A p \in part : Neighbours(img, p) <= 2
RECURSIVE Parts(_, _, _)
Parts(img, todo, acc) == IF todo = {} THEN acc
                         ELSE LET q == PartOf(img, CHOOSE p \in todo : TRUE) IN Parts(img, todo \ q, acc \union {q})
(* a plain stroke comes out as one line through all of its pixels *)
StrokesWhole(img, bg, lines) ==
  \A part \in Parts(img, Fore(img, bg), {}) : Stroke(img, part) =>
     LET mine == {j \in 1 .. Len(lines) : \E k \in 1 .. Len(lines[j].pts) : lines[j].pts[k] \in part}
     IN Cardinality(mine) = 1 /\ \A j \in mine :
          /\ {lines[j].pts[k] : k \in 1 .. Len(lines[j].pts)} = part
          /\ Len(lines[j].pts) = Cardinality(part)
          /\ lines[j].open <=> \E p \in part : Neighbours(img, p) = 1
(* no stroke of a skeleton is lost: a pixel that has a neighbour and       *)
(* touches no crowded pixel lies on a line                                 *)
NothingLost(img, bg, lines) ==
  \A p \in Fore(img, bg) :
     (Neighbours(img, p) \in 1 .. 2 /\ \A d \in Dirs : Same(img, p, To(p, d)) => Neighbours(img, To(p, d)) <= 2)
       => \E j \in 1 .. Len(lines) : \E k \in 1 .. Len(lines[j].pts) : lines[j].pts[k] = p
=============================================================================
