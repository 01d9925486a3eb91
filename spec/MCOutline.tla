----------------------------- MODULE MCOutline ------------------------------
(***************************************************************************)
(* The outline extraction as a step machine: one transition per walked     *)
(* side or scanned pixel, explored for every bitmap of a size over a set   *)
(* of colours and every choice of background.                              *)
(***************************************************************************)
EXTENDS Outline

CONSTANTS W, H, NCOL
VARIABLES img, bg, pos, phase, marked, loops, cur
vars == <<img, bg, pos, phase, marked, loops, cur>>

Colours == 0 .. (NCOL - 1)
None == [sides |-> <<>>, color |-> -1, inner |-> FALSE, keep |-> FALSE]
R == pos \div W
C == pos % W

Init == /\ img \in {[w |-> W, h |-> H, px |-> p] : p \in [1 .. W * H -> Colours]}
        /\ bg \in {NoBg, 0}
        /\ pos = 0 /\ phase = "outer" /\ marked = {} /\ loops = <<>> /\ cur = None

Begin(side, k, inner, keep) ==
  /\ cur' = [sides |-> <<side>>, color |-> k, inner |-> inner, keep |-> keep]
  /\ marked' = marked \union {side}
  /\ UNCHANGED <<img, bg, pos, loops>>

StartOuter == /\ pos < W * H /\ phase = "outer"
              /\ OuterHere(img, bg, marked, R, C)
              /\ Begin(<<R, C, TOP>>, Px(img, R, C), FALSE, TRUE)
              /\ phase' = "walk"
NoOuter    == /\ pos < W * H /\ phase = "outer"
              /\ ~OuterHere(img, bg, marked, R, C)
              /\ phase' = "inner"
              /\ UNCHANGED <<img, bg, pos, marked, loops, cur>>
StartInner == /\ phase = "inner"
              /\ InnerHere(img, bg, marked, R, C)
              /\ Begin(<<R - 1, C, BOTTOM>>, Px(img, R - 1, C), TRUE, Px(img, R, C) = bg)
              /\ phase' = "walk"
Step       == /\ phase = "walk"
              /\ LET s == cur.sides[Len(cur.sides)]
                     n == NextSide(img, marked, s, cur.color, cur.inner)
                 IN /\ n # NoSide
                    /\ cur' = [cur EXCEPT !.sides = Append(@, n)]
                    /\ marked' = marked \union {n}
              /\ UNCHANGED <<img, bg, pos, phase, loops>>
Close      == /\ phase = "walk"
              /\ NextSide(img, marked, cur.sides[Len(cur.sides)], cur.color, cur.inner) = NoSide
              /\ loops' = IF cur.keep
                          THEN Append(loops, [color |-> cur.color, cw |-> cur.inner, pts |-> Corners(img, cur)])
                          ELSE loops
              /\ cur' = None
              /\ phase' = IF cur.inner THEN "next" ELSE "inner"
              /\ UNCHANGED <<img, bg, pos, marked>>
Advance    == /\ \/ phase = "next"
                 \/ phase = "inner" /\ ~InnerHere(img, bg, marked, R, C)
              /\ pos' = pos + 1 /\ phase' = "outer"
              /\ UNCHANGED <<img, bg, marked, loops, cur>>
Next == StartOuter \/ NoOuter \/ StartInner \/ Step \/ Close \/ Advance
Spec == Init /\ [][Next]_vars

Done == pos = W * H
Rank == CASE phase = "outer" -> 0 [] phase = "walk" -> (IF cur.inner THEN 3 ELSE 1)
          [] phase = "inner" -> 2 [] phase = "next" -> 4

-----------------------------------------------------------------------------
(* every step of the walk continues where the last one ended, along a side *)
(* of the walk's colour, never a side walked before                        *)
WalkConnected == \A j \in 2 .. Len(cur.sides) :
                    StartOf(img, cur.sides[j]) = EndOf(img, cur.sides[j - 1])
WalkOnSides   == \A j \in 1 .. Len(cur.sides) :
                    LET s == cur.sides[j] IN IsSide(img, s[1], s[2], s[3], cur.color)
FreshSide     == Cardinality({cur.sides[j] : j \in 1 .. Len(cur.sides)}) = Len(cur.sides)
(* a walk that stops has come back to where it started *)
ClosesUp == phase = "walk" /\ NextSide(img, marked, cur.sides[Len(cur.sides)], cur.color, cur.inner) = NoSide
              => EndOf(img, cur.sides[Len(cur.sides)]) = StartOf(img, cur.sides[1])
(* nothing is walked for ever: each step walks a new side or moves on *)
Variant == [][ \/ Cardinality(marked') > Cardinality(marked)
               \/ pos' > pos
               \/ pos' = pos /\ marked' = marked /\ Rank' > Rank ]_vars

LoopsWellFormed == Done => \A j \in 1 .. Len(loops) : WellFormedLoop(img, bg, loops[j])
SidesOnce       == Done => NoSideTwice(img, loops)
Oriented        == Done => \A j \in 1 .. Len(loops) : Turning(loops[j])
ScanOrdered     == Done => InScanOrder(img, loops)
Covered         == Done => Complete(img, bg, loops)
HoleRule        == Done => HolesAreBg(img, bg, loops)
PaintsBack      == Done => PaintOK(img, bg, loops)
SameAsFunction  == Done => loops = Observed(img, bg)
=============================================================================
