------------------------------ MODULE JCentre -------------------------------
(* Verdict on recorded centre lines.  The driver records points as (x, y)  *)
(* with y upwards.                                                         *)
EXTENDS Centre, Judge
AsLine(t, l) == [color |-> l.color, open |-> l.open,
                 pts |-> [k \in 1 .. Len(l.pts) |-> <<t.h - 1 - l.pts[k][2], l.pts[k][1]>>]]
CentreFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE LET im == [w |-> t.w, h |-> t.h, px |-> t.px]
           ls == [j \in 1 .. Len(t.loops) |-> AsLine(t, t.loops[j])]
       IN IF ~\A j \in 1 .. Len(ls) : OnColour(im, t.bg, ls[j]) THEN {"off-colour"}
          ELSE Clause("not-connected", \A j \in 1 .. Len(ls) : Connected(ls[j]))
               \union Clause("closed-flag", \A j \in 1 .. Len(ls) : ClosedTouches(ls[j]))
               \union Clause("link-twice", LinksOnce(ls))
               \union Clause("stroke-broken", StrokesWhole(im, t.bg, ls))
               \union Clause("pixel-lost", NothingLost(im, t.bg, ls))
               \union Clause("not-the-preferred-walk", ls = Lines(im, t.bg))
               \union Clause("clockwise-flag", \A j \in 1 .. Len(ls) : ~t.loops[j].cw)
               \union Clause("bitmap-modified", t.after = t.px)
               \union Clause("message", t.msgs = 0)
=============================================================================
