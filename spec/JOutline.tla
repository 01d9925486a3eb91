----------------------------- MODULE JOutline -------------------------------
(* Verdict of the outline specification on recorded runs of the extractor. *)
EXTENDS Outline, Judge


OutlineFailed(t) ==
  IF "crash" \in DOMAIN t THEN {"crash"}
  ELSE LET im == [w |-> t.w, h |-> t.h, px |-> t.px]
           os == t.loops
           wf == \A j \in 1 .. Len(os) : WellFormedLoop(im, t.bg, os[j])
       IN IF ~wf THEN {"loop-not-along-colour-boundary"}
          ELSE Clause("side-walked-twice", NoSideTwice(im, os))
               \union Clause("wrong-turning-direction", \A j \in 1 .. Len(os) : Turning(os[j]))
               \union Clause("open-flag", \A j \in 1 .. Len(os) : ~os[j].open)
               \union Clause("order", InScanOrder(im, os))
               \union Clause("boundary-missing", Complete(im, t.bg, os))
               \union Clause("hole-rule", HolesAreBg(im, t.bg, os))
               \union Clause("bitmap-modified", t.after = t.px)
               \union Clause("message", t.msgs = 0)

PaintFailed(t) ==
  IF "crash" \in DOMAIN t THEN {"crash"}
  ELSE LET im == [w |-> t.w, h |-> t.h, px |-> t.px]
       IN IF \E j \in 1 .. Len(t.loops) : StepSides(im, t.loops[j])[1] = NoSide THEN {"not-unit-steps"}
          ELSE Clause("paint-differs", PaintOK(im, t.bg, t.loops))

(* does the run coincide with the step machine, loop for loop? *)
Drift(t) == IF "crash" \in DOMAIN t THEN {"crash"}
            ELSE LET o == Observed([w |-> t.w, h |-> t.h, px |-> t.px], t.bg)
                 IN IF /\ Len(o) = Len(t.loops)
                       /\ \A j \in 1 .. Len(o) : /\ o[j].color = t.loops[j].color
                                                 /\ o[j].cw = t.loops[j].cw
                                                 /\ o[j].pts = t.loops[j].pts
                    THEN {} ELSE {"drift"}
=============================================================================
