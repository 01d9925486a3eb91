-------------------------------- MODULE JFit --------------------------------
(* Verdicts on recorded runs of the whole tracing call.                    *)
EXTENDS Fit, Judge

Img(t) == [w |-> t.w, h |-> t.h, px |-> t.px]

(* the structure of the result; t.fi0: smoothing was off *)
ChainFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null \/ t.fatal # 0 THEN {"no-result"}
  ELSE LET ls == t.res.lists os == t.loops
       IN IF Len(ls) # Len(os) THEN {"list-per-outline"}
          ELSE IF \E i \in 1 .. Len(ls) : Len(ls[i].s) = 0 THEN {"empty-list"}
          ELSE Clause("colour", \A i \in 1 .. Len(ls) : ls[i].color = os[i].color)
               \union Clause("direction", \A i \in 1 .. Len(ls) : ls[i].cw = os[i].cw)
               \union Clause("open-flag", \A i \in 1 .. Len(ls) : ls[i].open = os[i].open)
               \union Clause("size", t.res.w = t.w /\ t.res.h = t.h)
               \union Clause("mode", t.res.centerline = t.cl /\ t.res.pw = t.pw)
               \union Clause("background", t.res.bg = t.bg)
               \union Clause("not-finite", \A i \in 1 .. Len(ls) : Finite(ls[i]))
               \union Clause("gap", \A i \in 1 .. Len(ls) : Chained(ls[i]))
               \union Clause("does-not-return", \A i \in 1 .. Len(ls) : Returns(ls[i]))
               \union Clause("ends-off-outline", t.fi0 => \A i \in 1 .. Len(ls) : EndsOnOutline(os[i], ls[i]))
               \union Clause("options-modified", t.optsame)

(* accuracy with smoothing and line substitution off; t.tol in 1/256 px.   *)
(* t.rc: the corner thresholds accept right angles                         *)
NearFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null THEN {"no-result"}
  ELSE LET ls == t.res.lists os == t.loops
       IN IF Len(ls) # Len(os) \/ \E i \in 1 .. Len(ls) : Len(ls[i].s) = 0 \/ ~Finite(ls[i]) THEN {"structure"}
          ELSE Clause("outline-far-from-chain", \A i \in 1 .. Len(ls) : OutlineNearChain(os[i], ls[i], t.tol))
               \union Clause("chain-far-from-outline", \A i \in 1 .. Len(ls) : ChainNearOutline(os[i], ls[i], t.tol))
               \union Clause("corner-lost", t.rc => \A i \in 1 .. Len(ls) : CornersKept(os[i], ls[i], t.run))
               \union Clause("side-not-straight", t.rc => \A i \in 1 .. Len(ls) : SidesStraight(os[i], ls[i], t.run))

(* painting the fitted shapes; t.deep pixels of margin, every t.step-th    *)
FitPaintFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null THEN {"no-result"}
  ELSE LET ls == t.res.lists
       IN IF \E i \in 1 .. Len(ls) : Len(ls[i].s) = 0 \/ ~Finite(ls[i]) THEN {"structure"}
          ELSE Clause("fitted-paint-differs", FitPaintOK(Img(t), t.bg, ls, t.deep, t.step))
=============================================================================
