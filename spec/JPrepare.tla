------------------------------ MODULE JPrepare ------------------------------
(***************************************************************************)
(* Verdict on traces with preparing stages.  t.px is the bitmap given,     *)
(* t.spk, t.red what traces with only the first one or two stages wished   *)
(* leave in it, t.fin what the whole trace leaves.  t.hash is the whole    *)
(* result, t.hspk, t.hred those of going on from t.spk and t.red with the  *)
(* stages already done switched off, t.idle that with other values for     *)
(* the options no wished stage reads.                                      *)
(***************************************************************************)
EXTENDS Prepare, Judge
PrepareFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null \/ t.msgs # 0 THEN {"no result"}
  ELSE IF Len(t.fin) # Len(t.px) \/ Len(t.spk) # Len(t.px) \/ Len(t.red) # Len(t.px) THEN {"size"}
  ELSE LET o == [level |-> t.level, tight |-> t.tight, noise |-> t.noise, colours |-> t.n, centre |-> t.cl, bg |-> t.bg, np |-> t.np]
           Im(p) == Image(t.w, t.h, p)
       IN Clause("specks", May("despeckle", Im(t.px), t.spk, o))
          \cup Clause("colours", May("reduce", Im(t.spk), t.red, o))
          \cup Clause("thinned", May("thin", Im(t.red), t.fin, o))
          \cup Clause("result from the despeckled bitmap", t.hspk = t.hash)
          \cup Clause("result from the reduced bitmap", t.hred = t.hash)
          \cup Clause("an option without a use changes the result", t.idle = t.hash)
=============================================================================
