------------------------------ MODULE MCCentre ------------------------------
(* Centre-line extraction as a step machine, one transition per link or    *)
(* scanned pixel, for every bitmap of a size.                              *)
EXTENDS Centre
CONSTANTS W, H, NCOL
VARIABLES img, pos, M, lines, phase, cur, first
vars == <<img, pos, M, lines, phase, cur, first>>
Bg == 0
P == <<pos \div W, pos % W>>
None == WalkBegin({}, <<0, 0>>, NoDir)

Init == /\ img \in {[w |-> W, h |-> H, px |-> p] : p \in [1 .. W * H -> 0 .. (NCOL - 1)]}
        /\ pos = 0 /\ M = {} /\ lines = <<>> /\ phase = "scan" /\ cur = None
        /\ first = [dir |-> NoDir, pts |-> <<>>]
D == IF PixCol(img, P) = Bg THEN NoDir ELSE BeginDir(img, M, P)
Skip == /\ phase = "scan" /\ pos < W * H /\ D = NoDir
        /\ pos' = pos + 1 /\ UNCHANGED <<img, M, lines, phase, cur, first>>
Begin == /\ phase = "scan" /\ pos < W * H /\ D # NoDir
         /\ phase' = "walk" /\ first' = [dir |-> D, pts |-> <<>>] /\ cur' = WalkBegin(M, P, D)
         /\ UNCHANGED <<img, pos, M, lines>>
Link == /\ phase \in {"walk", "second"} /\ ~cur.fin
        /\ cur' = WalkStep(img, P, IF phase = "walk" THEN first.dir ELSE OtherDir(img, M, P, first.dir), cur)
        /\ UNCHANGED <<img, pos, M, lines, phase, first>>
Emit(pts, open) == lines' = IF Len(pts) > 1 THEN Append(lines, [color |-> PixCol(img, P), open |-> open, pts |-> pts]) ELSE lines
EndClosed == /\ phase = "walk" /\ cur.fin /\ ~cur.open
             /\ Emit(cur.pts, FALSE) /\ M' = cur.M /\ phase' = "scan" /\ cur' = None
             /\ UNCHANGED <<img, pos, first>>
EndOpen == /\ phase = "walk" /\ cur.fin /\ cur.open /\ OtherDir(img, cur.M, P, first.dir) = NoDir
           /\ Emit(cur.pts, TRUE) /\ M' = cur.M /\ phase' = "scan" /\ cur' = None /\ pos' = pos + 1
           /\ UNCHANGED <<img, first>>
TurnRound == /\ phase = "walk" /\ cur.fin /\ cur.open
             /\ LET o == OtherDir(img, cur.M, P, first.dir)
                IN o # NoDir /\ cur' = WalkBegin(cur.M, P, o)
             /\ first' = [first EXCEPT !.pts = cur.pts] /\ M' = cur.M /\ phase' = "second"
             /\ UNCHANGED <<img, pos, lines>>
Join == /\ phase = "second" /\ cur.fin
        /\ Emit(Joined(first.pts, cur.pts), TRUE) /\ M' = cur.M /\ phase' = "scan" /\ cur' = None
        /\ UNCHANGED <<img, pos, first>>
Next == Skip \/ Begin \/ Link \/ EndClosed \/ EndOpen \/ TurnRound \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pos = W * H

LinesOK == \A j \in 1 .. Len(lines) : OnColour(img, Bg, lines[j]) /\ Connected(lines[j]) /\ ClosedTouches(lines[j])
Once == Done => LinksOnce(lines)
Whole == Done => StrokesWhole(img, Bg, lines)
Lost == Done => NothingLost(img, Bg, lines)
AsFunction == Done => lines = Lines(img, Bg)
(* every walk marks a new link, so the machine cannot run for ever *)
Ends == <>Done
=============================================================================
