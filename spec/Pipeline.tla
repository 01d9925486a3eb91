------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One tracing call: despeckle, reduce colours, distance map, thin, scan   *)
(* for outlines, fit each outline, free the intermediate lists, finish.    *)
(* The client's cancel test may answer yes whenever it is asked, and each  *)
(* preparing stage may fail (unsupported number of planes).  The state     *)
(* keeps what is allocated, what was reported and what will be returned.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CELLS,        \* pixels to scan
          LISTS,        \* most outlines that may be found
          LATCH,        \* a yes is remembered for the rest of the call
          PERROW        \* outline scan: asked for every pixel; centre-line scan: only at the end
VARIABLES ph, opt, i, found, held, prog, yes, answered, fatal, result

vars == <<ph, opt, i, found, held, prog, yes, answered, fatal, result>>
Options == [despeckle : BOOLEAN, reduce : BOOLEAN, width : BOOLEAN, thin : BOOLEAN]

\* progress in units: scanning covers the first third, fitting the second, freeing the last
Unit == 3 * CELLS * LISTS * 2
ScanPart(k) == (Unit \div (3 * CELLS)) * k
FitPart(k, n) == Unit \div 3 + (Unit * k) \div (3 * n)
FreePart(k, n) == 2 * (Unit \div 3) + (Unit * k) \div (3 * n)
Report(p) == prog' = Append(prog, p)
\* what the client answers; ans is what the stage gets to see
Ask(ans) == /\ yes' = (yes \/ ans)
            /\ answered' = Append(answered, ans)
Seen(ans) == IF LATCH THEN yes \/ ans ELSE ans
\* a latched yes is not asked for again
MayAsk(ans) == (LATCH /\ yes) => ~ans

Init == /\ ph = "despeckle" /\ opt \in Options /\ (opt.width => opt.thin)
        /\ i = 0 /\ found = 0 /\ held = {} /\ prog = <<>> /\ yes = FALSE /\ answered = <<>>
        /\ fatal = FALSE /\ result = "none"

Stage(p, on, q, add) ==
  /\ ph = p
  /\ \/ on /\ fatal' = TRUE /\ ph' = (IF held = {} THEN "return" ELSE "cleanup-dist") /\ UNCHANGED held
     \/ fatal' = FALSE /\ ph' = q /\ held' = held \union (IF on THEN add ELSE {})
  /\ UNCHANGED <<opt, i, found, prog, yes, answered, result>>
Despeckle == Stage("despeckle", opt.despeckle, "reduce", {})
Reduce == Stage("reduce", opt.reduce, "dist", {})
Distance == Stage("dist", opt.width, "thin", {"dist"})
Thin == Stage("thin", opt.thin, "scan", {})

Scan == /\ ph = "scan" /\ i < CELLS
        /\ Report(ScanPart(i))
        /\ \E new \in 0 .. (LISTS - found) : found' = found + new
        /\ \E ans \in BOOLEAN :
             /\ IF PERROW THEN MayAsk(ans) /\ Ask(ans) ELSE ~ans /\ UNCHANGED <<yes, answered>>
             \* a stopped scan drops the outlines found so far
             /\ IF PERROW /\ Seen(ans) THEN ph' = "scanned" /\ held' = held
                ELSE ph' = ph /\ held' = held \union {"pixels"}
        /\ i' = i + 1
        /\ UNCHANGED <<opt, fatal, result>>
ScanEnd == /\ ph = "scan" /\ i = CELLS
           /\ ph' = "scanned" /\ UNCHANGED <<opt, i, found, held, prog, yes, answered, fatal, result>>
AfterScan == /\ ph = "scanned"
             /\ \E ans \in BOOLEAN :
                  /\ MayAsk(ans) /\ Ask(ans)
                  /\ IF Seen(ans) THEN ph' = "cleanup-pixels" /\ UNCHANGED held
                     ELSE ph' = "fit" /\ held' = held \union {"curves", "splines"}
             /\ i' = 0
             /\ UNCHANGED <<opt, found, prog, fatal, result>>
Fit == /\ ph = "fit" /\ i < found
       /\ Report(FitPart(i, found))
       /\ \E ans \in BOOLEAN :
            /\ MayAsk(ans) /\ Ask(ans)
            /\ IF Seen(ans) THEN ph' = "free" /\ i' = 0 ELSE ph' = ph /\ i' = i + 1
       /\ UNCHANGED <<opt, found, held, fatal, result>>
FitEnd == ph = "fit" /\ i = found /\ ph' = "free" /\ i' = 0 /\ UNCHANGED <<opt, found, held, prog, yes, answered, fatal, result>>
FreeCurves == /\ ph = "free"
              /\ IF i < found
                 THEN Report(FreePart(i, found)) /\ i' = i + 1 /\ UNCHANGED <<ph, held>>
                 ELSE ph' = "fitted" /\ held' = held \ {"curves"} /\ UNCHANGED <<prog, i>>
              /\ UNCHANGED <<opt, found, yes, answered, fatal, result>>
AfterFit == /\ ph = "fitted"
            /\ \E ans \in BOOLEAN :
                 /\ MayAsk(ans) /\ Ask(ans)
                 /\ IF Seen(ans) THEN held' = held \ {"splines"} /\ UNCHANGED <<result, prog>>
                    ELSE UNCHANGED held /\ result' = "splines" /\ Report(Unit)
            /\ ph' = "cleanup-pixels"
            /\ UNCHANGED <<opt, i, found, fatal>>
CleanPixels == /\ ph = "cleanup-pixels" /\ held' = held \ {"pixels"} /\ ph' = "cleanup-dist"
               /\ UNCHANGED <<opt, i, found, prog, yes, answered, fatal, result>>
CleanDist == /\ ph = "cleanup-dist" /\ held' = held \ {"dist"} /\ ph' = "return"
             /\ UNCHANGED <<opt, i, found, prog, yes, answered, fatal, result>>
Done == ph = "return"
Next == \/ Despeckle \/ Reduce \/ Distance \/ Thin \/ Scan \/ ScanEnd \/ AfterScan \/ Fit \/ FitEnd
        \/ FreeCurves \/ AfterFit \/ CleanPixels \/ CleanDist
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Monotone == \A k \in 1 .. Len(prog) - 1 : prog[k] <= prog[k + 1]
InRange == \A k \in 1 .. Len(prog) : 0 <= prog[k] /\ prog[k] <= Unit
OneAtEnd == Done => (result # "none" <=> (Len(prog) > 0 /\ prog[Len(prog)] = Unit))
NothingLeft == Done => held = (IF result = "none" THEN {} ELSE {"splines"})
CancelledIsNone == Done /\ yes => result = "none"
FatalIsNone == Done /\ fatal => result = "none"
OtherwiseSome == Done /\ ~yes /\ ~fatal => result = "splines"
AskedPerList == Done /\ result # "none" => Len(answered) >= found
Ends == <>Done

\* the same statements about a recorded call
RunOk(r, base) ==
  LET c(n, ok) == IF ok THEN {} ELSE {n}
  IN c("leak", r.live = 0)
     \union c("progress-fell", r.drops = 0)
     \union c("progress-out-of-range-or-wrong-client-data", r.bad = 0)
     \union c("cancelled-but-result", r.yes => r.null)
     \union c("cancelled-but-complete", r.yes => r.ones = 0)
     \union c("no-result-though-not-cancelled", ~r.yes => ~r.null)
     \union c("result-depends-on-callbacks", ~r.yes => r.hash = base)
     \union c("no-final-progress", (r.at # 0 /\ ~r.yes) => (r.last = 1000000 /\ r.ones = 1))
     \union c("asked-less-than-once-per-outline", (r.at # 0 /\ ~r.yes) => r.asked >= r.lists)
     \union c("question-ignored", r.at > 0 => r.yes)
     \union c("message", r.fatal + r.warn = 0)
=============================================================================
