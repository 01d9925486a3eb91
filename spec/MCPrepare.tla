----------------------------- MODULE MCPrepare ------------------------------
(* The stages as steps, for every bitmap W x H over PAL and every choice of *)
(* options.  ORDER is the order in which they are done: another one than    *)
(* Stages breaks what the stages promise together.                          *)
EXTENDS Prepare, TLC
CONSTANTS W, H, PAL, BGS, ORDER
VARIABLES px0, px, o, done
vars == <<px0, px, o, done>>
NoneGiven == 16777216
Order == CASE ORDER = "documented" -> Stages
           [] ORDER = "thin first" -> <<"thin", "despeckle", "reduce">>
           [] OTHER -> <<"reduce", "despeckle", "thin">>
Init == /\ px0 \in [1 .. (W * H) -> PAL] /\ px = px0 /\ done = 0
        /\ o \in [level : {0, 2}, tight : {0}, noise : {100}, colours : {0, 1, 2}, centre : BOOLEAN, bg : BGS, np : {3}]
Opt == [o EXCEPT !.bg = IF @ = NoneGiven THEN 0 - 1 ELSE @]
Im(p) == Image(W, H, p)
Stage == /\ done < 3
         /\ px' = Do(Order[done + 1], Im(px), Opt) /\ done' = done + 1 /\ UNCHANGED <<px0, o>>
Next == Stage \/ (done = 3 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Range(p) == {p[k] : k \in 1 .. Len(p)}
Keeps == Len(px) = W * H
\* nothing wished, nothing done
Idle == ~On(o, "despeckle") /\ ~On(o, "reduce") /\ ~On(o, "thin") => px = px0
Few == done = 3 /\ o.colours > 0 => Cardinality(Range(px) \ {Paper(Opt)}) <= o.colours
Thin == done = 3 /\ o.centre => px = Thinned(Im(px), Opt)
\* without reduction no colour is made up
Old == done = 3 /\ o.colours = 0 => Range(px) \subseteq Range(px0) \cup {Paper(Opt)}
\* specks are gone from what is drawn (the skeleton of a stroke may be small again)
Clean == done = 3 /\ o.level > 0 /\ ~o.centre => S!NoSmallLeft(Im(px0), px, S!UsedLevel(Im(px0), o.level))
\* every stage got what the one before left
Steps == done > 0 => \E before \in {IF done = 1 THEN px0 ELSE IF done = 2 THEN Do(Order[1], Im(px0), Opt)
                                     ELSE Do(Order[2], Im(Do(Order[1], Im(px0), Opt)), Opt)} : May(Order[done], Im(before), px, Opt)
\* the colours of specks do not count among those that are left
Counted == done = 3 /\ o.level > 0 /\ o.colours > 0 /\ ~o.centre =>
             Q!Reductions(S!Despeckled(Im(px0), 3, o.level, 0, 100), 3, o.colours, Opt.bg, px)
Ends == <>(done = 3)
=============================================================================
