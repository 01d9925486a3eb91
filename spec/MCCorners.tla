------------------------------ MODULE MCCorners -----------------------------
(***************************************************************************)
(* The search for corners as a step machine, for every outline of N        *)
(* positions of which each has one of four kinds of angle: 0 makes a       *)
(* corner always, 1 and 2 are below the threshold, 3 is not.               *)
(***************************************************************************)
EXTENDS Corners, TLC

CONSTANTS N, AROUND, EAGER
VARIABLES open, rank, p, s, out, done
vars == <<open, rank, p, s, out, done>>

None == [q |-> -1]
low == {i \in 0 .. (N - 1) : rank[i] = 0}
cand == {i \in 0 .. (N - 1) : rank[i] < 3}

Init == /\ open \in BOOLEAN /\ ~NoSearch(open, N, AROUND)
        /\ rank \in [0 .. (N - 1) -> 0 .. 3]
        /\ p = First(open, AROUND) /\ s = None /\ done = FALSE
        /\ out = IF open THEN <<0>> ELSE <<>>
Idle == s = None /\ ~done
Pass   == Idle /\ p <= Last(open, N, AROUND) /\ p \notin cand /\ p' = p + 1 /\ UNCHANGED <<open, rank, s, out, done>>
Begin  == Idle /\ p <= Last(open, N, AROUND) /\ p \in cand /\ s' = StartSearch(p, low) /\ UNCHANGED <<open, rank, p, out, done>>
Look   == /\ s # None /\ SearchOn(s, Last(open, N, AROUND), AROUND)
          (* the mistaken variant stops at the first position that is not sharper *)
          /\ s' = IF EAGER /\ rank[s.i] >= rank[s.best] THEN [s EXCEPT !.i = N] ELSE SearchStep(s, rank, low)
          /\ UNCHANGED <<open, rank, p, out, done>>
Take   == /\ s # None /\ ~SearchOn(s, Last(open, N, AROUND), AROUND)
          /\ out' = out \o SearchResult(s, low) /\ p' = s.q + 1 /\ s' = None
          /\ UNCHANGED <<open, rank, done>>
Finish == Idle /\ p > Last(open, N, AROUND) /\ done' = TRUE /\ UNCHANGED <<open, rank, p, s, out>>
Next == Pass \/ Begin \/ Look \/ Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inner(i) == i >= First(open, AROUND) /\ i <= Last(open, N, AROUND)
Corner(i) == \E j \in 1 .. Len(out) : out[j] = i
(* no corner twice, in the order of the outline *)
Ordered == \A j \in 2 .. Len(out) : out[j] > out[j - 1]
(* the ones that are always corners are, the others are below the threshold *)
Always == done => \A i \in low : Inner(i) => Corner(i)
OnlySharp == \A j \in 1 .. Len(out) : out[j] \in cand \/ (open /\ out[j] = 0)
(* a search ends on a position that nothing before it in the search, and   *)
(* nothing close behind it, is sharper than; its equals are kept with it   *)
Settled == s # None /\ ~SearchOn(s, Last(open, N, AROUND), AROUND) =>
             \A i \in p .. (s.best + AROUND - 1) : i <= Last(open, N, AROUND) =>
                /\ rank[i] >= rank[s.best]
                /\ rank[i] = rank[s.best] => i = s.best \/ \E k \in 1 .. Len(s.eq) : s.eq[k] = i
(* no run of sharp positions goes unnoticed: close to every one is a corner *)
Noticed == done => \A i \in cand : Inner(i) => \E k \in 1 .. Len(out) : out[k] \in cand /\ out[k] > i - AROUND /\ rank[out[k]] <= rank[i]
AsFunction == done => out = Found(open, N, AROUND, rank, cand, low)
(* tidying up removes nothing but neighbours *)
Tidy == done => \A rm \in BOOLEAN :
          LET k == Kept(out, N - (IF open THEN 2 ELSE 1), rm)
          IN /\ \A j \in 2 .. Len(k) : k[j] > k[j - 1] /\ (rm => k[j] > k[j - 1] + 1)
             /\ \A i \in 0 .. (N - 1) : Corner(i) /\ (\A j \in 1 .. Len(k) : k[j] # i) =>
                    \E j \in 1 .. Len(k) : k[j] = i - 1 \/ (k[j] = 0 /\ i = N - (IF open THEN 2 ELSE 1))
             /\ (out # <<>>) => (k # <<>>)
Ends == <>done
=============================================================================
