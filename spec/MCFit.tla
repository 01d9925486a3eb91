------------------------------- MODULE MCFit --------------------------------
(***************************************************************************)
(* Fitting as a step machine.  The outline is an abstract sequence of N    *)
(* positions, open or closed, with an arbitrary set of corners.  The curve *)
(* between two corners is fitted whole or split at an arbitrary interior   *)
(* position (the worst point); pieces of fewer than four points become     *)
(* straight lines.  Where the numbers come in - which point is worst, when *)
(* the error is small enough - the machine is free to do anything, so what *)
(* holds here holds for every error measure.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N
VARIABLES n, open, corners, todo, chain
vars == <<n, open, corners, todo, chain>>

(* curves: runs of consecutive positions; in a closed outline positions    *)
(* beyond n are read modulo n                                              *)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Curves(nn, op, cs) ==
  LET q == SortSet(cs)
  IN IF cs = {} THEN << [lo |-> 0, hi |-> IF op THEN nn - 1 ELSE nn, cyc |-> ~op] >>
     ELSE [i \in 1 .. Len(q) |->
             [lo |-> q[i],
              hi |-> IF i < Len(q) THEN q[i + 1] ELSE IF op THEN nn - 1 ELSE q[1] + nn,
              cyc |-> FALSE]]

Init == /\ n \in 2 .. N /\ open \in BOOLEAN
        /\ corners \in IF open THEN {S \cup {0} : S \in SUBSET (1 .. (n - 2))} \cup {{}}
                       ELSE SUBSET (0 .. (n - 1))
        /\ todo = Curves(n, open, corners)
        /\ chain = <<>>

Size(c) == c.hi - c.lo + 1
Emit(d) == /\ chain' = Append(chain, [from |-> todo[1].lo, to |-> todo[1].hi, d |-> d])
           /\ todo' = Tail(todo)
           /\ UNCHANGED <<n, open, corners>>
ShortLine == todo # <<>> /\ Size(todo[1]) < 4 /\ Emit(1)
Accept    == todo # <<>> /\ Size(todo[1]) >= 4 /\ ~todo[1].cyc /\ \E d \in {1, 3} : Emit(d)
Split     == /\ todo # <<>> /\ Size(todo[1]) >= 4
             /\ \E k \in (todo[1].lo + 1) .. (todo[1].hi - 1) :
                  todo' = << [lo |-> todo[1].lo, hi |-> k, cyc |-> FALSE],
                             [lo |-> k, hi |-> todo[1].hi, cyc |-> FALSE] >> \o Tail(todo)
             /\ UNCHANGED <<n, open, corners, chain>>
Next == ShortLine \/ Accept \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = <<>>
First == IF corners = {} THEN 0 ELSE CHOOSE x \in corners : \A y \in corners : x <= y
Chained == \A i \in 2 .. Len(chain) : chain[i].from = chain[i - 1].to
Pending == todo # <<>> /\ chain # <<>> => todo[1].lo = chain[Len(chain)].to
WholeOutline == Done => /\ Len(chain) > 0
                        /\ chain[1].from = First
                        /\ chain[Len(chain)].to = IF open THEN n - 1 ELSE First + n
KeepsCorners == Done => \A c \in corners : \E i \in 1 .. Len(chain) : chain[i].from = c
Forward == \A i \in 1 .. Len(chain) : chain[i].from < chain[i].to
RECURSIVE Pairs(_)
Pairs(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) * Size(Head(q)) + Pairs(Tail(q))
Variant == [][Pairs(todo') < Pairs(todo)]_vars
Ends == <>Done
=============================================================================
