----------------------------- MODULE MCOptions ------------------------------
(***************************************************************************)
(* Option objects down to the memory their background colours live in: an  *)
(* object holds an address, copies get a cell of their own.  Side by side  *)
(* the plain values (val) that every history must keep.  SHALLOW is a set  *)
(* of operations that copy the address instead, to see that it matters.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS SLOTS, CELLS, COLOURS, STEPS, SHALLOW
VARIABLES ptr, heap, val, n
vars == <<ptr, heap, val, n>>
None == 0
Freed == 1000
Live == {s \in SLOTS : ptr[s] # None}
Unused == {c \in CELLS : heap[c] = None}
Pick == CHOOSE c \in Unused : TRUE
Init == ptr = [s \in SLOTS |-> None] /\ heap = [c \in CELLS |-> None] /\ val = [s \in SLOTS |-> None] /\ n = 0
Tick == n < STEPS /\ n' = n + 1
New(s, k) == Tick /\ ptr[s] = None /\ Unused # {} /\ ptr' = [ptr EXCEPT ![s] = Pick] /\ heap' = [heap EXCEPT ![Pick] = k] /\ val' = [val EXCEPT ![s] = k]
Copy(s, t) ==
  /\ Tick /\ s \in Live /\ ptr[t] = None
  /\ val' = [val EXCEPT ![t] = val[s]]
  /\ IF "copy" \in SHALLOW THEN ptr' = [ptr EXCEPT ![t] = ptr[s]] /\ heap' = heap
     ELSE Unused # {} /\ ptr' = [ptr EXCEPT ![t] = Pick] /\ heap' = [heap EXCEPT ![Pick] = heap[ptr[s]]]
Assign(s, t) ==
  /\ Tick /\ s \in Live /\ t \in Live
  /\ val' = [val EXCEPT ![t] = val[s]]
  /\ IF "assign" \in SHALLOW THEN ptr' = [ptr EXCEPT ![t] = ptr[s]] /\ heap' = heap
     ELSE ptr' = ptr /\ heap' = [heap EXCEPT ![ptr[t]] = heap[ptr[s]]]
Change(s, k) == Tick /\ s \in Live /\ val' = [val EXCEPT ![s] = k] /\ heap' = [heap EXCEPT ![ptr[s]] = k] /\ ptr' = ptr
Free(s) == Tick /\ s \in Live /\ ptr' = [ptr EXCEPT ![s] = None] /\ val' = [val EXCEPT ![s] = None] /\ heap' = [heap EXCEPT ![ptr[s]] = Freed]
Next == \/ \E s \in SLOTS, k \in COLOURS : New(s, k) \/ Change(s, k)
        \/ \E s, t \in SLOTS : Copy(s, t) \/ Assign(s, t)
        \/ \E s \in SLOTS : Free(s)
Spec == Init /\ [][Next]_vars
\* every object shows the value the history gave it: nothing done to another one shows
Independent == \A s \in Live : heap[ptr[s]] = val[s]
NeverDangling == \A s \in Live : heap[ptr[s]] # Freed
NoSharing == \A s, t \in Live : s # t => ptr[s] # ptr[t]
\* each cell in use belongs to exactly one object, so freeing all objects leaves nothing
NoLeak == Cardinality({c \in CELLS : heap[c] \notin {None, Freed}}) = Cardinality(Live)
=============================================================================
