------------------------------ MODULE Convert -------------------------------
(***************************************************************************)
(* A conversion as a sequence of stages: the formats are looked up, the    *)
(* image is read and traced, the output file is opened, written and        *)
(* closed.  Any stage can fail.  out is the content of the output file:    *)
(* what was there before, cut off, or complete.                            *)
(*   EARLY: the output is opened before the input was read                 *)
(*   BLIND: failures while writing go unnoticed                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS EARLY, BLIND
VARIABLES stage, fault, out, status
vars == <<stage, fault, out, status>>

Stages == IF EARLY THEN <<"lookup", "open", "read", "trace", "write", "close">>
          ELSE <<"lookup", "read", "trace", "open", "write", "close">>
Faults == {"none", "lookup", "read", "trace", "open", "write", "close"}
Running == status = "running"
Here == IF stage <= Len(Stages) THEN Stages[stage] ELSE "end"

Init == stage = 1 /\ fault \in Faults /\ out \in {"old", "none"} /\ status = "running"
Fail == /\ Running /\ fault = Here
        /\ ~(BLIND /\ Here \in {"write", "close"})
        /\ status' = "failed" /\ UNCHANGED <<stage, fault>>
        /\ out' = IF Here \in {"write", "close"} THEN "cut" ELSE out
Overlook == /\ Running /\ fault = Here /\ BLIND /\ Here \in {"write", "close"}
            /\ out' = "cut" /\ stage' = stage + 1 /\ UNCHANGED <<fault, status>>
Pass == /\ Running /\ stage <= Len(Stages) /\ fault # Here
        /\ stage' = stage + 1 /\ UNCHANGED <<fault, status>>
        /\ out' = CASE Here = "open" -> "cut" [] Here = "close" /\ fault # "write" -> "new" [] OTHER -> out
Finish == /\ Running /\ stage = Len(Stages) + 1 /\ status' = "ok" /\ UNCHANGED <<stage, fault, out>>
Next == Fail \/ Overlook \/ Pass \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == /\ status = "ok" => out = "new"
          /\ status = "failed" => fault # "none"
Untouched == status = "failed" /\ fault \in {"lookup", "read", "trace", "open"} => out \in {"old", "none"}
Ends == <>(status # "running")
=============================================================================
