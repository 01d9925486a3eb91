------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* The conformance skeleton.  A run of a driver is recorded as one record  *)
(* per line; the judging module defines Failed(rec), the set of names of   *)
(* the clauses of the specification that the record contradicts.  The      *)
(* records are dealt to Lanes independent chains so TLC's workers share    *)
(* the evaluation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Failed(_)
VARIABLES lane, jrec

Clause(name, ok) == IF ok THEN {} ELSE {name}
Crashed(t) == "crash" \in DOMAIN t

Lanes == 64
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NRec == atoi(IOEnv.TRACE_LEN)

JInit == lane \in 1 .. (IF NRec < Lanes THEN NRec ELSE Lanes) /\ jrec = lane
JNext == /\ jrec + Lanes <= NRec
         /\ jrec' = jrec + Lanes
         /\ UNCHANGED lane

JVerdict == LET f == Failed(Trace[jrec])
            IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", jrec, f>>)
=============================================================================
