------------------------------ MODULE Library -------------------------------
(***************************************************************************)
(* The library as its client sees it: bitmaps and tracing results in       *)
(* slots, and calls that make, change, write and free them.  The value of  *)
(* an object is a term, the text of the calls it came from, so results are *)
(* functions of their arguments by construction.  The one thing kept       *)
(* between calls is metrics: the font character read last, whose           *)
(* measurements go into UGS output.                                        *)
(*                                                                         *)
(* A call is a sequence of texts:                                          *)
(*   new B key, paint B key, copy B B2, read B key fmt, trace B S key,     *)
(*   write S key fmt, free X                                               *)
(* ok says whether a read or trace succeeded.                              *)
(***************************************************************************)
EXTENDS Sequences
LOCAL INSTANCE TLC

Start == [objs |-> [x \in {} |-> ""], metrics |-> ""]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
Has(st, x) == x \in DOMAIN st.objs

Applicable(st, c) ==
  CASE c[1] = "new" -> ~Has(st, c[2])
    [] c[1] = "read" -> ~Has(st, c[2])
    [] c[1] = "paint" -> Has(st, c[2])
    [] c[1] = "copy" -> Has(st, c[2]) /\ ~Has(st, c[3])
    [] c[1] = "trace" -> Has(st, c[2]) /\ ~Has(st, c[3])
    [] OTHER -> Has(st, c[2])

\* what a call returns: the term of the object it makes or of the text it writes
Result(st, c) ==
  CASE c[1] = "new" -> "new " \o c[3]
    [] c[1] = "read" -> "read " \o c[3]
    [] c[1] = "paint" -> "paint " \o c[3] \o " (" \o st.objs[c[2]] \o ")"
    [] c[1] = "copy" -> st.objs[c[2]]
    [] c[1] = "trace" -> "trace " \o c[4] \o " (" \o st.objs[c[2]] \o ")"
    [] c[1] = "write" -> "write " \o c[3] \o (IF c[4] = "ugs" THEN " for " \o st.metrics ELSE "") \o " (" \o st.objs[c[2]] \o ")"
    [] OTHER -> ""
\* tracing also works on the bitmap
Traced(st, c) == "traced " \o c[4] \o " (" \o st.objs[c[2]] \o ")"

Step(st, c, ok) ==
  CASE c[1] \in {"new", "paint"} -> [st EXCEPT !.objs = (c[2] :> Result(st, c)) @@ @]
    [] c[1] = "read" -> [st EXCEPT !.objs = (c[2] :> Result(st, c)) @@ @, !.metrics = IF ok /\ c[4] = "gf" THEN Result(st, c) ELSE @]
    [] c[1] = "copy" -> [st EXCEPT !.objs = (c[3] :> Result(st, c)) @@ @]
    [] c[1] = "trace" -> [st EXCEPT !.objs = IF ok THEN (c[3] :> Result(st, c)) @@ (c[2] :> Traced(st, c)) @@ @ ELSE (c[2] :> Traced(st, c)) @@ @]
    [] c[1] = "free" -> [st EXCEPT !.objs = Without(@, c[2])]
    [] OTHER -> st
=============================================================================
