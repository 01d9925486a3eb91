------------------------------ MODULE JConvert ------------------------------
(***************************************************************************)
(* Verdicts on conversions.  A record of the C++ objects has t.obj (the    *)
(* conversion: ok, msg, the output file before and after) and t.ref (the   *)
(* same through the C interface), t.in and t.out (the names as character   *)
(* codes), t.how (how the options were made), t.sets and t.refs (the       *)
(* options set for either).                                                *)
(***************************************************************************)
EXTENDS Judge
LOCAL INSTANCE TLC
F == INSTANCE Formats

Known(t) == F!ByName(F!Start("in"), t.in).fn # "none" /\ F!ByName(F!Start("out"), t.out).fn # "none"
\* what the options of the objects start from, where that differs from the C interface
Own(how) == IF how = "c" THEN [x \in {} |-> 0] ELSE ("background-color" :> 0) @@ ("corner-surround" :> 4) @@ ("filter-iterations" :> 4)
Same(o) == o.len = o.len0 /\ o.res = o.res0

\* files cannot grow over t.limit
Fits(t) == t.limit < 0 \/ t.ref.len <= t.limit

FailedObject(t) ==
  IF Crashed(t) THEN {"crashed: " \o t.crash}
  ELSE LET o == t.obj IN
       Clause("options of the reference", [n \in DOMAIN t.refs |-> t.refs[n]] = [n \in DOMAIN (t.sets @@ Own(t.how)) |-> (t.sets @@ Own(t.how))[n]])
       \cup Clause("nothing left behind", o.live = 0 /\ o.fds = 0)
       \cup Clause("failures have a message", o.ok = (o.msg = 0))
       \cup (IF Known(t)
             THEN Clause("reported as through the C interface", o.ok = (t.ref.ok /\ Fits(t)))
                  \cup Clause("same bytes", o.ok => (o.len = t.ref.len /\ o.res = t.ref.res))
                  \cup Clause("failing leaves the output alone", ~(t.ref.traced /\ t.ref.fr = 0) => Same(o))
             ELSE Clause("unknown formats are refused", ~o.ok) \cup Clause("refusing leaves the output alone", Same(o)))
=============================================================================
