------------------------------- MODULE MCPlan -------------------------------
(* What every command line of a file asks for, as JSON. *)
EXTENDS CommandLine, TLC, TLCExt, Json, IOUtils
VARIABLE n
Lines == TLCEval(ndJsonDeserialize(IOEnv.FILES))
Init == n \in 1 .. Len(Lines)
Next == UNCHANGED n
Emit == PrintT("PLAN " \o ToString(n) \o " " \o ToJson(Plan(Lines[n].args)))
=============================================================================
