------------------------------ MODULE JLibrary ------------------------------
(***************************************************************************)
(* Verdicts on recorded histories of calls.  t.ops are the calls, t.steps  *)
(* what was seen after each: messages (fatal, warn), none (no result),     *)
(* same (the options handed in kept their values), len and res of what was *)
(* written, live allocations, open files, and the digest of every object.  *)
(* t.fresh has, for every term, the digest and the messages in a process   *)
(* of its own that did nothing else.                                       *)
(***************************************************************************)
EXTENDS Judge
LOCAL INSTANCE SequencesExt
L == INSTANCE Library

Ok(c, r) == IF c[1] = "read" THEN r.fatal = 0 ELSE IF c[1] = "trace" THEN ~r.none ELSE TRUE
Told(r) == <<r.fatal, r.warn, r.none>>

PureStep(t, acc, i) ==
  LET c == t.ops[i] r == t.steps[i] st == acc.st
      s2 == TLCEval(L!Step(st, c, Ok(c, r)))
      res == L!Result(st, c)
      known(x) == x \in DOMAIN t.fresh
  IN [st |-> s2,
      bad |-> acc.bad
        \cup Clause("applicable", L!Applicable(st, c))
        \cup Clause("options unchanged", r.same)
        \cup Clause("objects there", DOMAIN r.objs = DOMAIN s2.objs)
        \cup Clause("reference", \A x \in DOMAIN s2.objs : known(s2.objs[x]))
        \cup UNION {Clause("value of " \o c[1], (x \in DOMAIN r.objs /\ known(s2.objs[x])) => r.objs[x] = t.fresh[s2.objs[x]].dig) : x \in DOMAIN s2.objs}
        \cup (IF c[1] = "write" THEN Clause("reference", known(res)) \cup Clause("text written", known(res) => (r.res = t.fresh[res].dig /\ r.len = t.fresh[res].len)) ELSE {})
        \cup (IF c[1] \in {"read", "trace", "write"} THEN Clause("messages of " \o c[1], known(res) => Told(r) = <<t.fresh[res].fatal, t.fresh[res].warn, t.fresh[res].none>>) ELSE {})]
FailedPure(t) ==
  IF Crashed(t) THEN {"crashed: " \o t.crash}
  ELSE FoldLeft(LAMBDA acc, i : PureStep(t, acc, i), [st |-> L!Start, bad |-> {}], [i \in 1 .. Len(t.ops) |-> i]).bad

\* the reports of one call
Reported(c, r) ==
  CASE c[1] = "read" -> /\ r.fatal <= 1
                        /\ r.fatal = 0 => (~r.none \/ c[4] = "gf")          \* a blank character has no pixels
                        /\ r.fatal = 1 => (r.none \/ c[4] \in {"pnm", "bmp"})   \* what there was of a truncated image
    [] c[1] = "trace" -> r.fatal = (IF r.none THEN 1 ELSE 0)
    [] c[1] = "write" -> r.fatal <= (IF c[4] = "pov" THEN 1 ELSE 0)
    [] OTHER -> r.fatal = 0 /\ r.warn = 0
CleanStep(t, acc, i) ==
  LET c == t.ops[i] r == t.steps[i] st == acc.st
      s2 == TLCEval(L!Step(st, c, Ok(c, r)))
      made == (DOMAIN s2.objs) \ (DOMAIN st.objs)
      gone == (DOMAIN st.objs) \ (DOMAIN s2.objs)
      took == r.live - acc.live
  IN [st |-> s2, live |-> r.live,
      cost |-> [x \in DOMAIN s2.objs |-> IF x \in made THEN took ELSE acc.cost[x]],
      bad |-> acc.bad
        \cup Clause("reported once: " \o c[1], Reported(c, r))
        \cup Clause("files closed", r.fds = 0)
        \cup Clause("objects there", DOMAIN r.objs = DOMAIN s2.objs)
        \cup Clause("memory kept by " \o c[1], CASE made # {} -> took > 0
                                                 [] gone # {} -> \A x \in gone : took = -acc.cost[x]
                                                 [] OTHER -> took = 0)
        \cup Clause("copies cost what the original did", c[1] = "copy" => took = acc.cost[c[2]])
        \cup Clause("all freed", DOMAIN s2.objs = {} => r.live = 0)]
FailedClean(t) ==
  IF Crashed(t) THEN {"crashed: " \o t.crash}
  ELSE FoldLeft(LAMBDA acc, i : CleanStep(t, acc, i), [st |-> L!Start, live |-> 0, cost |-> [x \in {} |-> 0], bad |-> {}], [i \in 1 .. Len(t.ops) |-> i]).bad
=============================================================================
