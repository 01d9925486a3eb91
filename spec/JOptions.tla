------------------------------ MODULE JOptions ------------------------------
(***************************************************************************)
(* Judges a recorded history on option objects: after every operation all  *)
(* objects that exist have exactly the values of the specification.        *)
(***************************************************************************)
EXTENDS Judge
LOCAL INSTANCE SequencesExt
O == INSTANCE Options
Seen(objs) == [s \in {objs[i].slot : i \in 1 .. Len(objs)} |->
                 LET o == objs[CHOOSE i \in 1 .. Len(objs) : objs[i].slot = s] IN [kind |-> o.kind, val |-> o.val]]
Step(acc, io) ==
  LET o == io.op g == io.got
      st == O!Do(acc.st, o)
  IN [st |-> st,
      bad |-> acc.bad
        \union Clause("values-after-" \o o.op, Seen(g.objs) = st)
        \union (IF o.op = "json" THEN Clause("json-members", g.json = acc.st[o.s].val) ELSE {})
        \union (IF o.op = "from" THEN Clause("thrown", g.thrown = ~o.top) ELSE {})]
OptionsFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE LET ios == [i \in 1 .. Len(t.ops) |-> [op |-> t.ops[i], got |-> t.got[i]]]
       IN FoldLeft(Step, [st |-> [x \in {} |-> 0], bad |-> {}], ios).bad \union Clause("leak", t.live = 0)
\* one option of a new object against its documented value
DefaultFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE LET v == t.got[1].objs[1].val d == O!Default(t.kind)
       IN Clause("options", DOMAIN v = DOMAIN d) \union Clause("default", v[t.f] = d[t.f])
=============================================================================
