------------------------------ MODULE JFormats ------------------------------
(***************************************************************************)
(* Judges a recorded history of registrations and lookups on the real      *)
(* tables.  t.ops: the calls in order, each [op, dir, s, fn, about, got]   *)
(***************************************************************************)
EXTENDS Judge, FiniteSets
LOCAL INSTANCE SequencesExt
F == INSTANCE Formats
Begin == [tab |-> [d \in {"in", "out"} |-> F!Start(d)], bad |-> {}]
\* the listing: [s, about] per line
Listed(tab, rows) == Clause("list-length", Len(rows) = Cardinality(DOMAIN tab))
  \union Clause("list-row", \A i \in 1 .. Len(rows) : rows[i].s \in DOMAIN tab /\ rows[i].about = tab[rows[i].s].about)
  \union Clause("list-twice", \A i, j \in 1 .. Len(rows) : i # j => rows[i].s # rows[j].s)
Step(acc, o) ==
  LET tab == acc.tab[o.dir]
  IN CASE o.op = "add" ->
            [tab |-> [acc.tab EXCEPT ![o.dir] = F!Add(tab, o.s, [fn |-> o.fn, about |-> o.about])],
             bad |-> acc.bad \union Clause("add-refused", o.got = "1")]
       [] o.op = "name" -> [acc EXCEPT !.bad = @ \union Clause("by-name", o.got = F!ByName(tab, o.s).fn)]
       [] o.op = "suffix" -> [acc EXCEPT !.bad = @ \union Clause("by-suffix", o.got = F!BySuffix(tab, o.s).fn)]
       [] o.op = "list" -> [acc EXCEPT !.bad = @ \union Listed(tab, o.rows)]
FormatsFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE FoldLeft(Step, Begin, t.ops).bad
=============================================================================
