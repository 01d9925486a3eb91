----------------------------- MODULE MCLibrary ------------------------------
(***************************************************************************)
(* Every history of at most MAXN calls on two bitmaps and two results,     *)
(* with the allocations they hold.  One history is emitted for every       *)
(* transition between the states the client can tell apart.                *)
(*   STALE: writing also depends on the options traced with last           *)
(*   LEAK: a failing trace keeps its memory                                *)
(***************************************************************************)
EXTENDS Library, Integers, FiniteSets, TLC, Json
CONSTANTS MAXN, STALE, LEAK
VARIABLES st, hist, last, cells, seen
vars == <<st, hist, last, cells, seen>>
Bs == {"b0", "b1"}
Ss == {"s0", "s1"}
Calls == {<<"new", b, k>> : b \in Bs, k \in {"a", "z"}} \cup {<<"read", b, f[1], f[2]>> : b \in Bs, f \in {<<"F", "pnm">>, <<"G", "gf">>, <<"X", "png">>}}
  \cup {<<"copy", "b0", "b1">>, <<"copy", "b1", "b0">>} \cup {<<"trace", b, s, o>> : b \in Bs, s \in Ss, o \in {"o", "c"}}
  \cup {<<"write", s, w[1], w[2]>> : s \in Ss, w \in {<<"V", "svg">>, <<"U", "ugs">>}} \cup {<<"free", x>> : x \in Bs \cup Ss}
\* a damaged file, a picture the options do not work for
TwoPlanes(t) == \E i \in 1 .. Len(t) : SubSeq(t, i, i) = "z"
Ok(c) == CASE c[1] = "read" -> c[3] # "X"
           [] c[1] = "trace" -> ~(c[4] = "c" /\ TwoPlanes(st.objs[c[2]]))
           [] OTHER -> TRUE
Cost(x) == IF x \in Bs THEN 2 ELSE 3
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN Cost(x) + Sum(s \ {x})

Init == st = Start /\ hist = <<>> /\ last = "" /\ cells = 0 /\ seen = {}
Args(c) == <<c[1], IF c[1] \in {"trace", "write", "copy"} THEN st.objs[c[2]] ELSE "", IF c[1] = "trace" THEN c[4] ELSE IF c[1] \in {"write", "read", "new"} THEN c[3] ELSE "",
             IF c[1] = "write" /\ c[4] = "ugs" THEN st.metrics ELSE "">>
Do(c) ==
  /\ Len(hist) < MAXN /\ Applicable(st, c)
  /\ (c[1] \in {"copy", "trace"} => st.objs[c[2]] # "read X")      \* there is no picture
  /\ st' = Step(st, c, Ok(c))
  /\ hist' = Append(hist, c)
  /\ last' = IF c[1] = "trace" THEN c[4] ELSE last
  /\ cells' = CASE c[1] \in {"new", "read"} -> cells + 2
                [] c[1] = "copy" -> cells + 2
                [] c[1] = "trace" -> IF Ok(c) THEN cells + 3 ELSE IF LEAK THEN cells + 1 ELSE cells
                [] c[1] = "free" -> cells - Cost(c[2])
                [] OTHER -> cells
  /\ seen' = IF c[1] = "free" THEN seen ELSE seen \cup {<<Args(c), Result(st, c) \o (IF STALE /\ c[1] = "write" THEN last ELSE "")>>}
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars
Pure == \A x, y \in seen : x[1] = y[1] => x[2] = y[2]
NoLeak == cells = Sum(DOMAIN st.objs)
\* calls on one object leave the others alone
Local == [][\A x \in DOMAIN st.objs : x \in DOMAIN st'.objs /\ (LET c == hist'[Len(hist')] IN x # c[2] /\ (Len(c) < 3 \/ x # c[3])) => st'.objs[x] = st.objs[x]]_vars
View == <<st, Len(hist)>>
Small == Len(hist) <= MAXN
Emit == hist = <<>> \/ PrintT("CALLS " \o ToJson(hist))
=============================================================================
