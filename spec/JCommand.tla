------------------------------ MODULE JCommand ------------------------------
(***************************************************************************)
(* Verdicts on runs of the program.  A record has t.args, t.exit, t.out    *)
(* (length) and t.res (digest) of standard output without version lines    *)
(* (t.vers of them), t.err (length of standard error), t.before and        *)
(* t.after (file name -> digest), t.dirs (folders there are), t.limit (no  *)
(* file can grow over it; -1 none), t.plan (what the reference was made    *)
(* for) and t.ref (the conversion through the library).                    *)
(***************************************************************************)
EXTENDS Judge
LOCAL INSTANCE TLC
L == INSTANCE CommandLine

Fun(f) == [n \in DOMAIN f |-> f[n]]
Unchanged(t, but) == \A n \in ((DOMAIN t.before) \cup (DOMAIN t.after)) \ but :
                       n \in DOMAIN t.before /\ n \in DOMAIN t.after /\ t.before[n] = t.after[n]
Root(s) == LET b == L!Base(s) d == L!Dots(b) IN IF d = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in d : \A j \in d : j <= i) - 1)
DirOf(s) == SubSeq(s, 1, L!SlashAt(s))
Silent(t) == t.out = 0
Failing(t, but) == Clause("status", t.exit # 0) \cup Clause("message", t.err > 0) \cup Clause("files left alone", Unchanged(t, but)) 

FailedCommand(t) ==
  IF Crashed(t) THEN {"crashed: " \o t.crash}
  ELSE LET p == L!Plan(t.args) IN
  IF p.what = "refuse" THEN Failing(t, {}) \cup Clause("no output", Silent(t))
  ELSE IF p.what = "info" THEN Clause("status", t.exit = 0) \cup Clause("answer", t.err + t.out + t.vers > 0) \cup Clause("files left alone", Unchanged(t, {}))
  ELSE LET r == t.ref
           dumps == "debug-bitmap" \in p.flags
           dump == Root(p.file) \o (IF r.np = 1 THEN ".dump.pgm" ELSE ".dump.ppm")
           opens == p.out = "" \/ DirOf(p.out) = "" \/ \E k \in 1 .. Len(t.dirs) : t.dirs[k] = DirOf(p.out)
           fits == t.limit < 0 \/ r.len <= t.limit
           spare == IF dumps THEN {dump} ELSE {}
       IN Clause("reference", t.plan.file = p.file /\ t.plan.reader = p.reader /\ t.plan.writer = p.writer /\ t.plan.out = p.out
                              /\ (DOMAIN t.plan.sets = DOMAIN p.sets) /\ \A n \in DOMAIN p.sets : t.plan.sets[n] = p.sets[n])
          \cup Clause("version", (t.vers > 0) = ("version" \in p.flags))
          \cup (IF r.fr > 0 \/ ~r.traced THEN Failing(t, {}) \cup Clause("no output", Silent(t))
                ELSE IF ~opens THEN Failing(t, spare) \cup Clause("no output", Silent(t))
                ELSE IF r.fw > 0 \/ ~fits THEN Failing(t, spare \cup {p.out})
                ELSE Clause("status", t.exit = 0)
                     \cup Clause("files left alone", Unchanged(t, spare \cup (IF p.out = "" THEN {} ELSE {p.out})))
                     \cup (IF p.out = "" THEN Clause("bytes", t.out = r.len /\ t.res = r.res)
                           ELSE Clause("bytes", p.out \in DOMAIN t.after /\ t.after[p.out] = r.res))
                     \cup Clause("dump", dumps => (dump \in DOMAIN t.after /\ t.after[dump] = r.dump)))
=============================================================================
