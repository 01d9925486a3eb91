------------------------------- MODULE JDist --------------------------------
EXTENDS Dist, Judge
Greys(t) == [p \in 1 .. t.w * t.h |-> Grey(t.np, t.px[p])]
\* 1414 stands for 1414.21...: the difference a path of any length can make, plus rounding
Slack(t) == 60 * (t.w + t.h) + 40
Close(a, b, s) == a - b <= s /\ b - a <= s
DistFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.w = 0 \/ t.h = 0 THEN Clause("leak", t.live = 0)
  ELSE LET g == Greys(t)
           e == Exact(g, t.w, t.h)
           s == IF Uniform(g) THEN e ELSE Swept(g, t.w, t.h)
           sl == Slack(t)
       IN IF t.dw # t.w \/ t.dh # t.h \/ Len(t.d) # t.w * t.h THEN {"size"}
          ELSE Clause("too-short", \A p \in 1 .. t.w * t.h : t.d[p] >= e[p] - sl)
               \union Clause("too-long", \A p \in 1 .. t.w * t.h : t.d[p] <= s[p] + sl)
               \union Clause("white-not-zero", \A p \in 1 .. t.w * t.h : g[p] = 255 => t.d[p] = 0)
               \union Clause("leak", t.live = 0)
               \union Clause("bitmap-changed", t.after = t.px)

\* a whole trace with width preservation; t.wwf is the factor in 1/4, coordinates and weights in 1/256
Ends(t) == {<<q.f[1], q.z[1]>> : q \in UNION {{t.res.lists[k].s[j] : j \in 1 .. Len(t.res.lists[k].s)} : k \in 1 .. Len(t.res.lists)}}
  \union {<<q.f[4], q.z[2]>> : q \in UNION {{t.res.lists[k].s[j] : j \in 1 .. Len(t.res.lists[k].s)} : k \in 1 .. Len(t.res.lists)}}
WidthFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE IF t.null THEN {"no-result"}
  ELSE LET g == Greys(t)
           d == Exact(g, t.w, t.h)
           up == IF Uniform(g) THEN d ELSE Swept(g, t.w, t.h)
           \* weight in 1/256 = d/255000 * wwf/4 * 256
           want(m, x, y) == (((WidthAt(m, t.w, t.h, x, y) \div 255) * 64) \div 1000) * t.wwf
           tol == 2 * t.wwf + 2
       IN UNION {LET x == e[1][1] \div 256 y == t.h - 1 - (e[1][2] \div 256)
                 IN IF e[1][1] % 256 # 0 \/ e[1][2] % 256 # 0 THEN {}
                    ELSE IF x \notin 0 .. t.w - 1 \/ y \notin 0 .. t.h - 1 THEN {"point-outside"}
                    ELSE Clause("wrong-width", e[2] >= want(d, x, y) - tol /\ e[2] <= want(up, x, y) + tol)
                 : e \in Ends(t)}
          \union Clause("not-marked", t.res.pw /\ t.res.centerline)
=============================================================================
