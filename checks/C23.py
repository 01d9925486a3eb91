import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import session_cases as sc

MC = dict(STALE="FALSE", LEAK="FALSE")


def run(c):
    rng = c.rng
    c.mc("MCLibrary", dict(MC, MAXN=c.pick(5, 6)), spec="Spec", invariants=["Pure", "NoLeak"], properties=["Local"])
    c.mc("MCLibrary", dict(MC, MAXN=4, LEAK="TRUE"), spec="Spec", invariants=["NoLeak"], refute="NoLeak")
    hists = sc.histories(c, c.pick(1500, 9000), c.pick(7, 8))
    # every damaged file of the pools once more, with more of them than the histories draw
    for k in range(c.pick(10, 40)):
        p = sc.Pools(c, "more%d" % k)
        for f in p.X + p.G + p.F:
            hists.append([["read", "b0", f[0], f[1]], ["free", "b0"]])
    # files that end early, wherever that is
    d = os.path.join(c.work, "cut")
    os.makedirs(d, exist_ok=True)
    cuts = []
    for fmt in sc.cc.READERS:
        for _ in range(c.pick(4, 20)):
            _, data, code, _ = sc.rc.valid(rng, fmt)
            top = range(min(len(data), c.pick(90, 400)))
            cuts += [(fmt, code, data[:n]) for n in list(top) + [rng.randrange(len(data)) for _ in range(10)]]
    for k, (fmt, code, data) in enumerate(rng.sample(cuts, min(len(cuts), c.pick(1200, 6000)))):
        with open(os.path.join(d, str(k)), "wb") as f:
            f.write(data)
        hists.append([["read", "b0", "%s %s %d -1" % (fmt, sc.cc.hx(os.path.join(d, str(k))), code), fmt], ["free", "b0"]])
    exe = c.build_exe(c.build_lib("plain", flags=PLAIN), ["rec.c", "session.c"], "session")
    exe2 = c.build_exe(c.build_lib(), ["rec.c", "session.c"], "session-asan")
    info = {sc.line(h): h for h in hists}
    cases = list(info)

    def post(x, r):
        return r if "crash" in r else dict(ops=info[x], steps=r["steps"])
    first = [post(x, r) for x, r in zip(cases[:60], c.drive(exe, cases[:60]))]
    bad = []
    for r in first:
        for k, s in enumerate(r.get("steps", ())):
            op = r["ops"][k][0]
            put = lambda **kw: bad.append(dict(r, steps=[dict(q, **kw) if j == k else q for j, q in enumerate(r["steps"])]))
            if op in ("trace", "write", "read", "copy") and len(bad) < 60:
                bad.append(dict(r, steps=[dict(q, live=q["live"] + 1) if j >= k else q for j, q in enumerate(r["steps"])]))
                put(fatal=2)
                put(fds=1)
            if op == "trace" and len(bad) < 60:
                put(none=not s["none"])
    recs = c.conform(exe, cases, "JLibrary", "FailedClean", corrupt=bad, post=post)
    c.conform(exe2, cases[::4], "JLibrary", "FailedClean", post=post)
    c.cov["failing_reads"] = sum(1 for r in recs for o, s in zip(r.get("ops", ()), r.get("steps", ())) if o[0] == "read" and s["fatal"])
    c.cov["failing_traces"] = sum(1 for r in recs for o, s in zip(r.get("ops", ()), r.get("steps", ())) if o[0] == "trace" and s["none"])
    c.sample(dict(history=hists[0]))


if __name__ == "__main__":
    main("C23", run)
