import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import session_cases as sc

MC = dict(STALE="FALSE", LEAK="FALSE")


def run(c):
    rng = c.rng
    n = c.pick(5, 6)
    c.mc("MCLibrary", dict(MC, MAXN=n), spec="Spec", invariants=["Pure", "NoLeak"], properties=["Local"])
    c.mc("MCLibrary", dict(MC, MAXN=5, STALE="TRUE"), spec="Spec", invariants=["Pure"], refute="Pure")
    hists = sc.histories(c, c.pick(700, 4000), c.pick(7, 8))
    exe = c.build_exe(c.build_lib(), ["rec.c", "session.c"], "session")
    zero = c.build_exe(c.build_lib("zero", flags=PLAIN + ["-ftrivial-auto-var-init=zero"]), ["rec.c", "session.c"], "session-zero")
    patt = c.build_exe(c.build_lib("patt", flags=PLAIN + ["-ftrivial-auto-var-init=pattern"]), ["rec.c", "session.c"], "session-patt")
    terms = sc.Terms()
    probe = {}
    for h in hists:
        for op in h:
            if op[0] == "read" and op[3] == "gf":
                probe["read " + op[2]] = [["read", "b0", op[2], op[3]]]
    keys = sorted(probe)
    good = {k: "crash" not in r and r["steps"][0]["fatal"] == 0 for k, r in zip(keys, c.drive(exe, [sc.line(probe[k]) for k in keys]))}
    made = [terms.walk(h, gf_ok=lambda k: good[k]) for h in hists]
    table = sc.fresh(c, exe, terms)
    info, cases = {}, []
    for h, m in zip(hists, made):
        need = {t for a, objs in m for t in ([a] if a else []) + list(objs.values())}
        rec = dict(ops=h, fresh={t: table[t] for t in sorted(need)})
        for fills in ({}, {rng.randrange(len(h)): rng.choice([0, 1, 0xff, 0xa5]) for _ in range(2)}):
            x = sc.line(h, fills)
            if x not in info:
                info[x] = rec
                cases.append(x)

    def post(x, r):
        return r if "crash" in r else dict(info[x], steps=r["steps"])
    first = [post(x, r) for x, r in zip(cases[:40], c.drive(exe, cases[:40]))]
    bad = []
    for r in first:
        for k, s in enumerate(r.get("steps", ())):
            if r["ops"][k][0] == "write" and len(bad) < 40:
                bad.append(dict(r, steps=[dict(q, res="0") if j == k else q for j, q in enumerate(r["steps"])]))
                bad.append(dict(r, steps=[dict(q, same=False) if j == k else q for j, q in enumerate(r["steps"])]))
                bad.append(dict(r, steps=[dict(q, objs={n: "1" for n in q["objs"]}) if j == k else q for j, q in enumerate(r["steps"])]))
                bad.append(dict(r, steps=[dict(q, warn=q["warn"] + 1) if j == k else q for j, q in enumerate(r["steps"])]))
    recs = c.conform(exe, cases, "JLibrary", "FailedPure", corrupt=bad, post=post)
    c.conform(zero, cases[::3], "JLibrary", "FailedPure", post=post)
    c.conform(patt, cases[1::3], "JLibrary", "FailedPure", post=post)
    c.cov["terms_computed_in_fresh_processes"] = len(table)
    c.cov["writes_compared"] = sum(1 for r in recs for op in r.get("ops", ()) if op[0] == "write")
    c.sample(dict(history=hists[0]))


if __name__ == "__main__":
    main("C10", run)
