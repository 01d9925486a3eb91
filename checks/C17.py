import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import write_cases as wc


def corrupt(c, exe):
    """for every format a good record that was falsified"""
    ls = [(0xff0000, 0, 0, [[(1000, 1000), (3000, 1000)], [(3000, 1000), (4000, 2000), (4500, 3000), (1000, 1000)]]),
          (0x0000ff, 0, 0, [[(2000, 2000), (3000, 1000), (4000, 2000), (5000, 2500)], [(5000, 2500), (2000, 2000)]])]
    other = [ls[0], (0x0000ff, 0, 0, [ls[1][3][0][:3] + [(5000, 5500)], [(5000, 5500), (2000, 2000)]])]
    bad = []
    for f in FORMATS:
        a, b = [wc.post(x, r) for x in [wc.case(f, l, 8, 6) for l in (ls, other)] for r in c.drive(exe, [x])]
        bad.append(dict(b, lists=a["lists"]))
        bad.append(dict(a, lists=a["lists"][:1]))
        bad.append(dict(a, lists=a["lists"] + a["lists"][1:]))
        bad.append(dict(a, lists=[dict(a["lists"][0], s=a["lists"][0]["s"][:1])] + a["lists"][1:]))
        if f not in ("er", "ugs"):
            bad.append(dict(a, lists=[dict(a["lists"][0], c=0x00ff00)] + a["lists"][1:]))
        if f not in ("er", "ugs", "dxf", "pov", "plt", "ild"):
            bad.append(dict(a, cl=True))
        bad.append(dict(a, fatal=1))
    return bad


def run(c):
    pats = wc.model(c)
    exe = c.build_exe(c.build_lib(), ["rec.c", "write.c"], "write")
    cases = wc.replay(c, FORMATS, pats)
    n = len(cases)
    cases += [wc.random_case(c.rng, f) for f in FORMATS for _ in range(c.pick(40, 400))]
    cases += [wc.traced_case(c.rng, f) for f in FORMATS for _ in range(c.pick(8, 80))]
    recs = c.conform(exe, cases, "JWrite", "FailedDrawing", corrupt=lambda: corrupt(c, exe), post=wc.post)
    c.sample(dict(case=cases[n][:200], tokens=[[t["o"]] + t["a"] for t in recs[n].get("toks", [])][:12], bytes=recs[n].get("b", [])[:40]))
    c.cov["replayed_patterns"] = n
    c.cov["distinct_inputs"] = len(set(cases))


FORMATS = wc.draw_lex.TEXT
if __name__ == "__main__":
    main("C17", run)
