import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import write_cases as wc

NAMES = wc.NAMES + ["y" * n for n in (252, 253, 254, 255, 256, 300, 1000)]


def cases(rng, f, n):
    """empty results, awkward names and resolutions, few and many lists"""
    cs = [wc.case(f, [], w, h, cl, bg, 0, dpi, nm) for w, h, cl, bg, dpi, nm in
          [(5, 4, 0, None, 72, "case"), (1, 1, 1, None, 300, ""), (60, 2, 0, 0x336699, 1, "x" * 31)]]
    for nm in NAMES:
        one = [(0xff0000, 0, 0, [[(0, 0), (1000, 0)], [(1000, 0), (2000, 1000), (2000, 2000), (0, 0)]])]
        cs.append(wc.case(f, one, rng.randint(1, 90), rng.randint(1, 90), 0, None, 0, rng.choice([1, 30, 72, 90, 150, 600]), nm))
    for _ in range(n):
        cs.append(wc.random_case(rng, f, 12))
    for k in (9, 10, 99, 100, 255, 256, 300) if f not in ("ild",) else (9, 10):
        ls = [(rng.choice(wc.PALETTE), 0, 0, wc.splines(rng, 20, 20, 2)) for _ in range(k)]
        cs.append(wc.case(f, ls, 20, 20, 0, None, 0, 72, "many"))
    return cs


def corrupt(c, exe):
    bad = []
    ls = [(0xff0000, 0, 0, [[(1000, 1000), (3000, 1000)], [(3000, 1000), (1000, 1000)]])]
    for f in wc.FORMATS:
        x = wc.case(f, ls, 8, 6)
        r = c.drive(exe, [x])[0]
        good = bytes.fromhex(r["hex"])
        if f not in ("ugs", "pov", "dxf", "fig", "sk", "ild"):
            bad.append(dict(wc.post(x, dict(r)), w=9))
        if f != "plt":
            for e in [good[:len(good) * 2 // 3]] + [good + good[-40:]] * (f not in ("pdf", "epd")):
                bad.append(wc.post(x, dict(r, hex=e.hex())))
    return bad


def run(c):
    pats = wc.model(c)
    exe = c.build_exe(c.build_lib(), ["rec.c", "write.c"], "write")
    cs = [x for f in wc.FORMATS for x in cases(c.rng, f, c.pick(25, 250))]
    cs += [wc.traced_case(c.rng, f) for f in wc.FORMATS for _ in range(c.pick(4, 40))]
    recs = c.conform(exe, cs, "JWrite", "FailedFrame", corrupt=lambda: corrupt(c, exe), post=wc.post)
    c.sample(dict(case=cs[3][:200], tokens=[[t["o"], t["s"]] + t["a"] for t in recs[3].get("toks", [])][:12]))
    c.cov["distinct_inputs"] = len(set(cs))


if __name__ == "__main__":
    main("C19", run)
