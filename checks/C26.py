import sys, os, copy, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
import trace_cases as tc

HUGE = 1000000


def cases(c):
    rng = c.rng
    out = []
    for k in range(c.pick(900, 7000)):
        w, h = rng.choice([(5, 4), (6, 6), (9, 12), (12, 10), (16, 16), (20, 16)])
        cs = rng.sample(PAL, rng.choice([2, 2, 3]))
        px = tc.big_image(rng, w, h, cs) if rng.random() < .6 else shape_image(rng, w, h, cs)
        if rng.random() < .15:
            px = [rng.choice(cs) for _ in range(w * h)]
        o = dict(error_threshold=HUGE, line_reversion_threshold=0,
                 line_threshold=rng.choice([0, 0, 0.2, 0.5, 1, 1, 2, 5]))
        if rng.random() < .6:
            o["filter_iterations"] = rng.choice([0, 0, 1, 8, 20])
        if rng.random() < .6:
            o["corner_threshold"] = rng.choice([30, 50, 60, 80, 95, 110, 125, 140, 160, 180])
        if rng.random() < .5:
            o["corner_always_threshold"] = rng.choice([1, 30, 50, 80, 95, 110, 130, 160])
        if rng.random() < .6:
            o["corner_surround"] = rng.choice([1, 2, 3, 4])
        if rng.random() < .3:
            o["remove_adjacent_corners"] = 1
        if rng.random() < .3:
            o["background_color"] = "%06x" % rng.choice(cs)
        if rng.random() < .3:
            o["centerline"] = 1
        out.append(tc.line(w, h, px, o))
    return out


def square(deg):
    x = math.cos(math.radians(deg))
    return int(round(10000 * x * abs(x)))


def post(case, r):
    if "crash" not in r:
        o = dict(kv.split("=") for kv in case.split()[5].split(",") if "=" in kv)
        r["thr"] = square(float(o.get("corner_threshold", 100)))
        r["alw"] = square(float(o.get("corner_always_threshold", 60)))
        r["sur"] = int(o.get("corner_surround", 3))
        r["rm"] = "remove_adjacent_corners" in o
        r["line"] = int(256 * float(o.get("line_threshold", 1)))
        r["wide"] = "preserve_width" in o
    return r


def run(c):
    for n, around in c.pick([(7, 2), (6, 1)], [(7, 2), (7, 3), (8, 2), (6, 1)]):
        c.mc("MCCorners", dict(N=n, AROUND=around, EAGER="FALSE"), spec="Spec", properties=["Ends"],
             invariants=["Ordered", "Always", "OnlySharp", "Settled", "Noticed", "AsFunction", "Tidy"])
    c.mc("MCCorners", dict(N=6, AROUND=2, EAGER="TRUE"), spec="Spec", invariants=["Settled"], refute="Settled")
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")

    def falsified():
        px = [0xffffff] * 400
        for y in range(4, 16):
            for x in range(3, 17):
                px[y * 20 + x] = 0
        g = c.example(exe, tc.line(20, 20, px, dict(error_threshold=HUGE, background_color="ffffff")), post)
        assert len(g["res"]["lists"]) == 1 and len(g["res"]["lists"][0]["s"]) == 4

        def bad(f):
            x = copy.deepcopy(g)
            f(x["res"]["lists"][0]["s"], x)
            return x

        def merged(s, x):
            s[0]["f"][3] = s[1]["f"][3]
            s.pop(1)

        def moved(s, x):
            s[0]["f"][3] = [s[0]["f"][3][0] + 256, s[0]["f"][3][1]]
            s[1]["f"][0] = s[0]["f"][3]

        def cubic(s, x):
            s[0]["d"] = 3

        def line(s, x):
            x["line"] = 0

        return [bad(f) for f in (merged, moved, cubic, line)]

    todo = cases(c)
    recs = c.conform(exe, todo, "JCorners", "CornersFailed", corrupt=falsified, post=post)
    if not c.viol:
        c.cov["left_undecided"] = len(c.judge("JCorners", recs, "Undecided", count=False))
    c.sample(dict(case=todo[0][-120:], curves=[len(l["s"]) for l in (recs[0].get("res") or {}).get("lists", [])]))
    c.assumptions.append("outlines where single precision could decide a comparison otherwise are left undecided")


main("C26", run)
