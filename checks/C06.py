import sys, os, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
import trace_cases as tc

CORNER_RUN = 7


def cases(c):
    rng = c.rng
    out = []
    for k in range(c.pick(700, 6000)):
        w, h = rng.choice([(6, 6), (9, 12), (12, 10), (16, 16), (20, 16), (24, 24)])
        cs = rng.sample(PAL, rng.choice([2, 2, 3]))
        px = tc.big_image(rng, w, h, cs) if rng.random() < .7 else shape_image(rng, w, h, cs)
        o = dict(filter_iterations=0, line_threshold=0, line_reversion_threshold=0,
                 error_threshold=rng.choice([0, 0.1, 0.5, 0.5, 1, 2, 3, 5]))
        if rng.random() < .4:
            o["corner_threshold"] = rng.choice([0, 30, 60, 100, 140, 180])
        if rng.random() < .3:
            o["corner_always_threshold"] = rng.choice([0, 30, 60, 100, 140])
        if rng.random() < .3:
            o["corner_surround"] = rng.choice([1, 2, 3, 4, 6])
        if rng.random() < .4:
            o["tangent_surround"] = rng.choice([1, 2, 3, 5, 8])
        if rng.random() < .2:
            o["remove_adjacent_corners"] = 1
        if rng.random() < .3:
            o["background_color"] = "%06x" % rng.choice(cs)
        if rng.random() < .25:
            o["centerline"] = 1
        out.append(tc.line(w, h, px, o))
    for k in range(c.pick(2, 8)):           # curves of hundreds of points
        n = rng.choice([131, 140])
        r = n / 2 - rng.uniform(1, 4)
        px = [0 if (x - n / 2) ** 2 + (y - n / 2) ** 2 < r * r else 0xffffff for y in range(n) for x in range(n)]
        out.append(tc.line(n, n, px, dict(filter_iterations=0, line_threshold=0, line_reversion_threshold=0, error_threshold=rng.choice([0.1, 0.2]),
                                          corner_threshold=30, corner_always_threshold=10, background_color="ffffff")))
    # rectangles and L shapes at default corner settings: corners and straight sides
    for k in range(c.pick(120, 900)):
        w, h = rng.choice([(18, 18), (30, 20), (26, 34)])
        px = shape_image(rng, w, h, rng.sample(PAL, 2), "rects")
        o = dict(filter_iterations=0, line_threshold=0, line_reversion_threshold=0)
        if rng.random() < .5:
            o["error_threshold"] = rng.choice([0.5, 1, 4])
        out.append(tc.line(w, h, px, o))
    return out


def post(case, r):
    if "crash" not in r:
        o = dict(kv.split("=") for kv in case.split()[5].split(",") if "=" in kv)
        et = float(o.get("error_threshold", 2))
        r["tol"] = int((max(et, 1) + 1) * 256)
        plain = not any(k in o for k in ("corner_threshold", "corner_always_threshold", "corner_surround", "centerline", "tangent_surround"))
        r["rc"] = plain and et > 0.2
        r["run"] = CORNER_RUN
    return r


def run(c):
    c.mc("MCFit", dict(N=c.pick(6, 7)), spec="Spec", invariants=["Chained", "WholeOutline", "KeepsCorners"], properties=["Variant"])
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")

    def falsified():
        ref = tc.line(20, 20, [0] * 400, dict(filter_iterations=0))
        g = c.example(exe, ref, post)
        assert g["rc"] and not c.judge("JFit", [g], "NearFailed", count=False)

        def bad(f):
            x = copy.deepcopy(g)
            f(x["res"]["lists"][0]["s"])
            return x

        def bulge(s):
            s[0]["d"] = 3
            s[0]["f"][1] = [s[0]["f"][1][0] + 2000, s[0]["f"][1][1]]
            s[0]["f"][2] = [s[0]["f"][2][0] + 2000, s[0]["f"][2][1]]

        def cut(s):
            s[0]["f"][3] = s[1]["f"][3]
            s.pop(1)

        def split(s):
            m = [(s[0]["f"][0][i] + s[0]["f"][3][i]) // 2 for i in (0, 1)]
            a = copy.deepcopy(s[0])
            a["f"] = [s[0]["f"][0], m, m, m]
            b = copy.deepcopy(s[0])
            b["f"] = [m, m, m, s[0]["f"][3]]
            s[0:1] = [a, b]

        def nudge(s):
            p = s[0]["f"][3]
            s[0]["f"][3] = [p[0] + 100, p[1] + 100]
            s[1]["f"][0] = [p[0] + 100, p[1] + 100]
        corrupt = [bad(bulge), bad(cut), bad(split), bad(nudge)]
        return corrupt

    cs = cases(c)
    recs = c.conform(exe, cs, "JFit", "NearFailed", corrupt=falsified, post=post)
    c.sample(dict(case=cs[0][-120:], tolerance_256=recs[0].get("tol")))
    c.cov["outlines_measured"] = sum(len(r.get("loops", [])) for r in recs)
    c.assumptions.append("distances are judged in 1/256 pixel on 8-piece flattenings of the cubics")


main("C06", run)
