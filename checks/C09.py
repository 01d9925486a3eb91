import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
import trace_cases as T


def cases(c):
    rng = c.rng
    out = []

    def line(w, h, px, o, step, np=3):
        out.append("cancel %d %d %d %s %s %d" % (w, h, np, hexpx(px, np), T.opts(o), step))
    for w, h in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]:
        for px in all_images(w, h, [0x000000, 0xffffff]):
            line(w, h, px, {}, 1)
            line(w, h, px, dict(centerline=1), 1)
    line(0, 0, [], {}, 1)
    line(0, 0, [], dict(centerline=1, preserve_width=1, color_count=3), 1)
    for k in range(c.pick(220, 1600)):
        w, h = rng.choice([(4, 4), (7, 3), (6, 8), (9, 9)] + ([(16, 16), (24, 18)] if k % 6 == 0 else []))
        cs = rng.sample(PAL, rng.choice([2, 3, 4])) if rng.random() < .6 else [0, 0xffffff]
        px = shape_image(rng, w, h, cs)
        o = T.random_options(rng)
        if rng.random() < .4:
            o["centerline"] = 1
            if rng.random() < .5:
                o["preserve_width"] = 1
        if rng.random() < .3:
            o["color_count"] = rng.choice([1, 2, 3, 8])
        if rng.random() < .3:
            o["despeckle_level"] = rng.choice([1, 2, 5])
        if rng.random() < .4:
            o["background_color"] = "%06x" % rng.choice(cs)
        line(w, h, px, o, 1 if w * h < 90 else rng.choice([5, 7, 11]))
    for k in range(c.pick(4, 20)):
        w, h = rng.choice([(60, 40), (33, 70)])
        line(w, h, T.big_image(rng, w, h, [0, 0xffffff, 0xff0000]), dict(centerline=k % 2), 97)
    return out


def run(c):
    inv = ["Monotone", "InRange", "OneAtEnd", "NothingLeft", "CancelledIsNone", "FatalIsNone", "OtherwiseSome", "AskedPerList"]
    acts = ["Stage", "Scan", "ScanEnd", "AfterScan", "Fit", "FitEnd", "FreeCurves", "AfterFit", "CleanPixels", "CleanDist"]
    for per in ("TRUE", "FALSE"):
        c.mc("Pipeline", dict(CELLS=c.pick(3, 5), LISTS=c.pick(3, 4), LATCH="TRUE", PERROW=per), spec="Spec", invariants=inv, properties=["Ends"], actions=acts)
    # without remembering the answer a client that says yes once would be overheard
    c.mc("Pipeline", dict(CELLS=2, LISTS=2, LATCH="FALSE", PERROW="TRUE"), spec="Spec", invariants=["CancelledIsNone"], refute="CancelledIsNone")
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)

    def falsified():
        good = c.example(exe, "cancel 3 2 1 00ff00ff0000 - 3")
        assert not c.judge("JPipeline", [good], "CancelFailed", count=False), good

        def bad(k, **kw):
            return dict(good, runs=[dict(r, **kw) if j == k else r for j, r in enumerate(good["runs"])])
        corrupt = [bad(2, null=False), bad(2, live=1), bad(1, drops=1), bad(1, last=999999), bad(1, ones=0), bad(1, hash=[1, 2, 3]),
                   bad(3, yes=False), bad(1, asked=0), bad(2, ones=1), bad(len(good["runs"]) - 1, hash=[0, 0, 1], null=True), bad(1, bad=1), bad(2, fatal=1)]
        return corrupt

    recs = c.conform(exe, cs, "JPipeline", "CancelFailed", corrupt=falsified)
    c.cov["calls_judged"] = sum(len(r.get("runs", ())) for r in recs)
    c.cov["cancelled_calls"] = sum(q["yes"] for r in recs for q in r.get("runs", ()))
    c.sample(dict(case=cs[-1][:200], runs=recs[-1].get("runs", [])[:3]))
    c.cov["distinct_inputs"] = len(set(cs))


main("C09", run)
