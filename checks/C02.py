import sys, os, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import outline_cases
from outline_cases import PAL
import trace_cases as tc


def fitted_cases(c):
    """wide shapes; margin: the pixels judged lie at least this deep inside their colour"""
    rng = c.rng
    out, deep = [], {}
    for k in range(c.pick(260, 1800)):
        w, h = rng.choice([(20, 16), (24, 24), (30, 22), (17, 33)])
        cs = rng.sample(PAL, rng.choice([2, 2, 3, 4]))
        px = tc.big_image(rng, w, h, cs)
        o = {}
        d = 6
        if rng.random() < .75:
            et = rng.choice([0.25, 0.5, 1, 1, 1.5])
            o = dict(filter_iterations=0, line_threshold=0, line_reversion_threshold=0, error_threshold=et)
            d = 2 if et <= 1 else 3
            if rng.random() < .3:
                o["corner_threshold"] = rng.choice([60, 100, 140, 180])
            if rng.random() < .3:
                o["tangent_surround"] = rng.choice([1, 3, 6])
        if rng.random() < .5:
            o["background_color"] = "%06x" % rng.choice(cs)
        l = tc.line(w, h, px, o, loops=0)
        out.append(l)
        deep[l] = d
    return out, deep


def run(c):
    for w, h, n in c.pick([(3, 3, 2), (2, 3, 3)], [(3, 3, 2), (2, 3, 3), (3, 2, 3), (1, 5, 3), (4, 3, 2)]):
        c.mc("MCOutline", dict(W=w, H=h, NCOL=n), spec="Spec", invariants=["PaintsBack", "ClosesUp", "SidesOnce"])
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    # the loops themselves
    good = dict(w=2, h=1, px=[0, 1], after=[0, 1], bg=-1, msgs=0,
                loops=[dict(color=0, cw=False, open=False, pts=[[0, 1], [0, 0], [1, 0], [1, 1]]),
                       dict(color=1, cw=False, open=False, pts=[[1, 1], [1, 0], [2, 0], [2, 1]])])
    assert not c.judge("JOutline", [good], "PaintFailed", count=False)
    corrupt = [dict(good, px=[1, 0]), dict(good, loops=good["loops"][:1]), dict(good, loops=[good["loops"][0]] * 2),
               dict(good, loops=[dict(good["loops"][0], cw=True), good["loops"][1]])]
    cs = outline_cases.cases(c, quick_random=900, thorough_random=6000)
    recs = c.conform(exe, cs, "JOutline", "PaintFailed", corrupt=corrupt)
    # after fitting
    fc, deep = fitted_cases(c)

    def post(case, r):
        r["deep"] = deep.get(case, 2)
        r["step"] = 3
        return r

    def falsified():
        ref = tc.line(20, 16, [0] * 160 + [0xff0000] * 160, dict(filter_iterations=0))
        g = c.example(exe, ref, post)
        assert not c.judge("JFit", [g], "FitPaintFailed", count=False)
        b1 = copy.deepcopy(g)
        b1["res"]["lists"].reverse()
        b1["res"]["lists"][0]["color"] = 255
        b2 = copy.deepcopy(g)
        b2["res"]["lists"].pop()
        b3 = copy.deepcopy(g)
        b3["res"]["lists"][1]["cw"] = True
        return [b1, b2, b3]

    frecs = c.conform(exe, fc, "JFit", "FitPaintFailed", corrupt=falsified, post=post)
    c.sample(dict(case=cs[len(cs) // 2][:200], loops=len(recs[len(cs) // 2].get("loops", []))))
    c.sample(dict(case=fc[0][:120], margin=deep[fc[0]]))
    c.cov["loop_paintings"] = len(recs)
    c.cov["fitted_paintings"] = len(frecs)


main("C02", run)
