import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import trace_cases as T


def clear(v):
    """colours whose grey value does not sit on a rounding edge"""
    return (30 * (v >> 16) + 59 * (v >> 8 & 255) + 11 * (v & 255)) % 100 != 50


def dist_cases(c):
    rng = c.rng
    out = []

    def line(w, h, np, px):
        out.append("dist %d %d %d %s 1" % (w, h, np, hexpx(px, np)))
    line(0, 0, 1, [])
    for w, h in c.pick([(1, 1), (1, 4), (3, 3), (5, 2)], [(1, 4), (4, 3), (5, 2), (2, 5), (3, 4)]):
        for px in all_images(w, h, [0, 255]):
            line(w, h, 1, px)
    for k in range(c.pick(500, 4000)):
        w, h = rng.choice([(6, 6), (9, 5), (5, 9), (8, 8), (12, 12), (2, 7), (7, 1), (16, 9)])
        kind = rng.choice(["bin", "bin", "dark", "grey", "rgb"])
        if kind == "bin":
            v = rng.choice([0, 0, 0, 100, 254])
            line(w, h, 1, [v if rng.random() < rng.choice([.7, .95, .98]) else 255 for _ in range(w * h)])
        elif kind == "dark":
            line(w, h, 1, shape_image(rng, w, h, [0, 255]))
        elif kind == "grey":
            gs = [rng.randrange(256) for _ in range(rng.choice([2, 3, 10]))] + [255, 255, 0]
            line(w, h, 1, [rng.choice(gs) for _ in range(w * h)])
        else:
            cs = [v for v in [rng.randrange(1 << 24) for _ in range(3)] if clear(v)] + [0xffffff, 0, 0xffffff]
            line(w, h, 3, [rng.choice(cs) for _ in range(w * h)])
    return out


def width_cases(c):
    rng = c.rng
    out = []
    for k in range(c.pick(500, 4000)):
        w, h = rng.choice([(6, 6), (9, 7), (12, 12), (16, 12), (20, 20), (5, 14)])
        fg = rng.choice([0, 0, 0x7f])
        px = shape_image(rng, w, h, [fg, 255, 255], rng.choice(["rects", "rings", "walk", "disc", "diag", "noise", "sparse"])) if rng.random() < .8 else T.big_image(rng, w, h, [fg, 255])
        if rng.random() < .3:           # several greys, in patches and as single pixels
            gs = [rng.randrange(250) for _ in range(rng.choice([2, 3]))] + [255]
            px = shape_image(rng, w, h, gs, rng.choice(["rects", "walk", "diag", "sparse"]))
            for _ in range(rng.choice([0, 0, 3])):
                px[rng.randrange(w * h)] = rng.choice(gs)
        q = rng.choice([4, 4, 24, 10, 1, 8])
        o = dict(centerline=1, preserve_width=1, filter_iterations=0, width_weight_factor=q / 4)
        for k2 in ("error_threshold", "line_threshold", "corner_surround", "tangent_surround"):
            v = T.random_options(rng).get(k2)
            if v is not None and rng.random() < .5:
                o[k2] = v
        if rng.random() < .5:
            out.append(T.line(w, h, px, o, loops=0, np=1))
        else:
            out.append(T.line(w, h, [v * 65793 for v in px], o, loops=0))
    return out


def run(c):
    inv = ["NeverBelow", "ExactIfUniform", "WhiteIsZero"]
    c.mc("MCDist", dict(W=3, H=3, GREYS=[0, 255]), spec="Spec", invariants=inv, properties=["Falls"], actions=["Down", "Turn", "Up"])
    c.mc("MCDist", dict(W=c.pick(5, 4), H=c.pick(2, 4), GREYS=[0, 255]), invariants=inv)
    c.mc("MCDist", dict(W=3, H=c.pick(2, 3), GREYS=[0, 200, 255]), invariants=inv)
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = dist_cases(c)

    px = [255] * 7 + [255, 0, 0, 0, 0, 0, 255] * 5 + [255] * 7

    def falsified():
        good = c.example(exe, "dist 7 7 1 %s 1" % hexpx(px, 1))
        assert not c.judge("JDist", [good], "DistFailed", count=False), good
        d = good["d"]
        corrupt = [dict(good, d=d[:24] + [d[24] + 5000] + d[25:]), dict(good, d=d[:24] + [d[24] - 5000] + d[25:]), dict(good, d=[1] + d[1:]),
                   dict(good, live=1), dict(good, after=d), dict(good, dw=8)]
        return corrupt

    recs = c.conform(exe, cs, "JDist", "DistFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], d=recs[-1].get("d")))

    def post(case, r):
        f = float(case.split("width_weight_factor=")[1].split(",")[0].split(" ")[0])
        return dict(r, wwf=round(f * 4))
    ws = width_cases(c)
    wc = "trace 7 7 1 %s centerline=1,preserve_width=1,filter_iterations=0,width_weight_factor=1.0 0 0 0" % hexpx(px, 1)

    def false_widths():
        good = c.example(exe, wc, post)
        assert not c.judge("JDist", [good], "WidthFailed", count=False), good
        l = good["res"]["lists"]
        bad = [dict(l[0], s=[dict(l[0]["s"][0], z=[l[0]["s"][0]["z"][0] + 64, 0])])]
        return [dict(good, null=True), dict(good, res=dict(good["res"], pw=False)), dict(good, wwf=8), dict(good, res=dict(good["res"], lists=bad))]

    recs = c.conform(exe, ws, "JDist", "WidthFailed", corrupt=false_widths, post=post)
    c.cov["splines_with_width"] = sum(len(x["s"]) for r in recs if "res" in r for x in r["res"]["lists"])
    c.cov["distinct_inputs"] = len(set(cs)) + len(set(ws))


main("C24", run)
