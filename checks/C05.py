import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
import trace_cases as tc


def cases(c):
    rng = c.rng
    out = []
    cols = [0, 0xffffff]
    for w, h in [(1, 1), (2, 2), (3, 3)]:
        for px in all_images(w, h, cols):
            for o in ({}, dict(background_color="ffffff", centerline=1), dict(background_color="ffffff", filter_iterations=0)):
                out.append(tc.line(w, h, px, o))
    for k in range(c.pick(1500, 12000)):
        w, h = rng.choice([(4, 4), (6, 5), (7, 9), (10, 10), (13, 8), (16, 16)] + ([(24, 20), (32, 30)] if k % 5 == 0 else []))
        n = rng.choice([2, 2, 2, 3, 4])
        cs = rng.sample(PAL, n)
        np = 3
        px = tc.big_image(rng, w, h, cs) if rng.random() < .4 else shape_image(rng, w, h, cs)
        o = tc.random_options(rng)
        if rng.random() < .4:
            o["filter_iterations"] = 0
        if rng.random() < .5:
            o["background_color"] = "%06x" % rng.choice(cs)
        if rng.random() < .4:
            o["centerline"] = 1
            if rng.random() < .5:
                o["preserve_width"] = 1
                o["width_weight_factor"] = rng.choice([0.5, 1, 6, 20])
        if rng.random() < .15:
            o["despeckle_level"] = rng.choice([1, 2, 5])
        if rng.random() < .15:
            o["color_count"] = rng.choice([1, 2, 3, 8])
        if rng.random() < .15:
            np = 1
            g = {v: rng.randrange(256) for v in set(px)}
            if "background_color" in o:
                o["background_color"] = "%06x" % (g.get(int(o["background_color"], 16), 255) * 65793)
            px = [g[v] for v in px]
        out.append(tc.line(w, h, px, o, np=np))
    return out


def post(case, r):
    if "crash" not in r:
        o = dict(kv.split("=") for kv in case.split()[5].split(",") if "=" in kv)
        r["fi0"] = o.get("filter_iterations") == "0"
    return r


def run(c):
    c.mc("MCFit", dict(N=c.pick(6, 7)), spec="Spec", invariants=["Chained", "Pending", "WholeOutline", "KeepsCorners", "Forward"],
         properties=["Variant", "Ends"], actions=["ShortLine", "Accept", "Split"])
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)
    # falsified copies of a real record must be rejected

    def falsified():
        good = c.example(exe, tc.line(6, 6, [0] * 36, dict(filter_iterations=0)), post)
        assert not c.judge("JFit", [good], "ChainFailed", count=False)
        import copy

        def bad(f):
            g = copy.deepcopy(good)
            f(g)
            return g
        L = lambda g: g["res"]["lists"][0]
        corrupt = [bad(lambda g: L(g)["s"].pop()), bad(lambda g: L(g)["s"].pop(1)), bad(lambda g: g["res"]["lists"].pop()),
                   bad(lambda g: L(g).update(color=1)), bad(lambda g: L(g).update(cw=True)), bad(lambda g: L(g).update(open=True)),
                   bad(lambda g: g["res"].update(w=5)), bad(lambda g: g["res"].update(bg=3)), bad(lambda g: g.update(null=True)),
                   bad(lambda g: L(g)["s"][0].update(d=2)), bad(lambda g: L(g)["s"].reverse()), bad(lambda g: L(g)["s"][0]["b"][1].__setitem__(0, 77)),
                   bad(lambda g: g["res"].update(centerline=True)), bad(lambda g: L(g)["s"].extend(L(g)["s"]))]
        return corrupt

    recs = c.conform(exe, cs, "JFit", "ChainFailed", corrupt=falsified, post=post)
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample(dict(case=cs[i][:200], lists=len(recs[i].get("res", {}).get("lists", []))))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["spline_lists"] = sum(len(r.get("res", {}).get("lists", [])) for r in recs)


main("C05", run)
