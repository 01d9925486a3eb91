import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL


def cases(c):
    rng = c.rng
    out = []

    def line(w, h, px, bg, thin, np=3):
        out.append("centerline %d %d %d %s %s %d" % (w, h, np, hexpx(px, np), "-" if bg is None else "%06x" % bg, thin))
    K, W = 0, 0xffffff
    for w, h in c.pick([(1, 1), (1, 4), (4, 1), (2, 3), (3, 3)], [(1, 6), (6, 1), (2, 3), (3, 3), (4, 3), (3, 4)]):
        for px in all_images(w, h, [K, W]):
            line(w, h, px, None, 0)
            if rng.random() < .3:
                line(w, h, px, W, 1)
    for w, h in c.pick([(2, 2)], [(2, 2), (3, 2)]):
        for px in all_images(w, h, [K, W, 0xff0000]):
            line(w, h, px, W, 0)
    # random strokes: paths, rings, trees, crossings
    for k in range(c.pick(1300, 9000)):
        w, h = rng.choice([(4, 4), (5, 7), (8, 5), (9, 9), (12, 10), (7, 7)] + ([(20, 16), (24, 24)] if k % 8 == 0 else []))
        n = rng.choice([2, 2, 3, 4])
        cs = rng.sample(PAL, n)
        thin = rng.random() < .7
        kind = rng.randrange(4)
        if kind == 0:
            px = [W] * (w * h)
            for _ in range(rng.randrange(1, 5)):
                col = rng.choice([K, K, 0xff0000])
                x, y = rng.randrange(w), rng.randrange(h)
                dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
                for _ in range(rng.randrange(2, 14)):
                    if 0 <= x < w and 0 <= y < h:
                        px[y * w + x] = col
                    x += dx
                    y += dy
                    if rng.random() < .25:
                        dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (-1, 0), (0, -1), (-1, -1), (-1, 1)])
            line(w, h, px, rng.choice([None, W]), thin)
            continue
        px = shape_image(rng, w, h, cs, None if kind < 3 else "walk")
        bg = rng.choice([None, rng.choice(cs), cs[0], 0xffffff])
        if rng.random() < .25:
            g = {v: rng.randrange(256) for v in set(px)}
            bg = None if bg is None else g.get(bg, 255) * 65793
            line(w, h, [g[v] for v in px], bg, thin, 1)
        else:
            line(w, h, px, bg, thin)
    for k in range(c.pick(20, 70)):
        axis, at, w, h, px = triple(rng, 3, 3, [W if rng.random() < .6 else K for _ in range(9)])
        px = [W if (r % 2 if axis == "X" else q % 2) else px[r * w + q] for r in range(h) for q in range(w)]
        n = rng.choice([100, 200, 255, 256, 300, 5000, 32764, 32767, 32768, 40000, 65535 - 8])
        line(w, h, px, W, 0)
        out[-1] = out[-1].replace("centerline ", "centerline +%s:%d:%d " % (axis, at, n))
    return out


def run(c):
    for w, h, n in c.pick([(3, 3, 2), (4, 1, 3), (2, 2, 3), (2, 4, 2)], [(3, 3, 2), (4, 3, 2), (3, 4, 2), (2, 3, 3), (5, 2, 2), (1, 5, 3)]):
        c.mc("MCCentre", dict(W=w, H=h, NCOL=n), spec="Spec", invariants=["LinesOK", "Once", "Whole", "Lost", "AsFunction"],
             properties=["Ends"] if w * h <= 9 else [],
             actions=["Skip", "Begin", "Link", "EndClosed", "EndOpen", "TurnRound", "Join"] if (w, h) == (3, 3) else ())
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)
    W, K = 0xffffff, 0

    def falsified():
        good = c.example(exe, "centerline 4 4 3 " + hexpx([W] * 4 + [W, K, W, W, W, W, K, W, W, W, W, W]) + " - 0")
        assert not c.judge("JCentre", [good], "CentreFailed", count=False), good
        L = good["loops"][0]
        corrupt = [dict(good, loops=[]), dict(good, loops=[dict(L, open=False), dict(L)]), dict(good, loops=[dict(L, color=1)]),
                   dict(good, loops=[dict(L, pts=L["pts"][::-1])]), dict(good, loops=[L, L]), dict(good, loops=[dict(L, pts=L["pts"][:1])]),
                   dict(good, loops=[dict(L, cw=True)]), dict(good, after=[K] * 16), dict(good, bg=K), dict(good, msgs=1)]
        return corrupt

    recs = c.conform(exe, cs, "JCentre", "CentreFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], lines=recs[-1].get("loops")))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["lines_seen"] = sum(len(r.get("loops", [])) for r in recs)
    c.cov["closed_lines_seen"] = sum(1 for r in recs for l in r.get("loops", []) if not l["open"])


main("C04", run)
