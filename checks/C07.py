import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
from speck_cases import clear_cut


def cases(c):
    rng = c.rng
    out = []

    def line(w, h, np, px, l, t, n):
        out.append("despeckle %d %d %d %s %d %d %d" % (w, h, np, hexpx(px, np), l, t, n))
    g = [0, 100, 210]
    for w, h in c.pick([(1, 1), (1, 4), (3, 2), (2, 3)], [(1, 5), (3, 2), (2, 3), (3, 3), (4, 2)]):
        for px in all_images(w, h, g):
            line(w, h, 1, px, 2 if w * h < 9 else rng.choice([1, 2, 3]), 0, 100)
    for px in all_images(3, 3, [0x000000, 0xff0000]):
        line(3, 3, 3, px, 3, rng.choice([0, 200]), 100)
    k = 0
    while k < c.pick(1500, 10000):
        w, h = rng.choice([(4, 4), (5, 4), (3, 7), (6, 6), (8, 5), (9, 9), (1, 9), (12, 2)] + ([(12, 12)] if k % 10 == 0 else []))
        level = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 20])
        tight = rng.choice([0, 0, 100, 200, 200, 300, 800, rng.randrange(0, 800)])
        noise = rng.choice([100, 100, 99, 99, 80, 50, 30, 10, rng.randrange(1, 101)])
        if not clear_cut(w, h, level, tight, noise):
            continue
        k += 1
        n = rng.choice([2, 3, 3, 4, 6])
        cs = rng.choice([rng.sample(PAL, n), [rng.randrange(1 << 24) for _ in range(n)],
                         [(rng.randrange(8) * 16 + 60) * 65793 + rng.randrange(40) for _ in range(n)]])
        px = shape_image(rng, w, h, cs, rng.choice(["noise", "noise", "sparse", "rects", "walk", "disc", "diag", "rings"]))
        if rng.random() < .4:
            gm = {v: rng.randrange(256) for v in set(px)}
            line(w, h, 1, [gm[v] for v in px], level, tight, noise)
        else:
            line(w, h, 3, px, level, tight, noise)
    for k in range(c.pick(40, 160)):
        axis, at, w, h, px = triple(rng, 4, 4, [rng.choice([0, 90, 210]) for _ in range(16)])
        n = rng.choice([100, 255, 256, 300, 5000, 32764, 32767, 32768, 40000, 65535 - 8])
        if axis == "Y":
            n = min(n, 32768)               # regions of more rows: see the winding lines
        line(w, h, 1, px, 2, 0, 100)
        out[-1] = out[-1].replace("despeckle ", "despeckle +%s:%d:%d " % (axis, at, n))
        # the same in colour, long enough that a small counter would take the run for a speck
        cm = {0: 0x102030, 90: 0x50a060, 210: 0xf0d0c0}
        line(w, h, 3, [cm[v] for v in px], 2, 0, 100)
        out[-1] = out[-1].replace("despeckle ", "despeckle +%s:%d:%d " % (axis, at, rng.choice([252, 253, 254, 255, 256, 257, 508, 509])))
    return out


def run(c):
    inv = ["NoNew", "Whole", "Big", "Root", "Small", "SameWithoutTies"]
    for w, h, l, t, n in c.pick([(3, 2, 2, 0, 100), (3, 2, 3, 200, 99), (2, 3, 2, 300, 50)],
                                [(3, 2, 2, 0, 100), (2, 3, 3, 200, 99), (4, 2, 3, 0, 100), (4, 2, 2, 300, 60), (3, 3, 3, 200, 99)]):
        c.mc("MCSpeck", dict(W=w, H=h, LEVEL=l, TIGHT=t, NOISE=n), spec="Spec", invariants=inv,
             properties=["Merges", "Ends"] if w * h < 8 else [],
             actions=["SkipSeen", "Leave", "Recolour", "NextPass"] if (w, h, t) == (3, 2, 0) else ())
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)
    G = 65793

    def falsified():
        px = [0, 10, 0, 200, 200, 0, 0, 0, 0, 200, 0, 0]
        good = c.example(exe, "despeckle 4 3 1 %s 2 0 100" % hexpx(px, 1))
        assert not c.judge("JSpeck", [good], "SpeckFailed", count=False), good
        o = good["out"]
        assert o != good["px"]
        corrupt = [dict(good, out=good["px"]), dict(good, out=[3] + o[1:]), dict(good, out=[0] * 12), dict(good, out=[200 * G] * 12),
                   dict(good, size=[3, 4, 1]), dict(good, msgs=1), dict(good, out=o[:-1] + [200 * G])]
        return corrupt

    recs = c.conform(exe, cs, "JSpeck", "SpeckFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], out=recs[-1].get("out")))
    # one region of very many runs
    wind = ["winding %d %d %d %d" % (w, h, np, l) for np in (1, 3) for w, h, l in ((5, 5, 2), (31, 41, 4), (101, 101, 2), (140, 150, 5), (801, 801, 2))]
    c.conform(exe, wind, "JSpeck", "WindingFailed", corrupt=lambda: [dict(w=5, h=5, np=1, level=2, changed=1, msgs=0), dict(w=5, h=5, np=1, level=2, changed=0, msgs=1)],
              key=lambda case, r, failed: "-".join(case.split() + failed))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["runs_that_changed_pixels"] = sum(r.get("out") != r.get("px") for r in recs)


main("C07", run)
