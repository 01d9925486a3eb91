import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL
from speck_cases import clear_cut


def cases(c):
    rng = c.rng
    out = []
    k = 0
    while k < c.pick(1200, 6000):
        w, h = rng.choice([(4, 4), (5, 4), (3, 7), (6, 6), (8, 5), (9, 9), (1, 9), (12, 2), (2, 2), (1, 1)] + ([(14, 12)] if k % 10 == 0 else []))
        level = rng.choice([0, 0, 1, 2, 2, 3, 4, 20])
        tight = rng.choice([0, 100, 200, 300, rng.randrange(0, 800)])
        noise = rng.choice([100, 99, 80, 50, rng.randrange(1, 101)])
        if not clear_cut(w, h, level, tight, noise):
            continue
        k += 1
        n = rng.choice([2, 3, 3, 4, 6])
        cs = rng.choice([rng.sample(PAL, n), [rng.randrange(1 << 24) for _ in range(n)]])
        px = shape_image(rng, w, h, cs, rng.choice(["noise", "sparse", "rects", "rects", "walk", "disc", "diag", "rings"]))
        np = 3
        if rng.random() < .35:
            gm = {v: rng.randrange(256) for v in set(px)}
            px, np = [gm[v] for v in px], 1
        bg = rng.choice([None, 0xffffff, rng.choice(px) * (65793 if np == 1 else 1), rng.randrange(256) * 65793])
        o = ["despeckle_level=%d" % level, "despeckle_tightness=%.2f" % (tight / 100), "noise_removal=%.2f" % (noise / 100),
             "color_count=%d" % rng.choice([0, 0, 1, 1, 2, 3, 5, 255, 256]), "centerline=%d" % rng.choice([0, 1]),
             "preserve_width=%d" % rng.choice([0, 0, 1])]
        if bg is not None:
            o.append("background_color=%06x" % bg)
        idle = ["charcode=%d" % rng.choice([0, 65, 255]), "remove_knees=%d" % rng.choice([0, 1])]
        if level == 0:
            idle += ["despeckle_tightness=%.2f" % rng.choice([0, 1, 7.5]), "noise_removal=%.2f" % rng.choice([.1, .5, 1])]
        out.append("stages %d %d %d %s %s %s" % (w, h, np, hexpx(px, np), ",".join(o), ",".join(idle)))
    return out


def run(c):
    inv = ["Keeps", "Idle", "Few", "Thin", "Old", "Clean", "Steps", "Counted"]
    # the palette has no two colours equally far from a third
    pal, bgs = [0, 0x4080f0, 0xf0f0f0], [16777216, 0, 0xf0f0f0]
    for w, h, n in c.pick([(5, 1, 3), (3, 2, 2)], [(5, 1, 3), (3, 2, 3)]):
        c.mc("MCPrepare", dict(W=w, H=h, PAL=pal[:n], BGS=bgs[:2 if w < 5 else c.pick(2, 3)], ORDER='"documented"'), spec="Spec", invariants=inv,
             properties=["Ends"] if w * h < 7 else [])
    for order, broken in (("thin first", "Thin"), ("reduce first", "Counted")):
        c.mc("MCPrepare", dict(W=3, H=3 if broken == "Thin" else 2, PAL=pal[:2] if broken == "Thin" else pal, BGS=bgs[:1], ORDER='"%s"' % order),
             spec="Spec", invariants=[broken], refute=broken)
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)

    def falsified():
        R, B, W = 0xf00000, 0x0000f0, 0xffffff
        px = [R] * 6 + [R, R, B, R, B, B] + [R, R, R, R, B, B] + [R, R, R, R, B, B]
        good = c.example(exe, "stages 6 4 3 %s despeckle_level=2,despeckle_tightness=0,noise_removal=1,color_count=2,centerline=1 charcode=3" % hexpx(px))
        assert not c.judge("JPrepare", [good], "PrepareFailed", count=False), good
        assert good["spk"] != good["px"] and good["red"] != good["spk"] and good["fin"] != good["red"]
        return [dict(good, spk=good["px"]), dict(good, red=good["spk"]), dict(good, fin=good["red"]), dict(good, n=1), dict(good, level=0),
                dict(good, cl=False), dict(good, bg=good["red"][0]), dict(good, hspk=[1, 2, 3, 4]), dict(good, hred=[1, 2, 3, 4]),
                dict(good, idle=[1, 2, 3, 4]), dict(good, null=True), dict(good, fin=good["fin"][1:])]

    recs = c.conform(exe, cs, "JPrepare", "PrepareFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], fin=recs[-1].get("fin")))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["runs_in_which_every_stage_changed_the_bitmap"] = sum("fin" in r and r["px"] != r["spk"] != r["red"] != r["fin"] for r in recs)


main("C27", run)
