import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL


def cases(c):
    rng = c.rng
    out = []

    def line(w, h, px, bg, np):
        out.append("thin %d %d %d %s %s" % (w, h, np, hexpx(px, np), "-" if bg is None else "%06x" % bg))
    for w, h in c.pick([(1, 1), (1, 3), (3, 1), (2, 2), (3, 3)], [(1, 1), (1, 5), (5, 1), (2, 2), (3, 3), (4, 3), (2, 5)]):
        for px in all_images(w, h, [0, 0xff]):
            line(w, h, px, None, 1)
            line(w, h, [0xffffff if v else 0 for v in px], None, 3)
    # a 3x3 neighbourhood inside a frame: every table entry away from the border
    for px in all_images(3, 3, [0, 1]):
        q = [1] * 49
        for k in range(9):
            q[(2 + k // 3) * 7 + 2 + k % 3] = px[k]
        if rng.random() < .3:
            line(7, 7, [255 * v for v in q], None, 1)
        line(7, 7, [0xffffff * v for v in q], 0xffffff, 3)
        for k in range(49):                 # the same neighbourhood surrounded by ink
            if not (2 <= k // 7 <= 4 and 2 <= k % 7 <= 4):
                q[k] = 0
        if rng.random() < c.pick(.25, 1):
            line(7, 7, [0xffffff * v for v in q], None, 3)
    for k in range(c.pick(500, 4500)):
        w, h = rng.choice([(4, 4), (5, 7), (8, 5), (9, 9), (12, 10)] + ([(16, 16), (20, 12)] if k % 4 == 0 else []))
        n = rng.choice([2, 2, 3, 4])
        cs = rng.sample(PAL, n)
        px = shape_image(rng, w, h, cs)
        bg = rng.choice([None, rng.choice(cs), cs[0], 0xffffff])
        if rng.random() < .4:
            g = {v: rng.randrange(256) for v in set(px)}
            bg = None if bg is None else g.get(bg, 255) * 65793
            line(w, h, [g[v] for v in px], bg, 1)
        else:
            line(w, h, px, bg, 3)
    for k in range(c.pick(4, 10)):          # longer than a byte counts
        n = rng.choice([257, 258, 300])
        w, h = (n, 3) if k % 2 else (3, n)
        px = [0xffffff if rng.random() < .85 else 0 for _ in range(w * h)]
        for j in range(8):                  # the last columns and rows hold blocks
            for i in range(2):
                px[(h - 1 - i) * w + w - 1 - j % w] = px[(h - 1 - j % h) * w + w - 1 - i] = 0
        if k % 4 < 2:
            line(w, h, [v & 255 for v in px], None, 1)
        else:
            line(w, h, px, None, 3)
    return out


def run(c):
    inv = ["OnlyRemoves", "Parts", "Holes", "EndsStay", "Fix"]
    for w, h in c.pick([(3, 3), (4, 2), (1, 4)], [(3, 3), (4, 3), (3, 4), (1, 6), (6, 2)]):
        c.mc("MCThin", dict(W=w, H=h), spec="Spec", invariants=inv, properties=["Shrinks", "Terminates"] if w * h <= 9 else ["Shrinks"],
             actions=["DoPass", "Again", "Stop"] if (w, h) == (3, 3) else ())
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    K, B = 0, 0xffffff
    good = dict(w=3, h=3, np=3, px=[B, B, B, K, K, K, B, K, B], bg=B, out=[B, B, B, K, K, K, B, K, B], again=[B, B, B, K, K, K, B, K, B], size=[3, 3, 3], msgs=0)
    cs = cases(c)

    def falsified():
        good = c.example(exe, "thin 5 4 3 " + hexpx([B] * 5 + [B, K, K, K, B] * 2 + [B] * 5) + " -")
        assert not c.judge("JThin", [good], "ThinFailed", count=False)
        o = good["out"]
        k0 = o.index(K)
        corrupt = [dict(good, out=good["px"], again=good["px"]), dict(good, out=[B] * 20, again=[B] * 20),
                   dict(good, out=o[:k0] + [1] + o[k0 + 1:]), dict(good, again=[B] * 20), dict(good, size=[5, 4, 1]), dict(good, msgs=1),
                   dict(good, out=o[:k0] + [B] + o[k0 + 1:], again=o[:k0] + [B] + o[k0 + 1:])]
        return corrupt

    recs = c.conform(exe, cs, "JThin", "ThinFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], out=recs[-1].get("out")))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["runs_that_removed_pixels"] = sum(r.get("out") != r.get("px") for r in recs)


main("C03", run)
