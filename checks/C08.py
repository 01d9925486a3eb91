import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from outline_cases import PAL


def cases(c):
    rng = c.rng
    out = []

    def line(w, h, np, px, n, bg):
        b = "-" if bg is None else "%06x" % bg
        out.append("quantize %d %d %d %s %d %s" % (w, h, np, hexpx(px, np), n, b))
    line(0, 0, 3, [], 4, None)
    line(0, 3, 1, [], 4, 0xffffff)
    # every colour count around the number of colours of a small image
    for n in range(1, 8):
        for bg in (None, PAL[0], PAL[1], 0x123456):
            for k in range(c.pick(4, 12)):
                px = [rng.choice(PAL[:6]) for _ in range(12)]
                line(4, 3, 3, px, n, bg)
    for k in range(c.pick(700, 6000)):
        w, h = rng.choice([(4, 4), (5, 3), (6, 6), (8, 8), (1, 9), (12, 1)] + ([(16, 16)] if k % 10 == 0 else []))
        m = rng.choice([2, 3, 5, 8, 13, w * h])
        base = rng.randrange(1 << 24)
        gen = rng.choice([lambda: rng.randrange(1 << 24),
                          lambda: rng.choice(PAL),
                          lambda: ((base >> 16 & 0xf0) + rng.randrange(16)) << 16 | ((base >> 8 & 0xf0) + rng.randrange(16)) << 8 | ((base & 0xf0) + rng.randrange(16)),
                          lambda: rng.choice([0, 1, 2, 3, 254, 255]) * 65536 + rng.choice([0, 255, 128]) * 256 + rng.choice([0, 1, 255]),
                          lambda: rng.randrange(256) << rng.choice([0, 8, 16])])
        cs = [gen() for _ in range(m)]
        # uneven populations: the palette holds weighted means
        ws = [rng.choice([1, 1, 2, 10]) for _ in cs]
        px = rng.choices(cs, ws, k=w * h)
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, m, max(1, m - 1), m + 1, 255, 256, 257, 1000])
        bg = rng.choice([None, None, rng.choice(px), rng.choice(px), gen(), 0xffffff, 0])
        if rng.random() < .35:
            px = [v % 256 for v in px]
            line(w, h, 1, px, n, None if bg is None else rng.choice([bg % 256 * 65793, bg % 256 * 65793, bg]))
        else:
            line(w, h, 3, px, n, bg)
    for n in c.pick([254, 255], [250, 253, 254, 255, 256]):     # more colours than ever allowed
        line(18, 16, 3, [j * 58000 + 77 for j in range(288)], n, None)
    return out


def run(c):
    acts = ["Halve", "Paint", "Pixel"]
    inv = ["Partition", "Inside", "Alone", "Guarantees"]
    nobg = 1 << 24
    c.mc("MCQuant", dict(PAL=[0, 0x000002, 0x080000, 0xf0f0f0], LEN=4, MAXN=4, BGS=[nobg, 0, 0xffffff, 0x040000]),
         spec="Spec", invariants=inv, properties=["Ends"], actions=acts)
    c.mc("MCQuant", dict(PAL=[0x101010, 0x101011, 0x101012, 0x141410, 0x10ff10, 0xff1010, 0x1010ff],
                         LEN=c.pick(4, 5), MAXN=c.pick(4, 5), BGS=[nobg, 0x101010, 0x13ff10]), invariants=inv)
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cs = cases(c)

    def falsified():
        px = [0, 0, 0, 0x040404, 0xff0000, 0xff0000, 0xf00000, 0x00ff00, 0x0000ff, 0x0000ff, 0xffffff, 0xffffff]
        good = c.example(exe, "quantize 4 3 3 %s 4 ffffff" % hexpx(px, 3))
        assert not c.judge("JQuant", [good], "QuantFailed", count=False), good
        o = good["out"]
        corrupt = [dict(good, out=px), dict(good, out=[o[0] + 1] + o[1:]), dict(good, out=o[:-1] + [0xfefefe]), dict(good, n=2),
                   dict(good, out=[v + (65536 if v == o[4] else 0) for v in o]), dict(good, size=[3, 4, 3]), dict(good, live=1)]
        return corrupt

    recs = c.conform(exe, cs, "JQuant", "QuantFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1], out=recs[-1].get("out")))
    c.cov["distinct_inputs"] = len(set(cs))
    c.cov["runs_that_changed_pixels"] = sum(r.get("out") != r.get("px") for r in recs)


main("C08", run)
