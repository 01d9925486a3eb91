"""Bitmaps for outline extraction: all small ones, then structured random larger ones."""
from vlib import all_images, shape_image, hexpx, triple

PAL = [0x000000, 0xffffff, 0xff0000, 0x0000ff, 0x00ff00, 0xfffffe, 0x010000, 0x808080]


def line(mode, w, h, px, bg, np=3):
    return "%s %d %d %d %s %s" % (mode, w, h, np, hexpx(px, np), "-" if bg is None else "%06x" % bg)


def cases(c, mode="outline", quick_random=1200, thorough_random=9000, maxdim=None):
    rng = c.rng
    out = []
    small = c.pick([(1, 1, 2), (1, 3, 3), (3, 1, 3), (2, 2, 3), (3, 3, 2)], [(1, 1, 2), (1, 4, 3), (4, 1, 3), (2, 2, 4), (3, 3, 2), (4, 3, 2), (3, 4, 2), (2, 3, 3)])
    for w, h, n in small:
        cols = PAL[:n] if rng.random() < .5 else rng.sample(PAL, n)
        for px in all_images(w, h, cols):
            out.append(line(mode, w, h, px, None))
            out.append(line(mode, w, h, px, cols[0]))
    for k in range(c.pick(quick_random, thorough_random)):
        w, h = rng.choice([(4, 4), (5, 4), (5, 5), (6, 3), (7, 5), (3, 8), (9, 9), (12, 7)] + ([(16, 12), (20, 20)] if k % 20 == 0 else []))
        n = rng.choice([2, 2, 3, 3, 4, 6])
        cols = rng.sample(PAL, n)
        if rng.random() < .3:
            cols = [rng.randrange(1 << 24) for _ in range(n)]
        np = 3
        px = shape_image(rng, w, h, cols)
        bg = rng.choice([None, None, cols[0], rng.choice(cols), 0xffffff])
        if rng.random() < .2:       # grey bitmaps
            np = 1
            g = {v: rng.randrange(256) for v in set(px)}
            px = [g[v] for v in px]
            bg = None if bg is None else g.get(bg, rng.randrange(256)) * 65793
        out.append(line(mode, w, h, px, bg, np))
    return out


def long_cases(c, mode="outline"):
    """bitmaps with one column or row repeated up to tens of thousands of times"""
    rng = c.rng
    out = []
    for k in range(c.pick(24, 80)):
        w, h = rng.choice([(3, 3), (4, 3), (2, 4), (5, 3)])
        cols = rng.sample(PAL, rng.choice([2, 3]))
        axis, at, w, h, px = triple(rng, w, h, shape_image(rng, w, h, cols, rng.choice(["noise", "rects", "rings"])))
        n = rng.choice([100, 200, 254, 255, 256, 300, 5000, 32764, 32767, 32768, 40000, 65535 - 8])
        out.append(line("%s +%s:%d:%d" % (mode, axis, at, n), w, h, px, rng.choice([None, cols[0]])))
    return out
