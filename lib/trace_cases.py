"""Bitmaps and option settings for whole tracing calls."""
from vlib import shape_image, hexpx
from outline_cases import PAL


def opts(d):
    return ",".join("%s=%s" % kv for kv in d.items()) or "-"


def line(w, h, px, o, cancel=0, sticky=0, loops=1, np=3):
    return "trace %d %d %d %s %s %d %d %d" % (w, h, np, hexpx(px, np), opts(o), cancel, sticky, loops)


def big_image(rng, w, h, colours):
    """images with wide one-coloured areas: discs, rectangles, rings, L shapes, diagonal bands"""
    kind = rng.choice(["disc", "disc", "rects", "rects", "rings", "band", "poly"])
    if kind in ("disc", "rects", "rings"):
        return shape_image(rng, w, h, colours, kind)
    bg = rng.choice(colours)
    px = [bg] * (w * h)
    for _ in range(rng.randrange(1, 3)):
        c = rng.choice(colours)
        if kind == "band":
            a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
            o, t = rng.uniform(-10, 30), rng.uniform(3, 12)
            for y in range(h):
                for x in range(w):
                    if abs(a * x + b * y - o) < t:
                        px[y * w + x] = c
        else:
            hp = [(rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(4, max(w, h) / 2)) for _ in range(rng.randrange(3, 6))]
            cx, cy = rng.uniform(0, w), rng.uniform(0, h)
            for y in range(h):
                for x in range(w):
                    if all(a * (x - cx) + b * (y - cy) < d * .7 for a, b, d in hp):
                        px[y * w + x] = c
    return px


def random_options(rng):
    d = {}

    def maybe(k, p, f):
        if rng.random() < p:
            d[k] = f()
    maybe("filter_iterations", .5, lambda: rng.choice([0, 0, 1, 4, 10]))
    maybe("error_threshold", .5, lambda: rng.choice([0, 0.1, 0.5, 1, 2, 3.5, 8]))
    maybe("line_threshold", .4, lambda: rng.choice([0, 0.2, 1, 3]))
    maybe("line_reversion_threshold", .3, lambda: rng.choice([0, 0.01, 0.5, 2]))
    maybe("corner_threshold", .3, lambda: rng.choice([0, 60, 100, 140, 180]))
    maybe("corner_always_threshold", .3, lambda: rng.choice([0, 20, 60, 100, 180]))
    maybe("corner_surround", .3, lambda: rng.choice([1, 2, 3, 4, 6, 10]))
    maybe("tangent_surround", .3, lambda: rng.choice([1, 2, 3, 5, 10]))
    maybe("remove_adjacent_corners", .3, lambda: 1)
    return d
