"""Files and options for whole conversions."""
import read_cases as rc
import struct, zlib
from vlib import *

READERS = ["pnm", "bmp", "tga", "png", "gf"]
SUFFIX = dict(pnm=["pnm", "pbm", "pgm", "ppm", "PNM", "Pbm"], bmp=["bmp", "BMP"], tga=["tga", "TGA"], png=["png", "PnG"], gf=["gf"])
WRITERS = ["svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "fig", "mif", "er", "pov", "ugs", "dxf", "emf", "cgm", "dr2d", "plt", "ild"]
COUNTS = {"color-count": [0, 1, 2, 3, 5, 8, 256], "corner-surround": [1, 2, 3, 4, 6], "despeckle-level": [0, 1, 3, 8, 20], "filter-iterations": [0, 1, 2, 4, 9],
          "tangent-surround": [1, 2, 3, 5]}
DECIMALS = {"corner-always-threshold": [0, 60000, 90500, 180000], "corner-threshold": [0, 100000, 140000, 179250], "error-threshold": [100, 500, 2000, 3750],
            "line-reversion-threshold": [0, 10, 250, 2000], "line-threshold": [0, 200, 1000, 3500], "despeckle-tightness": [0, 500, 2000, 8000],
            "noise-removal": [0, 500, 990, 1000], "width-weight-factor": [500, 1000, 6000]}
SWITCHES = ["remove-adjacent-corners", "centerline", "preserve-width"]
COLOURS = [0, 0xffffff, 0xff0000, 0x808080, 0x0a0b0c]


def hx(s):
    return s.encode().hex() or "-"


def options(rng, p=.25):
    s = {}
    for d in (COUNTS, DECIMALS):
        for k, v in d.items():
            if rng.random() < p * .6:
                s[k] = rng.choice(v)
    for k in SWITCHES:
        if rng.random() < p:
            s[k] = 1
    if rng.random() < p * 1.5:
        s["background-color"] = rng.choice(COLOURS)
    if rng.random() < p:
        s["dpi"] = rng.choice([1, 72, 90, 300, 600])
    return s


def show(s):
    return ",".join("%s=%d" % kv for kv in sorted(s.items())) or "-"


def simple(rng, fmt):
    """a picture worth tracing, as the bytes of a file"""
    w, h = rng.randint(2, 20), rng.randint(2, 20)
    px = shape_image(rng, w, h, [0xffffff, 0, 0xff0000, 0x0a0b0c, 0x00ff80][:rng.randint(2, 5)])
    b = b"".join(struct.pack("BBB", c >> 16, c >> 8 & 255, c & 255) for c in px)
    if fmt == "pnm":
        return b"P6\n%d %d\n255\n" % (w, h) + b
    if fmt == "tga":
        return struct.pack("<BBBHHBHHHHBB", 0, 0, 2, 0, 0, 0, 0, 0, w, h, 24, 0x20) + b"".join(b[i + 2:i + 3] + b[i + 1:i + 2] + b[i:i + 1] for i in range(0, len(b), 3))
    if fmt == "png":
        raw = b"".join(b"\0" + b[y * w * 3:(y + 1) * w * 3] for y in range(h))
        return b"\x89PNG\r\n\x1a\n" + rc.chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)) + rc.chunk(b"IDAT", zlib.compress(raw)) + rc.chunk(b"IEND", b"")
    rows = [b"".join(b[(y * w + x) * 3 + k:(y * w + x) * 3 + k + 1] for x in range(w) for k in (2, 1, 0)) for y in range(h - 1, -1, -1)]
    data = b"".join(r + b"\0" * (-len(r) % 4) for r in rows)
    return b"BM" + struct.pack("<IHHI", 54 + len(data), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(data), 2835, 2835, 0, 0) + data


def corpus(c, n, rng=None):
    """files in the work folder: (path, format, code)"""
    rng = rng or c.rng
    d = os.path.join(c.work, "corpus")
    os.makedirs(d, exist_ok=True)
    out = []
    for k in range(n):
        fmt = READERS[k % 5]
        code = 0
        r = rng.random()
        if r < .5 and fmt != "gf":
            data = simple(rng, fmt)
        else:
            while True:
                _, data, code, _ = rc.valid(rng, fmt)
                if rc.area(fmt, data) <= 3000:
                    break
            if r > .85:
                data = rc.damage(rng, data)
                if rc.area(fmt, data) > 3000:
                    data = data[:5]
        if rng.random() < .03:
            data = b""
        p = os.path.join(d, "i%d.%s" % (k, rng.choice(SUFFIX[fmt])))
        with open(p, "wb") as f:
            f.write(data)
        out.append((p, fmt, code))
    return out


def fnv(b):
    h = 14695981039346656037
    for x in b:
        h = ((h ^ x) * 1099511628211) & 0xffffffffffffffff
    return "%016x" % h


def model(c):
    ok = dict(EARLY="FALSE", BLIND="FALSE")
    c.mc("Convert", ok, spec="Spec", invariants=["Honest", "Untouched"], properties=["Ends"], actions=["Fail", "Pass", "Finish"])
    c.mc("Convert", dict(ok, EARLY="TRUE"), spec="Spec", invariants=["Untouched"], refute="Untouched")
    c.mc("Convert", dict(ok, BLIND="TRUE"), spec="Spec", invariants=["Honest"], refute="Honest")
