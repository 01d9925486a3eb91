import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

IN = ["png", "tga", "bmp", "pbm", "pnm", "pgm", "ppm", "gf"]
OUT = ["eps", "ai", "p2e", "sk", "svg", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"]
NEAR = ["", "s", "sv", "svgz", "gvs", "svg ", " svg", "psvg", "eps2", "e", "epsf", "pngx", "pn", "jpg", "dr2", "2d", "dr2d.", "p2", "tif", "zzz", "~", "!", "swf", "aa", "\x01", "svg\n"]


def hx(s):
    return s.encode("latin-1").hex() or "-"


def case_mix(rng, s):
    return rng.choice([str.lower, str.upper, str.capitalize, lambda t: "".join(rng.choice([c.lower(), c.upper()]) for c in t)])(s)


def suffix(rng, mine, dir):
    r = rng.random()
    if mine and r < .3:
        s = rng.choice(mine)
    elif r < .7:
        s = rng.choice(IN if dir == "i" else OUT)
    elif r < .8:
        s = rng.choice(OUT if dir == "i" else IN)
    elif r < .9:
        s = rng.choice(NEAR)
    else:
        s = "".join(rng.choice("abzAZ019_- é\xff@[`{") for _ in range(rng.randint(1, rng.choice([3, 12]))))
    return case_mix(rng, s) if s.isascii() else s


def file_name(rng, s):
    body = rng.choice(["", "a", "image", "a.b", "x.svg", "x.PNG.", "a b", "..", ".", "../up", "/", "/tmp/x", "dir.svg/file", "dir.png/x", "\xe9t\xe9", "C:\\dir.bmp\\x"])
    return rng.choice([body + "." + s] * 6 + [body + s, body, s, body + "." + s + "/", body + "/" + s, s + ".", body + "." + s + "." + rng.choice(IN + OUT), "." * rng.randint(0, 4) + s])


def history(rng, n):
    ops, mine = [], []
    for _ in range(n):
        d = rng.choice("io")
        r = rng.random()
        if r < .2:
            s = suffix(rng, mine, d).replace("\n", "") or "q"
            s = rng.choice([s, s, s, "tar." + s, s[:1] or "q"]).replace(" ", "") or "q"
            mine.append(s)
            ops.append("a%s %s %d" % (d, hx(s), rng.randrange(8)))
        elif r < .6:
            ops.append("n%s %s" % (d, hx(file_name(rng, suffix(rng, mine, d)))))
        elif r < .93:
            ops.append("s%s %s" % (d, hx(suffix(rng, mine, d))))
        else:
            ops.append("l" + d)
    return "reg " + " ".join(ops + ["li", "lo"])


def run(c):
    rng = c.rng
    for a, l, m in c.pick([([65, 97, 46], 3, 2), ([65, 97, 98, 47, 46], 3, 1)], [([65, 97, 98, 47, 46], 4, 2), ([65, 97, 46], 4, 3)]):
        c.mc("MCFormats", dict(ALPHA=a, MAXLEN=l, MAXADD=m), spec="Spec", invariants=["Exact", "NoCase", "DirectoryFree", "SameAsSuffix"], properties=["Stable"], actions=["Register"])
    c.mc("MCFormats", dict(ALPHA=[65, 97, 46], MAXLEN=3, MAXADD=1), spec="Spec", invariants=["CaseMatters"], refute="CaseMatters")
    exe = c.build_exe(c.build_lib(), ["rec.c", "reg.c"], "reg")
    # every suffix the library starts with, in all directions and spellings, then random histories
    cs = []
    for d, names in (("i", IN), ("o", OUT)):
        for s in IN + OUT + NEAR:
            cs.append("reg " + " ".join("s%s %s n%s %s n%s %s" % (d, hx(f(s)), d, hx("x." + f(s)), d, hx(f(s))) for f in (str.lower, str.upper, str.capitalize)))
        for s in names:
            cs.append("reg l%s a%s %s 1 s%s %s n%s %s l%s" % (d, d, hx(s.upper()), d, hx(s), d, hx("q." + s), d))
    # strings exactly over a small alphabet
    import itertools
    small = ["".join(t) for k in range(0, 5) for t in itertools.product("aA./", repeat=k)]
    for k in range(0, len(small), 40):
        for d in "io":
            cs.append("reg a%s %s 1 a%s %s 2 " % (d, hx("A"), d, hx("aa")) + " ".join("n%s %s s%s %s" % (d, hx(s), d, hx(s)) for s in small[k:k + 40]))
    cs += [history(rng, rng.randint(1, rng.choice([6, 25, 60]))) for _ in range(c.pick(2500, 20000))]

    def falsified():
        good = c.example(exe, "reg ni %s so %s ai %s 1 li" % (hx("a.PnG"), hx("svg"), hx("Xyz")))
        ops = good["ops"]
        assert [o["got"] for o in ops] == ["png", "svg", "1", ""], good
        wrong = lambda k, **kw: dict(good, ops=ops[:k] + [dict(ops[k], **kw)] + ops[k + 1:])
        bad = [wrong(0, got="none"), wrong(0, got="tga"), wrong(1, got="none"), wrong(2, got="0"), wrong(3, rows=ops[3]["rows"][1:]),
               wrong(3, rows=ops[3]["rows"][:-1] + [ops[3]["rows"][0]]), wrong(0, s=[97, 46, 112, 110])]
        return bad

    recs = c.conform(exe, cs, "JFormats", "FormatsFailed", corrupt=falsified)
    c.sample(dict(case=cs[-1][:200], ops=len(recs[-1].get("ops", []))))
    c.cov["lookups"] = sum(1 for r in recs for o in r.get("ops", []) if o["op"] in ("name", "suffix"))
    c.cov["found"] = sum(1 for r in recs for o in r.get("ops", []) if o["op"] in ("name", "suffix") and o["got"] != "none")
    c.cov["distinct_inputs"] = len(set(cs))


main("C20", run)
