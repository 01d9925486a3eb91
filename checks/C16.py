import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R

FMTS = ["pnm", "bmp", "tga", "png", "gf"]


def run(c):
    rng = c.rng
    base = []
    for f in FMTS:
        k = 0
        while k < c.pick(14, 60):
            v = R.valid(rng, f)
            if len(v[1]) < c.pick(700, 1500):
                base.append(v)
                k += 1
    # the specification: what is left of a file that loses its end
    path = os.path.join(c.work, "files.ndjson")
    small = [v for v in base if len(v[1]) < 400]
    with open(path, "w") as o:
        for f, d, code, raw in small:
            o.write(json.dumps(dict(fmt=f, bytes=list(d), code=code, raw=list(raw))) + "\n")
    c.mc("MCDamage", {}, spec="Spec", invariants=["StartsWhole", "NeverOther", "EmptyIsNone"], properties=["StaysGone"], env=dict(FILES=path))
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    # every prefix of every file
    cuts = [R.case(f, d[:k], code, raw) for f, d, code, raw in base for k in range(len(d) + 1)]
    if len(cuts) > c.pick(9000, 60000):
        cuts = rng.sample(cuts, c.pick(9000, 60000))

    def cut():
        good = c.example(exe, R.case("pnm", b"P5 2 2 255\n123"))
        assert good["fatal"] + good["warn"] > 0, good
        bad = [dict(good, fatal=0, warn=0), dict(good, stable=False), dict(good, live=3), dict(good, fds=1), dict(crash="hang", why="")]
        return bad

    c.conform(exe, cuts, "JRead", "CutFailed", corrupt=cut)
    # damage of every kind
    cs = ["any %s %s 0 -" % (f, s) for f in FMTS for s in ("!missing", "!dir", "-")]
    n = 0
    for f, d, code, raw in base:
        top = min(len(d), R.header_length(f, d))
        todo = [(i, v) for i in range(top) for v in {0, 1, 127, 128, 255, d[i] ^ 1, (d[i] + 1) & 255, (d[i] - 1) & 255, d[i] ^ 128} - {d[i]}]
        if f == "gf":
            todo += [(i, v) for i in range(max(0, len(d) - 60), len(d)) for v in (0, 255, d[i] ^ 1, d[i] ^ 128)]
        for i, v in rng.sample(todo, min(len(todo), c.pick(60, 300))):
            cs += R.any_case(f, d[:i] + bytes([v]) + d[i + 1:], code)
        for _ in range(c.pick(40, 300)):
            cs += R.any_case(f, R.damage(rng, d), code)
        cs += R.any_case(rng.choice([x for x in FMTS if x != f]), d, code)
    # runs, literals and moves that go past the end of a row or of the picture
    for k in range(c.pick(600, 4000)):
        size = rng.choice([(1, 1), (2, 2), (3, 1), (4, 3), (5, 4), (8, 2), (13, 3)])
        if k % 3:
            cs += R.any_case("bmp", R.bmp(rng, *rng.choice([(8, 40, 1), (4, 40, 2), (8, 108, 1), (4, 124, 2)]), size=size, over=rng.choice([.2, .6])), 0)
        else:
            cs += R.any_case("tga", R.tga(rng, rle=True, size=size, over=rng.choice([.2, .6])), 0)
    for _ in range(c.pick(300, 3000)):
        f = rng.choice(FMTS)
        magic = dict(pnm=b"P%d " % rng.randrange(1, 8), bmp=b"BM", tga=b"", png=b"\x89PNG\r\n\x1a\n", gf=b"\xf7\x83")[f]
        cs += R.any_case(f, rng.choice([magic, b""]) + bytes(rng.choice([rng.randrange(256), 0, 255, 48, 32]) for _ in range(rng.choice([1, 5, 18, 60, 300]))), 0)

    def falsified():
        good = c.example(exe, "any pnm %s 0 -" % b"P5 2 2 255\n1234".hex())
        assert good["fatal"] == 0 and good["w"] == 2, good
        bad = [dict(good, w=0), dict(good, np=2), dict(good, fatal=2), dict(good, stable=False), dict(good, live=1), dict(good, fds=2), dict(good, opts=False),
               dict(crash="asan", why="")]
        return bad

    recs = c.conform(exe, cs, "JRead", "AnyFailed", corrupt=falsified)
    ok = sum(1 for r in recs if r.get("fatal") == 0)
    c.cov["distinct_inputs"] = len(set(cuts)) + len(set(cs))
    c.cov["prefixes"] = len(cuts)
    c.cov["damaged_accepted"] = ok
    c.cov["damaged_refused"] = len(recs) - ok
    for r in rng.sample(recs, 4):
        c.sample(dict(fmt=r.get("fmt"), w=r.get("w"), h=r.get("h"), msg=r.get("msg")))


main("C16", run)
