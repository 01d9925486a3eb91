import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R


def run(c):
    rng = c.rng
    files = []
    for w, h, bpp, vals, steps in c.pick([(4, 2, 8, [0, 3], 4), (5, 1, 4, [0, 1, 2], 4), (3, 2, 4, [0, 1], 4)],
                                         [(4, 2, 8, [0, 3], 5), (4, 2, 4, [0, 1, 2], 5), (3, 3, 8, [0, 2], 5), (7, 1, 4, [0, 3], 5)]):
        out = c.mc("MCBmp", dict(W=w, H=h, BPP=bpp, VALS=vals, STEPS=steps), spec="Spec", invariants=["RoundTrip", "CutShort"], constraints=["Emit"],
                   actions=["Run", "Literal", "Line", "Delta", "Stop"] if w > 3 and h > 1 else [])
        got = R.emitted(out)
        rng.shuffle(got)
        files += got[:c.pick(1200, 8000)]
    n = len(files)
    for bpp in (1, 2, 4, 8, 16, 24, 32):
        for hs in (12, 40, 56, 64, 108, 124):
            for size in ((1, 1), (2, 2), (3, 2), (8, 2), (9, 3)):
                files.append(R.bmp(rng, bpp, hs, size=size))
    files += [R.bmp(rng) for _ in range(c.pick(2000, 15000))]
    files += [R.bmp(rng, bpp, 40, comp, size=s) for bpp, comp in ((8, 1), (4, 2)) for s in ((300, 3), (16, 16), (40, 9)) for _ in range(c.pick(10, 60))]
    files += [R.bmp(rng, 1, 12, size=(3, 40000)), R.bmp(rng, 1, 12, size=(40000, 1))]      # sizes of 16 bits have no sign
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    cs = [R.case("bmp", f) for f in files]
    # two rows of two 24 bit pixels

    def falsified():
        good = c.example(exe, R.case("bmp", bytes.fromhex("424d460000000000000036000000280000000200000002000000010018000000000000000000000000000000000000000000000000000102030405060000" + "0708090a0b0c0000")))
        assert good["px"] == [0x090807, 0x0c0b0a, 0x030201, 0x060504], good
        bad = [dict(good, px=[0x030201, 0x060504, 0x090807, 0x0c0b0a]), dict(good, px=good["px"][:3] + [0x060503]), dict(good, h=1), dict(good, fatal=1), dict(good, np=4)]
        return bad

    recs = c.conform(exe, cs, "JRead", "GoodFailed", corrupt=falsified)
    c.sample(dict(file=files[n + 40].hex()[:200], px=recs[n + 40].get("px", [])[:9]))
    c.cov["spec_generated_files"] = n
    c.cov["distinct_inputs"] = len(set(cs))


main("C12", run)
