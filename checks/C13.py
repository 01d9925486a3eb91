import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R


def run(c):
    rng = c.rng
    files = []
    for w, h, kind, alpha, vals in c.pick([(2, 2, 2, "FALSE", [1, 200]), (3, 1, 2, "TRUE", [1, 200]), (2, 2, 3, "FALSE", [0, 255]), (3, 1, 3, "TRUE", [9, 7]), (2, 2, 1, "FALSE", [1, 3])],
                                          [(3, 2, 2, "FALSE", [1, 200]), (2, 2, 2, "TRUE", [1, 60, 200]), (2, 3, 3, "FALSE", [0, 255]), (2, 2, 3, "TRUE", [9, 7]), (3, 2, 1, "FALSE", [1, 3])]):
        out = c.mc("MCTga", dict(W=w, H=h, KIND=kind, ALPHA=alpha, VALS=vals), spec="Spec", invariants=["RoundTrip", "CutShort"], constraints=["Emit"],
                   actions=["Run", "Literal", "Stop"])
        got = R.emitted(out)
        rng.shuffle(got)
        files += got[:c.pick(1500, 8000)]
    n = len(files)
    for kind in (1, 2, 3):
        for rle in (False, True):
            files += [R.tga(rng, kind, rle, s) for s in ((1, 1), (3, 2), (2, 5), (130, 3), (20, 20)) for _ in range(c.pick(8, 30))]
    files += [R.tga(rng) for _ in range(c.pick(2000, 15000))]
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    cs = [R.case("tga", f) for f in files]

    def falsified():
        good = c.example(exe, R.case("tga", bytes([0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 24, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])))
        assert good["px"] == [0x090807, 0x0c0b0a, 0x030201, 0x060504], good
        bad = [dict(good, px=[0x030201, 0x060504, 0x090807, 0x0c0b0a]), dict(good, px=[0x0c0b0a, 0x090807, 0x060504, 0x030201]), dict(good, np=1), dict(good, fatal=1), dict(good, stable=False)]
        return bad

    recs = c.conform(exe, cs, "JRead", "GoodFailed", corrupt=falsified)
    c.sample(dict(file=files[n].hex()[:200], px=recs[n].get("px", [])[:9]))
    c.cov["spec_generated_files"] = n
    c.cov["distinct_inputs"] = len(set(cs))


main("C13", run)
