import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R


def run(c):
    rng = c.rng
    files = []
    for w, h, steps, boc1 in c.pick([(2, 2, 3, 0), (3, 1, 3, 1)], [(2, 2, 4, 0), (3, 2, 4, 1)]):
        out = c.mc("MCGf", dict(W=w, H=h, STEPS=steps, BOC1=boc1), spec="Spec", invariants=["RoundTrip"], constraints=["Emit"],
                   actions=["PaintN", "SkipN", "NewRow", "Other", "Done"] if h > 1 else [])
        got = R.emitted(out)
        rng.shuffle(got)
        files += [(f, rng.choice([0, 65])) for f in got[:c.pick(2500, 15000)]]
    n = len(files)
    absent = []
    for k in range(c.pick(2500, 12000)):
        f, codes, no = R.gf(rng)
        for code in [0] + codes:
            if code or 0 not in codes:
                files.append((f, code))
        absent.append(R.case("gf", f, no))
        absent.append(R.case("gf", f, rng.choice(codes) + 256))
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    cs = [R.case("gf", f, code) for f, code in files]
    pre = bytes([247, 131, 0, 68, 65, 3, 3, 1, 1, 1, 1, 74, 2, 69])
    f = pre + bytes([248]) + bytes(36) + bytes([246, 65, 0, 0, 0, 0, 0, 0, 0, 0, 3, 249, 0, 0, 0, len(pre), 131, 223, 223, 223, 223])

    def falsified():
        good = c.example(exe, R.case("gf", f, 65))
        assert good["px"] == [0, 16777215, 16777215, 16777215], good
        bad = [dict(good, px=[16777215, 0, 16777215, 16777215]), dict(good, w=1), dict(good, h=1, px=good["px"][2:]), dict(good, fatal=1), dict(good, opts=False), dict(good, fds=1)]
        return bad

    recs = c.conform(exe, cs, "JRead", "GoodFailed", corrupt=falsified)
    c.conform(exe, absent, "JRead", "AbsentFailed", corrupt=lambda: [dict(g, code=66, **k) for g in c.drive(exe, [R.case("gf", f, 65)]) for k in ({}, dict(fatal=1, fds=1))])
    c.sample(dict(file=files[n][0].hex()[:200], code=files[n][1], w=recs[n].get("w"), px=recs[n].get("px", [])[:9]))
    c.cov["spec_generated_files"] = n
    c.cov["distinct_inputs"] = len(set(cs)) + len(set(absent))


main("C15", run)
