import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R


def run(c):
    rng = c.rng
    files = []
    # bytes per row, rows, bytes per pixel; written as grey, colour or grey with alpha
    for nb, h, step, vals in c.pick([(3, 2, 1, [0, 7, 255]), (4, 2, 2, [0, 130]), (3, 2, 3, [1, 200])], [(3, 2, 1, [0, 7, 128, 255]), (4, 2, 2, [0, 130, 255]), (6, 2, 3, [1, 200]), (2, 3, 1, [0, 100, 255])]):
        out = c.mc("MCPng", dict(N=nb, H=h, STEP=step, VALS=vals), spec="Spec", invariants=["RoundTrip", "InRange"], constraints=["Emit"],
                   actions=["Write"])
        got = R.emitted(out)
        rng.shuffle(got)
        files += [R.png_pack(rng, nb // step, h, 8, {1: 0, 2: 4, 3: 2}[step], 0, raw) for raw in got[:c.pick(1000, 8000)]]
    n = len(files)
    for ct, depths in ((0, (1, 2, 4, 8, 16)), (2, (8, 16)), (3, (1, 2, 4, 8)), (4, (8, 16)), (6, (8, 16))):
        for d in depths:
            files += [R.png(rng, ct, d, s) for s in ((1, 1), (2, 2), (5, 5), (8, 8), (9, 3), (3, 17)) for _ in range(c.pick(6, 30))]
    files += [R.png(rng) for _ in range(c.pick(1200, 10000))]
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    cs = [R.case("png", f, 0, raw) for f, raw in files]
    f, raw = R.png_pack(random.Random(4), 2, 2, 8, 2, 0, bytes([0, 1, 2, 3, 4, 5, 6, 2, 1, 1, 1, 1, 1, 1]), stored=True)

    def falsified():
        good = c.example(exe, R.case("png", f))
        assert good["px"] == [0x010203, 0x040506, 0x020304, 0x050607], good
        bad = [dict(good, px=good["px"][:3] + [0x050608]), dict(good, px=good["px"][::-1]), dict(good, w=1, h=4), dict(good, np=1), dict(good, fatal=1)]
        return bad

    recs = c.conform(exe, cs, "JRead", "GoodFailed", corrupt=falsified)
    c.sample(dict(file=files[n][0].hex()[:200], px=recs[n].get("px", [])[:9]))
    c.cov["spec_generated_files"] = n
    c.cov["distinct_inputs"] = len(set(cs))
    c.assumptions.append("zlib decompresses correctly: compressed files are judged on the stream Python's zlib was given")


main("C14", run)
