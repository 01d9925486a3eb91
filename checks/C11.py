import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import read_cases as R


def run(c):
    rng = c.rng
    out = c.mc("MCPnm", dict(SIZES=[101, 102], MAXVALS=[1, 3, 255, 1000], SEPS=c.pick([1, 4, 5], [1, 3, 4, 5, 6])), spec="Spec",
               invariants=["RoundTrip", "NoPrefix"], properties=["Ends"], constraints=["Emit"], actions=["Magic", "Size", "Max", "Blank", "Sample", "Row", "End"])
    files = R.emitted(out)
    out = c.mc("MCPnm", dict(SIZES=[201, 301], MAXVALS=[2], SEPS=[1]), invariants=["RoundTrip", "NoPrefix"], constraints=["Emit"]) if c.thorough else ""
    files += R.emitted(out)
    rng.shuffle(files)
    files = files[:c.pick(6000, 60000)]
    n = len(files)
    files += [R.pnm(rng) for _ in range(c.pick(2500, 15000))]
    # bodies longer than the reader's buffer
    files += [R.pnm(rng, t, (40, 41)) for t in (1, 2, 3, 4, 5, 6)] + [R.pnm(rng, t, s) for t in (2, 3) for s in ((70, 20), (64, 64))]
    files += [R.pnm(rng, t, s) for t in (4, 5, 1) for s in ((700, 2), (2, 1000))]
    exe = c.build_exe(c.build_lib(), ["rec.c", "io.c"], "io")
    cs = [R.case(rng.choice(["pnm", "pbm", "pgm", "ppm"]), f) for f in files]

    def falsified():
        good = c.example(exe, R.case("pnm", b"P2 2 2 3\n0 1 2 3\n"))
        assert good["px"] == [0, 85 * 65793, 170 * 65793, 255 * 65793], good
        bad = [dict(good, px=good["px"][:3] + [254 * 65793]), dict(good, px=good["px"][::-1]), dict(good, w=1, h=4), dict(good, np=3), dict(good, fatal=1),
               dict(good, stable=False), dict(good, live=1), dict(good, fds=1), dict(crash="hang", why="")]
        return bad

    recs = c.conform(exe, cs, "JRead", "GoodFailed", corrupt=falsified)
    c.sample(dict(file=files[n].decode("latin1")[:80], px=recs[n].get("px", [])[:9]))
    c.cov["spec_generated_files"] = n
    c.cov["distinct_inputs"] = len(set(cs))


main("C11", run)
