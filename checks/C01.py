import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import outline_cases


def run(c):
    # the step machine, every bitmap up to the bound
    inv = ["WalkConnected", "WalkOnSides", "FreshSide", "ClosesUp", "LoopsWellFormed", "SidesOnce", "Oriented",
           "ScanOrdered", "Covered", "HoleRule", "SameAsFunction"]
    acts = ["StartOuter", "NoOuter", "StartInner", "Step", "Close", "Advance"]
    sizes = c.pick([(3, 3, 2), (1, 4, 2), (4, 1, 3), (2, 3, 3)], [(3, 3, 2), (1, 5, 3), (5, 1, 3), (2, 3, 3), (3, 2, 3), (4, 3, 2), (3, 4, 2)])
    for w, h, n in sizes:
        c.mc("MCOutline", dict(W=w, H=h, NCOL=n), spec="Spec", invariants=inv, properties=["Variant"],
             actions=acts if (w, h) == (3, 3) else ())
    exe = c.build_exe(c.build_lib(), ["rec.c", "core.c"], "core")
    cases = outline_cases.cases(c)
    good = dict(w=1, h=1, px=[0], after=[0], bg=-1, msgs=0, loops=[dict(color=0, cw=False, open=False, pts=[[0, 1], [0, 0], [1, 0], [1, 1]])])
    assert not c.judge("JOutline", [good], "OutlineFailed", count=False)
    L = good["loops"][0]
    corrupt = [dict(good, loops=[dict(L, pts=L["pts"][1:] + L["pts"][:1])]), dict(good, loops=[]), dict(good, loops=[dict(L, cw=True)]),
               dict(good, loops=[dict(L, pts=L["pts"][::-1])]), dict(good, loops=[L, L]), dict(good, loops=[dict(L, color=1)]),
               dict(good, bg=0), dict(good, after=[1]), dict(good, loops=[dict(L, open=True)]), dict(good, msgs=1)]
    recs = c.conform(exe, cases, "JOutline", "OutlineFailed", corrupt=corrupt)
    plain = c.build_exe(c.build_lib("plain", PLAIN), ["rec.c", "core.c"], "core-plain")
    c.conform(plain, outline_cases.long_cases(c), "JOutline", "OutlineFailed")
    drift = c.judge("JOutline", recs[::c.pick(9, 3)], "Drift", count=False)
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample(dict(case=cases[i][:200], loops=len(recs[i].get("loops", []))))
    c.cov["runs_differing_from_step_machine"] = len(drift)
    c.cov["distinct_inputs"] = len(set(cases))


main("C01", run)
