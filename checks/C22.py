import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures
import conv_cases as cc, cmd_cases as cm


def run(c):
    rng = c.rng
    cc.model(c)
    text = c.mc("MCCommand", dict(MAXU=c.pick(2, 3), FUSSY="FALSE"), spec="Spec", invariants=["Spelling", "Twice", "Safe", "Swap"], properties=["Sticky"],
                constraints=["Emit"])
    c.mc("MCCommand", dict(MAXU=1, FUSSY="TRUE"), spec="Spec", invariants=["Lenient"], refute="Lenient")
    told = cm.emitted(text)
    rng.shuffle(told)
    lines = told[:c.pick(250, 1500)] + [cm.line(rng) for _ in range(c.pick(500, 4000))]
    lines += [["-input-format", f, n] + e for f in ("pbm", "PNM") for n in ("pic.fig", "shape.svg") for e in ([], ["-output-file", "n.dxf"], ["-centerline"])]
    files = cm.world(c)
    exe = c.build_exe(c.build_lib(cxxlib=True), ["rec.c", "conv.cpp"], "conv")
    cli = c.build_cli()
    plan = cm.plans(c, lines)
    refs = cm.reference(c, exe, files, plan)
    cases = []
    for k, a in enumerate(lines):
        limit = -1
        if plan[k]["what"] == "convert" and not {"debug-bitmap", "version"} & set(plan[k]["flags"]) and rng.random() < .08:
            limit = rng.choice([0, 10, 600, 4096])
        cases.append((k, a, limit))

    def drive(cs):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda x: cm.run_one(c, cli, files, x), cs))

    def post(case, rec):
        k = case[0]
        rec.update(plan=plan[k], ref=refs[k] or dict(none=True))
        return rec
    first = [post(x, r) for x, r in zip(cases[-200:], drive(cases[-200:]))]
    conv = [r for r in first if r.get("exit") == 0 and r["plan"]["what"] == "convert" and r["plan"]["out"]][:4]
    shut = [r for r in first if r.get("exit", 0) != 0 and r["plan"]["what"] == "refuse"][:3]
    bad = [e for r in conv for e in (dict(r, exit=1), dict(r, after=dict(r["after"], zzz="1")), dict(r, after={n: v for n, v in r["after"].items() if n != "notes.txt"} if r["plan"]["out"] != "notes.txt" else {}),
                                     dict(r, after=dict(r["after"], **{r["plan"]["out"]: "0"})), dict(r, plan=dict(r["plan"], sets=dict(r["plan"]["sets"], zz=1))))]
    bad += [e for r in shut for e in (dict(r, exit=0), dict(r, err=0), dict(r, out=3), dict(r, after=dict(r["after"], zzz="1")))]
    recs = c.conform(None, cases, "JCommand", "FailedCommand", corrupt=bad, post=post, drive=drive)
    for w in ("refuse", "info", "convert"):
        c.cov[w] = sum(1 for p in plan if p["what"] == w)
    c.cov["converted"] = sum(1 for r in recs if r.get("exit") == 0 and r["plan"]["what"] == "convert")
    c.sample(dict(args=lines[-1], plan=plan[-1]))


if __name__ == "__main__":
    main("C22", run)
