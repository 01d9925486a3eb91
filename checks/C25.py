import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import conv_cases as cc

OWN = {"background-color": 0, "corner-surround": 4, "filter-iterations": 4}


def run(c):
    cc.model(c)
    rng = c.rng
    exe = c.build_exe(c.build_lib(cxxlib=True), ["rec.c", "conv.cpp"], "conv")
    exe2 = c.build_exe(c.build_lib("plain", flags=PLAIN, cxxlib=True), ["rec.c", "conv.cpp"], "conv-count", extra=["-DCOUNT_NEW"])
    files = cc.corpus(c, c.pick(60, 200))
    d = os.path.join(c.work, "out")
    os.makedirs(d)
    info, cases = {}, []
    for k in range(c.pick(600, 6000)):
        src, fmt, code = rng.choice(files)
        how = rng.choice("bjc")
        s = cc.options(rng)
        if code:
            s["charcode"] = code
        w = cc.WRITERS[k % len(cc.WRITERS)]
        r = rng.random()
        suf = "".join(x.upper() if rng.random() < .2 else x for x in w)
        dst = os.path.join(d, "o%d.%s" % (k, suf))
        if r < .03:
            dst = os.path.join(d, "missing", "o%d.%s" % (k, suf))
        elif r < .06:
            dst = os.path.join(d, "o%d.%s" % (k, rng.choice(["xyz", "", "svgz", "png"])))
        elif r < .09:
            src, fmt = src[:src.rindex(".")] + rng.choice([".xyz", "", ".jpeg"]), "none"
        elif r < .12:
            src = src + ".gone" + os.path.splitext(src)[1]
        if rng.random() < .5 and "missing" not in dst:
            with open(dst, "wb") as f:
                f.write(b"what was here before %d" % k)
        refs = dict(s) if how == "c" else dict(OWN, **s)
        lim = rng.choice([0, 1, 100, 500, 4096, 5000]) if rng.random() < .08 else -1
        o = ("L %d ; " % lim if lim >= 0 else "") + "O %s %d %s %s %s" % (how, rng.choice([1, 1, 1, 2, 3]), cc.hx(src), cc.hx(dst), cc.show(s))
        known = fmt != "none" and os.path.splitext(dst)[1][1:].lower() in cc.WRITERS
        a = "C %s %s %s %s %s" % (cc.hx(src), fmt, cc.hx(dst), w, cc.show(refs))
        line = (a + " ; " + o if rng.random() < .5 else o + " ; " + a) if known else o
        info[line] = dict(how=how, limit=lim, sets=s, refs=refs, out=[ord(x) for x in dst])
        info[line]["in"] = [ord(x) for x in src]
        cases.append(line)

    def post(line, rec):
        if "crash" in rec:
            return rec
        rec = dict(info[line], ref=[x for x in rec["ops"] if x["k"] == "C"] or [dict(ok=False)], obj=[x for x in rec["ops"] if x["k"] == "O"][0])
        rec["ref"] = rec["ref"][0]
        if "missing" in bytes(rec["out"]).decode():
            rec["ref"]["ok"] = rec["ref"]["traced"] = False
        return rec
    half = c.drive(exe, cases[:60])
    good = [post(x, r) for x, r in zip(cases, half)]
    good = [r for r in good if r.get("ref", {}).get("ok") and r["obj"]["ok"] and r["ref"].get("len", 0) > 0][:6]
    bad = [e for r in good for e in (dict(r, obj=dict(r["obj"], res="0")), dict(r, obj=dict(r["obj"], len=r["obj"]["len"] - 1)), dict(r, obj=dict(r["obj"], ok=False, msg=3)),
                                     dict(r, ref=dict(r["ref"], ok=False)), dict(r, obj=dict(r["obj"], live=1)), dict(r, refs=dict(r["refs"], dpi=71)))]
    recs = c.conform(exe, cases, "JConvert", "FailedObject", corrupt=bad, post=post)
    recs += c.conform(exe2, cases[::4], "JConvert", "FailedObject", post=post)
    c.cov["converted"] = sum(1 for r in recs if r.get("obj", {}).get("ok"))
    c.cov["failed_as_expected"] = sum(1 for r in recs if not r.get("obj", {}).get("ok", True))
    c.sample(dict(case=cases[0][:200], record={k: recs[0].get(k) for k in ("obj", "ref")}))


if __name__ == "__main__":
    main("C25", run)
