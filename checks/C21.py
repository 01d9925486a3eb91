import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

UNS = ["charcode", "color_count", "corner_surround", "filter_iterations", "tangent_surround", "despeckle_level"]
DEC = ["corner_always_threshold", "corner_threshold", "error_threshold", "line_reversion_threshold", "line_threshold", "despeckle_tightness", "noise_removal", "width_weight_factor"]
BOO = ["remove_adjacent_corners", "remove_knees", "centerline", "preserve_width"]
FIT = ["background_color"] + UNS + DEC + BOO
FIELDS = dict(cf=FIT, F=FIT, ci=["background_color", "charcode"], I=["background_color", "charcode"], co=["dpi"], O=["dpi"])


def g9(x):
    return "%.9g" % struct.unpack("f", struct.pack("f", x))[0]


def num(rng, f):
    """A value of a number option: (JSON text, text the dump shows)"""
    if f in DEC:
        x = rng.choice([0.0, 1.0, .5, 100.0, 0.01, 0.1, rng.uniform(-10, 200), rng.uniform(0, 1), 1e-7, 3e8, 360.0, float(rng.randint(0, 300))])
        x = struct.unpack("f", struct.pack("f", x))[0]
        return repr(x), g9(x)
    hi = rng.choice([3, 20, 255, 256, 70000, 2 ** 31 - 1])
    n = rng.choice([0, 1, hi, rng.randint(0, hi)])
    return rng.choice([str(n)] * 3 + ["%d.0" % n]), str(n)


def colour(rng):
    return [rng.choice([0, 1, 127, 128, 254, 255, rng.randint(0, 255)]) for _ in range(3)]


def value(rng, f):
    if f == "background_color":
        return "%d,%d,%d" % tuple(colour(rng))
    if f in BOO:
        return rng.choice("01")
    return num(rng, f)[1]


JUNK = [("string", '"5"'), ("null", "null"), ("array", "[1]"), ("string", '"true"'), ("string", '""')]


def member(rng, kind):
    """One member of a JSON object: (text, what the specification is told)"""
    f = rng.choice(FIELDS[kind] + ["unknown", "Charcode", "dpi", "centerline"])
    if f == "background_color":
        r = rng.random()
        c = colour(rng)
        parts = [[n, "number", str(v), v] for n, v in zip(("red", "green", "blue"), c)]
        if r < .2:
            k = rng.randrange(3)
            parts[k][3] = v = rng.choice([-1, 256, 300, 1000, -255, 511, 65535])
            parts[k][2] = str(v)
        elif r < .3:
            for p in parts:
                p[3] = v = rng.choice([-1, 256, 300, -7])
                p[2] = str(v)
        elif r < .4:
            del parts[rng.randrange(3)]
        elif r < .5:
            k = rng.randrange(3)
            parts[k][1], parts[k][2] = rng.choice(JUNK + [("bool", "true")])
        elif r < .6:
            ty, tx = rng.choice(JUNK + [("number", "3"), ("bool", "false")])
            return '"%s": %s' % (f, tx), dict(f=f, ty=ty, v="", parts=[])
        rng.shuffle(parts)
        return '"%s": {%s}' % (f, ", ".join('"%s": %s' % (p[0], p[2]) for p in parts)), dict(
            f=f, ty="object", v="", parts=[dict(f=p[0], ty=p[1], n=p[3]) for p in parts])
    if rng.random() < .25:
        ty, tx = rng.choice(JUNK + [("object", "{}")] + ([("bool", "true")] if f not in BOO else [("number", "1"), ("number", "0")]))
        return '"%s": %s' % (f, tx), dict(f=f, ty=ty, v="", parts=[])
    if f in BOO:
        v = rng.choice("01")
        return '"%s": %s' % (f, "true" if v == "1" else "false"), dict(f=f, ty="bool", v=v, parts=[])
    tx, v = num(rng, f)
    return '"%s": %s' % (f, tx), dict(f=f, ty="number", v=v, parts=[])


def history(rng, n):
    """Operations as text for the driver and as records for the specification."""
    kinds, text, ops = {}, [], []

    def add(line, **kw):
        text.append(line)
        ops.append(kw)
    for _ in range(n):
        free = [s for s in range(8) if s not in kinds]
        have = sorted(kinds)
        r = rng.random()
        if not have or (r < .2 and free):
            s = rng.choice(free)
            k = rng.choice(["cf", "ci", "co", "F", "F", "I", "I", "O"])
            if k in "FIO" and rng.random() < .7:
                if rng.random() < .4:
                    names = [f for f in FIELDS[k] if f != "remove_knees"]
                    fs = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 5, 19]))]
                    sets = [(f, value(rng, f)) for f in fs]
                    add("bld %d %s %d %s" % (s, k, len(sets), " ".join("%s %s" % x for x in sets)), op="bld", s=s, kind=k, sets=[dict(f=f, v=v) for f, v in sets])
                else:
                    ms = [member(rng, k) for _ in range(rng.choice([0, 1, 1, 2, 4, 12]))]
                    seen, keep = set(), []
                    for m in ms:
                        if m[1]["f"] not in seen:
                            seen.add(m[1]["f"])
                            keep.append(m)
                    top = rng.random() < .93
                    js = "{%s}" % ", ".join(m[0] for m in keep) if top else rng.choice(["null", "[]", "3", '"x"', "true", "[{}]"])
                    add("from %d %s %s" % (s, k, js.encode().hex()), op="from", s=s, kind=k, top=top, members=[m[1] for m in keep] if top else [])
                    if not top:
                        continue
            else:
                add("new %d %s" % (s, k), op="new", s=s, kind=k)
            kinds[s] = k
        elif r < .38 and free:
            s, t = rng.choice(have), rng.choice(free)
            add("copy %d %d" % (s, t), op="copy", s=s, t=t)
            kinds[t] = kinds[s]
        elif r < .5:
            c = [(s, t) for s in have for t in have if kinds[s] == kinds[t] and kinds[s] in "FI"]
            if c:
                s, t = rng.choice(c)
                add("asg %d %d" % (s, t), op="asg", s=s, t=t)
        elif r < .65:
            s = rng.choice(have)
            k = kinds[s]
            if k != "P":
                f = rng.choice(FIELDS[k] + ["background_color"] * (2 if k not in ("co", "O") else 0))
                v = "none" if f == "background_color" and k in ("cf", "ci") and rng.random() < .2 else value(rng, f)
                if f in UNS and k in "FI" and rng.random() < .1:
                    v = str(rng.choice([2 ** 31, 2 ** 32 - 1]))
                add("set %d %s %s" % (s, f, v), op="set", s=s, f=f, v=v)
        elif r < .8 and free:
            c = [s for s in have if kinds[s] in "FIO"]
            if c:
                s, t, m = rng.choice(c), rng.choice(free), rng.randrange(2)
                add("json %d %d %d" % (s, t, m), op="json", s=s, t=t)
                kinds[t] = kinds[s]
        elif r < .86 and free:
            c = [[s for s in have if kinds[s] in g] for g in (("cf", "F"), ("ci", "I"), ("co", "O"))]
            if all(c):
                s = rng.choice(free)
                f, i, o = [rng.choice(x) for x in c]
                add("pack %d %d %d %d" % (s, f, i, o), op="pack", s=s, a=f, b=i, c=o)
                kinds[s] = "P"
        else:
            s = rng.choice(have)
            add("free %d" % s, op="free", s=s)
            del kinds[s]
    return "opts " + " ".join(text), ops


def run(c):
    rng = c.rng
    inv = ["Independent", "NeverDangling", "NoSharing", "NoLeak"]
    acts = ["New", "Copy", "Assign", "Change", "Free"]
    for slots, steps in c.pick([([1, 2], 6), ([1, 2, 3], 5)], [([1, 2], 8), ([1, 2, 3], 6)]):
        c.mc("MCOptions", dict(SLOTS=slots, CELLS=list(range(1, steps + 1)), COLOURS=[7, 9], STEPS=steps, SHALLOW="{}"), spec="Spec", invariants=inv, actions=acts)
    for op, i in (("copy", "Independent"), ("assign", "NeverDangling"), ("assign", "NoLeak")):
        c.mc("MCOptions", dict(SLOTS=[1, 2], CELLS=[1, 2, 3, 4], COLOURS=[7, 9], STEPS=5, SHALLOW='{"%s"}' % op), spec="Spec", invariants=[i], refute=i)
    lib = c.build_lib(cxxlib=True)
    exe = c.build_exe(lib, ["rec.c", "opts.cpp"], "opts")
    exe2 = c.build_exe(c.build_lib("plain", flags=PLAIN, cxxlib=True), ["rec.c", "opts.cpp"], "opts-count", extra=["-DCOUNT_NEW"])
    # defaults, one option at a time
    ds = [("opts new 0 %s" % k, k, f) for k in ("cf", "ci", "co", "F", "I", "O") for f in FIELDS[k]]
    for k, fs in FIELDS.items():
        part = [d for d in ds if d[1] == k]
        res = c.drive(exe, ["opts new 0 " + k])[0]
        recs = [dict(got=res["got"], kind=d[1], f=d[2]) if "crash" not in res else res for d in part]
        rej = c.judge("JOptions", recs, "DefaultFailed", corrupt=[dict(r, got=[dict(r["got"][0], objs=[dict(r["got"][0]["objs"][0], val=dict(r["got"][0]["objs"][0]["val"], **{r["f"]: "77"}))])]) for r in recs[:3] if "got" in r])
        for i, fails in rej.items():
            shown = recs[i].get("got", [{}])[0].get("objs", [{}])[0].get("val", {}).get(part[i][2])
            c.report("default-%s-%s=%s" % (k, part[i][2], shown), "%s of a new %s object is %s" % (part[i][2], k, shown), dict(input="opts new 0 " + k, record=res, failed=fails))
        if k == "cf":
            base = res["got"][0]["objs"][0]["val"]
    hs = [history(rng, rng.randint(1, rng.choice([4, 10, 24]))) for _ in range(c.pick(3000, 30000))]
    hs = [h for h in hs if h[1]]
    # every option alone through a builder, through JSON and directly
    for k in "FIO":
        for f in FIELDS[k]:
            for _ in range(c.pick(2, 6)):
                v = value(rng, f)
                if f != "remove_knees":
                    hs.append(("opts bld 0 %s 1 %s %s json 0 1 1" % (k, f, v), [dict(op="bld", s=0, kind=k, sets=[dict(f=f, v=v)]), dict(op="json", s=0, t=1)]))
                hs.append(("opts bld 0 %s 0 set 0 %s %s json 0 1 0 copy 1 2 free 1 set 0 %s %s" % (k, f, v, f, value(rng, f)),))
                w = hs[-1][0].split()[-1]
                hs[-1] = hs[-1] + ([dict(op="bld", s=0, kind=k, sets=[]), dict(op="set", s=0, f=f, v=v), dict(op="json", s=0, t=1), dict(op="copy", s=1, t=2), dict(op="free", s=1), dict(op="set", s=0, f=f, v=w)],)
    for h in hs:
        for o in h[1]:
            if o["op"] == "new" and o["kind"] == "cf":
                o["base"] = base
    told = dict(hs)
    post = lambda cs, r: r if "crash" in r else dict(r, ops=told[cs])
    cs = [h[0] for h in hs]
    t = "opts new 0 F copy 0 1 set 1 charcode 5 from 2 I %s" % b'{"background_color":{"red":255,"green":0,"blue":9}}'.hex()
    told[t] = [dict(op="new", s=0, kind="F"), dict(op="copy", s=0, t=1), dict(op="set", s=1, f="charcode", v="5"),
               dict(op="from", s=2, kind="I", top=True, members=[dict(f="background_color", ty="object", v="", parts=[dict(f="red", ty="number", n=255), dict(f="green", ty="number", n=0), dict(f="blue", ty="number", n=9)])])]

    def falsified():
        good = c.example(exe, t, post)

        def wrong(k, s, **kw):
            g = [dict(x, objs=[dict(o, val=dict(o["val"])) for o in x["objs"]]) for x in good["got"]]
            for o in g[k]["objs"]:
                if o["slot"] == s:
                    o["val"].update(kw)
            return dict(good, got=g)
        assert good["got"][3]["objs"][2]["val"]["background_color"] == "255,0,9", good
        bad = [wrong(2, 0, charcode="5"), wrong(2, 1, charcode="0"), wrong(3, 2, background_color="0,0,0"), wrong(3, 0, background_color="255,0,9"), dict(good, live=1),
               dict(good, got=good["got"][:3] + [dict(good["got"][3], thrown=True)])]
        return bad

    c.conform(exe, cs, "JOptions", "OptionsFailed", post=post, corrupt=falsified)
    recs = c.conform(exe2, cs, "JOptions", "OptionsFailed", post=post, corrupt=falsified)
    c.sample(dict(case=cs[0][:300]))
    c.cov["operations"] = sum(len(h[1]) for h in hs)
    c.cov["distinct_inputs"] = len(set(cs))


main("C21", run)
