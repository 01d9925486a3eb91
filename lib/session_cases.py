"""Histories of calls: from the specification's transitions to runs of session.c."""
from vlib import *
import conv_cases as cc, read_cases as rc

OPCODE = dict(new="n", paint="p", copy="c", read="r", trace="t", write="w")


class Pools:
    """the concrete things the abstract names of the model stand for"""
    def __init__(self, c, name="pool"):
        rng = self.rng = c.rng
        d = os.path.join(c.work, name)
        os.makedirs(d, exist_ok=True)

        def keep(name, data):
            p = os.path.join(d, name)
            with open(p, "wb") as f:
                f.write(data)
            return cc.hx(p)

        def valid(fmt):
            while True:
                _, data, code, _ = rc.valid(rng, fmt)
                if rc.area(fmt, data) <= 1500:
                    return data, code
        self.F, self.X, self.G = [], [], []
        bg = lambda: rng.choice([-1, -1, 0xffffff, 0])
        for k in range(c.pick(10, 24)):
            fmt = ["pnm", "bmp", "tga", "png"][k % 4]
            data = cc.simple(rng, fmt) if rng.random() < .6 else valid(fmt)[0]
            self.F.append(("%s %s 0 %d" % (fmt, keep("f%d" % k, data), bg()), fmt))
        for k in range(c.pick(4, 8)):
            data, code = valid("gf")
            self.G.append(("gf %s %d -1" % (keep("g%d" % k, data), code), "gf"))
        for k in range(c.pick(5, 12)):
            fmt = cc.READERS[k % 5]
            while True:
                data = rc.damage(rng, valid(fmt)[0])
                if rc.area(fmt, data) <= 1500:
                    break
            self.X.append(("%s %s 0 -1" % (fmt, keep("x%d" % k, data)), fmt))
        self.X.append(("png %s 0 -1" % cc.hx(os.path.join(d, "none")), "png"))
        size = lambda: (rng.randint(1, 12), rng.randint(1, 12))
        self.a = ["%d %d %d" % (size() + (rng.choice([1, 3]),)) for _ in range(4)]
        self.z = ["%d %d 2" % size() for _ in range(2)]
        self.o, self.c = [], []
        heavy = {"color-count", "despeckle-level", "centerline"}
        while len(self.o) < c.pick(6, 12) or len(self.c) < c.pick(6, 12):
            s = cc.options(rng, .4)
            s.pop("dpi", None)
            s = {k: v for k, v in s.items() if k not in heavy or v}
            hit = heavy & set(s)
            if hit and len(self.c) < c.pick(6, 12):
                self.c.append(cc.show(s))
            if len(self.o) < c.pick(6, 12):
                self.o.append(cc.show({k: v for k, v in s.items() if k not in heavy}))
        # outlines too short for the corners looked for, and without any
        for k in range(c.pick(2, 4)):
            self.o.append(cc.show({"corner-surround": rng.choice([4, 6, 10]), "corner-threshold": rng.choice([0, 40000]),
                                   "corner-always-threshold": 0, "filter-iterations": rng.choice([0, 4])}))
        self.V = [("%s %s %d" % (w, cc.hx(rng.choice(["", "picture." + w, "dir/a b." + w])), rng.choice([72, 90, 300])), w) for w in cc.WRITERS if w != "ugs"]
        self.U = [("ugs %s 72" % cc.hx("glyph.ugs"), "ugs")]


def emitted(text):
    return sorted({m for m in re.findall(r'^"CALLS (.*)"$', text, re.M)})


def histories(c, n, maxn):
    """calls of the model, made concrete"""
    text = c.mc("MCLibrary", dict(MAXN=maxn, STALE="FALSE", LEAK="FALSE"), spec="Spec", constraints=["Emit"], view="View", workers=1)
    got = [h for h in emitted(text) if h.count("[") >= maxn]
    c.rng.shuffle(got)
    pools = Pools(c)
    return [concrete(c.rng, pools, json.loads(json.loads('"' + h + '"'))) for h in got[:n]]


def concrete(rng, pools, h):
    pick = {}

    def of(k):
        if k not in pick:
            pick[k] = rng.choice(getattr(pools, k))
        return pick[k]
    out, live = [], []
    for c in h:
        if c[0] == "new":
            out.append(["new", c[1], of(c[2])])
            out.append(["paint", c[1], str(rng.choice([7, 1234]))])
        elif c[0] in ("read", "write"):
            out.append([c[0], c[1]] + list(of(c[2])))
        elif c[0] == "trace":
            out.append(["trace", c[1], c[2], of(c[3])])
        else:
            out.append(list(c))
        if c[0] in ("new", "read"):
            live.append(c[1])
        elif c[0] == "copy":
            live.append(c[2])
        elif c[0] == "trace" and not (c[3] == "c" and pick.get("z") and dead(out, c[1])):
            live.append(c[2])
        elif c[0] == "free":
            live.remove(c[1])
    rng.shuffle(live)
    return out + [["free", x] for x in live]


def dead(out, b):
    """does the picture in slot b have two planes"""
    planes = {}
    for c in out[:-1]:
        if c[0] == "new":
            planes[c[1]] = c[2].endswith(" 2")
        elif c[0] == "read":
            planes[c[1]] = False
        elif c[0] == "copy":
            planes[c[2]] = planes[c[1]]
    return planes[b]


def line(ops, fills=None):
    """the driver's form of a history; fills: position -> value"""
    out = []
    for k, c in enumerate(ops):
        if fills and k in fills:
            out.append("F %d" % fills[k])
        s = [x[1] for x in c[1:3] if re.fullmatch("[bs][0-7]", x)]
        if c[0] == "free":
            out.append(("f " if c[1][0] == "b" else "g ") + s[0])
        elif c[0] == "copy":
            out.append("c %s %s" % tuple(s))
        elif c[0] == "trace":
            out.append("t %s %s %s" % (s[0], s[1], c[3]))
        else:
            out.append("%s %s %s" % (OPCODE[c[0]], s[0], c[2]))
    return " ; ".join(out)


class Terms:
    """terms as in the specification, each with a recipe: the shortest history that makes it"""
    def __init__(self):
        self.recipe = {}

    def walk(self, ops, steps=None, gf_ok=lambda key: True):
        """the terms each call deals with; steps tell which traces gave a result"""
        objs, metrics, met_ops = {}, "", []
        made = []
        for k, c in enumerate(ops):
            new = None
            if c[0] == "new":
                new = objs[c[1]] = "new " + c[2]
                self.add(new, [["new", "b0", c[2]]], "b0")
            elif c[0] == "read":
                new = objs[c[1]] = "read " + c[2]
                self.add(new, [["read", "b0", c[2], c[3]]], "b0")
                if c[3] == "gf" and gf_ok(new):
                    metrics, met_ops = new, [["read", "b3", c[2], c[3]]]
            elif c[0] == "paint":
                old = objs[c[1]]
                new = objs[c[1]] = "paint %s (%s)" % (c[2], old)
                self.add(new, self.recipe[old][0] + [["paint", "b0", c[2]]], "b0")
            elif c[0] == "copy":
                new = objs[c[2]] = objs[c[1]]
            elif c[0] == "trace":
                old = objs[c[1]]
                new = "trace %s (%s)" % (c[3], old)
                way = self.recipe[old][0] + [["trace", "b0", "s%d" % sum(1 for q in self.recipe[old][0] if q[0] == "trace"), c[3]]]
                self.add(new, way, way[-1][2])
                objs[c[1]] = "traced %s (%s)" % (c[3], old)
                self.add(objs[c[1]], way, "b0")
                if steps is None or not steps[k]["none"]:
                    objs[c[2]] = new
            elif c[0] == "write":
                new = "write %s%s (%s)" % (c[2], " for " + metrics if c[3] == "ugs" else "", objs[c[1]])
                self.add(new, self.recipe[objs[c[1]]][0] + (met_ops if c[3] == "ugs" else []) + [["write", self.recipe[objs[c[1]]][1], c[2], c[3]]], "")
            else:
                objs.pop(c[1])
            made.append((new, dict(objs)))
        return made

    def add(self, term, way, slot):
        self.recipe.setdefault(term, (way, slot))


def fresh(c, exe, terms):
    """every term in a process of its own"""
    ts = sorted(terms.recipe)
    out = {}
    for t, r in zip(ts, c.drive(exe, [line(terms.recipe[t][0]) for t in ts])):
        if "crash" in r:
            out[t] = dict(dig="crash", len=0, fatal=0, warn=0, none=False)
            continue
        s = r["steps"][-1]
        slot = terms.recipe[t][1]
        out[t] = dict(dig=s["objs"].get(slot, "none") if slot else s["res"], len=s["len"], fatal=s["fatal"], warn=s["warn"], none=s["none"])
    return out
