"""Command lines: made up, planned by the specification, run, compared."""
import concurrent.futures, resource, shutil, signal, subprocess
from vlib import *
import conv_cases as cc, read_cases as rc

FULL = """align-threshold background-color debug-arch debug-bitmap centerline charcode color-count corner-always-threshold corner-surround corner-threshold
despeckle-level despeckle-tightness dpi error-threshold filter-iterations help input-format line-reversion-threshold line-threshold list-output-formats
list-input-formats log noise-removal output-file output-format preserve-width range remove-adjacent-corners remove-knees tangent-surround report-progress
version width-weight-factor""".split()
RARE = {"debug-arch", "help", "list-output-formats", "list-input-formats", "align-threshold", "range"}
BARE = {"debug-arch", "debug-bitmap", "centerline", "help", "list-output-formats", "list-input-formats", "log", "preserve-width", "remove-adjacent-corners",
        "remove-knees", "report-progress", "version"}
INPUTS = ["a.pbm", "b.png", "c.bmp", "d.tga", "UP.PPM", "a.b.pbm", "sub/e.ppm", "f.gf", "long-line.pgm"]
ODD = ["bad.png", "bad.bmp", "bad.pgm", "empty.tga", "noext", ".pbm", "gone.pbm", "gone.xyz", "old.svg", "notes.txt", "sub/.png", "x."]
OUTS = ["old.svg", "old.eps", "new.%s", "new", "sub/new.%s", "odd name.%s", "nodir/new.%s", "notes.txt", "NEW.%S", "new.xyz", "a.b", "old.%s"]


def world(c):
    """the files every run finds, name -> bytes"""
    rng = c.rng
    f = {"a.pbm": b"P1\n6 5\n000000\n011110\n010010\n011110\n000000\n", "b.png": cc.simple(rng, "png"), "c.bmp": cc.simple(rng, "bmp"), "d.tga": cc.simple(rng, "tga"),
         "UP.PPM": cc.simple(rng, "pnm"), "a.b.pbm": b"P1\n3 3\n010\n111\n010\n", "sub/e.ppm": cc.simple(rng, "pnm"), "long-line.pgm": b"P2 9 3 7 " + b"0 7 3 " * 9,
         "bad.png": cc.simple(rng, "png")[:40], "bad.bmp": b"BMxx", "bad.pgm": b"P5 4 4 255\nabc", "empty.tga": b"", "noext": b"P1 1 1 0", ".pbm": b"P1 1 1 1",
         "old.svg": b"<svg>kept</svg>", "old.eps": b"kept", "notes.txt": b"notes", "a.b": b"not a dump", "sub/.png": cc.simple(rng, "png"), "x.": b"P1 1 1 1"}
    while True:
        _, d, code, _ = rc.valid(rng, "gf")
        if rc.area("gf", d) < 2000:
            break
    f["f.gf"] = d
    f["pic.fig"] = f["shape.svg"] = f["a.pbm"]      # named like results
    return f


def value(rng, n):
    if n in cc.COUNTS or n == "dpi":
        v = rng.choice(cc.COUNTS.get(n, [1, 72, 300]))
        return rng.choice(["%d"] * 9 + ["+%d", " %d", "0%d", "%dpx", "-%d"]) % v if rng.random() < .97 else rng.choice(["-1", "-20", "", "x"] if n not in ("corner-surround", "tangent-surround") else ["-1", "-9"])
    if n in cc.DECIMALS:
        v = rng.choice(cc.DECIMALS[n])
        s = "%d.%03d" % (v // 1000, v % 1000)
        return rng.choice([s, s.rstrip("0").rstrip("."), s.lstrip("0") if v else "0", "+" + s, s + "deg"])
    if n == "background-color":
        return rng.choice(["FFFFFF", "000000", "ff0000", "0A0b0c", "808080", "fFfFfF"] * 4 + ["FFF", "GGGGGG", "-00000", "1234567", "", "0x0000", "FFFFF "])
    if n == "charcode":
        return rng.choice(["0", "65", "0x41", "0101", "97", "300"])
    if n == "input-format":
        return rng.choice(["pbm", "png", "BMP", "tga", "gf", "pnm", "Ppm"] * 3 + ["svg", "", "xyz", ".png"])
    if n == "output-format":
        return rng.choice(cc.WRITERS * 3 + ["SVG", "Eps", "xyz", "png", ""])
    if n == "output-file":
        return out_name(rng)
    return rng.choice(["1", "0.5", "x"])


def out_name(rng):
    o = rng.choice(OUTS)
    w = rng.choice(cc.WRITERS)
    return o.replace("%s", w).replace("%S", w.upper())


def spell(rng, n, v):
    """one of the ways to write the option"""
    name = n
    r = rng.random()
    if r < .3:
        k = min(k for k in range(1, len(n) + 1) if n[:k] == n or not [m for m in FULL if m != n and m.startswith(n[:k])])
        name = n[:rng.randint(k, len(n))]
    elif r < .32:
        name = n[:rng.randint(1, len(n))]
    elif r < .33:
        name = rng.choice([n + "s", n.upper(), n.replace("-", "_"), n[1:]])
    d = rng.choice(["-", "--"])
    if v is None:
        return [d + name + ("=yes" if rng.random() < .01 else "")]
    return [d + name + "=" + v] if rng.random() < .5 else [d + name, v]


def line(rng):
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        n = rng.choice(FULL)
        while n in RARE and rng.random() < .8:
            n = rng.choice(FULL)
        parts.append(spell(rng, n, None if n in BARE else value(rng, n)))
    if rng.random() < .7:
        parts.append(spell(rng, "output-file", out_name(rng)))
    if rng.random() < .5:
        parts.append(spell(rng, "output-format", rng.choice(cc.WRITERS)))
    rng.shuffle(parts)
    r = rng.random()
    files = [rng.choice(INPUTS) if rng.random() < .8 else rng.choice(ODD) for _ in range(0 if r < .03 else 2 if r > .97 else 1)]
    for f in files:
        parts.insert(rng.randint(0, len(parts)), [f])
    if rng.random() < .08:
        parts.insert(rng.randint(0, len(parts)), ["--"])
    if rng.random() < .02:
        same = rng.choice(INPUTS)
        parts = [[same], ["-output-file", "".join(x.upper() if rng.random() < .3 else x for x in same)]]
    a = [x for p in parts for x in p]
    if rng.random() < .02 and a:
        a.pop(rng.randrange(len(a)))
    return a


def plans(c, lines):
    p = os.path.join(c.work, "lines.ndjson")
    with open(p, "w") as f:
        for a in lines:
            f.write(json.dumps(dict(args=a)) + "\n")
    text = c.mc("MCPlan", constraints=["Emit"], env=dict(FILES=p))
    got = {}
    for m in re.finditer(r'^"PLAN (\d+) (.*)"$', text, re.M):
        got[int(m.group(1))] = json.loads(json.loads('"' + m.group(2) + '"'))
    if len(got) != len(lines):
        raise CheckError("%d plans for %d command lines" % (len(got), len(lines)))
    out = [got[k + 1] for k in range(len(lines))]
    for q in out:
        if "sets" in q and not q["sets"]:
            q["sets"] = {}
    return out


def emitted(text):
    return sorted(json.loads(json.loads('"' + m + '"')) for m in set(re.findall(r'^"ARGV (.*)"$', text, re.M)))


def reference(c, exe, files, plan):
    """the same conversions through the library, in a folder like that of the runs"""
    d = os.path.join(c.work, "refs")
    make(d, files)
    cases, at = [], []
    for k, p in enumerate(plan):
        if p["what"] == "convert":
            at.append(k)
            cases.append("C %s %s %s %s %s" % (cc.hx(os.path.join(d, p["file"])), p["reader"], cc.hx(p["out"]), p["writer"], cc.show(p["sets"])))
    refs = [None] * len(plan)
    for k, r in zip(at, c.drive(exe, cases)):
        if "crash" in r:
            # the program can do no better
            r = dict(ops=[dict(k="C", ok=False, traced=False, len=0, res="", fatal=1, warn=0, msg=1)])
        refs[k] = r["ops"][0]
    return refs


def make(d, files):
    for n, b in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def digests(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = cc.fnv(f.read())
    return out


HANGS = 0


def run_one(c, cli, files, case):
    global HANGS
    k, args, limit = case
    top = os.path.join(c.work, "run", str(k))
    shutil.rmtree(top, ignore_errors=True)
    d = os.path.join(top, "d")
    make(d, files)
    before = digests(d)

    def prepare():
        if limit >= 0:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    env = dict(os.environ, AT_DATE_ZERO="yes", TZ="UTC", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=98:allocator_may_return_null=1:hard_rss_limit_mb=3000", UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
    env.pop("POSIXLY_CORRECT", None)
    with open(os.path.join(top, "out"), "wb") as o:
        try:
            p = subprocess.run([cli] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.PIPE, env=env, preexec_fn=prepare, timeout=60 if HANGS < 8 else 3)
        except subprocess.TimeoutExpired:
            HANGS += 1
            return dict(crash="timeout")
    if p.returncode < 0 or p.returncode in (98, 99):
        return dict(crash="status %d %s" % (p.returncode, p.stderr.decode("latin1")[-300:]))
    with open(os.path.join(top, "out"), "rb") as f:
        out = f.read()
    vers = 0
    while True:
        m = re.match(rb"AutoTrace version [^\n]*\n", out)
        if not m:
            break
        vers, out = vers + 1, out[m.end():]
    rec = dict(args=args, exit=p.returncode, out=len(out), res=cc.fnv(out), err=len(p.stderr), vers=vers, before=before, after=digests(d), dirs=["sub/"], limit=limit)
    shutil.rmtree(top, ignore_errors=True)
    return rec
