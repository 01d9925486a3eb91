"""Common machinery of the checks: build /repo's working tree, run the drivers,
let TLC judge what they recorded, write evidence, report."""
import traceback, os, sys, json, time, random, re, shutil, subprocess, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
NOT_BUILT = {"main.c", "atou.c", "input-magick.c", "output-swf.c", "output-pstoedit.c", "datetime.c"}

DEFS = ['-DAUTOTRACE_VERSION="1.0"', '-DAUTOTRACE_WEB="http://autotrace.sourceforge.net"', "-DHAVE_LIBPNG"]
ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
PLAIN = ["-O2", "-g"]
WRAPS = ["malloc", "calloc", "realloc", "free", "strdup"]


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.viol = []
        self.known_hit = []
        self.known = load_known(pid)
        self.models = []
        self.mc_runs = 0
        self.broken = []
        self.examples = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build_lib(self, name="asan", flags=None, wrap=True, cxxlib=False, defs=()):
        """Compile the library sources of /repo's working tree afresh."""
        flags = list(ASAN if flags is None else flags)
        d = os.path.join(self.work, "obj-" + name)
        os.makedirs(d, exist_ok=True)
        srcs = [s for s in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(s) not in NOT_BUILT]
        srcs += sorted(glob.glob(REPO + "/src/*.cpp"))
        inc = ["-I", REPO, "-I", REPO + "/src"]
        jobs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + ".o")
            if s.endswith(".c"):
                jobs.append((["gcc", "-w", "-c", s, "-o", o] + flags + DEFS + list(defs) + inc, o))
            else:
                jobs.append((["g++", "-std=c++11", "-w", "-c", s, "-o", o] + flags + DEFS + list(defs) + inc, o))
        if cxxlib:
            ws = [s for s in sorted(glob.glob(REPO + "/src/wrapper/*.cpp") + glob.glob(REPO + "/src/wrapper/Json/*.cpp"))
                  if os.path.basename(s) != "autotraceMain.cpp"]
            ws.append("/opt/vp/wrapper/json11/json11.cpp")
            for s in ws:
                o = os.path.join(d, "w_" + os.path.basename(s) + ".o")
                jobs.append((["g++", "-std=c++17", "-include", "stdexcept", "-w", "-c", s, "-o", o] + flags + DEFS +
                             inc + ["-I", REPO + "/src/wrapper", "-I", REPO + "/src/wrapper/Json",
                                    "-I", "/opt/vp/wrapper/json11"], o))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs))
        for j, r in zip(jobs, res):
            if r.returncode:
                raise CheckError("compile failed: %s\n%s" % (" ".join(j[0]), r.stderr[-2000:]))
        return dict(objs=[j[1] for j in jobs], flags=flags, dir=d, wrap=wrap, cxx=cxxlib)

    def build_exe(self, lib, sources, exe, extra=()):
        out = os.path.join(self.work, exe)
        objs = []
        for s in sources:
            s = s if s.startswith("/") else os.path.join(VERIF, "harness", s)
            o = os.path.join(lib["dir"], "h_" + os.path.basename(s) + ".o")
            comp = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++17", "-include", "stdexcept"]
            r = subprocess.run(comp + ["-w", "-c", s, "-o", o] + lib["flags"] + DEFS + list(extra) +
                               ["-I", REPO, "-I", REPO + "/src", "-I", REPO + "/src/wrapper", "-I", REPO + "/src/wrapper/Json",
                                "-I", "/opt/vp/wrapper/json11", "-I", os.path.join(VERIF, "harness")],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError("harness compile failed: %s\n%s" % (s, r.stderr[-3000:]))
            objs.append(o)
        link = ["g++"] + lib["flags"] + objs + lib["objs"] + ["-lpng", "-lz", "-lm", "-o", out]
        if lib["wrap"]:
            link += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed\n" + r.stderr[-3000:])
        return out

    def build_cli(self, flags=None, name="cli"):
        lib = self.build_lib(name, flags=flags, wrap=False)
        out = os.path.join(self.work, "autotrace-" + name)
        r = subprocess.run(["g++"] + lib["flags"] + ["-w"] + DEFS + ["-I", REPO, "-I", REPO + "/src", "-x", "c",
                            REPO + "/src/main.c", REPO + "/src/atou.c", "-x", "none"] + lib["objs"] +
                           ["-lpng", "-lz", "-lm", "-o", out], capture_output=True, text=True)
        if r.returncode:
            r = None
        if r is None:
            objs = []
            for s in ("main.c", "atou.c"):
                o = os.path.join(lib["dir"], s + ".o")
                q = subprocess.run(["gcc", "-w", "-c", REPO + "/src/" + s, "-o", o] + lib["flags"] + DEFS +
                                   ["-I", REPO, "-I", REPO + "/src"], capture_output=True, text=True)
                if q.returncode:
                    raise CheckError(q.stderr[-2000:])
                objs.append(o)
            q = subprocess.run(["g++"] + lib["flags"] + objs + lib["objs"] + ["-lpng", "-lz", "-lm", "-o", out],
                               capture_output=True, text=True)
            if q.returncode:
                raise CheckError(q.stderr[-2000:])
        return out

    # -------------------------------------------------------------- drivers
    def drive(self, exe, cases, timeout=600, env=None, jobs=JOBS, args=()):
        """Feed one case per line; the driver answers one JSON line per case, in order.
        The driver forks per case, so a crash is one record, not the end of the run."""
        if not cases:
            return []
        n = max(1, min(jobs, len(cases) // 8 or 1))
        parts = [cases[i::n] for i in range(n)]
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                 "max_allocation_size_mb=2048:detect_stack_use_after_return=0",
                 UBSAN_OPTIONS="halt_on_error=1:exitcode=99", AT_DATE_ZERO="yes", TZ="UTC")
        e.update(env or {})

        def one(k):
            d = os.path.join(self.work, "run%d" % k)
            os.makedirs(d, exist_ok=True)
            p = subprocess.run([exe] + list(args), input="\n".join(parts[k]) + "\n", capture_output=True, text=True,
                               timeout=timeout, env=e, cwd=d, errors="replace")
            if p.returncode != 0:
                raise CheckError("driver %s failed rc=%s: %s" % (exe, p.returncode, p.stderr[-2000:]))
            out = [json.loads(l) for l in p.stdout.split("\n") if l.strip()]
            if len(out) != len(parts[k]):
                raise CheckError("driver answered %d of %d cases: %s" % (len(out), len(parts[k]), p.stderr[-1500:]))
            return out
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, range(n)))
        res = [None] * len(cases)
        for k in range(n):
            res[k::n] = rs[k]
        return res

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, workers=JOBS, timeout=800, heap="8g", extra=(), env=None):
        meta = os.path.join(self.work, "tlc-%s-%d" % (module, self.mc_runs))
        self.mc_runs += 1
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.work,
               "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC, env=e, errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        return p

    @staticmethod
    def stats(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace(" ", ""))
        if not m:
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def mc(self, module, consts=None, init="Init", next_="Next", spec=None, invariants=(), properties=(), constraints=(),
           actions=(), deadlock=False, timeout=800, refute=None, env=None, view=None, workers=JOBS):
        """Model-check a step machine; a failure here is a broken model (error), never a verdict about the code."""
        cfg = os.path.join(self.work, "%s-%d.cfg" % (module, self.mc_runs))
        with open(cfg, "w") as f:
            if consts:
                consts = {k: "{%s}" % ", ".join(map(str, v)) if isinstance(v, list) else v for k, v in consts.items()}
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()))
            if spec:
                f.write("SPECIFICATION %s\n" % spec)
            else:
                f.write("INIT %s\nNEXT %s\n" % (init, next_))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            for i in constraints:
                f.write("CONSTRAINT %s\n" % i)
            if view:
                f.write("VIEW %s\n" % view)
            if not deadlock:
                f.write("CHECK_DEADLOCK FALSE\n")
        p = self._tlc(module, cfg, workers=workers, timeout=timeout, extra=["-coverage", "1000"] if actions else [], env=env)
        if refute:
            # the same machine with one guard taken out must break the named invariant: the model is not vacuous
            if "Invariant %s is violated" % refute not in p.stdout:
                raise CheckError("model %s %s should violate %s:\n%s" % (module, consts, refute, p.stdout[-2000:]))
            self.models.append(dict(module=module, constants=consts or {}, refuted=refute))
            return p.stdout
        if p.returncode != 0 or "No error has been found" not in p.stdout:
            k = max(p.stdout.find("Error:"), 0)
            raise CheckError("model %s %s does not check:\n%s" % (module, consts, p.stdout[k:k + 3000].split("The coverage stat")[0] + p.stderr[-500:]))
        for a in actions:
            m = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), p.stdout)
            if not m or all(int(x[1]) == 0 for x in m):
                raise CheckError("model %s: action %s never taken" % (module, a))
        g, d = self.stats(p.stdout)
        m = re.search(r"Finished computing initial states: ([\d,]+) (?:distinct )?state", p.stdout)
        n0 = int(m.group(1).replace(",", "")) if m else 1
        self.cov["states"] += d
        self.cov["transitions"] += g - n0
        self.models.append(dict(module=module, constants=consts or {}, distinct=d, initial=n0, transitions=g - n0,
                                checked=list(invariants) + list(properties)))
        return p.stdout

    def judge(self, module, records, failed, consts=None, timeout=800, heap="8g", count=True, corrupt=()):
        """TLC evaluates the specification's verdict on each recorded run.
        Returns {index: [failed clauses]} for rejected records.  `corrupt` are falsified
        records the specification must reject: they show the verdict is not vacuous."""
        if not records:
            return {}
        nreal = len(records)
        records = list(records) + list(corrupt)
        path = os.path.join(self.work, "%s-%d.ndjson" % (module, self.mc_runs))
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        cfg = path[:-7] + ".cfg"
        with open(cfg, "w") as f:
            f.write("CONSTANTS\n  Failed <- %s\n" % failed)
            for kv in (consts or {}).items():
                f.write("  %s = %s\n" % kv)
            f.write("INIT JInit\nNEXT JNext\nCONSTRAINT JVerdict\nCHECK_DEADLOCK FALSE\n")
        p = self._tlc(module, cfg, timeout=timeout, heap=heap, env=dict(TRACE_FILE=path, TRACE_LEN=str(len(records))))
        if p.returncode != 0 or "No error has been found" not in p.stdout:
            if self.outside(p.stdout):
                if nreal == 1 and not corrupt:
                    return {0: ["outside-the-specification"]}
                rej = self.narrow(module, records[:nreal], failed, consts=consts, timeout=timeout, heap=heap)
                if not rej:
                    self.broken.append("judging falsified records with %s failed:\n%s" % (module, p.stdout[-2500:]))
                return rej
            raise CheckError("judging with %s failed:\n%s" % (module, p.stdout[-2500:] + p.stderr[-500:]))
        g, d = self.stats(p.stdout)
        rej = {}
        # TLC breaks long tuples over lines
        text = re.sub(r"\s+", " ", p.stdout)
        for m in re.finditer(r'<< ?"REJECT", (\d+), \{(.*?)\} ?>>', text):
            rej[int(m.group(1)) - 1] = re.findall(r'"([^"]*)"', m.group(2))
        if d < len(records):
            raise CheckError("TLC judged only %d of %d records" % (d, len(records)))
        if count:
            self.cov["traces_validated_against_impl"] += nreal
        for k in range(nreal, len(records)):
            if not rej.pop(k, None):
                self.broken.append("%s/%s accepts the falsified record %d: %s" % (module, failed, k - nreal, json.dumps(records[k])[:600]))
        return rej

    @staticmethod
    def outside(text):
        """Did TLC stop at a record the definitions cannot be applied to?"""
        return not re.search(r"OutOfMemory|StackOverflow|java\.lang\.(OutOf|Stack)|GC overhead", text) and \
            re.search(r"Attempted to|TLC threw an unexpected exception|evaluat|In applying the function|was not in the domain", text) is not None

    def narrow(self, module, records, failed, **kw):
        """Looks for records the specification cannot be applied to: such a run is not one of its behaviours."""
        mid = (len(records) + 1) // 2
        rej = self.judge(module, records[:mid], failed, count=False, **kw)
        if rej:
            return rej
        return {mid + k: v for k, v in self.judge(module, records[mid:], failed, count=False, **kw).items()}

    def example(self, exe, case, post=None):
        """The record of a case that falsified records are made from; the case itself is judged as well."""
        self.examples.append(case)
        r = self.drive(exe, [case])[0]
        return self.posted(post, case, r)

    @staticmethod
    def posted(post, case, r):
        """A record completed with what the specification needs; output that cannot be read at all is a failure of its own."""
        if not post:
            return r
        try:
            return post(case, r)
        except Exception as e:
            return dict(crash="unreadable", why="%s: %s" % (type(e).__name__, str(e)[:200]))

    def conform(self, exe, cases, module, failed, corrupt=(), key=None, env=None, consts=None, post=None, drive=None, heap="8g"):
        """Replay the cases into the real code, judge the records, report what is rejected twice."""
        go = drive or (lambda cs: self.drive(exe, cs, env=env))
        n = len(cases)
        if callable(corrupt):
            try:
                corrupt = list(corrupt())
            except Exception:
                # only an error of the check if the code under test behaves
                self.broken.append("no falsified records: " + traceback.format_exc()[-1000:])
                corrupt = []
        cases, self.examples = list(cases) + self.examples, []
        recs = [self.posted(post, c, r) for c, r in zip(cases, go(cases))]
        rej = self.judge(module, recs, failed, consts=consts, corrupt=corrupt, heap=heap)
        if rej:
            idx = sorted(rej)[:400]
            again = [self.posted(post, cases[i], r) for i, r in zip(idx, go([cases[i] for i in idx]))]
            rej2 = self.judge(module, again, failed, consts=consts, count=False, heap=heap)
            for k, i in enumerate(idx):
                if k in rej2:
                    kk = key(cases[i], again[k], rej2[k]) if key else failed
                    self.report(kk, "%s on case: %s  record: %s" % (",".join(rej2[k]), str(cases[i])[:300], json.dumps(again[k])[:200]),
                                dict(input=cases[i], record=again[k], failed=rej2[k], module=module, verdict=failed))
        return recs[:n]

    # ------------------------------------------------------------- verdicts
    def report(self, key, what, data):
        """A property violation seen on the real code."""
        for k, txt in self.known:
            if k == key:
                if (key, txt) not in self.known_hit:
                    self.known_hit.append((key, txt))
                return
        self.viol.append((key, what, data))

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def finish(self, **extra):
        if self.broken and not self.viol:
            raise CheckError(self.broken[0])
        self.cov.update(extra)
        self.cov["models"] = self.models
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, txt in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.viol:
            for n, (key, what, data) in enumerate(self.viol[:5]):
                path = os.path.join(self.replays, "%s-%d.json" % (self.pid, n + 1))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, key=key, what=what, seed=self.seed, tier=self.tier, case=data), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + what[:600])
            if len(self.viol) > 5:
                print("  (%d violations in all)" % len(self.viol))
            return 1
        print("OK %s tier=%s states=%d transitions=%d records=%d %.1fs" % (
            self.pid, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(pid):
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main(pid, run, level="model_checking"):
    c = None
    try:
        c = Check(pid, level)
        try:
            run(c)
        except Exception:
            # what was found before counts; without a finding it is an error of the check
            if not c.viol:
                raise
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        rc = 3
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR %s: timeout %s" % (pid, str(e)[:300]))
        rc = 4
    except Exception:
        print("CHECK-ERROR %s: %s" % (pid, traceback.format_exc()[-1500:]))
        rc = 5
    sys.stdout.flush()
    sys.exit(rc)


# ------------------------------------------------------------------ images
def hexpx(px, np=3):
    """px: list of ints 0xRRGGBB (np=3) or 0..255 (np=1)"""
    if not px:
        return "-"
    if np == 1:
        return "".join("%02x" % v for v in px)
    return "".join("%06x" % v for v in px)


def all_images(w, h, colours):
    import itertools
    for px in itertools.product(colours, repeat=w * h):
        yield list(px)


def shape_image(rng, w, h, colours, kind=None):
    """A structured random image: noise, blobs, rings, diagonals, stripes, combs."""
    kind = kind or rng.choice(["noise", "rects", "rings", "diag", "stripes", "sparse", "walk", "disc"])
    bg = rng.choice(colours)
    px = [bg] * (w * h)

    def put(x, y, c):
        if 0 <= x < w and 0 <= y < h:
            px[y * w + x] = c
    if kind == "noise":
        px = [rng.choice(colours) for _ in range(w * h)]
    elif kind == "sparse":
        for _ in range(max(1, w * h // 8)):
            put(rng.randrange(w), rng.randrange(h), rng.choice(colours))
    elif kind == "rects":
        for _ in range(rng.randrange(1, 6)):
            x0, y0 = rng.randrange(-1, w), rng.randrange(-1, h)
            x1, y1 = rng.randrange(x0, w + 1), rng.randrange(y0, h + 1)
            c = rng.choice(colours)
            for y in range(y0, y1 + 1):
                for x in range(x0, x1 + 1):
                    put(x, y, c)
    elif kind == "rings":
        cs = rng.sample(colours, min(len(colours), 3))
        for k in range((min(w, h) + 1) // 2):
            c = cs[(k // rng.choice([1, 1, 2])) % len(cs)]
            for y in range(k, h - k):
                for x in range(k, w - k):
                    put(x, y, c)
    elif kind == "diag":
        m = rng.choice([2, 3, 4])
        s = rng.choice([1, -1])
        cs = [rng.choice(colours) for _ in range(m)]
        px = [cs[(x + s * y) % m] for y in range(h) for x in range(w)]
    elif kind == "stripes":
        m = rng.choice([2, 3, 4])
        cs = [rng.choice(colours) for _ in range(m)]
        v = rng.random() < .5
        px = [cs[(x if v else y) % m] for y in range(h) for x in range(w)]
    elif kind == "walk":
        c = rng.choice(colours)
        x, y = rng.randrange(w), rng.randrange(h)
        for _ in range(w * h // 2 + 2):
            put(x, y, c)
            x += rng.choice([-1, 0, 1])
            y += rng.choice([-1, 0, 1])
            x = min(max(x, 0), w - 1)
            y = min(max(y, 0), h - 1)
    elif kind == "disc":
        for _ in range(rng.randrange(1, 3)):
            cx, cy, r = rng.uniform(0, w), rng.uniform(0, h), rng.uniform(1, max(w, h) / 2 + 1)
            c = rng.choice(colours)
            for y in range(h):
                for x in range(w):
                    if (x + .5 - cx) ** 2 + (y + .5 - cy) ** 2 <= r * r:
                        put(x, y, c)
    return px


def triple(rng, w, h, px):
    """Insert two copies of one column or row; returns (axis, middle index, w, h, px).  What lies left and
    right of the middle copy is the same as the copy, so repeating it any number of times changes no decision
    a local rule takes."""
    if rng.random() < .5:
        k = rng.randrange(w)
        q = []
        for y in range(h):
            r = px[y * w:(y + 1) * w]
            q += r[:k] + [r[k]] * 3 + r[k + 1:]
        return "X", k + 1, w + 2, h, q
    k = rng.randrange(h)
    rows = [px[y * w:(y + 1) * w] for y in range(h)]
    rows = rows[:k] + [rows[k]] * 3 + rows[k + 1:]
    return "Y", k + 1, w, h + 2, sum(rows, [])
