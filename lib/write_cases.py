"""Tracing results to be written, and the records of the written files."""
import draw_lex
from vlib import *

FORMATS = draw_lex.TEXT + draw_lex.BINARY
PALETTE = [0, 0xffffff, 0xff0000, 0x00ff00, 0x0000ff, 0xffff00, 0x00ffff, 0xff00ff, 0x808080, 0x0a0b0c, 0x010203, 0xfefdfc,
           0x7f0080, 0x00007f, 0xff8400, 0xb80080, 0x010000, 0x000100, 0x000001, 0xc0ffee]
NAMES = ["case", "", "a", "ab", "A rather longer name of a document (1)", "x" * 28, "x" * 29, "x" * 30, "x" * 31, "x" * 200, "dir/file.svg"]


def post(fmt_case, rec):
    """the file as tokens or bytes; the specification does the rest"""
    if "crash" in rec:
        return rec
    b = bytes.fromhex(rec.pop("hex"))
    rec["len"] = len(b)
    rec["name"] = list(bytes.fromhex(fmt_case.split()[1].replace("-", "")))
    rec["toks"] = draw_lex.lex(rec["fmt"], b) if rec["fmt"] in draw_lex.TEXT + ["plt"] else []
    rec["b"] = [] if rec["toks"] or rec["fmt"] in draw_lex.TEXT else list(b)
    return rec


def hx(s):
    return s.encode().hex() or "-"


def pt(rng, w, h, out=0):
    return (rng.randint(-out, 8 * w + out) * 125, rng.randint(-out, 8 * h + out) * 125)


def splines(rng, w, h, n, start=None, closed=True, straight=None):
    """n connected splines in a w x h image, on a grid of 1/8"""
    p = start or pt(rng, w, h)
    first, s = p, []
    for k in range(n):
        q = first if closed and k == n - 1 and n > 1 else pt(rng, w, h)
        if rng.random() < .08:
            q = p
        line = rng.random() < .5 if straight is None else straight
        s.append([p, q] if line else [p, pt(rng, w, h), pt(rng, w, h), q])
        p = q
    return s


def text(lists, pw=0, rng=None):
    """a list is (colour, cw, open, splines)"""
    o = []
    for c, cw, op, ss in lists:
        o.append("L %06x %d %d %d" % (c, cw, op, len(ss)))
        for s in ss:
            z = ["%d" % rng.randint(0, 5000) for _ in s] if pw else []
            o.append("%d %s" % (1 if len(s) == 2 else 3, " ".join(("%d %d" % p) + (" " + z[k] if pw else "") for k, p in enumerate(s))))
    return " ".join(o)


def case(fmt, lists, w, h, cl=0, bg=None, pw=0, dpi=72, name="case", rng=None):
    return "splines %s %d %d %d %d %s %d %s %s" % (hx(name), w, h, dpi, cl, "-" if bg is None else "%06x" % bg, pw, fmt, text(lists, pw, rng))


def colours(rng):
    cols = [rng.choice(PALETTE) if rng.random() < .6 else rng.getrandbits(24) for _ in range(rng.randint(1, 4))]
    if rng.random() < .4:           # and some that differ from these in one part only
        cols += [v ^ ((rng.choice([1, 2, 128, 255]) if rng.random() < .5 else rng.randrange(1, 256)) << rng.choice([0, 8, 16])) for v in cols]
    return cols


def random_case(rng, fmt, nmax=6):
    w, h = rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 60]), rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 60])
    cl = rng.random() < .4
    bg = rng.choice([None, None, rng.choice(PALETTE)])
    cols = colours(rng)
    ls, p = [], None
    straight = rng.choice([None, None, True, False])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, nmax])):
        op = cl and rng.random() < .6
        n = rng.choice([1, 2, 3, 4, 6] if rng.random() < .9 else [15])
        ss = splines(rng, w, h, n, p if rng.random() < .3 else None, not op, straight)
        p = ss[-1][-1]
        ls.append((rng.choice(cols), int(bg is not None and not cl and rng.random() < .3), int(op), ss))
    pw = rng.choice([0, 1000, 5000]) if cl and fmt == "er" else 0
    return case(fmt, ls, w, h, int(cl), bg, pw, rng.choice([72, 72, 72, 300, 1, 90]), rng.choice(NAMES), rng)


def traced_case(rng, fmt):
    w, h = rng.randint(3, 16), rng.randint(3, 16)
    px = shape_image(rng, w, h, [0, 0xffffff, 0xff0000, 0x00ff80][:rng.randint(2, 4)])
    cl = rng.random() < .4
    return "traced %s %d %d 3 %s %s %d %d %d %d %s" % (hx("case"), w, h, hexpx(px), rng.choice(["-", "ffffff", "000000"]), cl,
                                                       cl and rng.random() < .3, rng.choice([0, 0, 2, 4]), rng.choice([72, 300]), fmt)


def patterns(text):
    """the list patterns a model printed: (colour, flag, joined, kind) each"""
    flat = re.sub(r"\s+", " ", text)
    out = set()
    for m in re.finditer(r'<< ?"FILE", <<(.*?)>> ?>>', flat):
        v = [int(x) for x in m.group(1).split(",")] if m.group(1).strip() else []
        out.add(tuple(tuple(v[i:i + 4]) for i in range(0, len(v), 4)))
    return sorted(out)


KINDS = [[1], [3], [1, 1], [1, 3], [3, 1], [3, 3]]


def pattern_case(rng, fmt, pat, cl):
    w, h = rng.choice([4, 7, 16, 33]), rng.choice([4, 9, 16, 31])
    cols = {c: rng.choice(PALETTE) for c, _, _, _ in pat}
    if len(set(cols.values())) < len(cols):
        cols = {c: PALETTE[(k * 3 + 2) % 8] for k, c in enumerate(cols)}
    bg = rng.choice(PALETTE) if not cl and rng.random() < .7 else None
    ls, p = [], None
    for c, flag, joined, k in pat:
        op = cl and flag
        start = p if joined else pt(rng, w, h)
        ss, q = [], start
        for j, d in enumerate(KINDS[k - 1]):
            e = start if not op and j == 1 else pt(rng, w, h)
            ss.append([q, e] if d == 1 else [q, pt(rng, w, h), pt(rng, w, h), e])
            q = e
        p = q
        ls.append((cols[c], int(bg is not None and flag), int(op), ss))
    return case(fmt, ls, w, h, int(cl), bg, 0, rng.choice([72, 96]), "pattern", rng)


def model(c):
    """checks the model of writing and returns the patterns for outlines and for centre lines"""
    out = {}
    for cl in (False, True):
        for d in ("svg", "eps", "p2e", "pdf"):
            text = c.mc("MCDraw", dict(MAXLISTS=2 if d == "pdf" else c.pick(2, 3), COLOURS=[255, 0xff8000], SHAPES=[1, 2, 3, 4, 5, 6] if d == "pdf" else [1, 5],
                                       CENTRE="TRUE" if cl else "FALSE", DIALECT='"%s"' % d, LAPSE='""'),
                        spec="Spec", invariants=["Faithful", "SoFar"], constraints=["Emit"], actions=["Add", "Finish"])
            out[cl] = patterns(text)
    for lapse in ("end", "first"):
        c.mc("MCDraw", dict(MAXLISTS=3, COLOURS=[255, 0xff8000], SHAPES=[1], CENTRE="FALSE", DIALECT='"pdf"', LAPSE='"%s"' % lapse),
             spec="Spec", invariants=["Faithful"], refute="Faithful")
    return out


def replay(c, formats, pats):
    """every pattern of up to one list and a sample of the others, for each format"""
    cs = []
    for f in formats:
        for cl in (False, True):
            ps = [p for p in pats[cl] if len(p) < 2]
            more = [p for p in pats[cl] if len(p) > 1]
            ps += more if c.thorough else c.rng.sample(more, min(len(more), 20))
            cs += [pattern_case(c.rng, f, p, cl) for p in ps]
    return cs
