"""Lexers of the text formats: bytes of a file -> sequence of tokens [o, a, s, p]: operator or keyword, numbers in
units of 1/1000 (integers), text, byte offset.  Nothing is interpreted here: what the tokens mean is said by
spec/Pen.tla.  What cannot be read becomes the token "?"."""
import re
import xml.parsers.expat

TEXT = ["svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "fig", "mif", "er", "pov", "ugs", "dxf"]
BINARY = ["emf", "cgm", "dr2d", "plt", "ild"]
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
LIM = 2000000000


def num(s, scale=1000):
    try:
        v = round(float(s) * scale)
    except (ValueError, OverflowError):
        return LIM
    return max(-LIM, min(LIM, v))


def T(o, a=(), s="", p=0):
    return dict(o=o, a=list(a), s=s, p=p)


def nums(s, scale=1000):
    return [num(x, scale) for x in re.findall(NUM, s)]


def lex_ps(text, base=0):
    """PostScript-like: operands then operator; comments by line."""
    out, stack = [], []
    pos = 0
    for line in text.split("\n"):
        at = base + pos
        pos += len(line) + 1
        if line.startswith("%"):
            m = re.match(r"(%%?[A-Za-z!-][^\s:(]*:?|%%?)\s*(.*)", line)
            key, rest = (m.group(1), m.group(2)) if m else (line, "")
            out.append(T("%", nums(rest), key, at))
            continue
        m = re.match(r"\s*/(\S+)\s+(.*?)\s*$", line)
        if m:
            out.append(T("def", [], m.group(1) + " = " + m.group(2), at))
            continue
        for m in re.finditer(r"\S+", line):
            w = m.group(0)
            if re.fullmatch(NUM, w):
                stack.append(num(w))
            elif re.match(r"[-+.0-9]", w):
                out.append(T("?", [], w[:40], at))
            else:
                out.append(T(w, stack, "", at + m.start()))
                stack = []
    if stack:
        out.append(T("?", stack, "operands left", pos))
    return out


def lex_svg(b):
    out = []
    p = xml.parsers.expat.ParserCreate()

    def start(name, at):
        if name == "svg":
            out.append(T("svg", [num(at.get("width", "x")), num(at.get("height", "x"))], at.get("xmlns", ""), p.CurrentByteIndex))
            return
        if name != "path" or set(at) - {"style", "d"}:
            out.append(T("?", [], name + " " + " ".join(at)))
            return
        st = {}
        for x in at.get("style", "").split(";"):
            if x.strip():
                k, _, v = x.partition(":")
                st[k.strip()] = v.strip()

        def col(v):
            return -1 if v == "none" else int(v[1:], 16) if re.fullmatch("#[0-9a-fA-F]{6}", v or "") else -2
        out.append(T("path", [col(st.get("fill")), col(st.get("stroke"))], "" if set(st) <= {"fill", "stroke"} else "style"))
        d = at.get("d", "")
        for m in re.finditer(r"([A-Za-z])([^A-Za-z]*(?:[eE][-+]?\d+[^A-Za-z]*)*)|(\S)", d):
            if m.group(3):
                out.append(T("?", [], m.group(3)))
            else:
                left = re.sub(NUM, "", m.group(2)).strip(" ,\n\t")
                out.append(T("?" if left else m.group(1), nums(m.group(2)), left))
        out.append(T("endpath"))

    def end(name):
        if name == "svg":
            out.append(T("endsvg", [], "", p.CurrentByteIndex))

    def chars(s):
        if s.strip():
            out.append(T("?", [], s[:40]))
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(b, True)
    except xml.parsers.expat.ExpatError as e:
        out.append(T("?", [], str(e)))
    return out


def lex_pdf(b):
    text = b.decode("latin1")
    out = []
    m = re.search(r"stream\r?\n", text)
    e = text.find("endstream")
    if not m or e < 0:
        return [T("?", [], "no stream")]
    head, body, tail = text[:m.end()], text[m.end():e], text[e:]
    out.append(T("length", nums((re.search(r"/Length\s+(\d+)", head) or re.match("()", "")).group(0), 1), "", len(body)))
    mb = re.search(r"/MediaBox\s*\[([^\]]*)\]", head)
    out.append(T("mediabox", nums(mb.group(1)) if mb else []))
    out += [T("begin")] + lex_ps(body, m.end()) + [T("end")]
    objs = [(int(x.group(1)), x.start()) for x in re.finditer(r"^(\d+) 0 obj\b", text, re.M) if not m.end() <= x.start() < e]
    out += [T("obj", [n], "", at) for n, at in objs]
    x = tail.find("xref")
    if x < 0:
        return out + [T("?", [], "no xref")]
    out.append(T("xref", [], "", e + x))
    hd = re.match(r"xref\n(\d+) (\d+)\n", tail[x:])
    if not hd:
        return out + [T("?", [], "xref header")]
    out.append(T("section", [int(hd.group(1)), int(hd.group(2))]))
    rest = tail[x + hd.end():]
    t = rest.find("trailer")
    rows = rest[:t]
    for k in range(0, len(rows), 20):
        r = rows[k:k + 20]
        q = re.fullmatch(r"(\d{10}) (\d{5}) ([nf])[ \r]\n", r)
        out.append(T("entry", [int(q.group(1)), int(q.group(2))], q.group(3)) if q else T("?", [], "xref row"))
    tr = rest[t:]
    for key in ("Size", "Root"):
        q = re.search(r"/%s (\d+)" % key, tr)
        out.append(T(key, [int(q.group(1))] if q else []))
    q = re.search(r"startxref\n(\d+)\n%%EOF\n?$", tr)
    out.append(T("startxref", [int(q.group(1))] if q else []))
    # every object is closed: obj and endobj alternate
    seq = re.findall(r"\b(endobj|obj)\b", head + tail[:x])
    out.append(T("balance", [sum(1 if w == "obj" else -1 for w in seq), int(seq[::2] == ["obj"] * (len(seq) // 2))]))
    return out


def lex_fig(text):
    out = []
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for k, l in enumerate(lines):
        if k < 9:
            out.append(T("head", nums(l), l))
            continue
        m = re.fullmatch(r"0 (\d+) #([0-9a-f]{6})", l)
        if m:
            out.append(T("colour", [int(m.group(1)), int(m.group(2), 16)]))
        elif re.fullmatch(r"(?:\s*%s)+\s*" % NUM, l):
            out.append(T("more" if l.startswith("\t") else "row", nums(l)))
        else:
            out.append(T("?", [], l[:60]))
    return out


def lex_mif(text):
    out = []
    text = re.sub(r"#[^\n]*", "", text)
    for m in re.finditer(r"<([A-Za-z]\w*)([^<>]*)|(>)|(\S)", text):
        if m.group(1):
            out.append(T(m.group(1), nums(re.sub(r"[`'][^'\n]*'?|[A-Za-z]\w*", " ", m.group(2))), " ".join(m.group(2).split())))
        else:
            out.append(T(m.group(3) or "?", [], m.group(4) or ""))
    return out


def lex_er(text):
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        m = re.fullmatch(r"(\w+)\s*=\s*(.*)", l)
        if m and m.group(2) == "{":
            out.append(T("{", [], m.group(1)))
        elif m:
            out.append(T(m.group(1), nums(m.group(2)), m.group(2)))
        elif l == "}":
            out.append(T("}"))
        elif l.startswith("("):
            bad = re.sub(r"\(%s, %s\),?" % (NUM, NUM), "", l).strip()
            out.append(T("?" if bad else "points", nums(l, 1000000), bad))
        elif re.fullmatch(r"%s(, %s)*,?" % (NUM, NUM), l):
            out.append(T("numbers", nums(l)))
        else:
            out.append(T("?", [], l[:60]))
    return out


def lex_pov(text):
    out = []
    for m in re.finditer(r"([A-Za-z_]+)|([{}])|<([^<>]*)>|(%s)|(,)|(\S)" % NUM, text):
        w, br, v, n, comma, bad = m.groups()
        if w or br:
            out.append(T(w or br))
        elif v is not None:
            out.append(T("?" if re.sub(NUM, "", v).strip(" ,") else "<>", nums(v)))
        elif n:
            out.append(T("number", [num(n, 10000)]))
        elif bad:
            out.append(T("?", [], bad))
    return out


def lex_ugs(text):
    out = []
    for l in text.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "end" and len(w) == 2:
            out.append(T("end " + w[1]))
        elif w[0] == "symbol":
            out.append(T("symbol", [int(w[1], 16)] + [int(w[3])] if len(w) == 4 else [], w[2] if len(w) == 4 else "?"))
        elif re.fullmatch(r"[a-z-]+", w[0]) and all(re.fullmatch(r"-?\d+", x) for x in w[1:]):
            out.append(T(w[0], [num(x, 1000) for x in w[1:]]))
        else:
            out.append(T("?", [], l[:60]))
    return out


def lex_dxf(text):
    out = []
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    if len(ls) % 2:
        return [T("?", [], "odd number of lines")]
    for k in range(0, len(ls), 2):
        v = ls[k + 1].strip()
        out.append(T(ls[k].strip(), [num(v)] if re.fullmatch(NUM, v) else [], v))
    return out


def lex_sk(text):
    out = []
    for l in text.split("\n"):
        if l == "##Sketch 1 0":
            out.append(T("##Sketch"))
            continue
        m = re.fullmatch(r"(\w+)\((.*)\)", l)
        if m:
            out.append(T(m.group(1), nums(re.sub(r"'[^']*'", "", m.group(2)))))
        elif l:
            out.append(T("?", [], l[:60]))
    return out


def lex_plt(text):
    out = []
    parts = text.split(";")
    if parts and not parts[-1].strip():
        parts.pop()
    else:
        out.append(T("?", [], "no final semicolon"))
    for q in parts:
        m = re.fullmatch(r"\s*([A-Z]{2})\s*((?:-?\d+[ ,]*)*)", q)
        out.append(T(m.group(1), [int(x) for x in re.findall(r"-?\d+", m.group(2))]) if m else T("?", [], q[:40]))
    return out


def lex(fmt, b):
    if fmt == "svg":
        return lex_svg(b)
    if fmt == "pdf":
        return lex_pdf(b)
    try:
        text = b.decode("utf-8")
    except UnicodeDecodeError:
        return [T("?", [], "not text")]
    if "\0" in text:
        return [T("?", [], "zero byte")]
    return dict(eps=lex_ps, ai=lex_ps, p2e=lex_ps, epd=lex_ps, fig=lex_fig, mif=lex_mif, er=lex_er, pov=lex_pov,
                ugs=lex_ugs, dxf=lex_dxf, sk=lex_sk, plt=lex_plt)[fmt](text)
