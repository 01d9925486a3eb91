"""Random well-formed image files of every supported format (bytes only: what
they mean is decided by the specification), and damage done to them."""
import re, struct, zlib


def emitted(text):
    """the files a specification's writer machine produced"""
    flat = re.sub(r"\s+", " ", text)
    seen, out = set(), []
    for m in re.finditer(r'<< ?"FILE", <<(.*?)>> ?>>', flat):
        s = m.group(1)
        if s not in seen:
            seen.add(s)
            out.append(bytes(int(v) for v in s.split(",")) if s.strip() else b"")
    return sorted(out)


def case(fmt, data, code=0, raw=b""):
    return "read %s %s %d %s" % (fmt, data if isinstance(data, str) else (data.hex() or "-"), code, raw.hex() or "-")


# ------------------------------------------------------------------ PNM
def pnm(rng, t=None, size=None):
    t = t or rng.randrange(1, 7)
    w, h = size or rng.choice([(1, 1), (2, 3), (7, 2), (8, 3), (9, 4), (16, 2), (17, 5), (5, 9)])
    np = 3 if t in (3, 6) else 1

    def sep():
        k = rng.random()
        s = "".join(rng.choice(" \n\t\r\f\v") for _ in range(rng.choice([1, 1, 1, 2, 4])))
        if k < .2:
            s += "#" + "".join(rng.choice("abc 123 P5 #\t\r") for _ in range(rng.randrange(20))) + "\n"
        elif k < .3:
            s = "#" + "x" * rng.randrange(5) + "\n" + s
        return s

    def num(v):
        return "0" * rng.choice([0, 0, 0, 0, 1, 3]) + str(v)
    if t in (1, 4):
        mx = 1
    elif t < 4:
        mx = rng.choice([255, 255, 1, 2, 3, 15, 100, 254, 256, 1000, 4095, 65535, rng.randrange(1, 65536)])
    else:
        mx = rng.choice([255, 255, 1, 2, 3, 15, 100, 254, rng.randrange(1, 256)])
    head = "P%d%s%s%s%s" % (t, sep(), num(w), sep(), num(h))
    if t not in (1, 4):
        head += sep() + num(mx)
    n = w * h * np
    if t == 4:
        body = bytes(rng.choice([0, 255, rng.randrange(256), 10, 35]) for _ in range((w + 7) // 8 * h))
        return head.encode() + rng.choice([b"\n", b" ", b"\t"]) + body
    vals = [rng.choice([0, mx, rng.randrange(mx + 1)]) for _ in range(n)]
    if t > 4:
        vals = [v if rng.random() < .8 else rng.choice([x for x in (9, 10, 32, 35, 80, 49, mx) if x <= mx]) for v in vals]
        return head.encode() + rng.choice([b"\n", b" ", b"\t"]) + bytes(vals) + rng.choice([b"", b"", b"\n", b"junk"])
    s = head
    for k, v in enumerate(vals):
        if t == 1:
            s += (sep() if k == 0 or rng.random() < .5 else "") + str(v)
        else:
            s += sep() + num(v)
    s += rng.choice(["", "\n", " ", sep()])
    return s.encode("latin1")


# ------------------------------------------------------------------ BMP
def mask_bytes(lo, n):
    return struct.pack("<I", ((1 << n) - 1) << lo)


def bmp(rng, bpp=None, hs=None, comp=None, size=None, over=0):
    bpp = bpp or rng.choice([1, 1, 2, 4, 4, 8, 8, 16, 16, 24, 32, 32])
    hs = hs or rng.choice([12, 40, 40, 40, 56, 57, 60, 64, 108, 124])
    w, h = size or rng.choice([(1, 1), (2, 3), (3, 2), (4, 4), (5, 3), (7, 2), (8, 3), (9, 4), (16, 2), (17, 5), (33, 2), (31, 3)])
    if comp is None:
        comp = 0
        if hs != 12:
            if bpp in (4, 8) and rng.random() < .4:
                comp = {8: 1, 4: 2}[bpp]
            elif bpp in (16, 32) and rng.random() < .6:
                comp = 3
    down = comp in (0, 3) and hs != 12 and rng.random() < .3
    entry = 3 if hs == 12 else 4
    pal, used = b"", 0
    if bpp <= 8:
        n = 1 << bpp
        if hs != 12 and rng.random() < .4:
            used = n = rng.randrange(1, (1 << bpp) + 1)
        grey = rng.random() < .3
        for _ in range(n):
            v = rng.randrange(256)
            c = bytes([v, v, v]) if grey else bytes(rng.randrange(256) for _ in range(3))
            pal += c + (bytes([rng.choice([0, 255])]) if entry == 4 else b"")
    else:
        n = 0
        if hs != 12 and rng.random() < .15:            # a palette for displays that need one
            used = rng.choice([1, 16, 256])
            pal = bytes(rng.randrange(256) for _ in range(4 * used))
    masks = b"\0" * 16
    if comp == 3:
        if bpp == 16:
            lay = rng.choice([[(11, 5), (5, 6), (0, 5)], [(10, 5), (5, 5), (0, 5)], [(8, 4), (4, 4), (0, 4)], [(0, 5), (5, 6), (11, 5)],
                              [(0, 8), (8, 8), (15, 1)], [(12, 4), (8, 4), (4, 4)], [(14, 2), (7, 7), (0, 1)]])
        else:
            lay = rng.choice([[(16, 8), (8, 8), (0, 8)], [(24, 8), (16, 8), (8, 8)], [(0, 8), (8, 8), (16, 8)], [(20, 10), (10, 10), (0, 10)],
                              [(22, 10), (12, 10), (2, 10)], [(31, 1), (16, 15), (0, 16)], [(11, 5), (5, 6), (0, 5)], [(3, 7), (10, 3), (25, 6)]])
        masks = b"".join(mask_bytes(*m) for m in lay) + struct.pack("<I", rng.choice([0, 0, 0xff000000 if bpp == 32 else 0x8000]))
        if rng.random() < .1:
            masks = masks[:4] + b"\0\0\0\0" + masks[8:]
    elif hs >= 56 and rng.random() < .3:
        masks = bytes(rng.randrange(256) for _ in range(16))     # not used without bit fields
    gap = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 0, 1, 2, 4, 7])))
    tail = b""
    if hs == 12:
        head = struct.pack("<HHHH", w, h, 1, bpp)
    else:
        head = struct.pack("<iiHHIIiiII", w, -h if down else h, 1, bpp, comp, 0, rng.choice([0, 2835]), 0, used, rng.choice([0, used]))
        if hs == 40:
            if comp == 3:
                tail = masks[:12]
        else:
            head += masks
            head += bytes(rng.choice([0, rng.randrange(256)]) for _ in range(hs - 4 - len(head)))
            head = head[:hs - 4]
    if comp in (1, 2):
        body = bmp_rle(rng, w, h, bpp, n, over)
    else:
        rows = []
        rb = (w * bpp + 31) // 32 * 4
        for _ in range(h):
            if bpp <= 8:
                row = 0
                bits = ""
                for _ in range(w):
                    bits += format(rng.choice([0, n - 1, rng.randrange(n)]), "0%db" % bpp)
                bits += "".join(rng.choice("01") for _ in range(rb * 8 - len(bits)))
                rows.append(int(bits, 2).to_bytes(rb, "big"))
            else:
                rows.append(bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(rb)))
        body = b"".join(rows)
    off = 14 + hs + len(tail) + len(pal) + len(gap)
    data = struct.pack("<I", hs) + head + tail + pal + gap + body
    return b"BM" + struct.pack("<IHHI", 14 + len(data), rng.choice([0, 7]), 0, off) + data + (b"" if rng.random() < .8 else b"tail bytes")


def bmp_rle(rng, w, h, bpp, n, over=0):
    """over: how often a run or a move goes past the end of its row or of the picture"""
    out = b""
    y = x = 0

    def v():
        return rng.choice([0, n - 1, rng.randrange(n)])
    while y < h:
        left = w - x
        if rng.random() < over:
            left = max(left, 0) + rng.choice([1, 1, 2, 3, 8, 255])
        k = rng.random()
        if left > 0 and k < .4:
            m = min(left, 255) if over and rng.random() < .7 else rng.randrange(1, min(left, 255) + 1)
            out += bytes([m, v() if bpp == 8 else v() * 16 + v()])
            x += m
        elif left >= 3 and k < .75:
            m = min(left, 255) if over and rng.random() < .7 else rng.randrange(3, min(left, 255) + 1)
            q = [v() for _ in range(m)]
            if bpp == 4:
                if m % 2:
                    q.append(rng.randrange(16))
                q = [q[i] * 16 + q[i + 1] for i in range(0, len(q), 2)]
            if len(q) % 2:
                q.append(rng.randrange(256))
            out += bytes([0, m] + q)
            x += m
        elif k < .85:
            dx, dy = rng.randrange(0, min(max(left, 0), 255) + 1), rng.randrange(0, min(3, h - y))
            if rng.random() < over:
                dy = rng.choice([h - y, h - y + 1, 255])
            out += bytes([0, 2, dx, dy])
            x += dx
            y += dy
        elif k < .97:
            out += b"\0\0"
            y += 1
            x = 0
        else:
            break
    return out + (b"" if rng.random() < over else b"\0\1")


# ------------------------------------------------------------------ TGA
def tga(rng, kind=None, rle=None, size=None, over=0):
    kind = kind or rng.choice([1, 2, 3])
    rle = rng.random() < .6 if rle is None else rle
    w, h = size or rng.choice([(1, 1), (2, 3), (3, 2), (4, 4), (5, 3), (7, 2), (8, 3), (1, 9), (16, 9), (17, 5), (40, 12)])
    ident = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 5, 255])))
    first = n = mb = 0
    cmap = b""
    bpp = {1: 8, 2: rng.choice([24, 32]), 3: rng.choice([8, 8, 16])}[kind]
    if kind == 1:
        mb = rng.choice([24, 32])
        n = rng.choice([1, 2, 16, 100, 256])
        first = rng.choice([0, 0, 1, 100, 256 - n]) if n < 256 else 0
        first = min(first, 256 - n)
        cmap = bytes(rng.randrange(256) for _ in range(n * mb // 8))
    alpha = 8 if (kind, bpp) in ((2, 32), (3, 16)) else 0
    unit = bpp // 8
    pool = [bytes([first + rng.randrange(n)]) if kind == 1 else bytes(rng.randrange(256) for _ in range(unit)) for _ in range(rng.choice([1, 2, 5, 30]))]

    def pix():
        return rng.choice(pool)
    px = [pix() for _ in range(w * h)]
    if rle:
        body, k = b"", 0
        while k < w * h:
            m = min(rng.choice([1, 2, 3, 10, 128, rng.randrange(1, 129)]), w * h - k)
            if rng.random() < over:
                m = min(128, rng.choice([w + 1, w * h - k + 1, w * h - k + 5, 128]))
            if rng.random() < .5:
                body += bytes([127 + m]) + px[k]
            else:
                body += bytes([m - 1]) + b"".join((px + px[:1] * 128)[k:k + m])
            k += m
    else:
        body = b"".join(px)
    head = bytes([len(ident), 1 if kind == 1 else 0, kind + (8 if rle else 0)]) + struct.pack("<HHB", first, n, mb) + \
        struct.pack("<HHHHBB", rng.choice([0, 0, 3]), rng.choice([0, 9]), w, h, bpp, rng.choice([0, 16, 32, 48]) + alpha)
    foot = rng.choice([b"", b"", struct.pack("<II", 0, 0) + b"TRUEVISION-XFILE.\0",
                       bytes(495) + struct.pack("<II", 18, 0) + b"TRUEVISION-XFILE.\0"])
    return head + ident + cmap + body + foot


# ------------------------------------------------------------------ PNG
ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def png_pack(rng, w, h, depth, ct, il, raw, stored=None, plte=None):
    if rng.random() < .5 if stored is None else stored:
        z = b"\x78\x01"
        k = 0
        while True:
            m = min(len(raw) - k, rng.choice([7, 50, 65535]))
            last = k + m >= len(raw)
            z += struct.pack("<BHH", 1 if last else 0, m, m ^ 0xffff) + raw[k:k + m]
            k += m
            if last:
                break
        z += struct.pack(">I", zlib.adler32(raw))
        given = b""
    else:
        z = zlib.compress(raw, rng.choice([1, 6, 9]))
        given = raw
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ct, 0, 0, il))
    if rng.random() < .2:
        out += chunk(b"gAMA", struct.pack(">I", 45455))
    if plte is not None:
        out += chunk(b"PLTE", plte)
    if rng.random() < .3 and ct in (0, 2, 3):
        if ct == 3:
            out += chunk(b"tRNS", bytes(rng.randrange(256) for _ in range(rng.randrange(1, len(plte) // 3 + 1))))
        else:
            out += chunk(b"tRNS", b"".join(struct.pack(">H", rng.choice([0, (1 << depth) - 1])) for _ in range(1 if ct == 0 else 3)))
    if rng.random() < .2:
        out += chunk(b"bKGD", b"\0" if ct == 3 else struct.pack(">H", 1) * (1 if ct in (0, 4) else 3))
    if rng.random() < .2:
        out += chunk(b"tEXt", b"Comment\0IDAT")
    k = 0
    while k < len(z):
        m = rng.choice([1, 5, 40, len(z)])
        out += chunk(b"IDAT", z[k:k + m])
        k += m
    return out + chunk(b"IEND", b""), given


def png(rng, ct=None, depth=None, size=None):
    ct = rng.choice([0, 2, 3, 4, 6]) if ct is None else ct
    depth = depth or rng.choice({0: [1, 2, 4, 8, 16], 3: [1, 2, 4, 8], 2: [8, 16], 4: [8, 16], 6: [8, 16]}[ct])
    w, h = size or rng.choice([(1, 1), (2, 3), (3, 2), (4, 4), (5, 3), (7, 2), (8, 8), (9, 9), (17, 5), (6, 13)])
    il = 1 if rng.random() < .4 else 0
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    plte = None
    n = 256
    if ct == 3:
        n = rng.randrange(1, (1 << depth) + 1)
        plte = bytes(rng.randrange(256) for _ in range(3 * n))
    elif ct in (2, 6) and rng.random() < .1:
        plte = bytes(rng.randrange(256) for _ in range(12))
    step = max(1, depth * ch // 8)
    raw = b""
    for x0, y0, dx, dy in (ADAM7 if il else [(0, 0, 1, 1)]):
        pw, ph = max(0, -(-(w - x0) // dx)), max(0, -(-(h - y0) // dy))
        if pw == 0 or ph == 0:
            continue
        rl = (pw * depth * ch + 7) // 8
        prev = bytes(rl)
        for _ in range(ph):
            if ct == 3:
                bits = "".join(format(rng.randrange(n), "0%db" % depth) for _ in range(pw)).ljust(rl * 8, "0")
                row = int(bits, 2).to_bytes(rl, "big")
            elif rng.random() < .3:
                row = prev
            else:
                row = bytes(rng.choice([0, 255, 128, rng.randrange(256)]) for _ in range(rl))
            f = rng.randrange(5)
            fr = bytearray()
            for k in range(rl):
                a = row[k - step] if k >= step else 0
                b = prev[k]
                c = prev[k - step] if k >= step else 0
                p = a + b - c
                pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                pae = a if pa <= pb and pa <= pc else b if pb <= pc else c
                fr.append((row[k] - [0, a, b, (a + b) // 2, pae][f]) & 255)
            raw += bytes([f]) + bytes(fr)
            prev = row
    return png_pack(rng, w, h, depth, ct, il, raw, plte=plte)


# ------------------------------------------------------------------- GF
def be4(v):
    return struct.pack(">i", v)


def gf_program(rng, w, h):
    """commands painting something inside a box of w columns and h rows"""
    out, col, row, black = b"", 0, h - 1, False

    def count(k, ops):
        form = rng.random()
        if k <= 63 and form < .8 and ops == 64:
            return bytes([k])
        if form < .9 and k < 256:
            return bytes([ops, k])
        if form < .95 and k < 65536:
            return bytes([ops + 1]) + struct.pack(">H", k)
        return bytes([ops + 2]) + struct.pack(">I", k)[1:]
    for _ in range(rng.choice([0, 1, 3, 10, 30])):
        k = rng.random()
        if k < .6:
            m = rng.randrange(0, w - col + 1)
            out += count(m, 64)
            col += m
            black = not black
        elif k < .7 and row > 0:
            m = rng.randrange(0, row)
            out += b"\x46" if m == 0 and rng.random() < .7 else count(m, 71) if m < 256 or True else b""
            row -= m + 1
            col, black = 0, False
        elif k < .9 and row > 0:
            m = rng.randrange(0, min(w, 164) + 1)
            out += bytes([74 + m])
            col, black, row = m, True, row - 1
        elif k < .95:
            out += b"\xf4"
        else:
            out += gf_special(rng)
    return out


def gf_special(rng):
    t = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5])))
    return rng.choice([b"\xef" + bytes([len(t)]) + t, b"\xf0" + struct.pack(">H", len(t)) + t, b"\xf1" + struct.pack(">I", len(t))[1:] + t,
                       b"\xf2" + struct.pack(">I", len(t)) + t, b"\xf3" + bytes(rng.randrange(256) for _ in range(4))])


def gf(rng):
    """a font; returns the bytes and the codes in it"""
    pre = bytes([247, 131]) + (lambda t: bytes([len(t)]) + t)(bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 20]))))
    codes = sorted(rng.sample(range(256), rng.choice([1, 1, 2, 4])))
    rng.shuffle(codes)
    locs = []
    for c in codes:
        at = len(pre)
        w, h = rng.choice([(1, 1), (3, 2), (5, 5), (9, 4), (70, 3), (2, 12), (300, 2)])
        body = gf_program(rng, w, h)
        if rng.random() < .2:
            pre += gf_special(rng)
        if rng.random() < .5 and w < 256 and h < 256:
            maxc, maxr = rng.randrange(w // 2, min(255, w + 20)), rng.randrange(0, 255)
            pre += bytes([68, c, w, maxc, h - 1, maxr])
        else:
            minc, minr = rng.choice([0, -3, -1000, 7]), rng.choice([0, -1, -300, 5])
            pre += bytes([67]) + be4(c) + be4(-1) + be4(minc) + be4(minc + w) + be4(minr) + be4(minr + h - 1)
        pre += body + b"\x45"
        locs.append((c, at))
    absent = [c for c in range(1, 256) if c not in codes]
    if rng.random() < .3:
        a = rng.choice(absent)
        locs.append((a, -1))
    if rng.random() < .3:
        pre += gf_special(rng)
    post = bytes([248]) + be4(0) + be4(10 << 20) + be4(0) + be4(1 << 16) * 2 + be4(0) + be4(50) + be4(-5) + be4(30)
    for c, p in locs:
        if rng.random() < .5:
            post += bytes([246, c, rng.randrange(100)]) + be4(0) + be4(p)
        else:
            post += bytes([245, c]) + be4(rng.choice([5 << 16, -3 << 16])) + be4(0) + be4(0) + be4(p)
    q = len(pre)
    return pre + post + bytes([249]) + be4(q) + bytes([131]) + b"\xdf" * rng.choice([4, 5, 7]), codes, rng.choice(absent)


def valid(rng, fmt):
    """one well-formed file as (fmt, bytes, code, raw)"""
    if fmt == "png":
        d, raw = png(rng)
        return fmt, d, 0, raw
    if fmt == "gf":
        d, codes, _ = gf(rng)
        return fmt, d, rng.choice([0] + [c for c in codes if c]), b""
    if fmt in ("pnm", "pbm", "pgm", "ppm"):
        return fmt, pnm(rng), 0, b""
    return fmt, dict(bmp=bmp, tga=tga)[fmt](rng), 0, b""


# ------------------------------------------------------------ damaged files
def header_length(fmt, d):
    return dict(pnm=40, bmp=150, tga=18, png=70, gf=120)[fmt]


def damage(rng, d):
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 2, 4, 20])):
        k = rng.random()
        i = rng.randrange(len(d)) if d else 0
        if k < .55 and d:
            d[i] = rng.choice([0, 255, 128, rng.randrange(256), d[i] ^ (1 << rng.randrange(8))])
        elif k < .65:
            d[i:i + rng.choice([1, 4, 40])] = b""
        elif k < .75:
            d[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 9])))
        elif k < .85 and d:
            j = rng.randrange(len(d))
            m = rng.choice([1, 4, 16])
            d[i:i + m] = d[j:j + m]
        elif k < .92:
            d = d[:i]
        else:
            d += bytes(rng.randrange(256) for _ in range(rng.choice([1, 100])))
    return bytes(d)


def area(fmt, d):
    """an upper bound of the number of pixels the header speaks of"""
    try:
        if fmt == "pnm":
            v = [min(int(t), 10 ** 9) for t in re.findall(rb"\d+", re.sub(rb"#[^\n]*\n", b" ", d[2:400]))][:4]
            v += [min(int(t), 10 ** 9) for t in re.findall(rb"\d+", d[2:400])][:4]
            return max([a * b for a in v for b in v] or [0])
        if fmt == "bmp":
            w, h = struct.unpack("<ii", d[18:26])
            a, b = struct.unpack("<HH", d[18:22])
            return max(abs(w * h), a * b)
        if fmt == "tga":
            w, h = struct.unpack("<HH", d[12:16])
            return w * h
        if fmt == "png":
            w, h = struct.unpack(">II", d[16:24])
            return w * h
    except struct.error:
        return 0
    return 0


def any_case(fmt, d, code):
    """nothing that speaks of more pixels than the machine has memory for"""
    return ["any %s %s %d -" % (fmt, d.hex() or "-", code)] if area(fmt, d) < 4000000 else []
