"""C20: DVI pages are rendered as the DVI standard prescribes.

Random valid DVI byte streams (all commands in all argument sizes, nested virtual fonts, real and
synthetic, several pages, all units and magnifications) are read by PyX; the written PostScript
and PDF output is compared glyph by glyph and rule by rule with an independent interpreter.
Truncated and corrupted streams must be refused wherever that interpreter refuses them."""
import os, math, struct, functools
import dvi, geo, pub, harness
from pyx import bbox, color, trafo, unit
from pyx.dvi import dvifile

PROPERTY = "C20"
LEVEL = "differential_monitoring"
RULE = "random DVI programs over all commands and argument sizes, 1-4 pages with random counters, 1-5 fonts (plain, real virtual, synthetic nested virtual), magnification 250-3000, three unit systems, colour/rotation/scaling/marker specials; for a third of the cases additionally truncations (every cut of short streams) and byte corruptions; distinct by byte stream"
QUICK, THOROUGH = 400, 16000
CPU = 300
REQUIRED = {"refused:DVIError": 500, "bbox": 29, "broken-tfm": 60, "broken-vf": 10, "by-counters": 111, "compared-eps": 90, "compared-pdf": 101, "corrupted": 918, "empty-page": 78, "end": 99, "fontdef-between": 139, "glyph": 11654, "level-0": 100, "level-1": 100, "level-2": 100, "marker": 18, "nop-between": 42, "op-128": 318, "op-129": 328, "op-130": 335, "op-131": 320, "op-132": 355, "op-133": 289, "op-134": 307, "op-135": 273, "op-136": 298, "op-137": 359, "op-138": 304, "op-141": 384, "op-142": 710, "op-143": 41, "op-144": 41, "op-145": 139, "op-146": 143, "op-147": 120, "op-148": 11, "op-149": 14, "op-150": 42, "op-151": 44, "op-152": 125, "op-153": 11, "op-154": 12, "op-155": 45, "op-156": 50, "op-157": 39, "op-158": 44, "op-159": 147, "op-160": 137, "op-161": 118, "op-162": 11, "op-163": 15, "op-164": 49, "op-165": 42, "op-166": 123, "op-167": 14, "op-168": 18, "op-169": 48, "op-234": 40, "op-235": 70, "op-236": 97, "op-237": 108, "op-238": 248, "op-239": 20, "op-240": 22, "op-241": 19, "op-242": 24, "op-243": 35, "op-244": 44, "op-245": 63, "op-246": 146, "op-char": 3315, "rule": 389, "synthetic-vf": 104, "truncated": 3565, "vf-long": 196, "vf-short": 203, "wrong-page": 33}
F = 72/72.27
PLAIN = ["cmr10", "cmmi10", "cmsy10", "cmbx12", "cmr7", "cmti10", "cmtt10", "logo10", "cmex10"]
REAL = {"ptmr7t": None, "aer10": None, "phvr8t": None, "zptmcm7t": None, "aebx12": None, "ptmro8t": None}
REEN = {"ptmr8r", "phvr8r", "ptmro8r"}


def fixw(x): return int(round(x*2**20)).to_bytes(4, "big", signed=True)


def maketfm(widths, design=10.0, checksum=0):
    "-> TFM file with the given widths {code: (width, height, depth)}"
    bc, ec = min(widths), max(widths)
    W = [0]+sorted({w for w, h, d in widths.values()}); H = [0]+sorted({h for w, h, d in widths.values()})[:15]; D = [0]+sorted({d for w, h, d in widths.values()})[:15]
    near = lambda L, x: min(range(len(L)), key=lambda i: abs(L[i]-x))
    ci = b""
    for c in range(bc, ec+1):
        if c in widths:
            w, h, d = widths[c]
            ci += bytes([1+W[1:].index(w), near(H, h) << 4 | near(D, d), 0, 0])
        else: ci += bytes(4)
    lh = 2
    n = [6+lh+(ec-bc+1)+len(W)+len(H)+len(D)+1+7, lh, bc, ec, len(W), len(H), len(D), 1, 0, 0, 0, 7]
    return struct.pack(">12H", *n)+struct.pack(">I", checksum)+fixw(design)+ci+b"".join(map(fixw, W))+b"".join(map(fixw, H))+b"".join(map(fixw, D))+fixw(0)+bytes(28)


class World:
    "the fonts of one case; files are created in the current directory"
    def __init__(self): self.t, self.v = {}, {}
    def tfm(self, n): return self.t.get(n) or dvi.tfm(n)
    def vf(self, n): return self.v[n] if n in self.v else None if n in self.t else dvi.vf(n)
    def codes(self, n):
        t = self.tfm(n); v = self.vf(n)
        key = [c for c in range(t.bc, t.ec+1) if t.has(c)]
        if n in self.v: return [c for c in key if c in v.chars]
        if v is not None: return [c for c in key if c in v.chars and goodchar(v, c)]
        if n in REEN: return [c for c in key if 33 <= c < 126 and c not in (39, 96)]
        return [c for c in key]


def goodchar(v, c):
    "virtual characters without specials (ligature tricks, warnings) and missing glyphs"
    font = v.first
    b = dvi.Buf(v.chars[c])
    ok = [True]
    class W(dvi.DVI):
        def __init__(self): self.vfs, self.getvf, self.gettfm, self.conv, self.tpt = True, dvi.vf, dvi.tfm, 1, 1; self.page = dvi.Page([])
    w = W()
    try: w.run(b, v.fonts, v.fonts.get(v.first), [0]*6, 1, 0, False)
    except dvi.Bad: return False
    return not w.page.specials and all(q.code > 32 and (q.font not in REEN or 33 <= q.code < 126 and q.code not in (39, 96)) for q in w.page.chars)


@functools.lru_cache(None)
def realcodes(n): return World().codes(n)


class Gen:
    def __init__(self, rng, mon, world): self.rng, self.mon, self.w = rng, mon, world

    def arg(self, x, signed=True, lo=1, hi=4):
        "-> byte count, bytes"
        n = lo
        while n < hi and not (-(1 << 8*n-1) <= x < 1 << 8*n-1 if signed else 0 <= x < 1 << 8*n): n += 1
        n = self.rng.randint(n, hi)
        return n, x.to_bytes(n, "big", signed=signed)

    def cmd(self, base, x, signed=True):
        n, b = self.arg(x, signed)
        self.mon.count("op-%d" % (base+n-1))
        return bytes([base+n-1])+b

    def one(self, c): self.mon.count("op-%d" % c if c > 127 else "op-char"); return bytes([c])

    def dist(self, u):
        r = self.rng
        q = r.random()
        if q < 0.2: return r.randint(-3, 3)
        if q < 0.4: return r.randint(-128, 127)
        if q < 0.5: return r.choice([127, 128, -128, -129, 32767, 32768, -32768, -32769, 8388607, -8388608])//max(1, int(65536/u))
        return int(r.uniform(-40, 60)*u)

    def char(self, codes):
        r = self.rng
        c = r.choice(codes)
        if r.random() < 0.2: return self.cmd(133, c, False) if c < 2**31 else b""
        if c < 128 and r.random() < 0.85: return self.one(c)
        return self.cmd(128, c, False)

    def fontdef(self, k, name, size, u):
        "size in TeX points; u: dvi units per TeX point"
        t = self.w.tfm(name)
        n, b = self.arg(k, k < 0, 4 if k < 0 else 1)
        self.mon.count("op-%d" % (242+n))
        nm = name.encode()
        cs = t.checksum if self.rng.random() < 0.7 else 0
        return bytes([242+n])+b+struct.pack(">III", cs, int(round(size*u)), int(round(t.design*u)))+bytes([0, len(nm)])+nm

    def usefont(self, k):
        if 0 <= k < 64 and self.rng.random() < 0.6: return self.one(171+k)
        n, b = self.arg(k, k < 0, 4 if k < 0 else 1)
        self.mon.count("op-%d" % (234+n))
        return bytes([234+n])+b

    def body(self, fonts, u, n, usefirst=None, special=None, defs=None):
        """fonts: {number: codes}; commands leaving the stack balanced; u: units per point"""
        r, out, depth, cur = self.rng, [], 0, [usefirst]
        groups = [[]]
        for _ in range(n):
            q = r.random()
            if q < 0.38 and cur[-1] is not None:
                for _ in range(r.choice([1, 1, 2, 4, 7])): out.append(self.char(fonts[cur[-1]]))
            elif q < 0.48 and fonts:
                k = r.choice(list(fonts)); cur[-1] = k
                out.append(self.usefont(k))
            elif q < 0.54: out.append(self.one(r.choice([132, 137]))+struct.pack(">ii", r.choice([0, -5, int(r.uniform(0.1, 20)*u), int(r.uniform(0.1, 20)*u), int(u)]), r.choice([0, int(r.uniform(0.1, 30)*u), int(r.uniform(0.1, 30)*u), -int(u)])))
            elif q < 0.60: out.append(self.cmd(143, self.dist(u)))
            elif q < 0.66: out.append(self.cmd(157, self.dist(u)))
            elif q < 0.74:
                b = r.choice([147, 152]); out.append(self.one(b) if r.random() < 0.5 else self.cmd(b+1, self.dist(u)))
            elif q < 0.82:
                b = r.choice([161, 166]); out.append(self.one(b) if r.random() < 0.5 else self.cmd(b+1, self.dist(u)))
            elif q < 0.88: out.append(self.one(141)); depth += 1
            elif q < 0.93 and depth: out.append(self.one(142)); depth -= 1
            elif q < 0.95: out.append(self.one(138))
            elif q < 0.98 and special is not None: out.append(special(depth))
            elif defs: out.append(defs.pop())
        out += [self.one(142)]*depth
        return b"".join(out)


def special(g):
    "-> function making specials; colour and transformation groups are opened and closed in order"
    r, mon, open_, names = g.rng, g.mon, [], [0]
    def enc(s):
        b = s.encode("utf-8"); n, l = g.arg(len(b), False)
        mon.count("op-%d" % (238+n))
        return bytes([238+n])+l+b
    def make(depth):
        q = r.random()
        if q < 0.3:
            m = r.choice(["gray %.2f" % r.random(), "rgb %.2f %.2f %.2f" % (r.random(), r.random(), r.random()), "cmyk %.2f %.2f %.2f %.2f" % (r.random(), r.random(), r.random(), r.random()), "RGB %d %d %d" % (r.randint(0, 255), r.randint(0, 255), r.randint(0, 255)), "texnamed " + r.choice(["PineGreen", "Red", "Black"]), "pyxcolor cmyk.Blue", "pyxcolor pyx.color.rgb(0.5,0.25,1)", "pyxcolor rgb.green", "pyxcolor gray(0.3)", "hsb %.2f %.2f %.2f" % (r.random(), r.random(), r.random())])
            open_.append("color"); return enc("PyX:color_begin "+m)
        if q < 0.4: open_.append("rotate"); return enc("PyX:rotate_begin %.3f" % r.choice([90, 30, r.uniform(-180, 180)]))
        if q < 0.5: open_.append("scale"); return enc("PyX:scale_begin %.3f %.3f" % (r.choice([1, -1, r.uniform(0.4, 2)]), r.choice([1, r.uniform(0.4, 2)])))
        if q < 0.75 and open_: return enc("PyX:%s_end" % open_.pop())
        if q < 0.85: names[0] += 1; return enc("PyX:marker m%d" % names[0])
        return enc(r.choice(["header=l3backend-dvips.pro", "ps: gsave", "", "papersize=1,2", "pdf: x", "x"*r.choice([3, 300]), "pyx:color_begin rgb 1 0 0", "\u00e4\u00f6"]))
    def close():
        out = b""
        while open_: out += enc("PyX:%s_end" % open_.pop())
        return out
    return make, close


def build(g, w):
    "-> dvi stream"
    r = g.rng
    num, den = r.choice([(25400000, 473628672)]*4+[(25400000, 7200*65536*2), (25400000, 473628672//2)])
    mag = r.choice([1000]*3+[2000, 1095, 1200, 500, 250, 3000])
    tpt = num/den*1e-7/0.0254*72.27
    u = 1/tpt
    comment = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 5, 255])))
    out = [b"\xf7\x02"+struct.pack(">III", num, den, mag)+bytes([len(comment)])+comment]
    fonts, defs, numbers = {}, [], [0, 1, 5, 63, 64, 200, 255, 256, 70000, 2**24, -1, -7, 2**31-1]
    names = names_of(g, w)
    for k in r.sample(numbers, r.choice([1, 2, 3, 4, 5])):
        n = r.choice([x for x in names if x in w.t or realcodes(x)])
        codes = w.codes(n) if n in w.t else realcodes(n)
        t = w.tfm(n)
        size = r.choice([t.design, t.design, t.design*1.2, r.uniform(4, 30), r.uniform(100, 700) if n in PLAIN else 17])
        defs.append((k, g.fontdef(k, n, size, u), codes))
    pages, prev = [], -1
    pos = len(out[0])
    have = {}
    npages = r.choice([1, 1, 2, 3, 4])
    for p in range(npages):
        while r.random() < 0.15: out.append(b"\x8a"); g.mon.count("nop-between")
        k = r.randint(0, len(defs)) if p+1 < npages or r.random() < 0.5 else len(defs)
        inner = []
        for kk, b, codes in defs[:k]:
            if r.random() < 0.6: out.append(b); g.mon.count("fontdef-between")
            else: inner.append(b)
            have[kk] = codes
        defs = defs[k:]
        counts = [r.choice([p+1, r.randint(0, 9), r.randint(-5, 5), 2**31-1, -2**31]) if r.random() < 0.5 else 0 for _ in range(10)]
        pages.append(counts)
        start = sum(map(len, out))
        out.append(b"\x8b"+struct.pack(">10i", *counts)+struct.pack(">i", prev)); prev = start
        make, close = special(g)
        out += inner
        use = r.random() < 0.4
        out.append(g.body(have, u, r.choice([0, 3, 10, 30, 60]), None, make if use else None))
        if use: out.append(close())
        out.append(b"\x8c")
    post = sum(map(len, out))
    out.append(b"\xf8"+struct.pack(">iIIIIIHH", prev, num, den, mag, 0, 0, 10, npages))
    out.append(b"\xf9"+struct.pack(">i", post)+b"\x02"+b"\xdf"*(4+r.randint(0, 3)))
    return b"".join(out), pages, mag


def names_of(g, w):
    r = g.rng
    names = r.sample(PLAIN, 3)
    if r.random() < 0.35: names += r.sample([n for n in REAL if dvi.kpse(n+".vf")], 2)
    if r.random() < 0.6:
        for j in range(r.choice([1, 1, 2, 3])): names.append(makevf(g, w, "pyxvf%d" % j, names)); names.append(names[-1])
    return names


def makevf(g, w, name, below):
    "a random virtual font using the fonts below"
    r = g.rng
    codes = r.sample(range(33, 255), r.choice([1, 3, 8]))
    ws = [round(r.uniform(0.2, 1.2), 4) for _ in range(4)]+[-0.25]
    widths = {c: (r.choice(ws), round(r.uniform(0, 1), 3), round(r.uniform(0, 0.3), 3)) for c in codes}
    design = r.choice([10.0, 10.0, 12.0, 7.5])
    t = maketfm(widths, design)
    fonts, out = {}, [b"\xf7\xca"+bytes([3])+b"abc"+struct.pack(">I", 0)+fixw(design)]
    first = None
    for k in r.sample([0, 1, 2, 7, 63, 100, 300], r.choice([1, 2, 3])):
        n = r.choice([x for x in below if x in w.t or realcodes(x)]); tt = w.tfm(n)
        s = r.choice([1.0, 1.0, 0.8, 1.25, r.uniform(0.5, 2)])
        nb, b = g.arg(k, False)
        out.append(bytes([242+nb])+b+struct.pack(">I", tt.checksum if r.random() < 0.7 else 0)+fixw(s)+fixw(tt.design)+bytes([0, len(n)])+n.encode())
        fonts[k] = w.codes(n) if n in w.t else realcodes(n)
        if first is None: first = k
    for c in codes:
        body = b"" if r.random() < 0.1 else g.body(fonts, 2**20/10, r.choice([1, 3, 8]), first if r.random() < 0.8 else None)
        wd = int(round(widths[c][0]*2**20))
        if len(body) < 242 and wd >= 0 and r.random() < 0.6: out.append(bytes([len(body), c])+wd.to_bytes(3, "big")+body); g.mon.count("vf-short")
        else: out.append(b"\xf2"+struct.pack(">IIi", len(body), c, wd)+body); g.mon.count("vf-long")
    out.append(b"\xf8"*r.randint(1, 4))
    v = b"".join(out)
    with open(name+".tfm", "wb") as f: f.write(t)
    with open(name+".vf", "wb") as f: f.write(v)
    w.t[name], w.v[name] = dvi.TFM(t), dvi.VF(v)
    g.mon.count("synthetic-vf")
    return name


# --- expectations

@functools.lru_cache(None)
def psname(name):
    "(PostScript name, slant)"
    with open(dvi.kpse("psfonts.map"), errors="replace") as f:
        for l in f:
            if l.startswith(name+" "):
                p = l.split()
                q = l.split('"')
                sl = 0.0
                if len(q) > 1 and "SlantFont" in q[1]: sl = float(q[1].split()[q[1].split().index("SlantFont")-1])
                return p[1], sl
    raise dvi.Bad("no map entry for "+name)


def colorof(args):
    m = args[0]; x = args[1:]
    if m == "gray": return color.gray(float(x[0]))
    if m == "rgb": return color.rgb(*map(float, x))
    if m == "cmyk": return color.cmyk(*map(float, x))
    if m == "hsb": return color.hsb(*map(float, x))
    if m == "RGB": return color.rgb(*(int(v)/255 for v in x))
    if m == "texnamed": return getattr(color.cmyk, x[0])
    return {"cmyk.Blue": color.cmyk.Blue, "pyx.color.rgb(0.5,0.25,1)": color.rgb(0.5, 0.25, 1), "rgb.green": color.rgb.green, "gray(0.3)": color.gray(0.3)}[" ".join(x)]


def resolve(page):
    """-> items (kind, data, matrix, colour), markers"""
    M, C, stack, out, marks = geo.IDENT, None, [], [], {}
    for it in page.items:
        if isinstance(it, dvi.Char): out.append(("char", it, M, C))
        elif it[0] == "rule": out.append(("rule", it[1:], M, C))
        else:
            s, x, y = it[1:]
            if not s.startswith("PyX:"): continue
            a = s[4:].split()
            if a[0].endswith("_begin"):
                stack.append((M, C))
                if a[0] == "color_begin": C = colorof(a[1:])
                elif a[0] == "rotate_begin":
                    w = math.radians(float(a[1])); c, s_ = math.cos(w), math.sin(w)
                    M = geo.mul((c, s_, -s_, c, x-c*x+s_*y, y-s_*x-c*y), M)
                else:
                    p, q = float(a[1]), float(a[2])
                    M = geo.mul((p, 0, 0, q, x-p*x, y-q*y), M)
            elif a[0].endswith("_end"):
                M, C = stack.pop()
            elif a[0] == "marker": marks[a[1]] = geo.ap(M, (x, y))
    return out, marks


def rgb(c): r = c.rgb(); return r.r, r.g, r.b


def samecolor(ev, c):
    if ev is None: return False
    k, v = ev[0], tuple(ev[1])
    if k in ("gray", "grey"): got = color.gray(*v)
    elif k == "rgb": got = color.rgb(*v)
    elif k == "hsb": got = color.hsb(*v)
    else: got = color.cmyk(*v)
    return all(abs(a-b) < 0.012 for a, b in zip(rgb(got), rgb(c)))


def norm(m): return max(1e-3, math.hypot(m[0], m[1]), math.hypot(m[2], m[3]))


def box(item, w, D):
    kind, q, M, C = item
    if kind == "rule": x, y, a, b = q; return [x, y, x+a, y+b]
    t = w.tfm(q.font); s = q.size*F*D.mag/1000
    return [q.x, q.y-t.depth(q.code)*s, q.x+t.width(q.code)*s, q.y+t.height(q.code)*s]


def compare(mon, fmt, evs, page, D, w, outer, single, tol):
    items, marks = resolve(page)
    mg = D.mag/1000
    evs = list(evs)
    desc = lambda it: "%s %r" % (it[0], it[1])
    k, recoded, back = 0, {}, {}
    while k < len(items):
        mon.check(evs, "missing", lambda: "%s: output ends before item %d of %d: %s" % (fmt, k, len(items), desc(items[k])))
        ev = evs.pop(0)
        kind, q, M, C = items[k]
        m = geo.mul(M, outer)
        N = norm(m)
        want = C if C is not None else color.gray.black
        mon.check(samecolor(ev.color, want), "color", lambda: "%s: %s painted with %r, expected %r" % (fmt, desc(items[k]), ev.color, want))
        if kind == "char":
            mon.check(ev.op == "text", "order", lambda: "%s: %r instead of %s" % (fmt, ev, desc(items[k])))
            if single: mon.check(len(ev.codes) == 1, "singlechar", lambda: "%s: %s at once in singlecharmode" % (fmt, ev.codes))
            name, sl = psname(q.font)
            at = ev.at if "at" in ev.__dict__ else ev.tm[4:6]
            A = ev.tm if "tm" in ev.__dict__ else ev.ctm
            mon.ptclose(at, geo.ap(m, (q.x, q.y)), tol*N, "position", lambda: "%s: item %d, %s" % (fmt, k, desc(items[k])))
            size = q.size*F*mg
            m2 = geo.mul((1, 0, sl, 1, 0, 0), m) if sl and fmt == "pdf" else m
            for j in range(4): mon.close(A[j]*ev.size, m2[j]*size, 2e-3*size*N+1e-3, "glyph-matrix", lambda: "%s: %s: matrix %s x %g, expected %s x %g" % (fmt, desc(items[k]), A, ev.size, m2, size))
            mon.check(k+len(ev.codes) <= len(items), "extra", lambda: "%s: text %s" % (fmt, ev.codes))
            for c in ev.codes:
                mon.check(items[k][0] == "char", "glyphs", lambda: "%s: text continues over a %s" % (fmt, desc(items[k])))
                g = items[k][1]
                f = ev.font.split("+")[-1].upper()
                if g.font in REEN:
                    # reencoded fonts: the codes of the output are a matter of PyX, but need to be different for different characters
                    ok = f.startswith(psname(g.font)[0].upper()) and recoded.setdefault((f, g.code), c) == c and back.setdefault((f, c), g.code) == g.code
                else: ok = g.code == c and f == psname(g.font)[0].upper()
                mon.check(ok and abs(g.size-q.size) < 1e-3*q.size and items[k][2] == M, "glyphs", lambda: "%s: glyph %s/%d, expected %r (item %d)" % (fmt, ev.font, c, g, k))
                k += 1; mon.count("glyph"); mon.count("level-%d" % min(g.level, 3))
        else:
            mon.check(ev.op == "fill", "order", lambda: "%s: %r instead of %s" % (fmt, ev, desc(items[k])))
            x, y, a, b = q
            P = [geo.ap(m, p) for p in ((x, y), (x+a, y), (x+a, y+b), (x, y+b))]
            got = [p for s in ev.subs for p in [s.start]+[z.end() for z in s.segs]]
            mon.check(len(ev.subs) == 1 and all(min(math.dist(z, p) for p in P) < tol*N for z in got) and all(min(math.dist(z, p) for z in got) < tol*N for p in P), "rule", lambda: "%s: rule %s drawn as %s, expected %s" % (fmt, q, got, P))
            k += 1; mon.count("rule")
    mon.check(not evs, "extra", lambda: "%s: additional output %r" % (fmt, evs[:3]))
    return items, marks


def inside(fn):
    def f(kind, i, rng, mon):
        d = os.path.join(mon.tmp, "d%d" % rng.randrange(10**9)); os.makedirs(d)
        cwd = os.getcwd(); os.chdir(d)
        try: return fn(kind, i, rng, mon)
        finally:
            os.chdir(cwd)
            import shutil; shutil.rmtree(d, ignore_errors=True)
    return f


def read(name, data):
    with open(name, "wb") as f: f.write(data)
    return dvifile.DVIfile(name)


def tolerance(D, page):
    # widths are rounded to DVI units at every character
    # and coordinates are written with six significant digits
    far = max([abs(z) for q in page.chars for z in (q.x, q.y)]+[abs(z)+abs(e) for x, y, w, h in page.rules for z, e in ((x, w), (y, h))]+[0])
    return 0.004+(len(page.chars)+2)*2*D.conv+2e-5*far


@inside
def run_case(kind, i, rng, mon):
    w = World(); g = Gen(rng, mon, w)
    data, pages, mag = build(g, w)
    D = dvi.DVI(data, getvf=w.vf, gettfm=w.tfm)
    mon.describe(["dvi", data.hex() if len(data) < 1500 else len(data), {n: open(n+".vf", "rb").read().hex() for n in w.v}])
    mon.nontrivial(data)
    if any(len(p.items) > 4000 for p in D.pages): raise harness.Skip
    single = rng.random() < 0.4
    outer = rng.choice([None, None, trafo.scale(0.5)*trafo.translate(1, 2), trafo.rotate(30)])
    d = read("a.dvi", data)
    canv = []
    for k, p in enumerate(D.pages):
        how = rng.random()
        kw = {"singlecharmode": single}
        if outer is not None: kw["attrs"] = [outer]
        if how < 0.5: c = d.readpage(list(p.counts), **kw); mon.count("by-counters")
        else: c = d.readpage(**kw)
        mon.check(c is not None, "page", "page %d of %d is missing" % (k, len(D.pages)))
        canv.append(c)
    mon.check(d.readpage() is None, "page", "a page follows the last one"); mon.count("end")
    for k, (p, c) in enumerate(zip(D.pages, canv)): verify(mon, rng, D, w, p, c, outer, single, k)
    # pages not asked for are refused
    if rng.random() < 0.3:
        d = read("b.dvi", data)
        k = rng.randrange(len(D.pages))
        for j in range(k): d.readpage()
        wrong = list(D.pages[k].counts); z = rng.randrange(10); wrong[z] += rng.choice([1, -1, 256]) if abs(wrong[z]) < 2**30 else -wrong[z]
        refused(mon, lambda: d.readpage(wrong), "wrong-page", "page %s accepted as %s" % (D.pages[k].counts, wrong))
    if rng.random() < 0.3: damage(mon, rng, w, data, D)


def verify(mon, rng, D, w, p, c, outer, single, k):
    items, marks = resolve(p)
    o = geo.IDENT
    if outer is not None:
        a = [outer.apply_pt(*z) for z in ((0, 0), (1, 0), (0, 1))]
        o = (a[1][0]-a[0][0], a[1][1]-a[0][1], a[2][0]-a[0][0], a[2][1]-a[0][1], a[0][0], a[0][1])
    tol = tolerance(D, p)
    # markers and extent
    mon.check(sorted(c.markers) == sorted(marks), "marker", lambda: "markers %s, expected %s" % (sorted(c.markers), sorted(marks)))
    for n in marks:
        x, y = c.markers[n]
        mon.ptclose((unit.topt(x), unit.topt(y)), marks[n], tol*5, "marker", lambda: "marker %s of page %d" % (n, k)); mon.count("marker")
    if all(m == geo.IDENT for _, _, m, _ in items) and items and outer is None:
        B = [box(it, w, D) for it in items]
        B = [min(b[0] for b in B), min(b[1] for b in B), max(b[2] for b in B), max(b[3] for b in B)]
        b = c.bbox()
        # characters of negative width or depth make the extent of a run differ from that of its characters
        if not any(box(it, w, D)[2] < box(it, w, D)[0] for it in items):
            got = [unit.topt(v) for v in (b.left(), b.bottom(), b.right(), b.top())]
            for x, y in zip(got, B): mon.close(x, y, tol+1e-3, "bbox", lambda: "bounding box %s of page %d, expected %s" % (got, k, B))
            mon.count("bbox")
    if not items: mon.count("empty-page"); return
    for fmt in rng.choice([["eps"], ["pdf"], ["eps", "pdf"]]):
        evs = pub.events(c, fmt)[0]
        compare(mon, fmt, evs, p, D, w, o, single, tol); mon.count("compared-"+fmt)


def refused(mon, f, mech, msg):
    try: f()
    except (SystemError, MemoryError, RecursionError) as e: mon.fail(mech+"-crash", "%s: %r" % (msg, e))
    except Exception as e: mon.count("refused:"+type(e).__name__)
    else: mon.fail(mech, msg)
    mon.count(mech)


def prefix(w, data):
    "-> pages of the longest valid beginning, and whether the end was reached"
    class P(dvi.DVI):
        def __init__(self, data):
            self.ok = False
            try: dvi.DVI.__init__(self, data, getvf=w.vf, gettfm=w.tfm); self.ok = True
            except dvi.Bad as e: self.why = str(e)
    p = P(data)
    return getattr(p, "pages", []), p.ok, getattr(p, "why", ""), p


def damage(mon, rng, w, data, D):
    cuts = range(len(data)) if len(data) < 400 else sorted(rng.sample(range(len(data)), 60))
    for n in cuts:
        bad = data[:n]
        pages, ok, why, P = prefix(w, bad)
        if ok: continue
        examine(mon, rng, w, bad, pages, P, "cut at %d of %d" % (n, len(data)), "truncated")
    for _ in range(30):
        bad = bytearray(data)
        for _ in range(rng.choice([1, 1, 1, 3])):
            q = rng.random()
            j = rng.randrange(len(bad))
            if q < 0.6: bad[j] = rng.randrange(256)
            elif q < 0.8: bad[j] ^= 1 << rng.randrange(8)
            elif q < 0.9: del bad[j]
            else: bad.insert(j, rng.randrange(256))
        bad = bytes(bad)
        if bad == data: continue
        pages, ok, why, P = prefix(w, bad)
        examine(mon, rng, w, bad, pages, P, "corrupted stream %s" % (bad.hex() if len(bad) < 3000 else len(bad)), "corrupted")


def examine(mon, rng, w, bad, pages, P, what, mech):
    if len(bad) > 20000: return
    got, end = [], False
    try:
        d = read("c.dvi", bad)
        while len(got) < 20:
            c = d.readpage()
            if c is None: end = True; break
            got.append(c)
    except (SystemError, MemoryError, RecursionError) as e: mon.fail(mech+"-crash", "%s: %r" % (what, e))
    except Exception as e: mon.count("refused:"+type(e).__name__)
    why = getattr(P, "why", "")
    if "stack at end of page" in why: mon.count("lenient"); return
    mon.check(len(got) <= len(pages), mech, lambda: "%s: %d pages delivered, but only %d are valid (%s)" % (what, len(got), len(pages), why))
    if not P.ok: mon.check(not end, mech, lambda: "%s: end of file reported although %s" % (what, why))
    mon.count(mech)


# --- directed cases: broken metrics and virtual fonts, unbalanced groups

DIRECTED = ["tfm", "vf", "groups"]
generated = run_case


@inside
def directed(kind, i, rng, mon):
    w = World(); g = Gen(rng, mon, w)
    if kind == "tfm" or kind == "vf":
        name = makevf(g, w, "pyxvf0", PLAIN)
        codes = w.codes(name)
        c = codes[0]
        data = b"\xf7\x02"+struct.pack(">III", 25400000, 473628672, 1000)+b"\0"+b"\x8b"+bytes(40)+b"\xff"*4+g.fontdef(0, name, 10, 65536)+b"\xab"+bytes([128, c, 128, codes[-1]])+b"\x8c\xf8"
        mon.describe([kind, data.hex()])
        fn = name+"."+kind
        with open(fn, "rb") as f: good = f.read()
        n = len(good)
        if kind == "vf": n = good.rindex(b"\xf8")
        while kind == "vf" and good[n-1:n] == b"\xf8": n -= 1
        if kind == "tfm": n = 24+4*(2+max(codes)-min(codes)+1+sum(struct.unpack(">12H", good[:24])[4:7]))
        for cut in range(n):
            with open(fn, "wb") as f: f.write(good[:cut])
            refused(mon, lambda: read("a.dvi", data).readpage(), "broken-"+kind, "%s file cut at %d of %d was accepted" % (kind, cut, len(good)))
            mon.nontrivial((kind, good, cut))
        with open(fn, "wb") as f: f.write(good)
        D = dvi.DVI(data, getvf=w.vf, gettfm=w.tfm) if 0 else None
        read("a.dvi", data).readpage()
        mon.count("intact-"+kind)
    else:
        for what in ("color_begin rgb 1 0 0", "rotate_begin 30", "scale_begin 2 2"):
            def sp(s): s = s.encode(); return b"\xef"+bytes([len(s)])+s
            head = b"\xf7\x02"+struct.pack(">III", 25400000, 473628672, 1000)+b"\0"+b"\x8b"+bytes(40)+b"\xff"*4+g.fontdef(0, "cmr10", 10, 65536)+b"\xab"
            # a group not closed on the page: all characters are there (or the page is refused)
            data = head+b"AB"+sp("PyX:"+what)+b"CD\x8c\xf8"
            mon.describe([kind, data.hex()])
            try: c = read("a.dvi", data).readpage()
            except Exception: mon.count("group-refused")
            else:
                n = sum(len(e.codes) for e in pub.events(c, "eps")[0])
                mon.check(n == 4, "partial", lambda: "%d of 4 characters remain of a page with an open group %s" % (n, what)); mon.count("group-open")
            data = head+b"AB"+sp("PyX:"+what.split("_")[0]+"_end")+b"CD\x8c\xf8"
            refused(mon, lambda: read("a.dvi", data).readpage(), "group-end", "end of a group %s not begun was accepted" % what)
            mon.nontrivial((kind, data))


def run_case(kind, i, rng, mon):
    return generated(kind, i, rng, mon) if kind == "gen" else directed(kind, i, rng, mon)
