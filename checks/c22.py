"""C22: text set directly in a font is laid out by its metric.

Metric files (all installed AFM and PFM files and synthetic ones over every construct of the
format) are read by independent readers and compared with what PyX declares; random texts (real
and built-in fonts, all options, compositions of the unicode engine) are written as PostScript,
PDF, SVG and outlines, the position of every glyph is recomputed from the written operators and
widths, and compared with the layout the metric demands."""
import os, re, io, math, struct, functools, contextlib
import xml.etree.ElementTree as ET
import t1, geo, pub, outi, dvi, harness, draw
from checks import c21
from pyx import canvas, document, path, trafo, unit, text, color, style
from pyx.font import T1font
from pyx.font.font import T1builtinfont
from pyx.font.t1file import T1File
from pyx.font.afmfile import AFMfile, unicodestring
from pyx.font.pfmfile import PFMfile

PROPERTY = "C22"
LEVEL = "differential_monitoring"
TECHNIQUE = "offline checker over written files: glyph positions recomputed from operators and widths, against a layout by independently read metric files"
RULE = "random strings over the glyphs of ~460 real fonts with AFM, ~200 with PFM and the built-in fonts, with kerning, ligatures, spacing, slant, sizes and transformations, compositions (scale, shift, stacks, fractions, math minus) of the unicode engine, in PS, PDF, SVG text and outlines; random AFM files; distinct by font and glyphs"
QUICK, THOROUGH = 500, 34000
CPU = 200
LIMIT = {"quick": 300, "thorough": 860}
DIRECTED = ["glyphnames", "emptytext", "realafm", "realpfm", "spaces"]
REQUIRED = {"afm-charwidth": 11, "afm-composites": 7, "afm-direction0": 5, "afm-direction1": 3, "afm-file": 16, "afm-glyph": 4727, "afm-kern": 36392, "afm-kerns": 11, "afm-lig": 21, "afm-ligated": 12, "afm-metricssets": 4, "afm-track": 4, "afm-values": 280, "afm-wxwy": 8, "box": 127, "by-code": 11, "empty": 12, "eps-text": 16, "fontdescriptor": 16, "frac": 8, "glyph-eps": 226, "glyph-pdf": 484, "glyph-ps": 500, "glyph-svg": 241, "glyphname": 210, "kerned-eps": 13, "kerned-pdf": 30, "kerned-ps": 35, "kerned-svg": 21, "ligature": 8, "ligature-chain": 3, "minus": 20, "outline-eps": 5, "outline-pdf": 23, "outline-ps": 27, "outline-svg": 32, "own-decoding": 81, "pdf-path": 10, "pdf-text": 32, "pfm-glyph": 2094, "pfm-kern": 1952, "pfm-pdf": 8, "ps-path": 11, "ps-text": 29, "rect-eps": 22, "rect-pdf": 51, "rect-ps": 48, "rect-svg": 27, "spaced-eps": 84, "spaced-pdf": 188, "spaced-ps": 190, "spaced-svg": 85, "spaces": 7, "stack": 23, "svg-path": 12, "svg-text": 15, "textpath": 79, "transformed": 4, "unicode": 65, "unicode-box": 30, "unicode-textpath": 8, "xscale": 14}
SN = "{http://www.w3.org/2000/svg}"
STDFONTS = {"Times-Roman": "ptmr8a", "Times-Bold": "ptmb8a", "Times-Italic": "ptmri8a", "Helvetica": "phvr8a", "Helvetica-Bold": "phvb8a", "Courier": "pcrr8a", "Symbol": "psyr", "ZapfDingbats": "pzdr"}


# ---------------------------------------------------------------- independent readers of metric files
class Metric:
    "what an AFM file declares, as far as text layout needs it"
    def __init__(self, data):
        self.w, self.box, self.lig, self.kern, self.codes = {}, {}, {}, {}, {}
        for l in data.decode("latin1").splitlines():
            if re.match(r"\s*CH? ", l):
                d, ligs = {}, []
                for part in l.split(";"):
                    a = part.split()
                    if not a: continue
                    if a[0] == "L": ligs.append((a[1], a[2]))
                    else: d[a[0]] = a[1:]
                n = d["N"][0]
                f = lambda x: float(x.replace(",", "."))
                self.w[n] = f((d.get("WX") or d.get("W0X") or d.get("W") or d.get("W0"))[0])
                self.box[n] = tuple(map(f, d["B"])) if "B" in d else None
                self.lig[n] = ligs
                if "C" in d: self.codes[n] = int(d["C"][0])
            m = re.match(r"\s*(KPX?)\s+(\S+)\s+(\S+)\s+(\S+)", l)
            if m: self.kern[m.group(2), m.group(3)] = float(m.group(4).replace(",", "."))

    def ligatures(self, names):
        out = []
        for n in names:
            out.append(n)
            # (the ligature is a candidate for the next character, not for the previous one)
            r = [b for a, b in self.lig[out[-2]] if a == out[-1]] if len(out) > 1 else ()
            if r: out[-2:] = [r[0]]
        return out

    def layout(self, names): return self.w, self.kern


class PMetric:
    "what a PFM file declares"
    def __init__(self, data, encoding):
        u = lambda fmt, o: struct.unpack_from("<"+fmt, data, o)
        self.ascent, = u("H", 74)
        self.charset, = u("B", 85)
        self.first, self.last = u("BB", 95)
        ext, extent, _, kern = u("4L", 119)
        if max(ext+52, extent, kern) > len(data): raise t1.Bad("not a PFM file")
        self.descent, = u("h", ext+20)
        self.etmpairs, = u("H", ext+48)
        self.widths = u("%dH" % (self.last-self.first+1), extent)
        if self.charset: self.code = {n: i for i, n in enumerate(encoding) if n}
        else:
            self.code = {}
            for c in list(range(32, 127))+list(range(128, 256)):
                try: ch = bytes([c]).decode("cp1252")
                except (UnicodeDecodeError, t1.Bad): continue
                n = aglname(ch)
                if n and n not in self.code: self.code[n] = c
        self.kern = {}
        self.pairs = []
        if kern:
            k, = u("H", kern)
            for i in range(k):
                a, b, v = u("BBh", kern+2+4*i); self.pairs.append((a, b, v))
        inv = {}
        for n, c in self.code.items(): inv.setdefault(c, []).append(n)
        for a, b, v in self.pairs:
            for x in inv.get(a, ()):
                for y in inv.get(b, ()): self.kern[x, y] = v
        self.w = {n: self.widths[c-self.first] for n, c in self.code.items() if self.first <= c <= self.last}


@functools.lru_cache(None)
def agl():
    out = {}
    for l in open(dvi.kpse("glyphlist.txt")):
        l = l.split("#")[0].strip()
        if not l: continue
        n, u = l.split(";")
        out.setdefault(n, set()).add("".join(chr(int(x, 16)) for x in u.split()))
    return out


@functools.lru_cache(None)
def aglinv():
    out = {}
    for n, us in agl().items():
        for u in us: out.setdefault(u, []).append(n)
    return out


def aglname(ch):
    "the name of a character in the standard glyph complement"
    c = [n for n in aglinv().get(ch, ()) if n in CP]
    return c[0] if c else None


CP = set("""space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at bracketleft backslash bracketright asciicircum underscore grave braceleft bar braceright asciitilde quotesinglbase florin quotedblbase ellipsis dagger daggerdbl circumflex perthousand Scaron guilsinglleft OE quoteleft quoteright quotedblleft quotedblright bullet endash emdash tilde trademark scaron guilsinglright oe Ydieresis exclamdown cent sterling currency yen brokenbar section dieresis copyright ordfeminine guillemotleft logicalnot registered macron degree plusminus acute paragraph periodcentered cedilla ordmasculine guillemotright onequarter onehalf threequarters questiondown Agrave Aacute Acircumflex Atilde Adieresis Aring AE Ccedilla Egrave Eacute Ecircumflex Edieresis Igrave Iacute Icircumflex Idieresis Eth Ntilde Ograve Oacute Ocircumflex Otilde Odieresis multiply Oslash Ugrave Uacute Ucircumflex Udieresis Yacute Thorn germandbls agrave aacute acircumflex atilde adieresis aring ae ccedilla egrave eacute ecircumflex edieresis igrave iacute icircumflex idieresis eth ntilde ograve oacute ocircumflex otilde odieresis divide oslash ugrave uacute ucircumflex udieresis yacute thorn ydieresis""".split()) | {chr(i) for i in range(65, 91)} | {chr(i) for i in range(97, 123)}


@functools.lru_cache(None)
def files():
    "(pfb, afm) and (pfb, pfm)"
    a, p = [], []
    for f in c21.files():
        afm, pfm = f.replace("/type1/", "/afm/")[:-4]+".afm", f[:-4]+".pfm"
        if os.path.exists(afm): a.append((f, afm))
        if os.path.exists(pfm): p.append((f, pfm))
    return a, p


@functools.lru_cache(12)
def loaded(fn):
    data = open(fn, "rb").read()
    return t1.Font(data), data


class F:
    "font of a case"
    def __init__(self, mon, rng, kind, fn=None):
        self.kind = kind
        self.kern = {}
        self.lig = None
        if kind == "std":
            self.name = rng.choice(list(STDFONTS)); self.label = self.name
            raw = open(dvi.kpse(STDFONTS[self.name]+".afm"), "rb").read()
            self.m = Metric(raw); self.metric = readafm(rng, raw)
            self.font = T1builtinfont(self.name, self.metric)
            self.orig = None
            self.w = dict(self.m.w); self.hw = {n: v/1000 for n, v in self.w.items()}
            self.names = [n for n in self.w if n in inverse()]
        else:
            a, p = files()
            if kind == "none": self.fn = fn or rng.choice(c21.files())
            else: self.fn, self.mfn = rng.choice(p if kind == "pfm" else a)
            self.label = os.path.basename(self.fn)
            self.orig, data = loaded(self.fn)
            self.file = T1File.from_PF_bytes(data)
            self.name = self.orig.name
            self.m = self.metric = None
            if kind == "afm":
                raw = open(self.mfn, "rb").read()
                self.m = Metric(raw); self.metric = readafm(rng, raw)
            elif kind == "pfm":
                raw = open(self.mfn, "rb").read()
                self.m = PMetric(raw, self.orig.encoding); self.metric = PFMfile(io.BytesIO(raw), self.file)
            self.font = T1font(self.file, self.metric)
            self.hw = {}
            self.names = []
            k = self.orig.matrix
            for n in self.orig.chars:
                if n == ".notdef": continue
                if self.m is not None and n not in self.m.w: continue
                self.names.append(n)
            self.w = None if self.m is None else self.m.w
        if self.m is not None: self.kern = self.m.kern
        mon.count("font-"+kind)

    def hsbw(self, n):
        if n not in self.hw:
            g = self.orig.glyph(n)
            self.hw[n] = g.wx*self.orig.matrix[0]+g.wy*self.orig.matrix[2]
        return self.hw[n]

    def usable(self, n):
        try: h = self.hsbw(n)
        except t1.Bad: return False
        # font and metric differ by rounding at most (files which contradict each other are no subject)
        return self.w is None or abs(h*1000-self.w[n]) <= 1.01


def readafm(rng, raw):
    return AFMfile(io.StringIO(raw.decode("latin1")))


# ---------------------------------------------------------------- reading what was written
class Mark:
    def __init__(self, **kw): self.__dict__.update(kw)


def ink(subs):
    "does a fill paint anything"
    for s in subs:
        b = geo.bbox([s]) if s.segs else None
        if b is not None and max(b[2]-b[0], b[3]-b[1]) > 1e-9: return True
    return False


def encof(fd):
    e = fd["Encoding"]
    if len(e) > 0 and str(e[0]) == "StandardEncoding" and len(e) != 256: return [x or ".notdef" for x in t1.STANDARD]
    return [str(x) for x in e]


def marks_ps(data, fmt, fonts):
    def base(fontname): return re.sub(r"-slant-?[0-9.]+$", "", re.sub(r"-encoding\d+(?=$|-slant)", "", fontname))
    def advance(fontname, fd, codes):
        f = fonts[base(fontname)]; enc = encof(fd)
        return sum(f.hsbw(enc[c]) for c in codes)
    outi.ADVANCE = advance
    try: pages = pub.read(data, fmt)
    finally: outi.ADVANCE = None
    out = []
    for p in pages:
        l = []
        for e in p.events:
            if e.op == "text":
                b = base(e.font)
                if b not in fonts: raise outi.Malformed("unknown font %s" % e.font)
                f, enc = fonts[b], encof(e.fontdict)
                x, y = e.at
                m = [float(v) for v in e.fontdict["FontMatrix"]] if "FontMatrix" in e.fontdict else None
                for c in e.codes:
                    l.append(Mark(kind="glyph", name=enc[c], at=(x, y), lin=[v*e.size for v in e.ctm[:4]], font=b, color=e.color, fm=m))
                    w = f.hsbw(enc[c])*e.size
                    x += e.ctm[0]*w; y += e.ctm[1]*w
            elif e.op == "fill" and ink(e.subs): l.append(Mark(kind="fill", subs=e.subs, color=e.color))
        out.append(l)
    return out


def marks_pdf(data, fonts):
    pdf, pages = outi.read_pdf(data)
    out = []
    for p in pages:
        l = []
        for e in p.events:
            if e.op == "text":
                fo = e.fontobj; base = str(fo["BaseFont"])
                f = fonts[base]
                if "Encoding" in fo:
                    enc, k = [None]*256, 0
                    for x in pdf.get(pdf.get(fo["Encoding"])["Differences"]):
                        if isinstance(x, int): k = x
                        else: enc[k] = str(x); k += 1
                else: enc = f.orig.encoding
                W = [float(pdf.get(v)) for v in pdf.get(fo["Widths"])]; fc = pdf.get(fo["FirstChar"])
                a, b, c_, d, tx, ty = e.tm
                x = 0.0
                for part in (e.show if isinstance(e.show, list) else [e.show]):
                    if isinstance(part, (bytes, bytearray)):
                        for c in part:
                            l.append(Mark(kind="glyph", name=enc[c], at=(tx+a*x, ty+b*x), lin=[v*e.size for v in (a, b, c_, d)], font=base, color=e.color, fm=None))
                            if not 0 <= c-fc < len(W): raise outi.Malformed("no width for code %d" % c)
                            x += W[c-fc]*e.size/1000
                    else: x -= float(part)*e.size/1000
            elif e.op == "fill" and ink(e.subs): l.append(Mark(kind="fill", subs=e.subs, color=e.color))
        out.append(l)
    return out


def marks_svg(data, fonts):
    root = ET.fromstring(data)
    tables = {}
    for e in root.iter(SN+"font"):
        tables.setdefault(e.find(SN+"font-face").get("font-family"), {}).update({g.get("unicode"): float(g.get("horiz-adv-x")) for g in e.findall(SN+"glyph")})
    rev = {v: k for k, v in unicodestring.items()}
    l = []
    for e in outi.read_svg(data).page.events:
        if e.op == "text":
            el = e.elem
            fam = el.get("font-family"); f = fonts[fam]; size = float(el.get("font-size"))
            a, b, c_, d, tx, ty = e.ctm
            x, y = float(el.get("x")), float(el.get("y"))
            space = el.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve"
            def run(s):
                nonlocal x
                i = 0
                while i < len(s):
                    ch = s[i]; i += 1
                    t = tables.get(fam)
                    if t is not None:
                        if ch not in t: raise outi.Malformed("no glyph for %r in the SVG font %s" % (ch, fam))
                        w = t[ch]
                        name = None
                    else:
                        name = None
                        w = None
                    l.append(Mark(kind="glyph", name=name, char=ch, at=(tx+a*x+c_*y, ty+b*x+d*y), lin=[v*size for v in (a, b, -c_, -d)], font=fam, color=e.color, fm=None, svg=True))
                    if w is None:
                        # font of the viewer: by its name for the character
                        n = unicodestring.get(ch); l[-1].name = n
                        w = f.w[n]
                    x += w*size/1000
            runs = [(0, el.text or "")]
            for t in el:
                if t.tag != SN+"tspan": raise outi.Malformed("unexpected %s" % t.tag)
                if len(t): raise outi.Malformed("nested tspan")
                runs.append((float(t.get("dx") or 0), t.text or "")); runs.append((0, t.tail or ""))
            whole = "".join(s for _, s in runs)
            if not space and (whole != whole.strip(" ") or "  " in whole): raise outi.Malformed("spaces of the text %r collapse without xml:space" % whole[:40])
            if any(ch in "\n\t\r" for ch in whole): raise outi.Malformed("white space in %r" % whole)
            for dx, s in runs:
                x += dx
                run(s)
        elif e.op == "fill" and ink(e.subs): l.append(Mark(kind="fill", subs=e.subs, color=e.color))
    return [l]


# ---------------------------------------------------------------- the layout
class Item:
    "a text (names at x, y) or a filled rectangle, under a matrix"
    def __init__(self, **kw): self.__dict__.update(kw)

    def offsets(self, width):
        x, out = 0.0, []
        for i, n in enumerate(self.names):
            if i: x += self.spaced+(self.F.kern.get((self.names[i-1], n), 0)*self.size/1000 if self.kerning else 0)
            out.append(x)
            x += width(n)*self.size
        return out, x

    def box(self):
        "by the metric"
        _, w = self.offsets(lambda n: self.F.w[n]/1000)
        b = [self.F.m.box[n] for n in self.names]
        return (self.x, self.y+min(v[1] for v in b)*self.size/1000, self.x+w, self.y+max(v[3] for v in b)*self.size/1000)


def tolerance(items):
    return 3e-5*max([1]+[abs(v) for it in items for v in it.M]+[abs(v) for it in items for v in geo.ap(it.M, (it.x+(it.size*len(it.names) if it.kind == 'text' else 0), it.y))]+[it.size/10 for it in items if it.kind == "text"])


def verify(mon, fmt, data, pages, fonts, aspath):
    if fmt == "svg": got = marks_svg(data, fonts)
    elif fmt == "pdf": got = marks_pdf(data, fonts)
    else: got = marks_ps(data, fmt, fonts)
    for g, items in zip(got, pages):
        if g is None: continue
        tol = tolerance(items)
        k = 0
        def nxt(what):
            nonlocal k
            if k >= len(g): mon.fail("missing", "%s is missing in %s" % (what, fmt))
            k += 1; return g[k-1]
        for it in items:
            if it.kind == "rect":
                m = nxt("the rectangle at %g,%g" % (it.x, it.y))
                mon.check(m.kind == "fill", "order", "%s has a %s instead of the line" % (fmt, m.kind))
                P = [geo.ap(it.M, p) for p in ((it.x, it.y), (it.x+it.w, it.y), (it.x+it.w, it.y+it.h), (it.x, it.y+it.h))]
                Q = [p for s in m.subs for p in s.samples(1)] if hasattr(m.subs[0], "samples") else None
                lo = geo.bbox(m.subs); wb = (min(p[0] for p in P), min(p[1] for p in P), max(p[0] for p in P), max(p[1] for p in P))
                mon.check(max(abs(a-b) for a, b in zip(lo, wb)) < tol+1e-3*it.size0*abs(geo.ap(it.M, (1, 0))[0]-it.M[4])+1e-4, "line", lambda: "line over %s instead of %s in %s" % (lo, wb, fmt))
                mon.count("rect-"+fmt)
                color_ok(mon, m, it, fmt)
                continue
            n = len(it.names)
            if aspath and it.F.orig is not None:
                offs, _ = it.offsets(it.F.hsbw)
                want = []
                for o, nm in zip(offs, it.names):
                    k0 = geo.mul(tuple(it.F.orig.matrix), (it.size, 0, it.size*(it.slant or 0), it.size, it.x+o, it.y))
                    want += c21.outline(it.F.orig.glyph(nm), geo.mul(k0, it.M))
                if not ink(want): continue
                m = nxt("the outline of %s" % it.names)
                mon.check(m.kind == "fill", "order", "%s has a %s instead of the outline" % (fmt, m.kind))
                d = geo.subs_match(m.subs, want, tol, "outline of %s in %s" % (" ".join(it.names[:20]), fmt))
                if d: mon.fail("outline", d)
                color_ok(mon, m, it, fmt)
                mon.count("outline-"+fmt)
                continue
            # advance: the widths in the file (font program, or the metric in PDF)
            width = (lambda nm: it.F.w[nm]/1000) if fmt == "pdf" and it.F.w is not None or it.F.orig is None else it.F.hsbw
            offs, _ = it.offsets(width)
            lin = [v*it.size for v in geo.mul((1, 0, it.slant or 0, 1, 0, 0), it.M)[:4]]
            for j, (o, nm) in enumerate(zip(offs, it.names)):
                m = nxt("glyph %s" % nm)
                mon.check(m.kind == "glyph", "order", "%s has a fill instead of glyph %s" % (fmt, nm))
                mon.check(m.font == it.F.name, "font", "%s in font %s instead of %s" % (nm, m.font, it.F.name))
                if m.name is not None: mon.check(m.name == nm, "glyph", "glyph %s instead of %s as number %d of %s in %s" % (m.name, nm, j, it.names[:12], fmt))
                p = geo.ap(it.M, (it.x+o, it.y))
                mon.ptclose(m.at, p, tol*(1+0.05*j)+(0.006e-3*it.size*j*abs(it.M[0]+it.M[1]) if fmt == "pdf" else 0), "place", lambda: "position of glyph %s (number %d of %s, size %g, kerning %s, spaced %g) in %s" % (nm, j, " ".join(it.names[:12]), it.size, it.kerning, it.spaced, fmt))
                wl = lin
                if fmt in ("ps", "eps"):
                    # the slant is in the font matrix
                    wl = [v*it.size for v in it.M[:4]]
                    if it.F.orig is not None: w = c21.slanted(it.F.orig.matrix, it.slant or 0)
                    else: w = c21.slanted([0.001, 0, 0, 0.001, 0, 0], it.slant or 0)
                    if m.fm is not None: mon.check(max(abs(a-b) for a, b in zip(m.fm, w)) < 3e-9, "slant", lambda: "font matrix %s instead of %s" % (m.fm, w))
                mon.check(max(abs(a-b) for a, b in zip(m.lin, wl)) < 2e-5*it.size*max(1, *map(abs, it.M[:4])), "shape", lambda: "matrix of glyph %s in %s is %s instead of %s" % (nm, fmt, m.lin, wl))
                color_ok(mon, m, it, fmt)
                mon.count("glyph-"+fmt)
                if j and it.kerning and it.F.kern.get((it.names[j-1], nm)): mon.count("kerned-"+fmt)
                if j and it.spaced: mon.count("spaced-"+fmt)
        mon.check(k == len(g), "extra", lambda: "%d of %d marks in %s are not part of the text" % (len(g)-k, len(g), fmt))


def color_ok(mon, m, it, fmt):
    if it.color is None: return
    got = draw.rgbof(m.color)
    mon.check(got is not None and max(abs(a-b) for a, b in zip(got, it.color)) < 5e-3, "colour", lambda: "colour %s instead of %s in %s" % (got, it.color, fmt))


# ---------------------------------------------------------------- plain texts
@functools.lru_cache(None)
def inverse():
    out = {}
    for ch, n in unicodestring.items(): out.setdefault(n, []).append(ch)
    return out


def rtrafo(rng):
    "(geo matrix, trafo) or identity"
    if rng.random() < 0.5: return geo.IDENT, None
    a = rng.uniform(0, 360); s = rng.uniform(0.5, 2); r = math.radians(a)
    x, y = rng.uniform(-100, 100), rng.uniform(-100, 100)
    M = (s*math.cos(r), s*math.sin(r), -s*math.sin(r), s*math.cos(r), x, y)
    if rng.random() < 0.3: M = geo.mul((1, 0, rng.uniform(-1, 1), -1 if rng.random() < 0.3 else 1, 0, 0), M)
    return M, trafo.trafo_pt(((M[0], M[2]), (M[1], M[3])), (M[4], M[5]))


def pick(rng, f, k, bycode, ascii_bias=True):
    if bycode: src = [n for n in f.orig.encoding if n in f.orig.chars and n in f.names]
    else: src = f.names
    if not src: return []
    pairs = [p for p in f.kern if p[0] in f.names and p[1] in f.names] if f.kern and not bycode else []
    ligs = [(n, a) for n in f.names for a, b in (f.m.lig[n] if f.kind in ("afm", "std") else ()) if a in f.names and b in f.names]
    out = []
    some = rng.sample(src, min(len(src), 8))
    while len(out) < k:
        r = rng.random()
        if pairs and r < 0.5: out += rng.choice(pairs)
        elif ligs and r < 0.75:
            # ligatures of ligatures are built step by step
            l = rng.choice(ligs); out += l
            res = dict(f.m.lig[l[0]]).get(l[1])
            nxt = [a for a, b in f.m.lig.get(res, ()) if a in f.names]
            if nxt and rng.random() < 0.7: out.append(rng.choice(nxt))
        elif r < 0.9: out.append(rng.choice(some))
        else: out.append(rng.choice(src))
    ok = {n: f.usable(n) for n in set(out)}
    return [n for n in out if ok[n]][:max(k, 1)]


def textcase(rng, mon):
    fonts, pages, items, desc = {}, [], [], []
    svg = rng.random() < 0.35
    for p in range(1 if svg else rng.choice([1, 1, 2])):
        c, li = canvas.canvas(), []
        for _ in range(rng.choice([1, 1, 2, 4])):
            if fonts and rng.random() < 0.4: f = rng.choice(list(fonts.values()))
            else:
                kind = rng.choice(["afm", "afm", "afm", "pfm", "none", "std"])
                try: f = F(mon, rng, kind)
                except (UnicodeDecodeError, t1.Bad): continue
                if f.name in fonts or not f.names: continue
            bycode = f.m is None and rng.random() < 0.4
            names = pick(rng, f, rng.choice([1, 1, 2, 3, 5, 12, 40]), bycode)
            if not names: continue
            kw = {}
            if f.kind == "none": kerning = False
            else: kerning = rng.random() < 0.6
            lig = f.kind in ("afm", "std") and rng.random() < 0.4
            if f.kind in ("afm", "std"):
                if any(f.m.box[n] is None for n in names): continue
            if bycode:
                inv = {}
                for i, n in enumerate(f.orig.encoding): inv.setdefault(n, []).append(i)
                chars = [rng.choice(inv[n]) for n in names]; kw["decoding"] = None
                mon.count("by-code")
            elif all(n in inverse() for n in names) and rng.random() < 0.7:
                chars = "".join(rng.choice(inverse()[n]) for n in names); mon.count("unicode")
            else:
                # own decodings, with several characters of one glyph
                u = sorted(set(names)); table = {}
                for i, n in enumerate(u): table[i] = n; table[chr(0x4e00+i)] = n
                chars = [rng.choice([u.index(n), chr(0x4e00+u.index(n))]) for n in names]
                kw["decoding"] = table; mon.count("own-decoding")
            if kerning or rng.random() < 0.2: kw["kerning"] = kerning
            if lig:
                kw["ligatures"] = True
                new = f.m.ligatures(names)
                if len(new) < len(names): mon.count("ligature")
                if len(new) < len(names)-1: mon.count("ligature-chain")
                if not all(n in f.names and f.usable(n) and f.m.box.get(n) for n in new): continue
                names = new
            size = rng.choice([10, 12, 7.5, 100, 1, rng.uniform(3, 60)])
            spaced = rng.choice([0, 0, 0, 1, -0.5, rng.uniform(-2, 8)])
            if spaced or rng.random() < 0.2: kw["spaced_pt"] = spaced
            slant = rng.choice([None, None, None, 0.25, -0.4, 0])
            if slant is not None: kw["slant"] = slant
            at = (rng.uniform(-200, 200), rng.uniform(-200, 200)) if rng.random() < 0.8 else (0, 0)
            ign = rng.random() < 0.15
            if ign: kw["ignorebbox"] = True
            if rng.random() < 0.5: t = f.font.text_pt(at[0], at[1], chars, size, **kw)
            else: t = f.font.text(at[0]*unit.t_pt, at[1]*unit.t_pt, chars, size, **kw)
            M, T = rtrafo(rng)
            fonts[f.name] = f
            it = Item(kind="text", F=f, names=names, x=at[0], y=at[1], size=size, spaced=spaced, kerning=kerning, slant=slant, M=M, color=None)
            desc.append("%s %s%s %r size %g kern %s spaced %g slant %s at %g,%g" % (f.label, "codes " if bycode else "", " ".join(names)[:100], kw.keys(), size, kerning, spaced, slant, at[0], at[1]))
            # the box
            if f.m is None: box = [v for v in t.bbox().highrestuple_pt()] if t.bbox() else None
            else:
                b = t.bbox()
                got = b.highrestuple_pt()
                if f.kind == "pfm":
                    _, w = it.offsets(lambda n: f.w[n]/1000)
                    want = (at[0], at[1]-f.m.descent*size/1000, at[0]+w, at[1]+f.m.ascent*size/1000)
                else: want = it.box()
                mon.check(max(abs(a-b) for a, b in zip(got, want)) < 1e-6*(1+abs(want[2])+abs(want[3])), "bbox", lambda: "bbox %s instead of %s of %s" % (got, want, desc[-1]))
                mon.count("box")
            # the outline
            if f.orig is not None and rng.random() < 0.6:
                offs, _ = it.offsets(f.hsbw); want = []
                for o, n in zip(offs, names): want += c21.outline(f.orig.glyph(n), geo.mul(tuple(f.orig.matrix), (size, 0, size*(slant or 0), size, at[0]+o, at[1])))
                d = geo.subs_match(c21.fillsubs(t.textpath()), want, 3e-5*max(1, size/10, abs(at[0])/10), "text path of "+desc[-1])
                if d: mon.fail("textpath", d)
                mon.count("textpath")
            c.insert(t, [T] if T is not None else [])
            li.append(it)
        if rng.random() < 0.3 or not li: c.fill(path.rect_pt(0, 0, 10, 10)); li.append(Item(kind="rect", x=0, y=0, w=10, h=10, M=geo.IDENT, color=None, size0=1))
        elif all(True for _ in li):
            c.fill(path.rect_pt(0, 0, 10, 10)); li.append(Item(kind="rect", x=0, y=0, w=10, h=10, M=geo.IDENT, color=None, size0=1))
        pages.append(c); items.append(li)
    mon.describe("; ".join(desc)[:1500])
    writeall(rng, mon, svg, pages, items, fonts)
    mon.nontrivial("%s %s" % (sorted(fonts), sorted({n for l in items for it in l if it.kind == "text" for n in it.names})))


def writeall(rng, mon, svg, pages, items, fonts):
    if svg:
        aspath = rng.random() < 0.5
        verify(mon, "svg", pub.write(pages[0], "svg", **({"write_textaspath": aspath} if not aspath or rng.random() < 0.5 else {})), items, fonts, aspath)
        mon.count("svg-path" if aspath else "svg-text")
    for fmt in ([] if svg and rng.random() < 0.6 else ["ps", "pdf"] if rng.random() < 0.3 else [rng.choice(["ps", "pdf", "eps"])]):
        aspath = rng.random() < 0.25
        kw = {"textaspath": True} if aspath else {}
        if fmt == "eps": data = pub.write(pages[0], "eps", **{"write_"+k: v for k, v in kw.items()})
        else: data = pub.write(document.document([document.page(c, centered=False, bboxenlarge=0) for c in pages]), fmt, **kw)
        verify(mon, fmt, data, items[:1] if fmt == "eps" else items, fonts, aspath)
        mon.count(fmt+("-path" if aspath else "-text"))


# ---------------------------------------------------------------- the unicode engine
class Engines:
    cache = {}


def enginefont(mon, rng):
    a, p = files()
    pfm = rng.random() < 0.15
    for _ in range(50):
        fn, mfn = rng.choice(p if pfm else a)
        name = os.path.basename(fn)[:-4]
        try: pfb, met = dvi.kpse(name+".pfb"), dvi.kpse(name+(".pfm" if pfm else ".afm"))
        except dvi.Bad: continue
        if pfb and met and name != "cmex10": break
    else: raise harness.Skip
    return name, pfb, met, pfm


def equalsign(f):
    "thickness, half width, axis and length of the minus sign, from the equals sign at size 1"
    g = c21.outline(f.orig.glyph("equal"), tuple(f.orig.matrix))
    g = [s for s in g if s.segs]
    if not g: raise harness.Skip
    B = [geo.bbox([s]) for s in g]
    b = (min(v[0] for v in B), min(v[1] for v in B), max(v[2] for v in B), max(v[3] for v in B))
    return max(v[3]-v[1] for v in B), (b[0]+b[2])/2, (b[1]+b[3])/2, b[2]-b[0]


def unicodecase(rng, mon):
    if rng.random() < 0.3: name, pfb, met, pfm = "cmr10", dvi.kpse("cmr10.pfb"), dvi.kpse("cmr10.afm"), False
    else: name, pfb, met, pfm = enginefont(mon, rng)
    size = rng.choice([10, 10, 8, 17.5, 1])
    kw = {}
    if size != 10 or rng.random() < 0.3: kw["size"] = size
    if pfm: kw["font_metric_type"] = text.FontMetricType.pfm
    if name != "cmr10" or rng.random() < 0.5: kw["fontname"] = name
    f = F.__new__(F)
    f.kind = "pfm" if pfm else "afm"; f.label = f.name = name
    f.orig, data = loaded(pfb); f.name = f.orig.name
    raw = open(met, "rb").read()
    try: f.m = PMetric(raw, f.orig.encoding) if pfm else Metric(raw)
    except t1.Bad: raise harness.Skip
    f.w, f.kern, f.hw = f.m.w, f.m.kern, {}
    f.names = [n for n in f.orig.chars if n in f.w and n in inverse() and n != ".notdef"]
    f.names = [n for n in f.names if f.usable(n) and (pfm or f.m.box[n])]
    if len(f.names) < 5: raise harness.Skip
    if f.kind == "pfm": f.m.box = {n: (0, -f.m.descent, 0, f.m.ascent) for n in f.w}
    try: E = text.UnicodeEngine(**kw)
    except UnicodeDecodeError: raise harness.Skip
    have = "equal" in f.names
    if have: th, hw, ax, ln = equalsign(f)
    math_ = have and rng.random() < 0.5
    pool = rng.sample(f.names, min(len(f.names), 12))
    uscale = rng.choice([1, 1, 1, 2, 0.7])
    if uscale != 1: mon.count("xscale")

    def word(dash=True):
        ns = [rng.choice(pool if rng.random() < 0.7 else f.names) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        s = ["".join(rng.choice([c for c in inverse()[n] if c != "-" or not math_] or [""]) for n in [n]) for n in ns]
        if math_ and dash:
            for _ in range(rng.choice([0, 1, 1, 2])): s.insert(rng.randint(0, len(s)), "-")
        return "".join(s)
    spec = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.4: spec.append(("s", word()))
        elif r < 0.7: spec.append(("t", word(), rng.choice([1, 0.7, 0.5, 1.5]), rng.choice([0, 0.4, -0.3])))
        else:
            frac = have and rng.random() < 0.5
            k = 2 if frac else rng.choice([1, 2, 3])
            spec.append(("k", [(word(False), rng.choice([1, 0.7, 0.5]), rng.choice([0.5, -0.5, 0])) for _ in range(k)], frac, rng.choice([0, 0, 0.5, 1])))
    spec = [s for s in spec if s[1] and (s[0] != "k" or all(w[0] for w in s[1]))]
    if not spec or not any(w != "-" for s in spec for w in (s[1] if s[0] != "k" else "x")): raise harness.Skip
    mon.describe("%s %s size %g math %s %r" % (name, f.kind, size, math_, spec))
    texts = [s[1] if s[0] == "s" and rng.random() < 0.8 else text.Text(s[1]) if s[0] == "s" else text.Text(s[1], scale=s[2], shift=s[3]) if s[0] == "t" else text.StackedText([text.Text(w, scale=a, shift=b) for w, a, b in s[1]], frac=s[2], align=s[3]) for s in spec]
    arg = texts[0] if len(texts) == 1 and rng.random() < 0.7 else texts
    if rng.random() < 0.1: arg = text.MultiEngineText("unused", arg)
    at = (rng.uniform(-100, 100), rng.uniform(-100, 100))
    attrs = []
    if math_: attrs.append(text.mathmode)
    col = None
    if rng.random() < 0.4: col = rng.choice([(1, 0, 0), (0, 0.5, 0.25)]); attrs.append(color.rgb(*col))
    T = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, s = rng.uniform(0, 360), rng.uniform(0.5, 2)
        T.append(rng.choice([(trafo.rotate(a), (math.cos(math.radians(a)), math.sin(math.radians(a)), -math.sin(math.radians(a)), math.cos(math.radians(a)), 0, 0)), (trafo.scale(s), (s, 0, 0, s, 0, 0))]))
    attrs += [t for t, _ in T]
    L = geo.IDENT
    for _, m in T: L = geo.mul(L, m)
    base = geo.mul(geo.mul(L, (uscale, 0, 0, uscale, 0, 0)), (1, 0, 0, 1, at[0], at[1]))
    # the layout
    items = []
    x = 0.0
    boxes = []
    name_of = lambda ch: unicodestring[ch]

    def put(x, y, s, sz, dx=0):
        it = Item(kind="text", F=f, names=[name_of(ch) for ch in s], x=x, y=y, size=sz, spaced=0, kerning=False, slant=None, color=col)
        b = it.box(); it.x += dx
        boxes.append((b[0]+dx, b[1], b[2]+dx, b[3]))
        items.append(it); return b[2]-b[0]

    def rect(x, y, w, h):
        items.append(Item(kind="rect", x=x, y=y, w=w, h=h, color=col, size=size, size0=size)); boxes.append((x, y, x+w, y+h))
    for s in spec:
        if s[0] in "st":
            sc, sh = (1, 0) if s[0] == "s" else s[2:]
            parts = s[1].split("-") if math_ else [s[1]]
            for i, w in enumerate(parts):
                if i:
                    rect(x+(hw-ln/2)*size, (ax-th/2)*size, ln*size, th*size); x += 2*hw*size; mon.count("minus")
                if w: x += put(x, sh*size, w, sc*size)
        else:
            shift = ax*size if s[2] else 0
            ws = [sum(f.w[name_of(ch)] for ch in w)*a*size/1000 for w, a, b in s[1]]
            W = max(ws)
            if s[2]: rect(x, (ax-th/2)*size, W, th*size); mon.count("frac")
            for (w, a, b), wd in zip(s[1], ws): put(x, b*size+shift, w, a*size, s[3]*(W-wd))
            x += W; mon.count("stack")
    unit.set(xscale=uscale)
    try:
        b = E.text_pt(at[0], at[1], arg, attrs) if rng.random() < 0.5 else E.text(at[0]*unit.t_pt, at[1]*unit.t_pt, arg, attrs)
        c = canvas.canvas()
        M2, T2 = rtrafo(rng)
        how = rng.random()
        keep = (M2, T2)
        if T2 is not None and how < 0.4:
            b.transform(T2); mon.count("transformed")
            M = geo.mul(base, M2); c.insert(b); MC = geo.IDENT
        else:
            M = base; c.insert(b, [T2] if T2 is not None else []); MC = M2
        # boxes
        def trbox(b, m):
            P = [geo.ap(m, p) for p in ((b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3]))]
            return (min(p[0] for p in P), min(p[1] for p in P), max(p[0] for p in P), max(p[1] for p in P))
        u = (min(v[0] for v in boxes), min(v[1] for v in boxes), max(v[2] for v in boxes), max(v[3] for v in boxes))
        tolb = 2e-3*size*max(1, *map(abs, M[:4])) if math_ or any(s[0] == "k" and s[2] for s in spec) else 1e-6*max(1, *map(abs, M))*size
        got = b.bbox().highrestuple_pt(); want = trbox(u, M)
        mon.check(max(abs(p-q) for p, q in zip(got, want)) < tolb, "bbox", lambda: "bbox %s instead of %s" % (got, want))
        u2 = (min(u[0], 0), min(u[1], 0), max(u[2], x), max(u[3], 0))
        got2 = b.path().bbox().highrestuple_pt(); want2 = trbox(u2, M)
        mon.check(max(abs(p-q) for p, q in zip(got2, want2)) < tolb, "box", lambda: "box %s instead of %s" % (got2, want2))
        mon.count("unicode-box")
        for it in items: it.M = geo.mul(M, MC)
        # outlines
        want = []
        for it in items:
            if it.kind == "rect": continue
            offs, _ = it.offsets(f.hsbw)
            for o, n in zip(offs, it.names): want += c21.outline(f.orig.glyph(n), geo.mul(geo.mul(tuple(f.orig.matrix), (it.size, 0, 0, it.size, it.x+o, it.y)), M))
        if not any(it.kind == "rect" for it in items) and rng.random() < 0.5:
            d = geo.subs_match(c21.fillsubs(b.textpath()), want, 1e-4*max(1, *map(abs, M[:4])), "text path")
            if d: mon.fail("textpath", d)
            mon.count("unicode-textpath")
        writeall(rng, mon, rng.random() < 0.3, [c], [items], {f.name: f})
    finally: unit.set(xscale=1)
    mon.nontrivial("unicode %s %r" % (name, spec))


# ---------------------------------------------------------------- AFM files
def realafm(mon, fn):
    raw = open(fn, "rb").read()
    m = Metric(raw)
    a = AFMfile(io.StringIO(raw.decode("latin1")))
    for n, w in m.w.items():
        mon.check(a.width_ds(n) == w, "afm-width", "width of %s in %s is %s instead of %s" % (n, fn, a.width_ds(n), w))
        if m.box[n]: mon.check((a.height_pt([n], 1000), a.depth_pt([n], 1000)) == (m.box[n][3], m.box[n][1]), "afm-box", "box of %s in %s" % (n, fn))
        mon.count("afm-glyph")
    for (p, q), v in m.kern.items():
        r = a.resolvekernings([p, q])
        mon.check(r[0] == p and r[2] == q and (r[1] or 0) == v, "afm-kern", "kerning %s %s in %s: %s instead of %s" % (p, q, fn, r, v))
        mon.count("afm-kern")
    for n, l in m.lig.items():
        for b, r in l:
            mon.check(a.resolveligatures([n, b])[0] == dict(l[::-1])[b], "afm-lig", "ligature %s %s in %s" % (n, b, fn)); mon.count("afm-lig")


def afmcase(rng, mon):
    "a random AFM file; the values are recorded while it is written"
    L, want = [], {}
    fl = lambda: rng.choice([rng.randint(-300, 1200), round(rng.uniform(-300, 1200), 2), round(rng.uniform(-1, 1), 3)])
    sp = lambda: rng.choice([" ", " ", " ", "  ", "\t"])
    word = lambda: "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCXYZ") for _ in range(rng.randint(1, 9)))
    names = []
    while len(names) < rng.choice([1, 3, 8, 20]):
        n = word()
        if n not in names: names.append(n)
    both = rng.random() < 0.25      # writing directions 0 and 1
    L.append("StartFontMetrics"+sp()+rng.choice(["2.0", "3.0", "4.1"]))
    if rng.random() < 0.3: L.append("Comment some text ; with C 3 words")
    if both:
        v = rng.choice([1, 2]); L.append("MetricsSets %d" % v); want["metricssets"] = v; mon.count("afm-metricssets")
    head = []
    for key, attr in (("FontName", "fontname"), ("FullName", "fullname"), ("FamilyName", "familyname"), ("Weight", "weight"), ("Version", "version"), ("Notice", "notice"), ("EncodingScheme", "encodingscheme"), ("CharacterSet", "characterset")):
        if key == "FontName" or rng.random() < 0.6:
            v = " ".join(word() for _ in range(1 if key == "FontName" else rng.choice([1, 2, 4]))); head.append((key+sp()+v, attr, v))
    for key, attr in (("MappingScheme", "mappingscheme"), ("EscChar", "escchar"), ("Characters", "characters")):
        if rng.random() < 0.3: v = rng.randint(0, 300); head.append((key+sp()+str(v), attr, v))
    for key, attr in (("CapHeight", "capheight"), ("XHeight", "xheight"), ("Ascender", "ascender"), ("Descender", "descender"), ("StdHW", "stdhw"), ("StdVW", "stdvw")):
        if rng.random() < 0.5: v = fl(); head.append((key+sp()+str(v), attr, float(v)))
    for key, attr in (("IsBaseFont", "isbasefont"), ("IsFixedV", "isfixedv")):
        if rng.random() < 0.3: v = rng.random() < 0.5; head.append((key+sp()+("true" if v else "false"), attr, v))
    bb = [fl() for _ in range(4)]; head.append(("FontBBox"+sp()+" ".join(map(str, bb)), "fontbbox", [float(v) for v in bb]))
    if rng.random() < 0.3: vv = [fl(), fl()]; head.append(("VVector %s %s" % tuple(vv), "vvector", [float(v) for v in vv]))
    blocks = [[h[0]] for h in head]
    for _, attr, v in head: want[attr] = v
    if "isfixedv" not in want: want["isfixedv"] = "vvector" in want
    D = {k: [None, None] for k in ("underlinepositions", "underlinethicknesses", "italicangles", "charwidths", "isfixedpitchs")}
    def direction(ds):
        out = []
        for key, attr in (("UnderlinePosition", "underlinepositions"), ("UnderlineThickness", "underlinethicknesses"), ("ItalicAngle", "italicangles"), ("CharWidth", "charwidths"), ("IsFixedPitch", "isfixedpitchs")):
            if rng.random() < 0.6:
                if key == "CharWidth": v = [float(fl()), float(fl())]; t = "%s %s" % tuple(v); mon.count("afm-charwidth")
                elif key == "IsFixedPitch": v = rng.random() < 0.5; t = "true" if v else "false"
                else: v = float(fl()); t = str(v)
                for d in ds: D[attr][d] = v
                out.append(key+sp()+t)
        return out
    if both:
        if want["metricssets"] == 2 and rng.random() < 0.5: blocks.append(["StartDirection 2"]+direction([0, 1])+["EndDirection"]); mon.count("afm-direction2")
        else:
            for d in ([0, 1] if want["metricssets"] == 2 else [1]): blocks.append(["StartDirection %d" % d]+direction([d])+["EndDirection"]); mon.count("afm-direction%d" % d)
    elif rng.random() < 0.3: blocks.append(["StartDirection 0"]+direction([0])+["EndDirection"]); mon.count("afm-direction0")
    else: blocks += [[l] for l in direction([0])]
    rng.shuffle(blocks)
    for b in blocks:
        L += b
        if rng.random() < 0.1: L.append(rng.choice(["Comment x", "xprivate 3 4", ""]))
    want.update(D)
    # characters
    chars = []
    L.append("StartCharMetrics %d" % len(names))
    for i, n in enumerate(names):
        c = dict(name=n, w0=None, w1=None, vv=None, box=None, lig=[])
        code = rng.choice([i, -1, rng.randint(0, 255)]); c["code"] = code
        parts = [rng.choice(["C %d" % code, "CH <%x>" % code]) if code >= 0 else "C -1"]
        k = rng.choice(["WX", "WX", "W0X", "W", "W0", "WX+WY"])
        x, y = fl(), fl()
        if k in ("WX", "W0X"): parts.append("%s %s" % (k, x)); c["w0"] = (float(x), 0)
        elif k in ("W", "W0"): parts.append("%s %s %s" % (k, x, y)); c["w0"] = (float(x), float(y))
        else:
            p = ["WX %s" % x, "WY %s" % y]; rng.shuffle(p); parts += p; c["w0"] = (float(x), float(y)); mon.count("afm-wxwy")
        if both:
            k = rng.choice(["W1X", "W1", "W1X+W1Y"])
            if k == "W1X": parts.append("W1X %s" % y); c["w1"] = (float(y), 0)
            elif k == "W1": parts.append("W1 %s %s" % (x, y)); c["w1"] = (float(x), float(y))
            else: parts += ["W1X %s" % x, "W1Y %s" % y]; c["w1"] = (float(x), float(y))
            if rng.random() < 0.5: parts.append("VV %s %s" % (x, y)); c["vv"] = [float(x), float(y)]
        parts.append("N"+sp()+n)
        b = [fl() for _ in range(4)]; parts.append("B "+" ".join(map(str, b))); c["box"] = [float(v) for v in b]
        for s in rng.sample(names, rng.choice([0, 0, 1, 2]) if len(names) > 2 else 0):
            r = rng.choice(names); parts.append("L %s %s" % (s, r)); c["lig"].append((s, r))
        L.append((" ;"+sp()).join(parts)+rng.choice([" ;", " ; ", " ;"])); chars.append(c)
    L.append("EndCharMetrics"+rng.choice(["", " "]))
    kerns, tracks, comps = [None, None], None, None
    if rng.random() < 0.7:
        L.append("StartKernData")
        if rng.random() < 0.4:
            tracks = [(rng.randint(-3, 3), *[float(fl()) for _ in range(4)]) for _ in range(rng.choice([1, 2]))]
            L.append("StartTrackKern %d" % len(tracks)); L += ["TrackKern %d %s %s %s %s" % t for t in tracks]; L.append("EndTrackKern"); mon.count("afm-track")
        for d in ([0, 1] if both and rng.random() < 0.6 else [0]):
            pairs = {}
            for _ in range(rng.choice([0, 1, 4, 12])): pairs[rng.choice(names), rng.choice(names)] = None
            key = "StartKernPairs"+("1" if d else rng.choice(["", "0"]))
            L.append("%s %d" % (key, len(pairs)))
            kerns[d] = []
            for p, q in pairs:
                x, y = fl(), fl(); k = rng.choice(["KPX", "KPX", "KP", "KPY"])
                if k == "KPX": y = 0; a = [x]
                elif k == "KPY": a = [y]; x = 0
                else: a = [x, y]
                L.append(" ".join([k, p, q]+[str(v) for v in a])); kerns[d].append((p, q, float(x), float(y)))
                if rng.random() < 0.05: L.append("Comment kern")
            L.append("EndKernPairs")
        L.append("EndKernData"); mon.count("afm-kerns")
    if rng.random() < 0.5:
        comps = []
        for _ in range(rng.choice([1, 2, 4])):
            parts = [(rng.choice(names), float(fl()), float(fl())) for _ in range(rng.choice([1, 2, 3]))]
            comps.append((rng.choice(names), parts))
        L.append("StartComposites %d" % len(comps))
        for n, parts in comps: L.append("CC %s %d ; " % (n, len(parts))+" ; ".join("PCC %s %s %s" % p for p in parts)+" ;")
        L.append("EndComposites"); mon.count("afm-composites")
    L.append("EndFontMetrics")
    last = rng.random() < 0.5
    txt = rng.choice(["\n", "\n", "\r\n"]).join(L)+("\n" if last else "")
    if not last and rng.random() < 0.5:
        # nothing after the declared values
        pass
    mon.describe("AFM file\n"+txt[:3000])
    if rng.random() < 0.5: a = AFMfile(io.StringIO(txt, newline=None if rng.random() < 0.5 else ""))
    else:
        fn = os.path.join(mon.tmp, "x.afm"); open(fn, "w", newline="").write(txt)
        with open(fn) as fh: a = AFMfile(fh)
    for k, v in want.items():
        g = getattr(a, k)
        mon.check(g == v, "afm-"+k, "%s is %r instead of %r" % (k, g, v))
    mon.count("afm-values", len(want))
    mon.check(len(a.charmetrics) == len(chars), "afm-chars", "%d instead of %d characters" % (len(a.charmetrics), len(chars)))
    for g, c in zip(a.charmetrics, chars):
        got = (g.code, g.name, g.widths[0] and tuple(g.widths[0]), g.widths[1] and tuple(g.widths[1]), g.vvector, g.bbox, [tuple(x) for x in g.ligatures])
        w = (c["code"], c["name"], c["w0"], c["w1"], c["vv"], c["box"], c["lig"])
        mon.check(got == w, "afm-char", "character %s instead of %s" % (got, w))
        mon.check(a.width_ds(c["name"]) == c["w0"][0], "afm-width", "width of %s" % c["name"])
    for d in (0, 1):
        got = None if a.kernpairs[d] is None else [(k.name1, k.name2, k.x, k.y) for k in a.kernpairs[d]]
        mon.check(got == kerns[d], "afm-kernpairs", "kerning pairs %s instead of %s" % (got, kerns[d]))
    got = None if a.trackkerns is None else [(t.degree, t.min_ptsize, t.min_kern, t.max_ptsize, t.max_kern) for t in a.trackkerns]
    mon.check(got == tracks, "afm-tracks", "track kerning %s instead of %s" % (got, tracks))
    got = None if a.composites is None else [(c.name, [tuple(p) for p in c.parts]) for c in a.composites]
    mon.check(got == comps, "afm-composites", "composites %s instead of %s" % (got, comps))
    # layout functions
    for _ in range(4):
        ns = [rng.choice(names) for _ in range(rng.choice([1, 2, 5]))]; s = rng.choice([10, 1000, 7.3])
        W = {c["name"]: c for c in chars}
        mon.close(a.width_pt(ns, s), sum(W[n]["w0"][0] for n in ns)*s/1000, 1e-9*(1+s*len(ns)), "afm-width", "width of %s" % ns)
        mon.close(a.height_pt(ns, s), max(W[n]["box"][3] for n in ns)*s/1000, 1e-9*(1+s), "afm-height", "height of %s" % ns)
        mon.close(a.depth_pt(ns, s), min(W[n]["box"][1] for n in ns)*s/1000, 1e-9*(1+s), "afm-depth", "depth of %s" % ns)
        kd = {(p, q): x for p, q, x, y in kerns[0] or []}
        lg = {c["name"]: c["lig"] for c in chars}; out = []
        for n in ns:
            out.append(n)
            q = [b for x, b in lg[out[-2]] if x == n] if len(out) > 1 else ()
            if q: out[-2:] = [q[0]]; mon.count("afm-ligated")
        g = a.resolveligatures(list(ns))
        mon.check(list(g) == out, "afm-ligature", "ligatures of %s are %s instead of %s" % (ns, g, out))
        r = a.resolvekernings(list(ns), s)
        mon.check(list(r[::2]) == ns and all(abs((v or 0)-kd.get(p, 0)*s/1000) < 1e-9*(1+s) for v, p in zip(r[1::2], zip(ns, ns[1:]))), "afm-kern", "kerning of %s is %s" % (ns, r))
    # PDF
    mon.nontrivial("afm %d %s" % (len(names), sorted(want)))
    mon.count("afm-file")
    if names:
        f = T1builtinfont("Dummy", a)
        c = canvas.canvas(); n = names[0]
        c.insert(f.text_pt(0, 0, [0], 10, decoding={0: n}, ignorebbox=True)); c.fill(path.rect_pt(0, 0, 1, 1))
        pdf, pages = outi.read_pdf(pub.write(c, "pdf"))
        fd = [pdf.get(o) for o in pdf.objs.values() if isinstance(pdf.get(o), dict) and pdf.get(o).get("Type") == "FontDescriptor"]
        if fd:
            fd = fd[0]
            def is_(key, val): mon.check(abs(float(pdf.get(fd[key]))-val) <= 1, "fontdescriptor", "%s is %s instead of %s" % (key, fd[key], val))
            asc = want.get("ascender", want["fontbbox"][3]); is_("Ascent", asc)
            is_("Descent", want.get("descender", want["fontbbox"][1]))
            is_("CapHeight", want.get("capheight", asc))
            if D["italicangles"][0] is not None: is_("ItalicAngle", D["italicangles"][0])
            mon.count("fontdescriptor")


# ---------------------------------------------------------------- PFM files
def realpfm(mon, pfb, pfm):
    orig, data = loaded(pfb)
    raw = open(pfm, "rb").read()
    m = PMetric(raw, orig.encoding)
    p = PFMfile(io.BytesIO(raw), T1File.from_PF_bytes(data))
    for n, w in m.w.items():
        mon.check(p.width_ds(n) == w, "pfm-width", "width of %s in %s is %s instead of %s" % (n, pfm, p.width_ds(n), w)); mon.count("pfm-glyph")
    for (a, b), v in m.kern.items():
        r = p.resolvekernings([a, b])
        mon.check((r[1] or 0) == v, "pfm-kern", "kerning %s %s in %s: %s instead of %s" % (a, b, pfm, r, v)); mon.count("pfm-kern")
    if m.w:
        n = next(iter(m.w))
        mon.close(p.height_pt([n], 10), m.ascent/100, 1e-9, "pfm-height", "height in %s" % pfm)
        mon.close(p.depth_pt([n], 10), -m.descent/100, 1e-9, "pfm-depth", "depth in %s" % pfm)


def pfmcase(rng, mon):
    "a random PFM file for a real font"
    fn = rng.choice(files()[1])[0]
    orig, data = loaded(fn)
    charset = rng.choice([0, 0, 2, 255])
    first, last = rng.choice([(32, 255), (0, 255), (33, 126), (30, 200)])
    widths = [rng.randint(0, 1200) for _ in range(last-first+1)]
    pairs = {}
    for _ in range(rng.choice([0, 1, 5, 40])): pairs[rng.choice([32, 45, 149, rng.randint(first, last)]), rng.randint(first, last)] = rng.randint(-300, 300)
    tracks = [tuple(rng.randint(-50, 50) for _ in range(5)) for _ in range(rng.choice([0, 0, 2]))]
    asc, desc, cap = rng.randint(500, 1000), rng.randint(0, 400), rng.randint(400, 900)
    blobs, off = [], 117+30
    order = ["etm", "dev", "face", "drv", "ext"]+(["kern"] if pairs else [])+(["track"] if tracks else [])
    rng.shuffle(order)
    B = {"dev": b"PostScript\0", "face": b"A Face\0", "drv": orig.name.encode()+b"\0",
         "etm": struct.pack("<24h2H", 52, 240, 0, 1000, 3, 1000, 1000, cap, 450, 680, desc, rng.choice([0, -120]), -500, 250, 500, 500, -100, 50, 0, 0, 0, 0, 0, 0, len(pairs), len(tracks)),
         "ext": struct.pack("<%dH" % len(widths), *widths),
         "kern": struct.pack("<H", len(pairs))+b"".join(struct.pack("<BBh", a, b, v) for (a, b), v in pairs.items()),
         "track": struct.pack("<H", len(tracks))+b"".join(struct.pack("<5h", *t) for t in tracks)}
    pos = {}
    body = b""
    for k in order:
        body += b"\x55"*rng.choice([0, 0, 3]); pos[k] = off+len(body); body += B[k]
    h = struct.pack("<HL60s7H3BHB2HB2H4BH4L", 0x100, off+len(body), b"copy", 0x81, 10, 300, 300, asc, 0, 196, 0, 0, 0, 400, charset, 0, 1000, 0x31, 500, 1200, first, last, 0, 0, 0, pos["dev"], pos["face"], 0, 0)
    h += struct.pack("<H7L", 30, pos["etm"], pos["ext"], 0, pos.get("kern", 0), pos.get("track", 0), pos["drv"], 0)
    raw = h+body
    mon.describe("PFM charset %d %d..%d %d pairs" % (charset, first, last, len(pairs)))
    m = PMetric(raw, orig.encoding)
    p = PFMfile(io.BytesIO(raw), T1File.from_PF_bytes(data))
    for n, w in m.w.items(): mon.check(p.width_ds(n) == w, "pfm-width", lambda: "width of %s is %s instead of %s" % (n, p.width_ds(n), w)); mon.count("pfm-glyph")
    ns = list(m.w)
    for k in list(m.kern)[:50]:
        r = p.resolvekernings(list(k), 500)
        mon.check((r[1] or 0) == m.kern[k]/2, "pfm-kern", "kerning %s is %s instead of %s" % (k, r, m.kern[k])); mon.count("pfm-kern")
    if ns:
        l = [rng.choice(ns) for _ in range(5)]
        mon.close(p.width_pt(l, 10), sum(m.w[n] for n in l)/100, 1e-9, "pfm-width", "width of %s" % l)
        mon.close(p.height_pt(l, 10), asc/100, 1e-9, "pfm-height", "height"); mon.close(p.depth_pt(l, 10), -desc/100, 1e-9, "pfm-depth", "depth")
        mon.check([tuple(t) for t in p.trackkerns] == tracks, "pfm-track", "tracks %s instead of %s" % (p.trackkerns, tracks))
        # written to PDF
        n = next((n for n in ns if n in orig.chars), None)
        if n:
            c = canvas.canvas(); c.insert(T1font(T1File.from_PF_bytes(data), p).text_pt(0, 0, [0], 10, decoding={0: n}))
            pdf, pages = outi.read_pdf(pub.write(c, "pdf"))
            e = [e for e in pages[0].events if e.op == "text"][0]
            fd = pdf.get(e.fontobj["FontDescriptor"])
            mon.check(abs(float(pdf.get(pdf.get(e.fontobj["Widths"])[0]))-m.w[n]) < 0.01, "pfm-pdf", "width in PDF")
            for key, v in (("Ascent", asc), ("Descent", -desc), ("CapHeight", cap)): mon.check(float(pdf.get(fd[key])) == v, "pfm-pdf", "%s is %s instead of %s" % (key, fd[key], v))
            mon.count("pfm-pdf")
    mon.nontrivial("pfm %d %s %s" % (charset, widths[:3], len(pairs)))


# ---------------------------------------------------------------- directed
def glyphnames(mon):
    "the characters of the default decoding have the glyph names of the Adobe glyph list"
    g = agl()
    for ch, n in unicodestring.items():
        if n not in g: mon.count("unlisted"); continue
        inv = aglinv().get(ch)
        ok = ch in g[n] or inv is None or n in inv
        # the Adobe glyph list maps these twins to one of both code points only
        twins = {"\xa0": "space", "\xad": "hyphen", "\u0394": "Delta", "\u03a9": "Omega", "\u03bc": "mu", "\u0162": "Tcommaaccent", "\u0163": "tcommaaccent", "\u02c9": "macron", "\u2215": "fraction", "\u2219": "periodcentered"}
        mon.check(ok or twins.get(ch) == n, "glyphname", "%r is decoded to %s but the Adobe glyph list has %s and %r" % (ch, n, inv, g[n])); mon.count("glyphname")
    for ch in map(chr, list(range(32, 127))+list(range(161, 256))):
        mon.check(ch in unicodestring or ch in "\xb2\xb3\xb5\xb9\xb4\xb7", "glyphname", "no glyph for %r" % ch)


def emptytext(mon):
    "empty texts"
    E = text.UnicodeEngine()
    texts = text.Text("a")
    for what in ("", [""], text.Text(""), ["", texts, ""]):
        b = E.text_pt(10, 20, what)
        c = canvas.canvas(); c.insert(b); c.fill(path.rect_pt(0, 0, 5, 5))
        for fmt in ("eps", "pdf", "svg"):
            ev = [e for e in pub.events(c, fmt)[0] if e.subs or e.op == "text"]
            mon.check(len(ev) == 1+(what == ["", texts, ""]), "empty", "%r paints %s" % (what, ev)); mon.count("empty")
    a = F(mon, __import__("random").Random(1), "afm")
    for kw in ({}, {"kerning": True}, {"ligatures": True}, {"spaced_pt": 3}):
        for font in (a.font, T1font(a.file)) if not kw.get("kerning") and not kw.get("ligatures") else (a.font,):
            t = font.text_pt(10, 20, "", 10, **kw)
            c = canvas.canvas(); c.insert(t); c.fill(path.rect_pt(0, 0, 5, 5))
            for fmt in ("eps", "pdf", "svg"):
                for asp in (True, False):
                    ev = [e for e in pub.events(c, fmt, write_textaspath=asp)[0] if e.subs or e.op == "text" and e.codes]
                    mon.check(len(ev) == 1, "empty", "the empty text paints %s" % ev); mon.count("empty")


def spaces(mon):
    "runs of spaces keep their width in all formats"
    import random
    f = F(mon, random.Random(3), "std")
    while f.name != "Times-Roman": f = F(mon, random.Random(random.random()), "std")
    for s in (" a", "a ", "a  b", "  ", "a   b c"):
        for kern in (False, True):
            c = canvas.canvas(); c.insert(f.font.text_pt(10, 20, s, 10, kerning=kern)); c.fill(path.rect_pt(0, 0, 1, 1))
            it = Item(kind="text", F=f, names=[unicodestring[x] for x in s], x=10, y=20, size=10, spaced=0, kerning=kern, slant=None, M=geo.IDENT, color=None)
            r = Item(kind="rect", x=0, y=0, w=1, h=1, M=geo.IDENT, color=None, size0=1, size=1)
            for fmt in ("eps", "pdf", "svg"):
                verify(mon, fmt, pub.write(c, fmt, write_textaspath=False), [[it, r]], {f.name: f}, False); mon.count("spaces")


def run_case(kind, i, rng, mon):
    if kind == "glyphnames": mon.describe("default decoding"); return glyphnames(mon)
    if kind == "emptytext": mon.describe("empty texts"); return emptytext(mon)
    if kind == "spaces": mon.describe("spaces"); return spaces(mon)
    if kind == "realafm":
        mon.describe("installed AFM files")
        for _, afm in rng.sample(files()[0], 60):
            try: realafm(mon, afm)
            except UnicodeDecodeError: pass
        return
    if kind == "realpfm":
        mon.describe("installed PFM files")
        for p, pfm in rng.sample(files()[1], 30):
            try: realpfm(mon, p, pfm)
            except t1.Bad: mon.count("broken-pfm")
        return
    r = rng.random()
    if r < 0.5: textcase(rng, mon)
    elif r < 0.78: unicodecase(rng, mon)
    elif r < 0.92: afmcase(rng, mon)
    else: pfmcase(rng, mon)
