"""C21: embedded Type 1 fonts keep the outlines of used glyphs.

Random glyph sets of real fonts and of synthetic fonts (random charstrings with every operator,
flex, hint replacement, composites, nested subroutines, all codings) are used on several pages;
the font programs found in the PostScript, PDF and SVG output are decoded by an independent
reader and interpreter of Type 1 fonts and compared glyph by glyph with the originals, under the
codes which are shown.  The Python and the C codec are compared with an independent one; the C
codec runs under address and undefined-behaviour sanitizers."""
import os, re, io, math, subprocess, sys, sysconfig, shutil, glob, functools, random, json, tempfile
import xml.etree.ElementTree as ET
import t1, geo, pub, outi, dvi, scene, harness
from pyx import canvas, document, path, trafo, unit, writer
from pyx.font import T1font
from pyx.font.t1file import T1File
from pyx.font import t1code
from pyx.font.afmfile import AFMfile

PROPERTY = "C21"
LEVEL = "differential_monitoring"
RULE = "random texts in 1-3 fonts (of ~940 installed Type 1 fonts and synthetic ones over all charstring operators, codings and layouts of the font file) by glyph names or by codes on 1-3 pages, written as PS, EPS, PDF (fonts stripped or not, slanted or not), SVG fonts and outlines; random byte strings through the codecs; distinct by font and glyph set"
QUICK, THOROUGH = 600, 20000
CPU = 300
LIMIT = {"quick": 300, "thorough": 860}
DIRECTED = ["native", "native-args"]
REQUIRED = {"by-code": 142, "by-name": 256, "codec": 13, "composite": 92, "flex": 234, "glyph-PFA": 142, "glyph-PFB": 236, "glyph-pdf": 1352, "glyph-ps": 1554, "glyph-svg": 441, "hint-replacement": 1008, "lenIV-0": 17, "lenIV-1": 10, "lenIV-2": 9, "lenIV-3": 10, "lenIV-4": 12, "lenIV-5": 6, "lenIV-8": 9, "lenIV-None": 19, "native-calls": 4350, "no-subrs": 9, "path-composite": 14, "path-div": 123, "path-flex": 27, "path-glyph": 160, "pdf": 44, "ps": 46, "real": 86, "rewrite-PFA": 5, "rewrite-PFB": 8, "set": 17, "stripped": 59, "subrs": 86, "svg": 13, "synth-pfa": 34, "synth-pfb": 60, "tex-pdf": 4, "tex-ps": 4, "unstripped": 22, "width": 2768}
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = ["/usr/share/texmf/fonts/type1", "/usr/share/texlive/texmf-dist/fonts/type1", "/usr/share/fonts/X11/Type1"]


@functools.lru_cache(None)
def files():
    out = []
    for r in ROOTS:
        for d, _, fs in sorted(os.walk(r)):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".pfb") and f != "pdftexspace.pfb"]   # (that font leaves an operand on the stack)
    return [f for f in out if os.path.getsize(f) < 450000]


# ---------------------------------------------------------------- synthetic fonts
def num(v, rng, how=0.1):
    "charstring number, now and then in a longer form"
    if v != int(v): raise ValueError
    v = int(v)
    if rng.random() < how or not -1131 <= v <= 1131: return b"\xff"+(v & 0xffffffff).to_bytes(4, "big")
    if -107 <= v <= 107: return bytes([v+139])
    if v > 0: w = v-108; return bytes([247+w//256, w % 256])
    w = -v-108; return bytes([251+w//256, w % 256])


class Synth:
    def __init__(self, rng):
        self.rng = rng
        self.lenIV = rng.choice([None, None, 4, 0, 0, 1, 2, 3, 5, 8])
        self.subrs = []      # byte strings
        self.hassubrs = rng.random() < 0.9
        self.flexsubrs = self.hassubrs and rng.random() < 0.8
        if self.flexsubrs:
            n = lambda v: num(v, rng, 0)
            self.subrs = [n(3)+n(0)+b"\x0c\x10\x0c\x11\x0c\x11\x0c\x21\x0b", n(0)+n(1)+b"\x0c\x10\x0b", n(0)+n(2)+b"\x0c\x10\x0b", b"\x0b"]
            if rng.random() < 0.2: self.subrs.append(n(1)+n(3)+b"\x0c\x10\x0c\x11\x0a\x0b")
        self.chars = {}
        self.name = "Synth"+"".join(rng.choice("ABCXYZabc-") for _ in range(4))+"Z"
        names = ["A", "B", "e", "o", "grave", "acute", "dieresis", "x", "space", "period", "a.alt", "uni0041", "one", "f_i"]
        rng.shuffle(names)
        names = names[:rng.randint(3, 14)]
        self.matrix = rng.choice([(0.001, 0, 0, 0.001, 0, 0)]*5+[(0.0005, 0, 0, 0.0005, 0, 0), (0.001, 0, 0.0002, 0.001, 0, 0), (0.00048828125, 0, 0, 0.00048828125, 0, 0), (0.001, 0, 0, 0.001, 0.05, -0.02)])
        self.sb = {}
        self.chars[".notdef"] = self.simple(empty=True)
        for n in names: self.chars[n] = self.simple(n)
        std = [n for n in names if n in t1.STANDARD]
        if len(std) >= 2 and rng.random() < 0.7:
            for k in range(rng.randint(1, 3)):
                b, a = rng.sample(std, 2)
                c = self.composite(b, a)
                if c is not None: self.chars["comp%d" % k] = c
        if rng.random() < 0.3:   # further subrs which nobody calls
            for k in range(rng.randint(1, 3)): self.subrs.append(num(rng.randint(-5, 5), rng)+b"\x06\x0b") if self.hassubrs else None
        self.names = [n for n in self.chars if n != ".notdef"]
        order = list(self.chars); rng.shuffle(order); self.order = order

    def n(self, v):
        rng = self.rng
        if rng.random() < 0.08:
            d = rng.choice([2, 3, 5, 8, 10, 100])
            return num(int(v)*d+rng.choice([0, 0, 1, d-1]), rng, 0)+num(d, rng, 0)+b"\x0c\x0c"
        return num(v, rng)

    def sub(self, code):
        "call code through a subroutine (code must leave nothing half done)"
        rng = self.rng
        if not self.hassubrs: return code
        if rng.random() < 0.3 and self.lastsub is not None and len(self.subrs) < 200: pass
        self.subrs.append(code+b"\x0b")
        return num(len(self.subrs)-1, rng)+b"\x0a"

    def simple(self, name=None, empty=False):
        rng, n = self.rng, self.n
        self.lastsub = None
        c = rng.choice([-300, -100, 0, 0, 12, 30, 107, 108, 250])
        w = rng.choice([0, 250, 500, 600, 777, 1000, 1131, 1132, 2048])
        if rng.random() < 0.9:
            head = num(c, rng)
            if rng.random() < 0.3: head += num(w*10+7, rng)+num(10, rng)+b"\x0c\x0c"
            else: head += num(w, rng)
            head += b"\x0d"; self.sb[name] = (c, 0)
        else:
            y = rng.choice([0, 10, -50]); head = num(c, rng)+num(y, rng)+num(w, rng)+num(rng.choice([0, 0, 1000]), rng)+b"\x0c\x07"; self.sb[name] = (c, y)
        if empty or rng.random() < 0.05: return head+b"\x0e"
        parts = []
        hint = lambda: rng.choice([lambda: n(rng.randint(-200, 600))+n(rng.randint(1, 99))+rng.choice([b"\x01", b"\x03"]),
                                   lambda: b"".join(n(v) for v in sorted(rng.sample(range(700), 6)))+rng.choice([b"\x0c\x01", b"\x0c\x02"])])()
        for _ in range(rng.randint(0, 3)): parts.append(hint())
        v = lambda: rng.choice([rng.randint(-107, 107), rng.randint(-300, 300), rng.randint(-1500, 1500), rng.choice([-1, 1])*rng.choice([107, 108, 363, 364, 1131, 1132, 40000])])
        for _ in range(rng.randint(1, 4)):
            if self.flexsubrs and rng.random() < 0.3:
                k = len(self.subrs); self.subrs.append(hint()+b"\x0b")
                parts.append(num(k, rng)+(num(1, rng, 0)+num(3, rng, 0)+b"\x0c\x10\x0c\x11\x0a" if len(self.subrs) < 6 or self.subrs[4][-2:] != b"\x0a\x0b" or rng.random() < 0.5 else num(4, rng)+b"\x0a"))
            if rng.random() < 0.1: parts.append(b"\x0c\x00")
            parts.append(rng.choice([lambda: n(v())+b"\x16", lambda: n(v())+b"\x04", lambda: n(v())+n(v())+b"\x15"])())
            for _ in range(rng.randint(1, 5)):
                k = rng.randrange(7)
                if k == 0: parts.append(n(v())+b"\x06")
                elif k == 1: parts.append(n(v())+b"\x07")
                elif k == 2: parts.append(n(v())+n(v())+b"\x05")
                elif k == 3: parts.append(b"".join(n(v()) for _ in range(6))+b"\x08")
                elif k == 4: parts.append(b"".join(n(v()) for _ in range(4))+b"\x1e")
                elif k == 5: parts.append(b"".join(n(v()) for _ in range(4))+b"\x1f")
                elif self.flexsubrs: parts.append(None)     # flex: needs the absolute end point
            if rng.random() < 0.93: parts.append(b"\x09")
        # flex needs to know where it ends: interpret what precedes
        out = head
        for p in parts:
            if p is None:
                at = self.where(out)
                if at is None: continue
                if at[0] != int(at[0]) or at[1] != int(at[1]): continue
                x, y = map(int, at)
                s = num(1, rng)+b"\x0a"
                d = [(rng.randint(-99, 99), rng.randint(-20, 20)) for _ in range(7)]
                for a, b in d:
                    x += a; y += b
                    s += (num(a, rng)+num(b, rng)+b"\x15" if a and b or rng.random() < 0.5 else num(a, rng)+b"\x16" if not b else num(b, rng)+b"\x04" if not a else num(a, rng)+num(b, rng)+b"\x15")+num(2, rng)+b"\x0a"
                p = s+num(50, rng)+num(x, rng)+num(y, rng)+num(0, rng)+b"\x0a"
            elif self.hassubrs and rng.random() < 0.15:
                p = self.sub(p)
                if rng.random() < 0.2: p = self.sub(p)
            out += p
        if self.hassubrs and rng.random() < 0.05: return out+self.sub(b"\x0e")
        return out+b"\x0e"

    def where(self, code):
        f = t1.Font.__new__(t1.Font); f.subrs = dict(enumerate(self.subrs)); f.chars = {"x": code+b"\x0e"}; f.name = "tmp"
        g = f.glyph("x")
        return (g.x, g.y)

    def composite(self, b, a):
        rng = self.rng
        (sx, sy), (ax, ay) = self.sb[b], self.sb[a]
        if sy or ay: return None
        f = t1.Font.__new__(t1.Font); f.subrs = dict(enumerate(self.subrs)); f.chars = self.chars; f.name = "tmp"
        gb = f.glyph(b)
        # the composite has the side bearing and width of the base character
        if gb.wx != int(gb.wx): head = num(sx, rng)+num(round(gb.wx*10), rng)+num(10, rng)+b"\x0c\x0c\x0d"
        else: head = num(sx, rng)+num(int(gb.wx), rng)+b"\x0d"
        if f.glyph(a).wx == gb.wx and False: return None
        return head+num(ax, rng)+num(rng.randint(-300, 500), rng)+num(rng.randint(-200, 500), rng)+num(t1.STANDARD.index(b), rng)+num(t1.STANDARD.index(a), rng)+b"\x0c\x06"

    def build(self):
        "-> pfb, pfa"
        rng = self.rng
        nl = rng.choice(["\n", "\n", "\r", "\r\n"])
        L = ["%!PS-AdobeFont-1.0: "+self.name+" 001.001", "%%CreationDate: today", "% a comment with \xa9 and /Encoding in it" if rng.random() < 0.1 and False else "% comment", "11 dict begin", "/FontInfo 4 dict dup begin",
             "/version (1.0) readonly def", "/Notice (Copyright %s 2026) readonly def" % ("\xa9" if rng.random() < 0.3 else "\\050c\\051"), "end readonly def", "/FontName /%s def" % self.name]
        self.uid = rng.random() < 0.5
        if rng.random() < 0.5: L.append("/PaintType 0 def" + nl + "/FontType 1 def")
        else: L.append("/FontType 1 def" + nl + "/PaintType 0 def")
        lookup = rng.random() < 0.25
        if lookup: L.insert(3, "FontDirectory/%s known{/%s findfont dup/UniqueID known{dup\n/UniqueID get 4000123 eq exch/FontType get 1 eq and}{pop false}ifelse\n{save true}{false}ifelse}{false}ifelse".replace("\n", nl) % (self.name, self.name))
        m = "/FontMatrix %s def" % (("[%s] readonly" if rng.random() < 0.5 else "[ %s ] readonly") % " ".join("%.15g" % x if abs(x) > 1e-4 or not x else "%.12f" % x for x in self.matrix))
        self.custom = rng.random() < 0.6
        self.encoding = {}
        if self.custom:
            free = list(range(256)); rng.shuffle(free)
            for g in self.names:
                for _ in range(rng.choice([0, 1, 1, 1, 2])): self.encoding[free.pop()] = g
            if not self.encoding: self.encoding[65] = self.names[0]
            items = list(self.encoding.items())
            if rng.random() < 0.8: items.sort()
            e = ["/Encoding 256 array", "0 1 255 {1 index exch /.notdef put} for"]+["dup %d /%s put" % x if rng.random() < 0.9 else "dup %d/%s put" % x for x in items]+[rng.choice(["readonly def", "def"])]
        else:
            e = ["/Encoding StandardEncoding def"]
            self.encoding = {i: g for i, g in enumerate(t1.STANDARD) if g in self.chars}
        b = "/FontBBox {-100 -250 1000 900} readonly def"
        blocks = [[m], e, [b]]; rng.shuffle(blocks)
        for x in blocks: L += x
        if self.uid: L.append("/UniqueID 4000%d def" % rng.randint(1, 999))
        L += ["currentdict end", "currentfile eexec"]
        clear = (nl.join(L)+rng.choice(["\n", "\r", nl] if nl != "\r\n" else ["\n"])).encode("latin1")
        iv = 4 if self.lenIV is None else self.lenIV
        lead = bytes(rng.randrange(256) for _ in range(iv))
        rd, nd, np = rng.choice([(b"RD", b"ND", b"NP"), (b"-|", b"|-", b"|"), (b"RD", b"noaccess def", b"noaccess put")])
        P = b"dup /Private 16 dict dup begin\n"
        if nd == b"noaccess def": P += b"/RD {string currentfile exch readstring pop} executeonly def\n"
        else: P += b"/"+rd+b" {string currentfile exch readstring pop} executeonly def\n/"+nd+b" {noaccess def} executeonly def\n/"+np+b" {noaccess put} executeonly def\n"
        P += b"/BlueValues [-20 0 450 470] def\n/MinFeature {16 16} ND\n" if nd != b"noaccess def" else b"/BlueValues [-20 0 450 470] def\n"
        P += b"/password 5839 def\n/StdHW [31] def\n"
        if self.uid: P += b"/UniqueID 4000%d def\n" % rng.randint(1, 999)
        if self.lenIV is not None: P += b"/lenIV %d def\n" % self.lenIV
        enc = lambda c: t1.encrypt(c, 4330, lead)
        S = b""
        if self.hassubrs:
            S = b"/Subrs %d  array\n" % len(self.subrs)
            for i, s in enumerate(self.subrs): s = enc(s); S += b"dup %d %d " % (i, len(s))+rd+b" "+s+b" "+np+b"\n"
            S += rng.choice([b"ND\n", b"def\n", b"noaccess def\n"]) if nd == b"ND" else b"noaccess def\n"
        C = b"2 index /CharStrings %d dict dup begin\n" % (len(self.chars)+rng.choice([0, 0, 1]))
        for g in self.order: s = enc(self.chars[g]); C += b"/"+g.encode()+b" %d " % len(s)+rd+b" "+s+b" "+nd+b"\n"
        C += b"end\n"
        # the order of Subrs and CharStrings: 2 index assumes the private dict below
        P += S+C+b"end\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n"
        x = t1.encrypt(P, 55665, rng.choice([b"abcd", b"\x01\x02\x03\x04", b"PyX!"]))
        tail = ("0"*64+"\n")*8+"cleartomark"+rng.choice(["", "\n"])
        if lookup: tail = tail.rstrip()+"\n{restore}if\n"
        tail = tail.encode()
        seg = lambda k, d: bytes([128, k])+len(d).to_bytes(4, "little")+d
        cut = sorted([0, len(x)]+[rng.randint(0, len(x)) for _ in range(rng.choice([0, 0, 1, 2]))])
        pfb = seg(1, clear)+b"".join(seg(2, x[a:b]) for a, b in zip(cut, cut[1:]))+seg(1, tail)+b"\x80\x03"
        h = x.hex(); w = rng.choice([64, 60, 78, 256])
        if rng.random() < 0.3: h = h.upper()
        pfa = clear+nl.encode().join(h[i:i+w].encode() for i in range(0, len(h), w))+nl.encode()+tail.replace(b"\n", nl.encode())
        return pfb, pfa


# ---------------------------------------------------------------- comparison
def standardsubrs(f):
    n = f.subrs
    return n.get(1) == b"\x8b\x8c\x0c\x10\x0b" and n.get(2) == b"\x8b\x8d\x0c\x10\x0b" and n.get(3) == b"\x0b" and n.get(0) == b"\x8e\x8b\x0c\x10\x0c\x11\x0c\x11\x0c\x21\x0b"


def samekey(a, b):
    "the same advance, side bearing, hints and contours"
    if len(a.contours) != len(b.contours): return "%d contours instead of %d" % (len(b.contours), len(a.contours))
    if (a.wx, a.wy) != (b.wx, b.wy): return "advance %s instead of %s" % ((b.wx, b.wy), (a.wx, a.wy))
    if (a.sbx, a.sby) != (b.sbx, b.sby): return "side bearing %s instead of %s" % ((b.sbx, b.sby), (a.sbx, a.sby))
    if a.contours != b.contours: return "another outline: %s instead of %s" % (str(b.contours)[:300], str(a.contours)[:300])
    if a.hints != b.hints: return "other hints: %s instead of %s" % (str(b.hints)[:200], str(a.hints)[:200])


def outline(glyph, m):
    "geo subpaths of the glyph under the matrix m"
    b = geo.Builder()
    ap = lambda p: geo.ap(m, p)
    for start, segs, closed in glyph.contours:
        b.moveto(*ap(start))
        for s in segs:
            if len(s) == 1: b.lineto(*ap(s[0]))
            else: b.curveto(*[v for p in s for v in ap(p)])
        if closed: b.closepath()
    return b.subs


class F:
    "a font of a case: original (independent reading), PyX font"
    def __init__(self, rng, mon, synth):
        self.synth = synth
        if synth:
            s = Synth(rng); pfb, pfa = s.build()
            self.orig = t1.Font(pfb)
            self.label = s.name
            form = rng.choice(["pfb", "pfb", "pfa"]); mon.count("synth-"+form)
            data = pfb if form == "pfb" else pfa
            if rng.random() < 0.5:
                fn = os.path.join(mon.tmp, s.name+"."+form); open(fn, "wb").write(data)
                self.file = getattr(T1File, rng.choice(["from_PF_filename", "from_%s_filename" % form.upper()]))(fn)
            else: self.file = getattr(T1File, rng.choice(["from_PF_bytes", "from_%s_bytes" % form.upper()]))(data)
            mon.count("lenIV-%s" % s.lenIV); mon.count("subrs" if s.hassubrs else "no-subrs")
            self.afm = None
        else:
            fn = rng.choice(files()); self.label = os.path.basename(fn)
            data = open(fn, "rb").read()
            self.orig = t1.Font(data); self.file = T1File.from_PF_filename(fn)
            afm = fn.replace("/type1/", "/afm/")[:-4]+".afm"
            self.afm = None
            if os.path.exists(afm) and rng.random() < 0.5:
                try:
                    with open(afm) as f: self.afm = AFMfile(f)
                except UnicodeDecodeError: self.afm = None
            mon.count("real-nosubrs" if not self.orig.subrs else "real")
        self.font = T1font(self.file, self.afm)
        self.names = [n for n in self.orig.chars if n != ".notdef"]
        if self.afm is not None:
            self.widths = {}
            for n in list(self.names):
                try: self.widths[n] = self.afm.width_ds(n)
                except KeyError: self.names.remove(n)
        self.codes = [i for i, n in enumerate(self.orig.encoding) if n in self.orig.chars and n != ".notdef" and (self.afm is None or n in self.widths)]
        self.decode = {i: n for i, n in enumerate(self.names)}

    def pick(self, rng, bycode):
        k = rng.choice([1, 1, 2, 3, 5, 9, 20, 60])
        src = self.codes if bycode else list(self.decode)
        special = []
        if not bycode and rng.random() < 0.5: special = [i for i, n in self.decode.items() if b"\x0c\x06" in self.orig.chars[n]]
        out = [rng.choice(special if special and rng.random() < 0.5 else src) for _ in range(k)]
        return out, [self.orig.encoding[i] if bycode else self.decode[i] for i in out]


def subset(mon, fmt, data, orig, prog, stripped, label, used):
    "the embedded program prog against the original"
    for k in ("name", "matrix"):
        mon.check(getattr(prog, k) == getattr(orig, k), "header", "%s of %s in %s is %s instead of %s" % (k, label, fmt, getattr(prog, k), getattr(orig, k)))
    a, b = dict(orig.privkeys), dict(prog.privkeys)
    for d in (a, b): d.pop("UniqueID", None); d.pop("RD", None)
    mon.check(a == b, "private", "private dictionary of %s in %s: %s instead of %s" % (label, fmt, b, a))
    for n in used: mon.check(n in prog.chars, "glyph-missing", "glyph %s of %s missing in %s" % (n, label, fmt))
    extra = [n for n in prog.chars if n not in orig.chars]
    mon.check(not extra, "glyph-unknown", "%s in %s" % (extra, fmt))
    if not stripped: mon.check(set(prog.chars) == set(orig.chars), "unstripped", "%d instead of %d glyphs in %s of %s" % (len(prog.chars), len(orig.chars), fmt, label))
    names = list(prog.chars) if len(prog.chars) < 40 else sorted(used)[:60]
    for n in names:
        if n not in prog.chars: continue
        try: g = prog.glyph(n)
        except t1.Bad as e:
            if n not in used: mon.count("dangling"); continue
            mon.fail("glyph-broken", "glyph %s of %s in %s: %s" % (n, label, fmt, e)); continue
        w = samekey(orig.glyph(n), g)
        if w and (n in used): mon.fail("outline", "glyph %s of %s in %s has %s" % (n, label, fmt, w))
        mon.count("glyph-"+fmt)
        if g.used & {0, 1, 2, 3} and standardsubrs(orig):
            # flex and hint replacement need all of the first four subroutines
            miss = [i for i in range(4) if prog.subrs.get(i) != orig.subrs[i]]
            mon.check(not miss, "flexsubrs", lambda: "subroutines %s missing or changed in %s of %s" % (miss, fmt, label))
        if g.seac: mon.count("composite")
        if (12, 33) in g.seen: mon.count("flex")
        if "replace" in g.hints: mon.count("hint-replacement")


def psprograms(data):
    out, p = {}, 0
    while True:
        i = data.find(b"%%BeginFont:", p)
        if i < 0: return out
        e = data.index(b"%%EndFont", i)
        nm = data[i+12:data.index(b"\n", i)].strip().decode("latin1")
        if nm in out: raise outi.Malformed("font %s included twice" % nm)
        out[nm] = t1.Font(data[data.index(b"\n", i)+1:e]); p = e


def checkps(mon, data, fmt, texts, stripped):
    pages = pub.read(data, fmt)
    progs = psprograms(data)
    mon.check(set(progs) == {t["f"].orig.name for p in texts for t in p}, "fonts", "%s includes the fonts %s" % (fmt, sorted(progs)))
    used = {}
    for p, evs in zip(texts, pages):
        evs = [e for e in evs.events if e.op == "text"]
        mon.check(len(evs) == len(p), "texts", lambda: "%d instead of %d texts in %s" % (len(evs), len(p), fmt))
        for t, e in zip(p, evs):
            o = t["f"].orig
            enc = [str(x) for x in e.fontdict["Encoding"]] if e.fontdict["Encoding"][0] != "StandardEncoding" or len(e.fontdict["Encoding"]) == 256 else [x or ".notdef" for x in t1.STANDARD]
            got = [enc[c] if c < len(enc) else ".notdef" for c in e.codes]
            mon.check(got == t["names"], "codes", lambda: "%s shows %s instead of %s" % (fmt, got[:20], t["names"][:20]))
            used.setdefault(o.name, (t["f"], set()))[1].update(t["names"])
            mon.close(float(e.size), t["size"], 1e-5, "size", "font size in %s" % fmt)
            mon.ptclose(e.at, t["at"], 2e-5, "place", "position in %s" % fmt)
            m = [float(x) for x in e.fontdict["FontMatrix"]]
            w = o.matrix if not t["slant"] else geo.mul((1, 0, t["slant"], 1, 0, 0), o.matrix) if False else slanted(o.matrix, t["slant"])
            mon.check(max(abs(a-b) for a, b in zip(m, w)) < 1e-8+2e-6*abs(t["slant"] or 0), "fontmatrix", lambda: "font matrix %s instead of %s in %s" % (m, w, fmt))
            if not t["slant"]: mon.check(m == o.matrix, "fontmatrix", lambda: "font matrix %s instead of %s" % (m, o.matrix))
    for n, (f, u) in used.items():
        if n in progs: subset(mon, fmt, data, f.orig, progs[n], stripped, f.label, u)
        tail = progs[n].tail.replace(b"\n", b"").replace(b"\r", b"")
        mon.check(re.match(rb"0{512,}cleartomark", tail), "tail", "end of the font program of %s is %r" % (n, progs[n].tail[-60:]))


def slanted(m, s):
    "text is slanted after the glyph coordinates have been mapped to the unit em"
    a, b, c, d, e, f = m
    return [a+s*b, b, c+s*d, d, e+s*f, f]


def checkpdf(mon, data, texts, stripped):
    pdf, pages = outi.read_pdf(data)
    used, seen = {}, {}
    for p, pg in zip(texts, pages):
        evs = [e for e in pg.events if e.op == "text"]
        mon.check(len(evs) == len(p), "texts", "%d instead of %d texts in pdf" % (len(evs), len(p)))
        for t, e in zip(p, evs):
            f = t["f"]; o = f.orig
            fo = e.fontobj; fd = pdf.get(fo["FontDescriptor"])
            mon.check(str(fo["BaseFont"]) == o.name == str(fd["FontName"]), "basefont", "%s %s instead of %s" % (fo["BaseFont"], fd["FontName"], o.name))
            key = id(f)
            if key not in seen:
                so = pdf.get(fd["FontFile"]); raw = pdf.stream(so)
                l1, l2, l3 = (pdf.get(so["Length%d" % k]) for k in (1, 2, 3))
                mon.check(l1+l2+l3 == len(raw), "lengths", "Length1+2+3 = %d+%d+%d but the program has %d bytes" % (l1, l2, l3, len(raw)))
                mon.check(raw[:l1].rstrip().endswith(b"eexec") and raw[l1-1:l1] in b"\r\n \t", "lengths", "clear text part ends with %r" % raw[l1-20:l1])
                seen[key] = t1.Font(raw, split=(l1, l2))
            prog = seen[key]
            enc = prog.encoding
            if "Encoding" in fo:
                d = pdf.get(fo["Encoding"])
                enc, k = [None]*256, 0
                for x in pdf.get(d["Differences"]):
                    if isinstance(x, int): k = x
                    else: enc[k] = str(x); k += 1
            got = [enc[c] for c in e.codes]
            mon.check(got == t["names"], "codes", lambda: "pdf shows %s instead of %s" % (got[:20], t["names"][:20]))
            used.setdefault(key, (f, set()))[1].update(t["names"])
            W = pdf.get(fo["Widths"]); fc, lc = fo["FirstChar"], fo["LastChar"]
            mon.check(len(W) == lc-fc+1, "widths", "%d widths for %d..%d" % (len(W), fc, lc))
            for c, n in zip(e.codes, t["names"]):
                if not fc <= c <= lc: mon.fail("widths", "code %d outside %d..%d" % (c, fc, lc)); continue
                want = f.widths[n] if f.afm is not None else (o.glyph(n).wx*o.matrix[0]+o.glyph(n).wy*o.matrix[2])*1000
                mon.close(float(pdf.get(W[c-fc])), want, 0.006, "widths", "width of %s of %s in the pdf" % (n, f.label))
                mon.count("width")
            mon.close(float(e.size), t["size"], 1e-5, "size", "font size in pdf")
            mon.ptclose(e.tm[4:], t["at"], 2e-5, "place", "position in pdf")
            s = t["slant"] or 0
            mon.check(max(abs(a-b) for a, b in zip(e.tm[:4], (1, 0, s, 1))) < 1e-6, "slant", "text matrix %s for slant %s" % (e.tm, s))
    for key, (f, u) in used.items():
        subset(mon, "pdf", data, f.orig, seen[key], stripped, f.label, u)


SN = "{http://www.w3.org/2000/svg}"


def checksvg(mon, data, texts):
    root = ET.fromstring(data)
    fonts = {}
    for e in root.iter(SN+"font"):
        face = e.find(SN+"font-face"); d = fonts.setdefault(face.get("font-family"), {})
        for g in e.findall(SN+"glyph"):
            u = g.get("unicode")
            mon.check(u not in d, "svg-duplicate", "two glyphs for %r" % u)
            d[u] = g
    tx = list(root.iter(SN+"text"))
    mon.check(len(tx) == len(texts), "texts", "%d instead of %d texts in svg" % (len(tx), len(texts)))
    for t, e in zip(texts, tx):
        f = t["f"]; o = f.orig
        s = "".join(e.itertext())
        d = fonts.get(e.get("font-family"))
        mon.check(d is not None, "svg-font", "font %s missing" % e.get("font-family"))
        mon.close(float(e.get("font-size")), t["size"], 1e-5, "size", "font size in svg")
        mon.ptclose((float(e.get("x")), -float(e.get("y"))), t["at"], 2e-5, "place", "position in svg")
        # ligature-like strings of unicode: match glyphs greedily in the order of the text
        pos = 0
        for n in t["names"]:
            k = next((k for k in (1, 2, 3) if s[pos:pos+k] in d and same_svg(d[s[pos:pos+k]], o.glyph(n), o.matrix)), None)
            if k is None:
                mon.fail("svg-glyph", "glyph %s of %s is not what the text %r shows at %d (%s)" % (n, f.label, s[:20], pos, why_svg(d.get(s[pos:pos+1]), o.glyph(n), o.matrix))); return
            pos += k; mon.count("glyph-svg")
        mon.check(pos == len(s), "svg-text", "text %r has more characters than %s" % (s, t["names"]))


def why_svg(g, glyph, m):
    if g is None: return "no such glyph"
    k = [x*1000 for x in m]
    if abs(float(g.get("horiz-adv-x"))-(glyph.wx*k[0]+glyph.wy*k[2])) > 1e-4: return "advance %s instead of %s" % (g.get("horiz-adv-x"), glyph.wx*k[0])
    subs = outi.svgpath(g.get("d") or "").subs
    return geo.subs_match(subs, outline(glyph, k), 1e-3*max(1, ext(glyph, k)*1e-2), "outline")


def ext(glyph, m):
    return max([1]+[abs(v) for c in glyph.contours for p in [c[0]]+[q for s in c[1] for q in s] for v in geo.ap(m, p)])


def same_svg(g, glyph, m): return why_svg(g, glyph, m) is None


# ---------------------------------------------------------------- cases
def fontcase(rng, mon, synth):
    fonts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = F(rng, mon, synth)
        if f.names and f.orig.name not in [g.orig.name for g in fonts]: fonts.append(f)
    if not fonts: raise harness.Skip
    npages = rng.choice([1, 1, 2, 3])
    svg = rng.random() < 0.2
    if svg: npages = 1
    pages, texts, desc = [], [], []
    for p in range(npages):
        c = canvas.canvas(); tt = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            f = rng.choice(fonts)
            bycode = f.afm is None and rng.random() < 0.4 and bool(f.codes)
            chars, names = f.pick(rng, bycode)
            size = rng.choice([10, 12.5, 7, 100, rng.uniform(5, 30)])
            at = (round(rng.uniform(-200, 200), 3), round(rng.uniform(-200, 200), 3))
            slant = rng.choice([None, None, None, None, 0.2, -0.3])
            t = f.font.text_pt(at[0], at[1], chars, size, decoding=None if bycode else f.decode, slant=None if svg else slant)
            c.insert(t)
            tt.append(dict(f=f, names=names, size=size, at=at, slant=None if svg else slant, bycode=bycode))
            desc.append("%s %s %s" % (f.label, "codes" if bycode else "names", " ".join(names)[:120]))
            mon.count("by-code" if bycode else "by-name")
        pages.append(c); texts.append(tt)
    mon.describe("; ".join(desc)[:1500])
    strip = rng.random() < 0.75
    mon.count("stripped" if strip else "unstripped")
    if svg:
        mon.count("svg")
        checksvg(mon, pub.write(pages[0], "svg", write_textaspath=False), texts[0])
    else:
        doc = document.document([document.page(c) for c in pages])
        for fmt in (["ps", "pdf"] if rng.random() < 0.3 else [rng.choice(["ps", "pdf"])]):
            if fmt == "ps": data = pub.write(doc, "ps", stripfonts=strip); checkps(mon, data, "ps", texts, strip)
            else: data = pub.write(doc, "pdf", stripfonts=strip, compress=rng.random() < 0.5); checkpdf(mon, data, texts, strip)
            mon.count(fmt)
    mon.nontrivial("%s %s %d" % (sorted({n for p in texts for t in p for n in t["names"]}), [f.label for f in fonts], npages))


def pathcase(rng, mon, synth):
    "outlines as paths and advances"
    f = F(rng, mon, synth)
    if not f.names: raise harness.Skip
    bycode = f.afm is None and rng.random() < 0.3 and bool(f.codes)
    chars, names = f.pick(rng, bycode); chars, names = chars[:12], names[:12]
    size = rng.choice([10, 1000, 12.345]); x0, y0 = rng.uniform(-50, 50), rng.uniform(-50, 50)
    mon.describe("%s %s at %g,%g size %g" % (f.label, " ".join(names), x0, y0, size))
    spaced = rng.choice([0, 0, 1.5])
    t = f.font.text_pt(x0, y0, chars, size, decoding=None if bycode else f.decode, spaced_pt=spaced, ignorebbox=f.afm is not None)
    want, x, y = [], x0, y0
    o = f.orig
    far = 1
    for i, n in enumerate(names):
        g = o.glyph(n)
        if i: x += spaced
        k = geo.mul(tuple(o.matrix), (size, 0, 0, size, x, y))
        want += outline(g, k); far = max(far, ext(g, k))
        a = geo.ap(geo.mul(tuple(o.matrix[:4])+(0, 0), (size, 0, 0, size, 0, 0)), (g.wx, g.wy))
        x += a[0]; y += a[1]
        mon.count("path-glyph")
        if g.seac: mon.count("path-composite")
        if (12, 33) in g.seen: mon.count("path-flex")
        if (12, 12) in g.seen: mon.count("path-div")
        if rng.random() < 0.3:
            gp = f.file.getglyphpath_pt(1, 2, chars[i] if bycode else n, size, convertcharcode=bycode)
            mon.ptclose((gp.wx_pt, gp.wy_pt), a, 1e-6*max(1, abs(a[0])), "advance", "advance of %s" % n)
            got = fillsubs(gp.path)
            d = geo.subs_match(got, outline(g, geo.mul(tuple(o.matrix), (size, 0, 0, size, 1, 2))), 2e-5*max(1, far*0.1), "outline of %s of %s" % (n, f.label))
            if d: mon.fail("glyphpath", d)
    got = fillsubs(t.textpath())
    d = geo.subs_match(got, want, 2e-5*max(1, far*0.1), "text path of %s in %s" % (names, f.label))
    if d: mon.fail("textpath", d)
    fmt = rng.choice(["eps", "pdf", "svg"])
    if any(s.segs for s in want):
        c = canvas.canvas(); c.insert(t)
        if f.afm is not None: c.fill(path.rect_pt(0, 0, 1, 1))
        ev = [e for e in pub.events(c, fmt, write_textaspath=True)[0] if e.op == "fill"]
        d = geo.subs_match(ev[0].subs, want, 2e-5*max(1, far), "text as path in %s" % fmt)
        if d: mon.fail("textaspath", d)
    mon.nontrivial("path %s %s" % (f.label, names))


def fillsubs(p):
    if not len(p): return []
    c = canvas.canvas(); c.fill(p)
    from pyx import bbox
    try: ev = pub.events(c, "pdf")[0]
    except ValueError: return []
    return [s for e in ev for s in e.subs]


def filecase(rng, mon, synth):
    "files written again; commands of glyphs and subroutines read and set"
    f = F(rng, mon, synth); o = f.orig
    mon.describe("rewrite "+f.label)
    edit = rng.random() < 0.6
    changed = {}
    if edit:
        names = list(o.chars)
        for n in rng.sample(names, min(len(names), rng.randint(1, 4))):
            cmds = f.file.getglyphcmds(n)
            f.file.setglyphcmds(n, cmds)
            mon.check([str(x) for x in f.file.getglyphcmds(n)] == [str(x) for x in cmds], "setglyphcmds", "commands of %s of %s change when set to themselves" % (n, f.label))
            mon.count("set")
        for i in (rng.sample(range(o.nsubrs), min(o.nsubrs, 3)) if o.subrs else []):
            cmds = f.file.getsubrcmds(i); f.file.setsubrcmds(i, cmds)
            mon.check([str(x) for x in f.file.getsubrcmds(i)] == [str(x) for x in cmds], "setsubrcmds", "commands of subroutine %d of %s change when set to themselves" % (i, f.label))
    how = rng.choice(["PFA", "PFB"]); b = io.BytesIO()
    getattr(f.file, "output"+how)(writer.writer(b))
    try: n = t1.Font(b.getvalue())
    except (t1.Bad, ValueError, AttributeError, IndexError) as e:
        mon.fail("output"+how, "unreadable: %r" % e); return
    subset(mon, how, b.getvalue(), o, n, False, f.label, list(o.chars))
    mon.check(n.encoding == o.encoding, "encoding", "encoding of %s after %s" % (f.label, how))
    again = getattr(T1File, "from_%s_bytes" % how)(b.getvalue())
    b2 = io.BytesIO(); getattr(again, "output"+how)(writer.writer(b2))
    n2 = t1.Font(b2.getvalue())
    z = lambda f: re.sub(rb"\s", b"", f.tail)
    mon.check((n2.clear, n2.private, z(n2)) == (n.clear, n.private, z(n)), "rewrite", "%s of %s differs when read and written again" % (how, f.label))
    mon.count("rewrite-"+how)
    mon.nontrivial("file %s %s %s" % (f.label, how, edit))


@functools.lru_cache(None)
def byname():
    out = {}
    for fn in files():
        with open(fn, "rb") as f: m = re.search(rb"/FontName\s*/(\S+)", f.read(20000))
        if m: out.setdefault(m.group(1).decode("latin1"), []).append(fn)
    return out


@functools.lru_cache(40)
def original(fn):
    with open(fn, "rb") as f: return t1.Font(f.read())


TEXFONTS = ["cmr10", "cmmi10", "cmsy10", "cmex10", "msam10", "msbm10", "logo10", "cmti12", "cmtt8", "lasy10", "ec-lmr10", "rm-lmri10", "ptmr7t", "phvr8t", "ptmri7t", "ptmro8t", "pcrr8t", "pplb8t", "psyr", "pzdr", "aer10", "cmbsy10", "eufm10"]
VIRTUAL = {"ptmr7t", "phvr8t", "ptmri7t", "ptmro8t", "pcrr8t", "pplb8t", "aer10"}
ENCODED = {"ec-lmr10", "rm-lmri10"}


def texcase(rng, mon):
    "texts set by TeX: the glyphs shown exist in the embedded fonts as in the originals"
    eng = scene.texengine("tex")
    npages = rng.choice([1, 2, 3])
    pages, want = [], []
    fns = rng.sample(TEXFONTS, rng.randint(1, 3))
    for fn in list(fns):
        try: dvi.tfm(fn)
        except (dvi.Bad, OSError, TypeError): fns.remove(fn)
    if not fns: raise harness.Skip
    for p in range(npages):
        c = canvas.canvas()
        for _ in range(rng.randint(1, 3)):
            fn = rng.choice(fns); t = dvi.tfm(fn)
            has = [x for x in range(t.bc, t.ec+1) if t.has(x)]
            cs = [rng.choice(has) for _ in range(rng.choice([1, 3, 10, 30]))]
            c.insert(eng.text(rng.uniform(0, 10), rng.uniform(0, 10), "\\font\\fnt=%s at %dpt\\fnt " % (fn, rng.choice([5, 10, 17]))+"{}".join("\\char%d " % x for x in cs)))
            want.append((fn, cs))
        pages.append(c)
    mon.describe("; ".join("%s %s" % x for x in want)[:1500])
    strip = rng.random() < 0.8; fmt = rng.choice(["ps", "pdf"])
    doc = document.document([document.page(c) for c in pages])
    data = pub.write(doc, fmt, stripfonts=strip, **({"compress": rng.random() < 0.5} if fmt == "pdf" else {}))
    used, shown, progs = {}, [], {}
    if fmt == "ps":
        pgs = pub.read(data, "ps"); progs = psprograms(data)
        for pg in pgs:
            for e in pg.events:
                if e.op != "text": continue
                n = str(e.fontdict["FontName"]); base = max((b for b in progs if n.startswith(b)), key=len, default=None)
                if base is None: mon.fail("tex-font", "font %s not included" % n)
                enc = progs[base].encoding if e.fontdict["Encoding"] == ["StandardEncoding"] else [str(x) for x in e.fontdict["Encoding"]]
                names = [enc[c] for c in e.codes]
                used.setdefault(base, set()).update(names); shown += [(base, x) for x in names]
    else:
        pdf, pgs = outi.read_pdf(data)
        for pg in pgs:
            for e in pg.events:
                if e.op != "text": continue
                fo = e.fontobj; fd = pdf.get(fo["FontDescriptor"]); base = str(fo["BaseFont"])
                if base not in progs:
                    so = pdf.get(fd["FontFile"]); progs[base] = t1.Font(pdf.stream(so), split=(pdf.get(so["Length1"]), pdf.get(so["Length2"])))
                enc = progs[base].encoding
                if "Encoding" in fo:
                    enc, k = [None]*256, 0
                    for x in pdf.get(pdf.get(fo["Encoding"])["Differences"]):
                        if isinstance(x, int): k = x
                        else: enc[k] = str(x); k += 1
                names = [enc[c] for c in e.codes]
                used.setdefault(base, set()).update(names); shown += [(base, x) for x in names]
                W, fc = pdf.get(fo["Widths"]), fo["FirstChar"]
                for c, n in zip(e.codes, names):
                    o = origof(base, progs[base]); w = o.glyph(n).wx*o.matrix[0]*1000
                    mon.check(abs(float(pdf.get(W[c-fc]))-w) <= 1.01, "tex-widths", lambda: "width of %s of %s: %s instead of %s" % (n, base, pdf.get(W[c-fc]), w))
    for base, u in used.items():
        subset(mon, fmt, data, origof(base, progs[base]), progs[base], strip, base, u)
    i = 0
    for fn, cs in want:
        if fn in VIRTUAL: return
        if fn in ENCODED: i += len(cs); continue
        got = shown[i:i+len(cs)]; i += len(cs)
        o = origof(got[0][0], progs[got[0][0]]) if got else None
        mon.check(o is not None and [x for b, x in got] == [o.encoding[c] for c in cs], "tex-codes", lambda: "codes %s of %s are shown as %s" % (cs, fn, got))
    mon.count("tex-"+fmt); mon.nontrivial("tex %s" % want)


def origof(name, prog):
    "the installed font of this name which has these glyphs"
    L = [original(f) for f in byname().get(name, [])]
    if not L: raise harness.Skip
    return max(L, key=lambda o: sum(o.chars.get(n) == c for n, c in prog.chars.items()))


def codeccase(rng, mon):
    n = rng.choice([0, 1, 3, 4, 5, 50, 1000])
    data = bytes(rng.randrange(256) for _ in range(n)); lead = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 4, 9])))
    r = rng.choice([55665, 4330, 0, 65535, rng.randrange(65536)])
    mon.describe("codec %d bytes, %d leading, r=%d" % (n, len(lead), r))
    c = t1code.encoder(data, r, lead)
    mon.check(c == t1.encrypt(data, r, lead), "encoder", "encoder differs from the definition")
    mon.check(t1code.decoder(c, r, len(lead)) == data, "inverse", "decoder does not undo encoder")
    k = rng.choice([0, 1, 4, n, n+1, n+50])
    mon.check(t1code.decoder(data, r, k) == t1.decrypt(data, r, k), "decoder", "decoder differs from the definition (skipping %d of %d)" % (k, n))
    mon.count("codec"); mon.nontrivial("codec %d %d %d %d" % (n, len(lead), r, k))


NATIVE = r'''
import sys, json, random
sys.path.insert(0, sys.argv[1])
import _t1code
rng = random.Random(sys.argv[2]); N = int(sys.argv[3]); mode = sys.argv[4]
def enc(p, r, lead):
    out = bytearray()
    for p in lead+p:
        c = p ^ (r >> 8); out.append(c); r = ((c+r)*52845+22719) % 65536
    return bytes(out)
def dec(c0, r, n):
    out = bytearray()
    for c in c0: out.append(c ^ (r >> 8)); r = ((c+r)*52845+22719) % 65536
    return bytes(out)[n:]
bad = []; calls = 0
for i in range(N):
    n = rng.choice([0, 1, 2, 3, 4, 5, 16, 100, 3000, 70000 if i % 50 == 0 else 7])
    data = rng.randbytes(n); lead = rng.randbytes(rng.choice([0, 1, 4, 4, 9]))
    r = rng.choice([55665, 4330, 0, 65535, rng.randrange(65536)])
    c = _t1code.encoder(data, r, lead); calls += 1
    if c != enc(data, r, lead): bad.append("encoder %d %d %d" % (n, r, len(lead)))
    if _t1code.decoder(c, r, len(lead)) != data: bad.append("inverse %d %d %d" % (n, r, len(lead)))
    ks = [0, n] if mode == "plain" else [n+1, n+50, -1, -n, -n-1, -100000, 2**31-1, -2**31]
    for k in ks:
        calls += 1
        try: g = _t1code.decoder(data, r, k)
        except Exception as e: g = repr(e)
        if g != dec(data, r, k): bad.append("decoder n=%d skip=%d -> %r" % (n, k, g[:60]))
    if mode != "plain":
        for a in [(), (b"", ), ("x", 1, 1), (b"a", "1", 1), (b"a", 1), (None, 1, 1)]:
            for f in (_t1code.decoder, _t1code.encoder):
                calls += 1
                try: f(*a); bad.append("%s%r accepted" % (f.__name__, a))
                except TypeError: pass
print(json.dumps({"calls": calls, "bad": bad[:5]}))
'''


def native(mon, kind):
    mon.describe(kind)
    src = os.path.join(REPO, "pyx/font/_t1code.c")
    d = mon.tmp
    so = os.path.join(d, "_t1code"+sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["gcc", "-g", "-O1", "-fPIC", "-shared", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-I"+sysconfig.get_path("include"), src, "-o", so]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: mon.fail("compile", r.stderr[-1500:]); return
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ubsan = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    fn = os.path.join(d, "drive.py"); open(fn, "w").write(NATIVE)
    env = dict(os.environ, LD_PRELOAD=asan+" "+ubsan, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", PYTHONMALLOC="malloc")
    r = subprocess.run([sys.executable, fn, d, os.environ.get("VERIF_SEED", "1"), "3000" if kind == "native" else "400", "plain" if kind == "native" else "args"], capture_output=True, text=True, env=env, timeout=250)
    if r.returncode or not r.stdout.strip():
        mon.fail("sanitizer", "exit %d: %s" % (r.returncode, r.stderr[:2500])); return
    o = json.loads(r.stdout.strip().split("\n")[-1])
    mon.check(not o["bad"], "native-codec", lambda: "; ".join(o["bad"]))
    mon.count("native-calls", o["calls"]); mon.nontrivial(kind)


def run_case(kind, i, rng, mon):
    if kind in DIRECTED: return native(mon, kind)
    k = i % 11
    if k == 10: scene.TMP[0] = mon.tmp; return texcase(rng, mon)
    if k == 0: return codeccase(rng, mon)
    if k in (1, 2, 3): return fontcase(rng, mon, False)
    if k in (4, 5, 6): return fontcase(rng, mon, True)
    if k == 7: return pathcase(rng, mon, False)
    if k == 8: return pathcase(rng, mon, True)
    return filecase(rng, mon, rng.random() < 0.7)
