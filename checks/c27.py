"""C27: included EPS and SVG files land where they are put, and parsed SVG is the geometry and paint of the SVG standard."""
import io, math, os, re
import xml.etree.ElementTree as ET
import geo, gen, pub, outi, valid, draw
from harness import Skip
from pyx import bbox as pbbox, canvas, color, document, epsfile, path, style, svgfile, trafo, unit
from PIL import ImageColor

PROPERTY = "C27"
LEVEL = "exploration"
RULE = ("generated EPS files (bounding box in header or trailer, data sections and nested documents that imitate structure comments, all line ends, unbalanced "
        "programs) and SVG files (all shapes, path commands in many spellings, nested groups, transformations, inherited styles, units, viewBox) included at random "
        "places, sizes and alignments into canvases with own state; marks, pens, paints, clips and boxes read back from PS, PDF and SVG; malformed files; distinct by "
        "features used")
QUICK, THOROUGH = 1500, 180000
REQUIRED = {"S after A": 15, "S after C": 14, "S after L": 57, "S after M": 38, "S after Q": 14, "S after S": 118, "S after T": 14, "S after Z": 5, "T after A": 14, "T after C": 15, "T after L": 53, "T after M": 36, "T after Q": 12, "T after S": 16, "T after T": 108, "T after Z": 6, "align bc": 11, "align bl": 6, "align br": 10, "align cc": 12, "align cl": 5, "align cr": 9, "align tc": 13, "align tl": 9, "align tr": 10, "atend": 60, "attribute fill": 1008, "attribute fill-rule": 369, "attribute stroke": 1016, "attribute stroke-dasharray": 447, "attribute stroke-dashoffset": 376, "attribute stroke-linecap": 384, "attribute stroke-linejoin": 374, "attribute stroke-miterlimit": 371, "attribute stroke-width": 368, "attribute transform": 531, "binary": 23, "box given": 24, "compact flags": 87, "cr": 35, "crlf": 32, "dasharray": 376, "dasharray none": 70, "data bytes": 33, "data lines": 31, "dictionary left": 44, "empty path data": 14, "empty rect": 25, "group": 501, "height": 56, "height and ratio": 21, "hex colour": 248, "ignored things": 205, "lf": 62, "marks": 1825, "named colour": 462, "nested document": 50, "no clip": 44, "no final newline": 33, "no points": 30, "no width": 29, "not translated": 25, "operands left": 44, "parsed box": 205, "parsed in eps": 70, "parsed in pdf": 68, "parsed in svg": 67, "path A": 83, "path C": 94, "path H": 45, "path L": 98, "path M": 261, "path Q": 81, "path S": 80, "path T": 89, "path V": 48, "path Z": 30, "path a": 77, "path c": 80, "path h": 43, "path l": 92, "path m": 285, "path q": 84, "path s": 95, "path t": 79, "path v": 51, "path z": 37, "percent size": 22, "pixels pdf": 4004, "pixels ps": 3568, "repeated A": 33, "repeated C": 40, "repeated H": 20, "repeated L": 37, "repeated M": 100, "repeated Q": 34, "repeated S": 32, "repeated T": 32, "repeated V": 17, "repeated a": 32, "repeated c": 30, "repeated h": 19, "repeated l": 37, "repeated m": 109, "repeated q": 31, "repeated s": 38, "repeated t": 30, "repeated v": 22, "rgb(%)": 201, "rgb()": 204, "root position": 45, "root styles": 71, "scale": 33, "shape circle": 110, "shape ellipse": 121, "shape line": 110, "shape path": 478, "shape polygon": 105, "shape polyline": 105, "shape rect": 89, "shape rounded rect": 144, "short hex colour": 190, "structure comments": 112, "transform matrix": 97, "transform rotate": 105, "transform rotate3": 97, "transform scale": 90, "transform scale1": 90, "transform skewX": 89, "transform skewY": 102, "transform translate": 95, "transform translate1": 92, "twice": 27, "unbalanced gsave": 39, "unparsed placed": 17, "unparsed refused": 4, "unparsed skipped": 13, "viewBox": 132, "width": 91, "width and height": 56, "width and ratio": 23, "written eps": 63, "written ps": 66}
DIRECTED = ["epspdf", "epsbad", "svgbad", "ghostscript"]
PT = 72/2.54
IOERR = (OSError, ValueError)


def fmtnum(rng, v):
    "a spelling of a number and its value"
    k = rng.random()
    if k < .45: t = "%d" % round(v) if abs(v) >= 1 else "%.2f" % v
    elif k < .8: t = "%.*f" % (rng.randint(1, 4), v)
    elif k < .88: t = "%.3e" % v
    elif k < .94: t = "%.2fE+0" % v
    else: t = "%+.1f" % v
    if rng.random() < .3: t = re.sub(r"^([-+]?)0\.", r"\1.", t)
    if t in (".", "-.", "+."): t = "0"
    return t, float(t)


# ---------------------------------------------------------------- EPS
class Eps:
    "bytes, box, list of (op, color, lw, subs) in file coordinates"


def rbox(rng):
    x, y = rng.randint(-300, 300), rng.randint(-300, 300)
    return (x, y, x + rng.randint(1, 400), y + rng.randint(1, 400))


def reps(rng, atend=None):
    e = Eps(); nl = rng.choice([b"\n", b"\n", b"\r", b"\r\n"])
    e.box = box = rbox(rng); e.marks = []
    L = []
    first = rng.choice([b"%!PS-Adobe-3.0 EPSF-3.0", b"%!PS-Adobe-2.0 EPSF-1.2", b"%!PS", b"%!"])
    L.append(first)
    if atend is None: atend = rng.random() < .45
    def bb(b, fl=False):
        sp = rng.choice([b" ", b"  ", b"\t", b" "])
        v = [("%d" % x if not fl else "%.*f" % (rng.randint(1, 3), x)).encode() for x in b]
        return b"%%BoundingBox:" + rng.choice([b" ", b" ", b"", b"   "]) + sp.join(v) + rng.choice([b"", b"", b" "])
    head = [b"%%Creator: me %%BoundingBox: 1 2 3 4", b"%%Title: " + b"x"*rng.randint(0, 600), b"%%HiResBoundingBox: 1.5 2.5 3.5 4.5", b"%%LanguageLevel: 2", b"%%DocumentData: Clean7Bit",
            b"%%+ continued", b"%%Pages: 1"]
    rng.shuffle(head); head = head[:rng.randint(0, 5)]
    pos = rng.randint(0, len(head))
    if not atend:
        head.insert(pos, bb(box))
        if rng.random() < .25: head.insert(rng.randint(pos+1, len(head)), rng.choice([bb(rbox(rng)), b"%%BoundingBox: (atend)"]))
    else: head.insert(pos, b"%%BoundingBox:" + rng.choice([b" (atend)", b"(atend)", b"  (atend) "]))
    L += head
    e.implicit = rng.random() < .25
    if not e.implicit: L.append(b"%%EndComments")
    else: L.append(rng.choice([b"/mm {moveto} def", b"1 pop", b"newpath"]))
    feats = []
    def trap(): return rng.choice([b"%%Trailer", bb(rbox(rng)), b"%%EndComments", b"%%EOF", b"%%EndDocument", b"% nothing"])
    def rubbish():
        k = rng.random()
        if k < .25:     # bytes
            data = b"%" + bytes(rng.choice([i for i in range(256) if i not in (10, 13)]) for i in range(rng.randint(0, 700))) + nl + b"".join(trap() + nl for i in range(rng.randint(0, 3)))
            L.append(b"%%BeginData: " + str(len(data)).encode() + rng.choice([b"", b" Binary", b" Binary Bytes", b" Hex Bytes", b" ASCII Bytes"]))
            if rng.random() < .5: L.append(data + rng.choice([b"", b"%"]) + b"%%EndData" if False else data + (b"" if rng.random() < .5 else nl) + b"%%EndData")
            else: L.append(data + b"%%EndData")
            feats.append("data bytes")
        elif k < .5:
            lines = [trap() for i in range(rng.randint(0, 4))]
            L.append(b"%%BeginData: " + str(len(lines)).encode() + rng.choice([b" ASCII", b" Hex"]) + b" Lines")
            L.extend(lines); L.append(b"%%EndData"); feats.append("data lines")
        elif k < .65:
            data = b"%" + bytes(rng.choice([i for i in range(256) if i not in (10, 13)]) for i in range(rng.randint(0, 300))) + nl + trap() + nl
            L.append(b"%%BeginBinary: " + str(len(data)).encode()); L.append(data + b"%%EndBinary"); feats.append("binary")
        else:
            L.append(b"%%BeginDocument: inner.eps"); L.append(b"%!PS-Adobe-3.0 EPSF-3.0"); L.append(bb(rbox(rng))); L.append(b"%%EndComments")
            if rng.random() < .4:
                L.append(b"%%BeginDocument: deeper.eps"); L.append(b"%!PS"); L.append(b"%%Trailer"); L.append(bb(rbox(rng))); L.append(b"%%EOF"); L.append(b"%%EndDocument")
            L.append(b"%%Trailer"); L.append(bb(rbox(rng))); L.append(b"%%EOF"); L.append(b"%%EndDocument"); feats.append("nested document")
    if rng.random() < .4: L.append(b"%%BeginProlog"); L.append(b"/mm {moveto} def"); L.append(b"%%EndProlog")
    lw, col = 1.0, ("gray", (0.0,))
    for j in range(rng.randint(1, 5)):
        if rng.random() < .35: rubbish()
        k = rng.random()
        if k < .3:
            col = ("rgb", tuple(round(rng.random(), 2) for i in range(3))); L.append(("%g %g %g setrgbcolor" % col[1]).encode())
        elif k < .5: lw = round(rng.uniform(.2, 9), 2); L.append(("%g setlinewidth" % lw).encode())
        elif k < .6: L.append(b"gsave"); feats.append("unbalanced gsave")
        elif k < .7: L.append(b"1 (rest) /name"); feats.append("operands left")
        elif k < .8: L.append(b"5 dict begin"); feats.append("dictionary left")
        b = geo.Builder(); pts = [(rng.randint(-500, 500), rng.randint(-500, 500)) for i in range(rng.randint(3, 6))]
        t = "newpath"
        for i, p in enumerate(pts): (b.moveto if i == 0 else b.lineto)(*p); t += " %d %d %s" % (p + ("moveto" if i == 0 else "lineto",))
        op = rng.choice(["fill", "stroke"])
        if rng.random() < .6: b.closepath(); t += " closepath"
        L += [x.encode() for x in (t + " " + op).split(" @ ")]
        e.marks.append((op, col, lw, b.subs))
    if rng.random() < .3: L.append(b"showpage")
    end = []
    if atend:
        end.append(b"%%Trailer")
        if rng.random() < .3: end.append(bb(rbox(rng)))
        if rng.random() < .3: end.append(b"%%DocumentFonts: none")
        e.box = box
        if rng.random() < .3:
            e.box = box = tuple(round(x + rng.choice([0, .25, -.125]), 3) for x in box); end.append(b"%%BoundingBox: " + b" ".join(("%.3f" % x).encode() for x in box))
        else: end.append(bb(box))
        if rng.random() < .7: end.append(b"%%EOF")
        feats.append("atend")
    elif rng.random() < .5: end += [b"%%Trailer"] + ([bb(rbox(rng))] if rng.random() < .3 else []) + [b"%%EOF"]
    L += end
    e.data = nl.join(L) + rng.choice([nl, nl, b"", nl*2])
    feats.append({b"\n": "lf", b"\r": "cr", b"\r\n": "crlf"}[nl])
    if not e.data.endswith(nl): feats.append("no final newline")
    e.feats = feats
    return e


def length(rng, lo, hi):
    "a pyx length, its value in pt"
    v = rng.uniform(lo, hi)
    k = rng.random()
    if k < .4: return v/PT, v
    if k < .7: return v*unit.t_pt, v
    return (v/PT)*unit.t_cm, v


def boxtuple(b): return (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)


def corners(m, b):
    pts = [geo.ap(m, (x, y)) for x in (b[0], b[2]) for y in (b[1], b[3])]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (min(xs), min(ys), max(xs), max(ys))


def matrix(t): return (t.matrix[0][0], t.matrix[1][0], t.matrix[0][1], t.matrix[1][1], t.vector[0]*PT if False else t.vector[0], t.vector[1])


def outercanvas(rng):
    "a canvas with own transformation, colour and clip; its state; a mark before"
    st = draw.State(); attrs = []
    if rng.random() < .4:
        m = geo.mul((math.cos(1), math.sin(1), -math.sin(1), math.cos(1), 0, 0), (rng.uniform(.3, 2), 0, 0, rng.uniform(.3, 2), 20, -30)) if rng.random() < .5 else (rng.choice([-1, 1])*rng.uniform(.3, 2), 0, 0, rng.uniform(.3, 2), rng.uniform(-50, 50), 3)
        attrs.append(draw.mk(("trafo", m))); st.ctm = m
    if rng.random() < .5:
        st.stroke = st.fill = ("rgb", tuple(round(rng.random(), 2) for i in range(3))); attrs.append(color.rgb(*st.stroke[1]))
    if rng.random() < .4: st.lw = 3.0; attrs.append(style.linewidth(3*unit.t_pt))
    if rng.random() < .3: st.cap = 1; attrs.append(style.linecap.round)
    if rng.random() < .3: st.rule = "evenodd"; attrs.append(style.fillrule.even_odd)
    return canvas.canvas(attrs), st


def square(c, st, want, rng, stroke=True):
    x, y = rng.uniform(-100, 100), rng.uniform(-100, 100)
    b = geo.Builder(); b.moveto(x, y); b.lineto(x+9, y); b.lineto(x+9, y+7)
    if stroke: c.stroke(path.path(path.moveto_pt(x, y), path.lineto_pt(x+9, y), path.lineto_pt(x+9, y+7)))
    else: c.fill(path.path(path.moveto_pt(x, y), path.lineto_pt(x+9, y), path.lineto_pt(x+9, y+7)))
    want.append(mark("stroke" if stroke else "fill", st, b.subs))


def mark(op, st, subs, lw=None):
    s = [x.tr(st.ctm) for x in subs]
    return draw.Want(op, st, s, gen.extent(s) if s else 1)


def epscase(rng, mon):
    e = reps(rng)
    fn = os.path.join(mon.tmp, rng.choice(["in.eps", "a b.eps", "x.epsf"]))
    open(fn, "wb").write(e.data)
    mon.describe((e.data, e.box, e.feats))
    for f in e.feats: mon.count(f)
    kw = {}
    x, xp = length(rng, -300, 300); y, yp = length(rng, -300, 300)
    B = e.box
    if rng.random() < .2:
        B = rbox(rng); kw["bbox"] = pbbox.bbox_pt(*B); mon.count("box given")
    w, h = B[2]-B[0], B[3]-B[1]
    sx = sy = 1.0
    k = rng.random()
    if k < .25: sx = sy = kw["scale"] = round(rng.uniform(.1, 3), 3); mon.count("scale")
    elif k < .45: kw["width"], v = length(rng, 5, 500); sx = sy = v/w; mon.count("width")
    elif k < .6: kw["height"], v = length(rng, 5, 500); sx = sy = v/h; mon.count("height")
    elif k < .8:
        kw["width"], v = length(rng, 5, 500); kw["height"], v2 = length(rng, 5, 500); sx, sy = v/w, v2/h; mon.count("width and height")
    if rng.random() < .7: kw["align"] = rng.choice("bct") + rng.choice("lcr"); mon.count("align " + kw["align"])
    if rng.random() < .3: kw["clip"] = 0; mon.count("no clip")
    if rng.random() < .2: kw["translatebbox"] = 0; mon.count("not translated")
    it = epsfile.epsfile(x, y, fn, **kw)
    al = kw.get("align", "bl")
    x0 = xp - {"l": 0, "c": .5, "r": 1}[al[1]]*w*sx; y0 = yp - {"b": 0, "c": .5, "t": 1}[al[0]]*h*sy
    m = (sx, 0, 0, sy, x0, y0)
    if kw.get("translatebbox", 1): m = geo.mul((1, 0, 0, 1, -B[0], -B[1]), m)
    wb = corners(m, B)
    gb = boxtuple(it.bbox())
    far = max(map(abs, wb)) + 1
    mon.check(all(abs(a-b) <= 1e-9*far for a, b in zip(gb, wb)), "eps-box", lambda: "bbox %r instead of %r; %r" % (gb, wb, kw))
    c, st = outercanvas(rng); want = []
    square(c, st, want, rng)
    c.insert(it)
    s2 = draw.State(); s2.ctm = geo.mul(m, st.ctm); s2.lw = 1.0
    if kw.get("clip", 1):
        b = geo.Builder(); b.moveto(wb[0], wb[1]); b.lineto(wb[2], wb[1]); b.lineto(wb[2], wb[3]); b.lineto(wb[0], wb[3]); b.closepath()
        b = [s.tr(st.ctm) for s in b.subs]
        s2.clips = ((b, "nonzero", gen.extent(b)*10),)
    for op, col, lw, subs in e.marks:
        s2 = s2.copy(); s2.lw = lw; s2.stroke = s2.fill = col
        want.append(mark(op, s2, subs)); want[-1].scale *= 3
    square(c, st, want, rng); square(c, st, want, rng, False)
    if rng.random() < .2:
        c.insert(epsfile.epsfile(0, 0, fn, clip=0, translatebbox=0, bbox=kw.get("bbox"))); mon.count("twice")
        s3 = draw.State(); s3.ctm = st.ctm; s3.lw = 1.0
        for op, col, lw, subs in e.marks: s3 = s3.copy(); s3.lw = lw; s3.stroke = s3.fill = col; want.append(mark(op, s3, subs))
    fmt = rng.choice(["eps", "ps"])
    obj = document.document([document.page(c)]) if fmt == "ps" else c
    kw2 = {} if fmt == "ps" else {}
    data = pub.write(obj, fmt, **kw2)
    mon.count("written " + fmt)
    # data sections that imitate the end of the document are beyond the DSC checker
    if e.data.count(b"%%EndDocument") == e.data.count(b"%%BeginDocument"): valid.dsc(data, fmt == "eps"); mon.count("structure comments")
    pages = pub.read(data, fmt)
    evs = pages[0].events
    if fmt == "ps": want = shiftpage(c, want, pages, mon, evs)
    sameclips(evs, want); draw.compare(mon, fmt, evs, want)
    mon.nontrivial((fmt, al, tuple(sorted(kw)), tuple(sorted(e.feats))))


def shiftpage(c, want, pages, mon, evs):
    "pages of documents without paper format are not moved"
    return want


# ---------------------------------------------------------------- SVG: the model
def svgarc(p, q, rx, ry, phi, fa, fs):
    "the cubics of an elliptical arc, found on the unit circle"
    if math.dist(p, q) <= 1e-8: return []
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0: return "line"
    co, si = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    def to(a): return complex((co*a[0] + si*a[1])/rx, (-si*a[0] + co*a[1])/ry)
    def back(z, k):
        u, v = z.real*rx*k, z.imag*ry*k
        return (co*u - si*v, si*u + co*v)
    a, b = to(p), to(q)
    d = abs(b-a); k = 1.0
    if d >= 2: k = d/2; a /= k; b /= k; mid = (a+b)/2; c = mid
    else:
        n = (b-a)/d*1j; h = math.sqrt(max(0, 1-d*d/4))
        c = (a+b)/2 + (h if fa != fs else -h)*n*(1 if True else 0)
    t1 = math.atan2((a-c).imag, (a-c).real); t2 = math.atan2((b-c).imag, (b-c).real)
    if fs:
        while t2 < t1: t2 += 2*math.pi
    else:
        while t2 > t1: t2 -= 2*math.pi
    if 1e-9 < d < 2 - 1e-6: assert (abs(t2-t1) > math.pi) == bool(fa), "arc model"
    n = max(1, math.ceil(abs(t2-t1)/0.4)); out = []
    for i in range(n):
        u, v = t1 + (t2-t1)*i/n, t1 + (t2-t1)*(i+1)/n
        al = 4/3*math.tan((v-u)/4)
        eu, ev = complex(math.cos(u), math.sin(u)), complex(math.cos(v), math.sin(v))
        out.append([back(z, k) for z in (c + eu + al*1j*eu, c + ev - al*1j*ev, c + ev)])
    return out


def rpoint(rng, s=200): return rng.uniform(-s, s), rng.uniform(-s, s)


class Join:
    "joins the tokens of a list with the separators SVG allows"
    def __init__(self, rng): self.rng = rng; self.t = ""
    def add(self, tok, flag=False):
        r = self.rng
        if self.t and (self.t[-1].isdigit() or self.t[-1] == "."):
            if tok[0] in "+-" and r.random() < .5: sep = ""
            elif tok[0] == "." and "." in re.split(r"[^0-9.]", self.t)[-1] and r.random() < .5: sep = ""
            else: sep = r.choice([" ", ",", ", ", " ,", "\n ", " , "])
            self.t += sep
        elif self.t and r.random() < .3: self.t += r.choice([" ", "\n"])
        self.t += tok


def rpath(rng, mon):
    "the text of path data, subpaths"
    b = geo.Builder(); J = Join(rng); sub = None; cur = (0.0, 0.0); last = None; ctl = None
    def num(v): t, x = fmtnum(rng, v); J.add(t); return x
    def pt(rel, q):
        x = num(q[0] - (cur[0] if rel else 0)); y = num(q[1] - (cur[1] if rel else 0))
        return (x + (cur[0] if rel else 0), y + (cur[1] if rel else 0))
    n = rng.randint(1, 7); cmd = None; prevcmd = None
    for j in range(n):
        if j == 0: cmd = rng.choice("Mm")
        else:
            cmd = rng.choice("MmLlLlHhVvCcCcSsSsQqQqTtTtAaAaZz")
            if cmd in "Zz" and (last in ("Z", "M") or not b.subs[-1].segs): cmd = "L"
        J.add(cmd); C = cmd.upper(); rel = cmd != C; mon.count("path " + cmd)
        reps = rng.choice([1, 1, 1, 2, 3]) if C != "Z" else 1
        if reps > 1: mon.count("repeated " + cmd)
        for r in range(reps):
            if C == "M":
                q = pt(rel and not (j == 0 and r == 0), rpoint(rng))
                if r == 0: b.moveto(*q); sub = q
                else: b.lineto(*q)
                cur = q; last = "M" if r == 0 else "L"
            elif C == "L": q = pt(rel, rpoint(rng)); b.lineto(*q); cur = q; last = "L"
            elif C == "H": x = num(rng.uniform(-200, 200)); cur = (x + (cur[0] if rel else 0), cur[1]); b.lineto(*cur); last = "L"
            elif C == "V": y = num(rng.uniform(-200, 200)); cur = (cur[0], y + (cur[1] if rel else 0)); b.lineto(*cur); last = "L"
            elif C in "CS":
                if C == "C": p1 = pt(rel, rpoint(rng))
                else: p1 = (2*cur[0]-ctl[0], 2*cur[1]-ctl[1]) if last in ("C", "S") else cur
                if C == "S": mon.count("S after " + str(last))
                p2 = pt(rel, rpoint(rng)); p3 = pt(rel, rpoint(rng))
                b.curveto(*p1, *p2, *p3); cur, ctl, last = p3, p2, C
            elif C in "QT":
                if C == "Q": p1 = pt(rel, rpoint(rng))
                else: p1 = (2*cur[0]-ctl[0], 2*cur[1]-ctl[1]) if last in ("Q", "T") else cur
                if C == "T": mon.count("T after " + str(last))
                p2 = pt(rel, rpoint(rng))
                b.curveto(*[cur[i] + 2/3*(p1[i]-cur[i]) for i in (0, 1)], *[p2[i] + 2/3*(p1[i]-p2[i]) for i in (0, 1)], *p2); cur, ctl, last = p2, p1, C
            elif C == "A":
                rx, ry = num(rng.choice([rng.uniform(5, 150), rng.uniform(100, 300), -30 if rng.random() < .3 else 60])), num(rng.choice([rng.uniform(5, 150), rng.uniform(100, 300), 0 if rng.random() < .3 else 80]))
                phi = num(rng.choice([0, 30, -45, 90, rng.uniform(-400, 400)]))
                fa, fs = rng.choice("01"), rng.choice("01")
                J.add(fa); J.t += rng.choice(["", " ", ","]) + fs; J.t += rng.choice(["", " ", ","])
                if J.t[-1] in "01":      # compact flags: the number may follow directly
                    mon.count("compact flags")
                    t0 = J.t; J.t = ""; q = rpoint(rng)
                    if rng.random() < .1: q = cur
                    q2 = pt(rel, q); J.t = t0 + J.t; q = q2
                else: q = pt(rel, rpoint(rng) if rng.random() > .1 else cur)
                segs = svgarc(cur, q, rx, ry, phi, fa == "1", fs == "1")
                if segs == "line": b.lineto(*q)
                else:
                    for s in segs: b.curveto(*s[0], *s[1], *s[2])
                if not (last in ("Z", "M") and math.hypot(q[0]-cur[0], q[1]-cur[1]) < 1e-2): last = "A"
                cur = q
            else: b.closepath(); cur = sub; last = "Z"
            b_cur = cur
    return J.t, b.subs


def rtrafo(rng, u, mon):
    "text and matrix (user units) of a transform attribute"
    m = geo.IDENT; t = []
    for j in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["matrix", "translate", "translate1", "scale", "scale1", "rotate", "rotate3", "skewX", "skewY"])
        mon.count("transform " + k)
        J = Join(rng)
        def num(v): s, x = fmtnum(rng, v); J.add(s); return x
        if k == "matrix":
            a = [num(v) for v in (rng.uniform(.5, 1.5), rng.uniform(-.4, .4), rng.uniform(-.4, .4), rng.choice([-1, 1])*rng.uniform(.5, 1.5), rng.uniform(-50, 50), rng.uniform(-50, 50))]
            if abs(a[0]*a[3]-a[1]*a[2]) < .1: raise Skip
            x = tuple(a)
        elif k == "translate": x = (1, 0, 0, 1, num(rng.uniform(-90, 90)), num(rng.uniform(-90, 90)))
        elif k == "translate1": x = (1, 0, 0, 1, num(rng.uniform(-90, 90)), 0)
        elif k == "scale": x = (num(rng.choice([-1, 1])*rng.uniform(.55, 2)), 0, 0, num(rng.uniform(.55, 2)), 0, 0)
        elif k == "scale1": v = num(rng.uniform(.55, 2)); x = (v, 0, 0, v, 0, 0)
        elif k in ("rotate", "rotate3"):
            a = math.radians(num(rng.choice([30, -45, 90, rng.uniform(-400, 400)]))); x = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0)
            if k == "rotate3": cx, cy = num(rng.uniform(-90, 90)), num(rng.uniform(-90, 90)); x = geo.mul((1, 0, 0, 1, -cx, -cy), geo.mul(x, (1, 0, 0, 1, cx, cy)))
        elif k == "skewX": x = (1, 0, math.tan(math.radians(num(rng.uniform(-50, 50)))), 1, 0, 0)
        else: x = (1, math.tan(math.radians(num(rng.uniform(-50, 50)))), 0, 1, 0, 0)
        arg = J.t
        if rng.random() < .15: arg = rng.choice([" ", "\n"]) + arg
        if rng.random() < .2: arg += " "
        t.append(re.sub("[0-9]$", "", k) + rng.choice(["", "", "", " "]) + "(" + arg + ")")
        m = geo.mul(x, m)
    return rng.choice([" ", ", ", "", "\n", " , "]).join(t), m


def rcolor(rng, mon):
    k = rng.random()
    if k < .35:
        n = rng.choice(sorted(ImageColor.colormap)); v = ImageColor.getrgb(n)
        mon.count("named colour")
        return (n if n != "rebeccapurple" else "red"), tuple(x/255 for x in (v if n != "rebeccapurple" else (255, 0, 0)))
    if k < .5:
        h = "%03x" % rng.getrandbits(12); mon.count("short hex colour"); return "#" + rng.choice([h, h.upper()]), tuple(int(x, 16)/15 for x in h)
    if k < .7: h = "%06x" % rng.getrandbits(24); mon.count("hex colour"); return "#" + rng.choice([h, h.upper()]), tuple(int(h[i:i+2], 16)/255 for i in (0, 2, 4))
    if k < .85: v = [rng.randint(0, 255) for i in range(3)]; mon.count("rgb()"); return rng.choice(["rgb(%d,%d,%d)", "rgb( %d, %d , %d )", "rgb(%d, %d, %d)"]) % tuple(v), tuple(x/255 for x in v)
    v = [rng.randint(0, 100) for i in range(3)]; mon.count("rgb(%)"); return rng.choice(["rgb(%d%%,%d%%,%d%%)", "rgb(%d%%, %d%% ,%d%%)"]) % tuple(v), tuple(x/100 for x in v)


def rlen(rng, u, lo, hi, units=True):
    "text of a length and its value in user units"
    un = rng.choice(["", "", "", "px", "pt", "mm", "cm", "in", "pc"]) if units else ""
    f = {"": 1, "px": 1, "pt": 1/u, "mm": 72/25.4/u, "cm": 72/2.54/u, "in": 72/u, "pc": 12/u}[un]
    t, x = fmtnum(rng, rng.uniform(lo, hi)/f)
    if lo > 0 and x*f < lo/2: t, x = "%.2f" % (lo/f + .01), float("%.2f" % (lo/f + .01))
    return t + un, x*f


class St:
    "inherited SVG state"
    def __init__(self):
        self.fill, self.stroke = (0, 0, 0), None
        self.lw, self.cap, self.join, self.miter, self.dash, self.off, self.rule = 1.0, 0, 0, 4.0, (), 0.0, "nonzero"
        self.m = geo.IDENT
    def copy(self): s = St(); s.__dict__.update(self.__dict__); return s


def rattrs(rng, u, st, mon, shape):
    "list of attribute texts; changes st"
    A = []
    if rng.random() < .3: t, m = rtrafo(rng, u, mon); A.append(("transform", t)); st.m = geo.mul(m, st.m)
    for name in ("fill", "stroke"):
        r = rng.random()
        if r < (.4 if shape else .25): t, v = rcolor(rng, mon); A.append((name, t)); setattr(st, name, v)
        elif r < .5 and rng.random() < .5: A.append((name, "none")); setattr(st, name, None)
        elif r < .55: A.append((name, "inherit"))
    p = .2
    if rng.random() < p: t, v = rlen(rng, u, .3, 12); A.append(("stroke-width", t)); st.lw = v
    if rng.random() < p: k = rng.choice(["butt", "round", "square"]); A.append(("stroke-linecap", k)); st.cap = ["butt", "round", "square"].index(k)
    if rng.random() < p: k = rng.choice(["miter", "round", "bevel"]); A.append(("stroke-linejoin", k)); st.join = ["miter", "round", "bevel"].index(k)
    if rng.random() < p: t, v = fmtnum(rng, rng.uniform(1, 15)); A.append(("stroke-miterlimit", t)); st.miter = v
    if rng.random() < p:
        J = Join(rng); d = []
        for i in range(rng.randint(1, 4)): t, v = fmtnum(rng, rng.uniform(1, 20)); J.add(t.lstrip("+")); d.append(v)
        st.dash = tuple(d); st.off = 0.0; A.append(("stroke-dasharray", J.t)); mon.count("dasharray")
        if rng.random() < .5: t, v = fmtnum(rng, rng.uniform(0, 20)); A.append(("stroke-dashoffset", t)); st.off = v
        else: A.append(("stroke-dashoffset", "0"))
    elif rng.random() < .05: A.append(("stroke-dasharray", "none")); st.dash = (); mon.count("dasharray none")
    if rng.random() < p: k = rng.choice(["nonzero", "evenodd"]); A.append(("fill-rule", k)); st.rule = k
    for a, v in A: mon.count("attribute " + a)
    return A


def ellipse(b, cx, cy, rx, ry):
    k = 4/3*(math.sqrt(2)-1)
    n = 16
    e = lambda t: (cx + rx*math.cos(t), cy + ry*math.sin(t))
    d = lambda t: (-rx*math.sin(t), ry*math.cos(t))
    b.moveto(*e(0)); al = 4/3*math.tan(2*math.pi/n/4)
    for i in range(n):
        u, v = 2*math.pi*i/n, 2*math.pi*(i+1)/n
        b.curveto(e(u)[0]+al*d(u)[0], e(u)[1]+al*d(u)[1], e(v)[0]-al*d(v)[0], e(v)[1]-al*d(v)[1], *e(v))
    b.closepath()


def rounded(x, y, w, h, rx, ry):
    b = geo.Builder(); k = 4/3*math.tan(math.pi/16)
    def corner(cx, cy, t):
        for a in (t, t + math.pi/4):
            z = a + math.pi/4
            e = lambda s: (cx + rx*math.cos(s), cy + ry*math.sin(s)); d = lambda s: (-rx*math.sin(s), ry*math.cos(s))
            b.curveto(e(a)[0]+k*d(a)[0], e(a)[1]+k*d(a)[1], e(z)[0]-k*d(z)[0], e(z)[1]-k*d(z)[1], *e(z))
    b.moveto(x+rx, y)
    b.lineto(x+w-rx, y); corner(x+w-rx, y+ry, -math.pi/2)
    b.lineto(x+w, y+h-ry); corner(x+w-rx, y+h-ry, 0)
    b.lineto(x+rx, y+h); corner(x+rx, y+h-ry, math.pi/2)
    b.lineto(x, y+ry); corner(x+rx, y+ry, math.pi)
    b.closepath()
    return b.subs


def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


class Doc:
    pass


def rdoc(rng, mon, res):
    "an SVG document: .text, .marks (op, St, subs in user units), .size (pt), .mat: user units -> pt with the box at 0, .clip"
    D = Doc(); u = 72/res; D.u = u; D.marks = []; D.exact = []
    out = []
    pre = rng.choice(["", "", "svg:"])
    def tag(name, attrs, close=True):
        A = [(a, v) for a, v in attrs]; rng.shuffle(A)
        if rng.random() < .1: A.append((rng.choice(["id", "class", "data-x", "foo:bar", "xml:space"]), rng.choice(["default"])))
        A = [(a, v) for i, (a, v) in enumerate(A) if a != "id"]
        out.append("<%s%s%s%s>" % (pre, name, "".join("%s%s=\"%s\"" % (rng.choice([" ", "\n  "]), a, esc(v)) for a, v in A), "/" if close else ""))
    def shape(st):
        k = rng.choice(["rect", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "path", "path", "path"])
        st = st.copy(); A = []; b = geo.Builder()
        L = lambda lo, hi: rlen(rng, u, lo, hi)
        def put(name, lo, hi, default=None):
            if default is not None and rng.random() < .2: return default
            t, v = L(lo, hi); A.append((name, t)); return v
        if k == "rect":
            x, y, w, h = put("x", -100, 100, 0.0), put("y", -100, 100, 0.0), put("width", 5, 150), put("height", 5, 150)
            if rng.random() < .1: A = [(a, v) for a, v in A if a != "width"] + [("width", "0")]; w = 0
            rx = ry = None
            if rng.random() < .5: rx = put("rx", .5, 60)
            if rng.random() < .5: ry = put("ry", .5, 60)
            if rng.random() < .1 and rx is not None: A = [(a, v) for a, v in A if a != "rx"] + [("rx", "0")]; rx = 0
            if rx is None: rx = ry
            if ry is None: ry = rx
            rx, ry = min(rx or 0, w/2), min(ry or 0, h/2)
            if w == 0: mon.count("empty rect")
            elif rx == 0 or ry == 0: b.moveto(x, y); b.lineto(x+w, y); b.lineto(x+w, y+h); b.lineto(x, y+h); b.closepath()
            else:
                b.subs = rounded(x, y, w, h, rx, ry); k = "rounded rect"
        elif k == "circle": cx, cy, r = put("cx", -100, 100, 0.0), put("cy", -100, 100, 0.0), put("r", 2, 90); ellipse(b, cx, cy, r, r)
        elif k == "ellipse": cx, cy, r, r2 = put("cx", -100, 100, 0.0), put("cy", -100, 100, 0.0), put("rx", 2, 90), put("ry", 2, 90); ellipse(b, cx, cy, r, r2)
        elif k == "line":
            x1, y1, x2, y2 = put("x1", -100, 100, 0.0), put("y1", -100, 100, 0.0), put("x2", -100, 100, 0.0), put("y2", -100, 100, 0.0)
            b.moveto(x1, y1); b.lineto(x2, y2)
        elif k in ("polyline", "polygon"):
            J = Join(rng)
            for i in range(rng.choice([0, 2, 3, 4, 6]) if rng.random() < .8 else 2):
                t1, x = fmtnum(rng, rng.uniform(-200, 200)); J.add(t1); t2, y = fmtnum(rng, rng.uniform(-200, 200)); J.add(t2)
                (b.moveto if i == 0 else b.lineto)(x, y)
            if k == "polygon" and b.subs: b.closepath()
            if not b.subs: mon.count("no points")
            A.append(("points", rng.choice(["", "", " "]) + J.t + rng.choice(["", "", "\n"])))
        else:
            if rng.random() < .03: t = rng.choice(["", " "]); mon.count("empty path data")
            else: t, b.subs = rpath(rng, mon)
            A.append(("d", t))
        mon.count("shape " + k)
        A += rattrs(rng, u, st, mon, True)
        tag(k.split()[-1], A)
        subs = [s for s in b.subs if s.segs]
        if subs and any(s.length() < 1 for s in subs): raise Skip
        if subs:
            exact = {"rounded rect": "rotated", "circle": "round", "ellipse": "round"}.get(k, "")
            if st.fill is not None: D.marks.append(("fill", st, subs, exact))
            if st.stroke is not None: D.marks.append(("stroke", st, subs, exact))
    def group(st, depth):
        for j in range(rng.randint(1, 4 if depth else 5)):
            r = rng.random()
            if r < .3 and depth < 3:
                s2 = st.copy(); A = rattrs(rng, u, s2, mon, False); tag("g", A, False); mon.count("group")
                group(s2, depth+1); out.append("</%sg>" % pre)
            elif r < .36: out.append(rng.choice(["<!-- comment <path d='M 1 2'/> -->", "<%stitle>a b</%stitle>" % (pre, pre), "<foo:x><foo:path d=\"M 0 0 L 5 5\"/></foo:x>", "<%sdesc/>" % pre])); mon.count("ignored things")
            else: shape(st)
    st = St(); A = []
    w = h = None
    r = rng.random()
    mode = "viewbox" if r < .55 else "size"
    if mode == "viewbox":
        iw, ih = round(rng.uniform(20, 400), 1), round(rng.uniform(20, 400), 1)
        ix, iy = (0, 0) if rng.random() < .4 else (round(rng.uniform(-100, 100), 1), round(rng.uniform(-100, 100), 1))
        A.append(("viewBox", rng.choice(["%g %g %g %g", "%g,%g,%g,%g", "%g, %g  %g %g"]) % (ix, iy, iw, ih)))
        k = rng.random()
        if k < .25: W, H = iw*u, ih*u; mon.count("no width")
        elif k < .4: f = rng.choice([50, 150]); A += [("width", "%d%%" % f), ("height", "%d%%" % f)]; W, H = iw*u*f/100, ih*u*f/100; mon.count("percent size")
        else:
            t, W = rlen(rng, u, 20, 400); W *= u; A.append(("width", t))
            H = W*ih/iw
            if rng.random() < .5: A.append(("height", "%.6fpt" % H))
            else: t, H = rlen(rng, u, 20, 400); H *= u; A += [("height", t), ("preserveAspectRatio", "none")]
        D.mat = geo.mul((1, 0, 0, 1, -ix, -iy), (W/iw, 0, 0, -H/ih, 0, H))
        D.clip = True; mon.count("viewBox")
        if rng.random() < .1: A.append(("clip", "auto"))
    else:
        t, W = rlen(rng, u, 20, 400); W *= u; A.append(("width", t))
        t, H = rlen(rng, u, 20, 400); H *= u; A.append(("height", t))
        D.mat = (u, 0, 0, -u, 0, H); D.clip = False
    D.size = (W, H)
    if rng.random() < .2: A += [("x", "%d" % rng.randint(-50, 50)), ("y", "%dmm" % rng.randint(-20, 20))]; mon.count("root position")
    if rng.random() < .3:
        B = rattrs(rng, u, st, mon, False)
        B = [(a, v) for a, v in B if a != "transform"]; st.m = geo.IDENT
        A += B; mon.count("root styles")
    head = rng.choice(["", '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="utf-8" standalone="no"?>\n'])
    if rng.random() < .2: head += '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n'
    A += [("xmlns" + (":svg" if pre else ""), "http://www.w3.org/2000/svg"), ("xmlns:foo", "http://foo.org/")]
    if rng.random() < .3: A.append(("version", "1.1"))
    tag("svg", A, False)
    group(st, 0)
    out.append("</%ssvg>" % pre)
    D.text = head + rng.choice(["\n", "", "\n  "]).join(out)
    return D


def rotated(subs, at):
    "closed subpaths begun at the vertex nearest to the given points"
    out = []
    for s, p in zip(subs, at):
        k = min(range(len(s.segs)), key=lambda i: math.dist(s.segs[i].begin(), p))
        segs = s.segs[k:] + s.segs[:k]
        out.append(geo.Sub(segs[0].begin(), segs, s.closed))
    return out


def place(rng, D, mon):
    kw = {}
    x, xp = length(rng, -300, 300); y, yp = length(rng, -300, 300)
    W, H = D.size; fx = fy = 1.0
    k = rng.random()
    if k < .25: kw["width"], v = length(rng, 20, 500); fx = fy = v/W; mon.count("width")
    elif k < .4: kw["height"], v = length(rng, 20, 500); fx = fy = v/H; mon.count("height")
    elif k < .5: kw["width"], v = length(rng, 20, 500); kw["ratio"] = round(rng.uniform(.5, 2), 2); fx, fy = v/W, v/kw["ratio"]/H; mon.count("width and ratio")
    elif k < .6: kw["height"], v = length(rng, 20, 500); kw["ratio"] = round(rng.uniform(.5, 2), 2); fx, fy = v*kw["ratio"]/W, v/H; mon.count("height and ratio")
    elif k < .75: kw["width"], v = length(rng, 20, 500); kw["height"], v2 = length(rng, 20, 500); fx, fy = v/W, v2/H; mon.count("width and height")
    return x, y, kw, (fx, 0, 0, fy, xp, yp)


def svgcase(rng, mon):
    res = rng.choice([96, 96, 72, 90, 100])
    D = rdoc(rng, mon, res)
    fn = os.path.join(mon.tmp, "in.svg"); open(fn, "w", encoding="utf-8").write(D.text)
    mon.describe((res, D.text))
    x, y, kw, m = place(rng, D, mon)
    if res != 96: kw["resolution"] = res
    it = svgfile.svgfile(x, y, fn, parsed=True, **kw)
    wb = corners(m, (0, 0) + D.size); gb = boxtuple(it.bbox()); far = max(map(abs, wb)) + 1
    mon.check(all(abs(a-b) <= 1e-6*far for a, b in zip(gb, wb)), "svg-box", lambda: "bbox %r instead of %r; %r" % (gb, wb, kw))
    mon.count("parsed box")
    c, st = outercanvas(rng); want = []
    st0 = st
    square(c, st, want, rng)
    c.insert(it)
    base = geo.mul(D.mat, geo.mul(m, st.ctm))
    clips = ()
    if D.clip:
        b = geo.Builder(); W, H = D.size; b.moveto(0, 0); b.lineto(0, H); b.lineto(W, H); b.lineto(W, 0); b.closepath()
        b = [s.tr(geo.mul(m, st.ctm)) for s in b.subs]; clips = ((b, "nonzero", gen.extent(b)*10),)
    exact = [""]
    for op, s, subs, ex in D.marks:
        w = draw.State()
        w.ctm = geo.mul(s.m, base); w.clips = clips
        w.fill = ("rgb", s.fill) if s.fill is not None else None; w.stroke = ("rgb", s.stroke) if s.stroke is not None else None
        w.lw, w.cap, w.join, w.miter, w.dash, w.rule = s.lw, s.cap, s.join, s.miter, (s.dash, s.off), s.rule
        want.append(mark(op, w, subs)); exact.append(ex)
    square(c, st, want, rng); exact.append("")
    fmt = rng.choice(["eps", "pdf", "svg"])
    evs = pub.events(c, fmt)[0]
    mon.count("parsed in " + fmt); mon.count("marks", len(want))
    evs = [e for e in evs if any(s.segs for s in e.subs)]
    for w, ex, e in zip(want, exact, evs):
        # SVG output has circles as nearly complete arcs with rounded end points
        w.scale *= 400 if fmt == "svg" and ex == "round" else 4
        if w.color[0] == "rgb" and e.color[0] == "gray": w.color = ("gray", (w.color[1][0],)) if len(set(w.color[1])) == 1 else w.color
        if ex == "rotated" and len(e.subs) == len(w.subs):
            w.subs = rotated(w.subs, [s.begin() for s in e.subs])
    sameclips(evs, want); draw.compare(mon, fmt, evs, want)
    mon.nontrivial((fmt, res, tuple(sorted(kw)), D.clip, len(D.marks)))


def canon(s):
    "closed polygons begin at a fixed corner and are counter-clockwise"
    if not s.closed or any(type(x) is not geo.Line for x in s.segs): return s
    v = []
    for p in [s.begin()] + [x.end() for x in s.segs]:
        p = tuple(float(x) for x in p)
        if not v or math.dist(p, v[-1]) > 1e-4: v.append(p)
    if len(v) > 1 and math.dist(v[0], v[-1]) <= 1e-4: v.pop()
    if len(v) < 3: return s
    if sum(a[0]*b[1]-a[1]*b[0] for a, b in zip(v, v[1:] + v[:1])) < 0: v.reverse()
    c = min(range(len(v)), key=lambda i: (round(v[i][0] + .618*v[i][1], 1), v[i][0])); v = v[c:] + v[:c]
    return geo.Sub(v[0], [geo.Line(a, b) for a, b in zip(v, v[1:] + v[:1])], True)


def sameclips(evs, want):
    "where a clip polygon begins and its direction do not matter"
    for e in evs: e.clips = tuple((tuple(canon(s) for s in c[0]),) + tuple(c[1:]) for c in e.clips)
    for w in want: w.clips = tuple((tuple(canon(s) for s in c[0]),) + tuple(c[1:]) for c in w.clips)


NS = "{http://www.w3.org/2000/svg}"


def plain(e):
    "an element without the insignificant parts of its text"
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or "").strip(), tuple(plain(x) for x in e if isinstance(x.tag, str)))


def unparsedcase(rng, mon):
    res = rng.choice([96, 96, 72, 90])
    D = rdoc(rng, mon, res)
    root = ET.fromstring(D.text.split("?>", 1)[-1] if D.text.startswith("<?xml") else D.text)
    if root.get("width") is None or "%" in root.get("width"): raise Skip
    fn = os.path.join(mon.tmp, "in.svg"); open(fn, "w", encoding="utf-8").write(D.text)
    mon.describe((res, D.text))
    x, y, kw, m = place(rng, D, mon)
    if res != 96: kw["resolution"] = res
    it = svgfile.svgfile(x, y, fn, **kw)
    wb = corners(m, (0, 0) + D.size); gb = boxtuple(it.bbox()); far = max(map(abs, wb)) + 1
    mon.check(all(abs(a-b) <= 1e-6*far for a, b in zip(gb, wb)), "svg-box", lambda: "bbox %r instead of %r; %r" % (gb, wb, kw))
    c, st = outercanvas(rng); square(c, st, [], rng); c.insert(it)
    data = pub.write(c, "svg")
    out = ET.fromstring(data)
    found = []
    def walk(e, ctm):
        if e.get("transform"): ctm = geo.mul(outi.svgtransform(e.get("transform")), ctm)
        if e.tag == NS + "svg" and e is not out: found.append((e, ctm)); return
        for k in e: walk(k, ctm)
    walk(out, (1, 0, 0, -1, 0, 0))
    mon.check(len(found) == 1, "unparsed-element", lambda: "%d nested svg elements" % len(found))
    e, ctm = found[0]
    def norm(t): return t
    mon.check(plain(e) == plain(root), "unparsed-content", lambda: "%r\ninstead of\n%r" % (plain(e), plain(root)))
    u = D.u
    def px(t):
        v, un = re.match(r"(.*?)(px|pt|pc|mm|cm|in|)$", t).groups()
        return float(v)*{"": 1, "px": 1, "pt": 4/3, "pc": 16, "mm": 96/25.4, "cm": 96/2.54, "in": 96}[un]
    # absolute units only have one meaning at 96 dpi; other resolutions are judged with plain numbers
    if res != 96 and any(not re.match(r"^[-+.0-9eE]*(px)?$", root.get(a) or "0") for a in ("x", "y", "width", "height")): mon.count("unparsed skipped"); return
    X, Y, W, H = px(root.get("x") or "0"), px(root.get("y") or "0"), px(root.get("width")), px(root.get("height"))
    for cx, cy, px_, py_ in ((X, Y+H, 0, 0), (X+W, Y+H, 1, 0), (X+W, Y, 1, 1), (X, Y, 0, 1)):
        g = geo.ap(ctm, (cx, cy)); w = geo.ap(geo.mul(m, st.ctm), (px_*D.size[0], py_*D.size[1]))
        mon.check(math.dist(g, w) < 1e-4*(max(map(abs, w)) + 10), "unparsed-place", lambda: "corner at %r instead of %r" % (g, w))
    mon.count("unparsed placed"); mon.nontrivial(("unparsed", res, tuple(sorted(kw)), D.clip))
    for f in ("eps", "pdf"):
        if rng.random() < .1:
            try: pub.write(c, f)
            except ValueError: mon.count("unparsed refused")
            else: mon.fail("unparsed-refused", "an unparsed SVG was written to " + f)


# ---------------------------------------------------------------- rejections
def epsbad(rng, mon):
    e = reps(rng, atend=False)
    k = rng.choice(["no header", "no box", "few numbers", "many numbers", "words", "atend without box", "atend truncated", "open data", "unmatched", "empty", "body box", "no EndData", "trailer words"])
    ok = b"%!PS-Adobe-3.0 EPSF-3.0\n"; nest = b"%%BeginDocument: x\n%!PS\n%%BoundingBox: 1 2 3 4\n%%EndDocument\n"
    data = {"no header": e.data[1:], "no box": ok + b"%%EndComments\n1 2 moveto\n", "few numbers": ok + b"%%BoundingBox: 1 2 3\n%%EndComments\n", "many numbers": ok + b"%%BoundingBox: 1 2 3 4 5\n",
            "words": ok + b"%%BoundingBox: a b c d\n", "atend without box": ok + b"%%BoundingBox: (atend)\n%%EndComments\n%%Trailer\n%%EOF\n", "atend truncated": ok + b"%%BoundingBox: (atend)\n%%EndComments\n1 2 moveto\n",
            "open data": ok + b"%%BoundingBox: (atend)\n%%EndComments\n%%BeginData: 900\nabc\n%%EndData\n%%Trailer\n%%BoundingBox: 1 2 3 4\n", "unmatched": ok + b"%%BoundingBox: (atend)\n%%EndComments\n%%EndDocument\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
            "empty": b"", "body box": ok + b"%%EndComments\n" + nest, "no EndData": ok + b"%%BoundingBox: (atend)\n%%EndComments\n%%BeginData: 1 ASCII Lines\n% x\n% y\n%%EndData\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
            "trailer words": ok + b"%%BoundingBox: (atend)\n%%EndComments\n%%Trailer\n%%BoundingBox: 1 2 3\n"}[k]
    if rng.random() < .4: data = data.replace(b"\n", b"\r")
    if k == "body box" and rng.random() < .5: data = data.replace(b"%%EndComments", rng.choice([b"q 1 2 bla", b"1 2 moveto", b"x"]))
    mon.describe((k, data))
    fn = os.path.join(mon.tmp, "bad.eps"); open(fn, "wb").write(data)
    try: it = epsfile.epsfile(0, 0, fn)
    except IOERR: mon.count("refused " + k); mon.nontrivial(("epsbad", k)); return
    mon.fail("eps-accepted", "%s: accepted with box %s" % (k, it.bbox()))


def svgbad(rng, mon):
    s = 'xmlns="http://www.w3.org/2000/svg"'
    k, text, parsed = rng.choice([("not xml", "hello", None), ("other root", "<html/>", False), ("no namespace", '<svg width="5" height="5"/>', False), ("no size", "<svg %s/>" % s, None), ("no height", '<svg %s width="7"/>' % s, None),
                                  ("words", '<svg %s width="a" height="b"/>' % s, None), ("broken xml", '<svg %s width="5" height="6"><g>' % s, True), ("empty", "", None), ("bad colour", '<svg %s width="5" height="6"><path fill="rgb(1,2)" d="M0 0L1 1"/></svg>' % s, True)])
    fn = os.path.join(mon.tmp, "bad.svg"); open(fn, "w").write(text)
    p = parsed if parsed is not None else rng.random() < .5
    mon.describe((k, p))
    import xml.sax
    try: it = svgfile.svgfile(0, 0, fn, parsed=p)
    except IOERR + (KeyError, xml.sax.SAXException): mon.count("refused svg " + k); mon.nontrivial(("svgbad", k, p)); return
    mon.fail("svg-accepted", "%s: accepted (parsed=%s) with box %s" % (k, p, it.bbox()))


# ---------------------------------------------------------------- bitmaps of EPS files in PDF, and ghostscript as a second reader
def gsrender(data, ext, tmp, w, h, dpi):
    import subprocess
    from PIL import Image
    f = os.path.join(tmp, "r." + ext); o = os.path.join(tmp, "r.png"); open(f, "wb").write(data)
    r = subprocess.run(["gs", "-q", "-dSAFER", "-dBATCH", "-dNOPAUSE", "-sDEVICE=png16m", "-r%d" % dpi, "-g%dx%d" % (round(w*dpi/72), round(h*dpi/72)), "-sOutputFile=" + o, f], capture_output=True, timeout=120)
    if r.returncode or r.stderr or b"Error" in r.stdout: return r.stdout + r.stderr
    return Image.open(o).convert("RGB")


def tiles(rng):
    "an EPS file of coloured rectangles filling its box"
    nx, ny = rng.randint(1, 4), rng.randint(1, 4); s = rng.randint(8, 30)
    x0, y0 = rng.randint(-100, 100), rng.randint(-100, 100)
    cols = {(i, j): tuple(rng.choice([0, .5, 1]) for k in range(3)) for i in range(nx) for j in range(ny)}
    t = "%%!PS-Adobe-3.0 EPSF-3.0\n%%%%BoundingBox: %d %d %d %d\n%%%%EndComments\n" % (x0, y0, x0+nx*s, y0+ny*s)
    for (i, j), c in cols.items(): t += "%g %g %g setrgbcolor %d %d %d %d rectfill\n" % (c + (x0+i*s, y0+j*s, s, s))
    t += "showpage\n%%EOF\n"
    return t.encode(), (nx, ny, s), cols


def rendered(rng, mon, fmt):
    data, (nx, ny, s), cols = tiles(rng)
    fn = os.path.join(mon.tmp, "t.eps"); open(fn, "wb").write(data)
    kw = {}; sx = sy = 1
    if rng.random() < .7: kw["width"] = rng.uniform(40, 90)*unit.t_pt; kw["height"] = rng.uniform(40, 90)*unit.t_pt; sx, sy = unit.topt(kw["width"])/nx/s, unit.topt(kw["height"])/ny/s
    al = kw["align"] = rng.choice("bct") + rng.choice("lcr")
    mon.describe((data, kw))
    it = epsfile.epsfile(100*unit.t_pt, 100*unit.t_pt, fn, **kw)
    c = canvas.canvas(); c.fill(path.rect_pt(0, 0, 10, 10), [color.rgb(0, 1, 0)])
    c.insert(it); c.fill(path.rect_pt(190, 190, 10, 10), [color.rgb(0, 1, 0)])
    d = document.document([document.page(c, paperformat=document.paperformat(200*unit.t_pt, 200*unit.t_pt), centered=0, bboxenlarge=0)])
    out = pub.write(d, fmt)
    im = gsrender(out, fmt, mon.tmp, 200, 200, 144)
    mon.check(not isinstance(im, bytes), "gs-error", lambda: "ghostscript: %r" % im[:400])
    x0 = 100 - {"l": 0, "c": .5, "r": 1}[al[1]]*nx*s*sx; y0 = 100 - {"b": 0, "c": .5, "t": 1}[al[0]]*ny*s*sy
    gb = boxtuple(it.bbox())
    mon.check(all(abs(a-b) < 1e-6 for a, b in zip(gb, (x0, y0, x0+nx*s*sx, y0+ny*s*sy))), "eps-box", lambda: "bbox %r" % (gb,))
    n = 0
    for X in range(0, 400, 3):
        for Y in range(0, 400, 3):
            px, py = (X+.5)/2, (Y+.5)/2
            u, v = (px-x0)/s/sx, (py-y0)/s/sy
            if min(abs(u-round(u))*s*sx, abs(v-round(v))*s*sy) < 1.2: continue
            if px < 11.5 and py < 11.5 or px > 188.5 and py > 188.5: continue
            w = cols.get((math.floor(u), math.floor(v)), (1, 1, 1)); g = im.getpixel((X, 399-Y))
            mon.check(all(abs(a*255-b) < 4 for a, b in zip(w, g)), "pixels-" + fmt, lambda: "at %g %g: %r instead of %r" % (px, py, g, w)); n += 1
    for q in ((5, 5), (195, 195)): mon.check(im.getpixel((q[0]*2, 399-q[1]*2)) == (0, 255, 0), "pixels-around-" + fmt, "marks around the file are wrong")
    mon.count("pixels " + fmt, n); mon.nontrivial(("gs", fmt, al))


def run_case(kind, i, rng, mon):
    if kind == "epsbad":
        for j in range(20): epsbad(rng, mon)
        return
    if kind == "svgbad":
        for j in range(20): svgbad(rng, mon)
        return
    if kind == "epspdf": return rendered(rng, mon, "pdf")
    if kind == "ghostscript": return rendered(rng, mon, "ps")
    k = rng.random()
    if k < .35: epscase(rng, mon)
    elif k < .9: svgcase(rng, mon)
    else: unparsedcase(rng, mon)
