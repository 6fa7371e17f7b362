"""Random documents over all kinds of canvas items."""
import io, math, os, random
import gen, draw
from pyx import canvas, document, path, trafo, color, style, deco, unit, bitmap, mesh, pattern, text, pdfextra, epsfile, svgfile, graph, bbox

_cache = {}
TMP = [None]
TEXTS = ["Hello", "Hello, World (x)", "a", "fi fl ffi", "[x] {y} /z\\", "0123456789", "AV To", "%d#~"]
CMTEXTS = ["Hello", "Hello, World (x)", "a", "fi fl ffi", "0123456789", "AV To"]
FONTS = ["cmr10", "cmbx12", "cmti10", "utmr8a", "uhvr8a", "pcrr8a", "lmr10"]


def rtext(rng, fn):
    t = rng.choice(CMTEXTS if fn.startswith(("cm", "lm")) else TEXTS)
    return t.replace(" ", "") if fn.startswith("cm") else t


def engine(fn, size=10):
    k = (fn, size)
    if k not in _cache: _cache[k] = text.UnicodeEngine(fontname=fn, size=size)
    return _cache[k]


def texengine(kind="tex"):
    if kind not in _cache: _cache[kind] = text.TexEngine() if kind == "tex" else text.LatexEngine()
    return _cache[kind]


def availfonts():
    if "fonts" not in _cache:
        ok = []
        for f in FONTS:
            try: engine(f); ok.append(f)
            except FileNotFoundError: pass
            except OSError: pass
        _cache["fonts"] = ok
    return _cache["fonts"]


def rimage(rng):
    "-> (image, mode, raw data) a pyx or PIL image"
    w, h = rng.choice([(1, 1), (2, 3), (5, 4), (16, 16), (33, 7), (64, 40)])
    mode = rng.choice(["L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK", "P", "P", "PIL-L", "PIL-RGB", "PIL-RGBA", "PIL-P", "PIL-1", "PIL-LA", "PIL-CMYK"])
    def data(n):
        r = rng.random()
        if r < 0.15: return bytes(n)
        if r < 0.3: return bytes([255])*n
        if r < 0.5: return bytes((i*7) % 256 for i in range(n))
        return bytes(rng.getrandbits(8) for _ in range(n))
    if mode.startswith("PIL"):
        from PIL import Image
        m = mode[4:]
        if m == "P":
            im = Image.frombytes("RGB", (w, h), data(3*w*h)).quantize(rng.choice([2, 16, 200]))
        elif m == "1":
            im = Image.frombytes("L", (w, h), data(w*h)).convert("1")
        else: im = Image.frombytes(m, (w, h), data(len(m)*w*h))
        return im, mode
    if mode == "P":
        pm = rng.choice(["L", "RGB", "CMYK"])
        n = rng.choice([1, 2, 5, 64, 256])
        return bitmap.image(w, h, "P", bytes(rng.randrange(n) for _ in range(w*h)), palette=bitmap.palette(pm, data(n*len(pm)))), "P-" + pm
    return bitmap.image(w, h, mode, data(len(mode)*w*h)), mode


def jpeg(rng):
    from PIL import Image
    w, h = rng.choice([(3, 5), (16, 16), (40, 25)])
    m = rng.choice(["L", "RGB", "CMYK"])
    im = Image.frombytes(m, (w, h), bytes(rng.getrandbits(8) for _ in range(len(m)*w*h)))
    f = io.BytesIO()
    im.save(f, "jpeg", quality=rng.choice([30, 90]), progressive=rng.random() < 0.3)
    return bitmap.jpegimage(io.BytesIO(f.getvalue())), "jpeg-"+m


def rbitmap(rng, svg=True):
    kw = {}
    if rng.random() < 0.2: im, m = jpeg(rng); kw["compressmode"] = None
    else:
        im, m = rimage(rng)
        kw["compressmode"] = rng.choice(["Flate", "Flate", None] + (["DCT"] if m.startswith("PIL") and m[4:] in ("L", "RGB") else []))
        if rng.random() < 0.3: kw["flatecompresslevel"] = rng.choice([1, 9])
    if rng.random() < 0.4:
        kw["PSstoreimage"] = 1
        kw["PSmaxstrlen"] = rng.choice([10, 57, 100, 4093])
    kw["PSbinexpand"] = rng.choice([1, 1, 2])
    svgok = (kw["compressmode"] is not None or m.startswith("jpeg")) and m in ("L", "LA", "RGB", "RGBA", "P-L", "P-RGB", "PIL-L", "PIL-RGB", "PIL-RGBA", "PIL-P", "PIL-1", "PIL-LA", "jpeg-L", "jpeg-RGB")
    x, y = gen.num(rng)*0.05, gen.num(rng)*0.05
    w = abs(gen.num(rng))*0.02+0.2
    b = bitmap.bitmap(x, y, im, width=w, **({"ratio": rng.uniform(0.3, 3)} if rng.random() < 0.3 else {}), **kw)
    return b, "bitmap-%s-%s" % (m, kw["compressmode"]), svgok


def rmesh(rng, n=None):
    col = {"gray": lambda: color.gray(rng.random()), "rgb": lambda: color.rgb(*(rng.random() for _ in range(3))),
           "cmyk": lambda: color.cmyk(*(rng.random() for _ in range(4)))}[rng.choice(["gray", "rgb", "cmyk"])]
    n = n or rng.choice([1, 2, 5, 20])
    return mesh.mesh([mesh.element([mesh.node_pt((rng.uniform(-100, 200), rng.uniform(-100, 200)), col()) for _ in range(3)]) for _ in range(n)])


HATCH = [getattr(getattr(pattern, b), s) for b in ("hatched0", "hatched45", "hatched90", "hatched135", "crosshatched0", "crosshatched45") for s in ("small", "normal", "large")]


def rpattern(rng, depth=1, svg=False):
    "-> (pattern, kind)"
    if not svg and rng.random() < 0.5:
        h = rng.choice(HATCH)
        if rng.random() < 0.3: h = h(strokestyles=[style.linewidth.Thick])
        return h, "hatched"
    kw = {}
    if not svg:
        if rng.random() < 0.5: kw["xstep"] = rng.uniform(0.3, 2)
        if rng.random() < 0.5: kw["ystep"] = rng.uniform(0.3, 2)
        if rng.random() < 0.2: kw["bboxenlarge"] = 0.1
    if rng.random() < 0.3: kw["trafo"] = trafo.rotate(rng.uniform(0, 360)).scaled(rng.uniform(0.5, 2))
    if rng.random() < 0.3: kw["bbox"] = bbox.bbox(0, 0, 1, 1.5)
    kw["tilingtype"] = rng.choice([1, 2, 3])
    p = pattern.pattern(**kw)
    kind = "pattern"
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.5: p.draw(path.circle(rng.random(), rng.random(), 0.1+rng.random()), [deco.stroked, deco.filled([color.rgb(rng.random(), 0, 1)])])
        elif r < 0.7:
            b, k, ok = rbitmap(rng)
            if svg and not ok: continue
            p.insert(b); kind += "+bitmap"
        elif r < 0.85:
            p.insert(engine(rng.choice(availfonts())).text(0, 0, "xy")); kind += "+text"
        elif r < 0.93 and depth:
            q, k = rpattern(rng, depth-1, svg)
            p.fill(path.rect(0, 0, 1, 1), [q]); kind += "+" + k
        else:
            c = canvas.canvas([canvas.clip(path.circle(0.5, 0.5, 0.4))])
            c.fill(path.rect(0, 0, 1, 1), [color.transparency(0.4)] if rng.random() < 0.5 else [])
            p.insert(c); kind += "+clip"
    p.stroke(path.line(0, 0, 1, 1))
    return p, kind


def rfield(rng, name):
    x, y = rng.uniform(-5, 5), rng.uniform(-5, 5)
    r = rng.random()
    nm = name + rng.choice(["", " (x)", "\\", ")", " ü"])
    val = rng.choice(["", "hallo", "two\nlines", "a(b", "back\\slash", "(a)"])
    if r < 0.35: return pdfextra.textfield(x, y, rng.uniform(1, 5), rng.uniform(0.5, 2), nm, defaultvalue=val, multiline=int("\n" in val), **({"borderwidth": 1} if rng.random() < 0.5 else {})), "textfield"
    if r < 0.55: return pdfextra.checkbox(x, y, nm, defaulton=rng.randint(0, 1)), "checkbox"
    if r < 0.8:
        n = rng.randint(1, 4)
        vals = ["One", "Two", "Three", "Four"][:n]
        return pdfextra.radiobuttons([(x, y-i) for i in range(n)], nm, vals, defaultvalue=rng.choice(vals)), "radiobuttons"
    vals = rng.sample(["One", "Two", "Three (3)", "back\\slash", "a)"], rng.randint(1, 4))
    return pdfextra.choicefield(x, y, 3, 1, nm, vals, defaultvalue=rng.choice(vals + [None])), "choicefield"


def rgraph(rng):
    g = graph.graphxy(width=rng.uniform(3, 8), x=graph.axis.linear(min=0, max=rng.choice([1, 10, 300]), texter=None, title=None) if False else graph.axis.linear(min=0, max=10, painter=graph.axis.painter.regular(labelattrs=None, titleattrs=None)),
                      y=graph.axis.linear(painter=graph.axis.painter.regular(labelattrs=None, titleattrs=None)))
    pts = [(rng.uniform(0, 10), rng.uniform(-3, 3)) for _ in range(rng.randint(2, 9))]
    g.plot(graph.data.points(pts, x=1, y=2), [rng.choice([graph.style.line(), graph.style.symbol(), graph.style.impulses()])])
    return g


def item(rng, c, name, feats, svg, svgonly=False):
    "insert one random item into canvas c; feats records the kinds; fields get returned"
    attrs = []
    if rng.random() < 0.3: attrs.append(trafo.translate(rng.uniform(-3, 3), rng.uniform(-3, 3)).scaled(rng.uniform(0.5, 2)))
    if rng.random() < 0.15: attrs.append(color.rgb(rng.random(), rng.random(), 0.5))
    if rng.random() < 0.1: attrs.append(color.transparency(0.3))
    if rng.random() < 0.1: attrs.append(canvas.clip(path.rect(-3, -3, 7, 8)))
    r = rng.random()
    if r < 0.25:
        d = draw.fillcanvas(rng, draw.Canvas(draw.rattrs(rng)), 1, [rng.choice([1, 3, 6])])
        c.insert(d.real, attrs); feats.append("draw")
    elif r < 0.4:
        b, k, ok = rbitmap(rng)
        if svg and not ok: feats.append("skip"); return
        c.insert(b, attrs); feats.append(k)
    elif r < 0.48:
        if svg: return
        c.insert(rmesh(rng), attrs); feats.append("mesh")
    elif r < 0.62:
        p, k = rpattern(rng, 1, svg)
        cc = c.insert(canvas.canvas(), attrs) if attrs else c
        cc.fill(path.rect(gen.num(rng)*0.01, 0, 2, 2), [p])
        if rng.random() < 0.6: cc.fill(path.circle(1, 1, 1), [color.rgb.red] if rng.random() < 0.6 else [])
        if rng.random() < 0.4: cc.fill(path.circle(1, 2, 1), [rng.choice([p, rpattern(rng, 0, svg)[0]])])
        feats.append(k)
    elif r < 0.78:
        fn = rng.choice(availfonts())
        if rng.random() < 0.5: c.insert(engine(fn).text(gen.num(rng)*0.01, 0, rtext(rng, fn)), attrs)
        else: c.insert(engine(fn).text(0, 0, rtext(rng, fn), [color.rgb.blue] + ([trafo.rotate(30)] if rng.random() < 0.5 else [])), attrs)
        feats.append("text-" + fn)
    elif r < 0.84:
        c.insert(texengine().text(0, 0, rng.choice(["Hello", r"$x^2\over y$", r"\hbox{a}\vrule width 3pt height 4pt", r"\it fi"])), attrs); feats.append("tex")
    elif r < 0.90:
        c.insert(rgraph(rng), attrs); feats.append("graph")
    elif r < 0.95:
        if not svg:
            f, k = rfield(rng, name)
            c.insert(f, [a for a in attrs if isinstance(a, trafo.trafo_pt)]); feats.append(k)
            return f
        s = rsvgfile(rng)
        c.insert(svgfile.svgfile(0, 0, s, parsed=not svgonly or rng.random() < 0.5), attrs); feats.append("svgfile")
    else:
        c.insert(rng.choice([canvas.canvas(), path_canvas(rng)]), attrs); feats.append("empty")


def path_canvas(rng):
    c = canvas.canvas()
    c.insert(canvas.canvas([color.rgb.red]))
    c.stroke(path.path())
    return c


def rsvgfile(rng):
    f = os.path.join(TMP[0], "in.svg")
    with open(f, "wb") as h: h.write(b'<svg xmlns="http://www.w3.org/2000/svg" width="50pt" height="40pt" viewBox="0 0 50 40"><g><path d="M 0 0 L 10 10 z" fill="red"/></g><rect x="1" y="2" width="30" height="20" stroke="blue"/></svg>')
    return f


PAPERS = [document.paperformat.A4, document.paperformat.A5, document.paperformat.Letter, document.paperformat.A0b, document.paperformat(100*unit.t_mm, 55.5*unit.t_mm, "mine")]


def pageopts(rng):
    kw = {}
    if rng.random() < 0.6:
        kw["paperformat"] = rng.choice(PAPERS)
        if rng.random() < 0.4: kw["rotated"] = 1
        if rng.random() < 0.4: kw["centered"] = 0
        if rng.random() < 0.3: kw["fittosize"] = 1
        if rng.random() < 0.3: kw["margin"] = rng.choice([0, 0.5, 2])*unit.t_cm
    if rng.random() < 0.3: kw["bboxenlarge"] = rng.choice([0, 1, 20])*unit.t_pt
    if rng.random() < 0.15: kw["bbox"] = bbox.bbox(rng.uniform(-5, 0), rng.uniform(-5, 0), rng.uniform(1, 5), rng.uniform(1, 8))
    if rng.random() < 0.2: kw["pagename"] = rng.choice(["cover", "iv", "A-1"])
    return kw


# ---- items that use the higher modules
_shared = {}


def sharedobj(rng):
    "objects that several items of a process use: attribute lists, patterns, gradients, paths"
    if not _shared:
        p = pattern.pattern(); p.draw(path.circle(0, 0, 0.2), [deco.stroked]); p.stroke(path.line(0, 0, 0.5, 0.5))
        _shared["attrs"] = [[style.linewidth.Thick, color.rgb.red], [style.linestyle.dashed, style.linejoin.round], [color.gradient.Rainbow.getcolor(0.3)],
                            [deco.earrow.large([deco.filled([color.rgb.blue])])], [style.dash([1, 2, 3], 1)]]
        _shared["pattern"] = [p, pattern.hatched45.small, pattern.crosshatched45.normal]
        _shared["path"] = [path.circle(0, 0, 1), path.curve(0, 0, 1, 2, 3, -1, 4, 0), path.rect(0, 0, 2, 1) << path.line(3, 0, 4, 0) if False else path.rect(0, 0, 2, 1),
                           path.path(path.moveto(0, 0), path.lineto(2, 1), path.arc(3, 1, 1, 180, 300), path.closepath())]
    return _shared


def richgraph(rng, eng):
    from pyx.graph import axis, style as gs, data, key
    kw = {}
    def ax():
        r = rng.random()
        k = {"title": rng.choice([None, "title", "x"])} if rng.random() < 0.7 else {}
        if rng.random() < 0.3: k["painter"] = axis.painter.regular(gridattrs=[attr_changelist(rng)]) if rng.random() < 0.5 else axis.painter.regular(titledirection=None)
        if r < 0.6: return axis.lin(**k)
        if r < 0.7: return axis.lin(min=-1, max=rng.choice([2, 7.5]), **k)
        if r < 0.8: return axis.lin(parter=axis.parter.linear(["1", "1/2"]), **k)
        return axis.lin(manualticks=[axis.tick.tick(1.5, label="here")], **k)
    kw["x"], kw["y"] = ax(), ax()
    if rng.random() < 0.3: kw["y2"] = axis.lin(min=0, max=3)
    if rng.random() < 0.4: kw["key"] = key.key(pos=rng.choice(["tl", "br", "tr"]), columns=rng.choice([1, 2]))
    prev, text.defaulttextengine = text.defaulttextengine, texengine()
    try: g = graph.graphxy(width=rng.uniform(3, 8), **({"ratio": 1.3} if rng.random() < 0.3 else {}), **kw)
    finally: text.defaulttextengine = prev
    for k in range(rng.randint(1, 3)):
        pts = [(rng.uniform(0, 5), rng.uniform(0.2, 3), rng.uniform(0.1, 0.5), rng.uniform(0, 1)) for _ in range(rng.randint(2, 7))]
        r = rng.random()
        if r < 0.2: d, st = data.function("y(x)=1+x*x/9", min=0, max=4, points=rng.choice([5, 30]), title="fct"), None
        elif r < 0.4: d, st = data.points(pts, x=1, y=2, dy=3, title="pts"), [gs.symbol(), gs.errorbar()]
        elif r < 0.55: d, st = data.points(pts, x=1, y=2, title=None), [gs.line([color.gradient.Jet])]
        elif r < 0.65: d, st = data.points(pts, x=1, y=2, color=4), [gs.symbol(gs.symbol.changecircle)] if rng.random() < 0.5 else [gs.line(), gs.symbol()]
        elif r < 0.75: d, st = data.points([(n/2, p[1]) for n, p in enumerate(pts)], x=1, y=2), [gs.histogram()]
        elif r < 0.85: d, st = data.points(pts, x=1, y=2, size=3, angle=4, title=None), [gs.arrow()]
        else: d, st = data.points([p + ("t%d" % n,) for n, p in enumerate(pts)], x=1, y=2, text=5, title=None), [gs.text()]
        if st is None: g.plot(d)
        else: g.plot(d, st)
    return g


def attr_changelist(rng):
    from pyx import attr
    return attr.changelist([style.linestyle.dashed, style.linewidth.thin])


def rich(rng, c, feats, svg=False):
    from pyx import deformer, connector, box, metapost
    sh = sharedobj(rng)
    eng = engine("lmr10") if rng.random() < 0.6 else texengine()
    r = rng.random()
    x, y = rng.uniform(-3, 3), rng.uniform(-3, 3)
    def curve(): return path.curve(x, y, x+rng.uniform(1, 3), y+rng.uniform(-2, 2), x+4, y-rng.uniform(1, 3), x+6, y+rng.uniform(-3, 3))
    if r < 0.15:
        p = rng.choice(sh["path"]).transformed(trafo.translate(x, y)) if rng.random() < 0.5 else rng.choice(sh["path"])
        c.draw(p, [deco.stroked(rng.choice(sh["attrs"][:3]))] + ([deco.filled([sh["pattern"][0] if svg else rng.choice(sh["pattern"])])] if rng.random() < 0.4 else [])); feats.append("shared")
    elif r < 0.25:
        c.stroke(curve(), rng.choice(sh["attrs"])); feats.append("sharedattrs")
    elif r < 0.33:
        c.stroke(curve(), [deco.text("mid", texrunner=texengine()) if rng.random() < 0.5 else deco.curvedtext("along", texrunner=texengine()), deco.barrow, deco.earrow]); feats.append("decotext")
    elif r < 0.39:
        c.stroke(curve(), [deco.colorgradient(color.gradient.Rainbow, steps=rng.choice([3, 10]))]); feats.append("colorgradient")
    elif r < 0.45:
        c.stroke(path.line(x, y, x+4, y+rng.uniform(-1, 1)), [rng.choice([deco.brace(), deco.rightbrace, deco.straightbrace])]); feats.append("brace")
    elif r < 0.51:
        c.stroke(path.rect(x, y, 2, 3), [rng.choice([deco.linehatched(0.2, 30), deco.linehatched(0.3, 70, cross=1)])]) if rng.random() < 0.5 else c.stroke(curve(), [deco.shownormpath()]); feats.append("hatch/shownormpath")
    elif r < 0.62:
        d = rng.choice([deformer.smoothed(0.5), deformer.cycloid(0.3), deformer.parallel(rng.choice([-0.3, 0.3])), deformer.parallel(0.2, rounddist=0.1) if False else deformer.parallel(0.5)])
        c.stroke(rng.choice([path.path(path.moveto(x, y), path.lineto(x+3, y+1), path.lineto(x+1, y+4)), curve(), path.path(path.moveto(x, y), path.lineto(x+4, y), path.lineto(x+2, y+2), path.lineto(x+2, y-3))]), [d]); feats.append("deformer")
    elif r < 0.70:
        a, b = eng.text(x, y, "A"), eng.text(x+rng.uniform(2, 4), y+rng.uniform(-2, 2), "Box")
        for t in (a, b): c.draw(t.bbox().enlarged(0.1).path(), [deco.stroked, deco.filled([color.grey(0.9)])]); c.insert(t)
        c.stroke(rng.choice([connector.arc, connector.curve, connector.line, lambda a, b: connector.twolines(a, b, absangle1=30, absangle2=100)])(a, b), [color.rgb.red, deco.earrow]); feats.append("connector")
    elif r < 0.76:
        from pyx.metapost.path import beginknot, knot, smoothknot, endknot, tensioncurve, path as mpath
        c.stroke(mpath([beginknot(x, y), tensioncurve(), smoothknot(x+1, y+2), tensioncurve(), smoothknot(x+3, y), tensioncurve(), endknot(x+4, y+1)])); feats.append("metapost")
    else:
        g = richgraph(rng, eng)
        c.insert(g, [trafo.translate(x, y)] if rng.random() < 0.5 else []); feats.append("richgraph")
        return g
