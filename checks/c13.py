"""C13: pages place content and boxes as requested.

The same canvas is written plainly and with page options; the paint events of the second
file have to be those of the first one under the independently calculated page
transformation, and every declared box is compared with the requested one and with the
ink found in the file."""
import math, re
import pub, outi, valid, scene, draw, geo, gen
from harness import Skip
from pyx import canvas, document, path, trafo, unit, bbox, pdfextra, color, style, deco

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("documents of 1-4 pages over random canvases (drawing programs with transformations and clips, bitmaps, meshes, texts, graphs, TeX text, form fields), the same "
        "canvas also on several pages, with all combinations of paper format, rotated, centered, fittosize, margin, bboxenlarge and explicit bbox; each page's paint events "
        "are compared with the plain ones under the expected transformation, all declared boxes with the expected ones; distinct by options and content")
QUICK, THOROUGH = 700, 20000
CPU = 120
REQUIRED = {"box-eps": 80, "box-grown-by-ink": 20, "box-pdf": 140, "box-ps": 140, "box-requested": 200, "box-svg": 80, "empty": 12, "events": 2300, "explicit": 130, "fields": 24,
            "fit": 150, "rotated": 180, "written-eps": 50, "written-pdf": 80, "written-ps": 75, "written-svg": 55}
DIRECTED = ["options", "lines"]
PT = gen.PT
ASSUMPTIONS = ["patterns are anchored to the page in PS and PDF, their phase is not compared"]


def pt(u): return unit.topt(u)


def tight(subs):
    return geo.bbox([s for s in subs])


def opt_model(opts, box, fmt):
    "-> (matrix, transformed box) for the content box (llx, lly, urx, ury) in pt; the documented placement"
    llx, lly, urx, ury = box
    w, h = urx-llx, ury-lly
    pf = opts.get("paperformat")
    if pf is None: return geo.IDENT
    rot, cen, fit = opts.get("rotated", 0), opts.get("centered", 1), opts.get("fittosize", 0)
    pw, ph = pt(pf.width), pt(pf.height)
    if not (rot or cen or fit): return geo.IDENT
    s = 1
    if fit:
        m = pt(opts.get("margin", 1*unit.t_cm))
        a, b = (pw-2*m), (ph-2*m)
        if rot: a, b = b, a
        c = [x/y for x, y in ((a, w), (b, h)) if y > 0]
        s = min(c) if c else 1
    if rot:
        if not (cen or fit): return (0, 1, -1, 0, pw, 0)
        # content rotated counter-clockwise about its centre, centre moved to the centre of the page
        lin = (0, s, -s, 0)
    else:
        lin = (s, 0, 0, s)
    cx, cy = 0.5*(llx+urx), 0.5*(lly+ury)
    return lin + (0.5*pw - lin[0]*cx - lin[2]*cy, 0.5*ph - lin[1]*cx - lin[3]*cy)


def trbox(b, m):
    ps = [geo.ap(m, p) for p in ((b[0], b[1]), (b[2], b[1]), (b[0], b[3]), (b[2], b[3]))]
    return (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))


def ints(b):
    return lambda v, eps: (math.floor(b[0]+eps), math.floor(b[1]+eps))


def corners(e, fmt):
    "unit square of an image in page coordinates"
    if e.op != "image": return None
    if fmt in ("ps", "eps"):
        d = e.dict.get("DataDict", e.dict)
        m = geo.mul(geo.inv(tuple(d["ImageMatrix"])), e.ctm)
        w, h = d["Width"], d["Height"]
        r = (0, 0, w, h)
    elif fmt == "pdf": m = e.ctm; r = (0, 0, 1, 1)
    else:
        m = e.ctm; x, y, w, h = e.rect
        r = (x, y, x+w, y+h)
    return [geo.ap(m, p) for p in ((r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3]))]


def anchor(e, fmt):
    "positions besides the path that have to move with the content"
    c = corners(e, fmt)
    if c is not None: return c
    if e.op == "text":
        m = e.tm if hasattr(e, "tm") else e.ctm
        o = e.at if hasattr(e, "at") and not hasattr(e, "tm") else (m[4], m[5])
        return [o, (o[0]+m[0], o[1]+m[1]), (o[0]+m[2], o[1]+m[3])]
    if e.op in ("shading", "form"):
        m = e.ctm
        return [(m[4], m[5]), (m[4]+100*m[0], m[5]+100*m[1]), (m[4]+100*m[2], m[5]+100*m[3])]
    return []


def ink(e, fmt):
    "points that certainly get painted (before clipping)"
    pts = []
    c = corners(e, fmt)
    if c is not None: return c
    if e.op not in ("fill", "stroke"): return []
    lin = e.ctm[:4]
    det = lin[0]*lin[3]-lin[1]*lin[2]
    for s in e.subs:
        if not s.segs: continue
        for g in s.segs:
            for k in range(9):
                t = k/8
                p = g.at(t)
                pts.append(p)
                if e.op == "stroke" and not e.dash[0] and 0 < k < 8:
                    d = g.d(t)
                    # tangent and normal of the pen in its own coordinates
                    u = ((lin[3]*d[0]-lin[2]*d[1])/det, (-lin[1]*d[0]+lin[0]*d[1])/det)
                    n = math.hypot(*u)
                    if n < 1e-9: continue
                    n = 0.5*e.lw/n
                    o = (-u[1]*n, u[0]*n)
                    o = (lin[0]*o[0]+lin[2]*o[1], lin[1]*o[0]+lin[3]*o[1])
                    pts += [(p[0]+o[0], p[1]+o[1]), (p[0]-o[0], p[1]-o[1])]
    return pts


def polygons(subs):
    r = []
    for s in subs:
        if not s.segs: continue
        p = [s.segs[0].begin()]
        for g in s.segs:
            p += [g.at(k/24) for k in range(1, 25)] if not isinstance(g, geo.Line) else [g.end()]
        r.append(p)
    return r


def inside(p, polys, rule):
    w = 0
    for q in polys:
        x0, y0 = q[-1]
        for x1, y1 in q:
            if (y0 > p[1]) != (y1 > p[1]):
                if x0 + (p[1]-y0)*(x1-x0)/(y1-y0) > p[0]: w += 1 if y1 > y0 else -1
            x0, y0 = x1, y1
    return w != 0 if rule == "nonzero" else w % 2 != 0


def wellinside(p, clips, d=0.05):
    return all(inside((p[0]+a, p[1]+b), q, r) for q, r in clips for a, b in ((0, 0), (d, 0), (-d, 0), (0, d), (0, -d)))


def same(mon, fmt, e0, e1, T, what):
    mon.check(len(e0) == len(e1), "events-" + fmt, lambda: "%s: %d paint events instead of %d" % (what, len(e1), len(e0)))
    sc = math.sqrt(abs(T[0]*T[3]-T[1]*T[2]))
    ext = 100.0
    for a, b in zip(e0, e1):
        mon.check(a.op == b.op, "events-" + fmt, lambda: "%s: %r instead of %r" % (what, b, a))
        pa = [s.tr(T) for s in a.subs]
        ext = max(gen.extent(a.subs)*sc, gen.extent(pa), gen.extent(b.subs), 100.0)
        tol = 1e-4*ext*(1 if fmt != "svg" else 2) + 1e-3*max(1, sc)
        r = geo.subs_match(draw.dedrop(b.subs, tol*3), draw.dedrop(pa, tol*3), tol, "path")
        mon.check(r is None, "content-" + fmt, lambda: "%s: %s\n plain %r\n page %r\n T %s" % (what, r, a, b, T))
        if a.op == "stroke":
            p, q = draw.pen(a.lw, geo.mul(a.ctm, T)), draw.pen(b.lw, b.ctm)
            mon.check(all(abs(x-y) < 2e-4*max(p[0], p[2]) + 1e-5*max(1, sc) for x, y in zip(p, q)), "linewidth-" + fmt, lambda: "%s: pen %s instead of %s" % (what, q, p))
        for x, y in zip(anchor(a, fmt), anchor(b, fmt)):
            x2 = geo.ap(T, x)
            t = tol + 1e-4*(abs(x2[0])+abs(x2[1]) + sc*(abs(x[0])+abs(x[1])))
            mon.check(math.hypot(x2[0]-y[0], x2[1]-y[1]) < t, "content-" + fmt, lambda: "%s: %r at %s instead of %s" % (what, b, y, x2))
        mon.check(len(a.clips) == len(b.clips), "clips-" + fmt, lambda: "%s: %d clips instead of %d" % (what, len(b.clips), len(a.clips)))
        for (x, xr), (y, yr) in zip(a.clips, b.clips):
            px = [s.tr(T) for s in x]
            ext = max(gen.extent(x)*sc, gen.extent(px), 100.0)
            tol = 1e-4*ext*(1 if fmt != "svg" else 2) + 1e-3*max(1, sc)
            r = geo.subs_match(draw.dedrop(y, tol*3), draw.dedrop(px, tol*3), tol, "clip")
            mon.check(r is None, "content-" + fmt, lambda: "%s: %s" % (what, r))


def boxes(mon, fmt, ev, got, want, exact, what):
    "the declared box got against the requested content box and the ink"
    size = max(abs(v) for v in want) if want else 1
    t = 2e-5*size + 2e-3
    if exact:
        mon.check(all(abs(x-y) < t for x, y in zip(got, want)), "box-" + fmt, lambda: "%s: box %s instead of %s" % (what, got, want))
        return
    # the content might stick out of the enlarged box of the canvas by line widths only
    lo = list(want)
    grow = 0
    for e in ev:
        if e.op == "stroke": grow = max(grow, 4*e.lw*sum(map(abs, e.ctm[:4])))
        pts = ink(e, fmt)
        clips = [(polygons(c), r) for c, r in e.clips]
        for p in pts:
            if not (p[0] < lo[0] or p[1] < lo[1] or p[0] > lo[2] or p[1] > lo[3]) or not wellinside(p, clips): continue
            lo = [min(lo[0], p[0]), min(lo[1], p[1]), max(lo[2], p[0]), max(lo[3], p[1])]
    mon.check(got[0] <= lo[0]+t and got[1] <= lo[1]+t and got[2] >= lo[2]-t and got[3] >= lo[3]-t, "box-" + fmt,
              lambda: "%s: box %s does not contain the requested box %s with the ink %s" % (what, got, want, lo))
    hi = [want[0]-grow, want[1]-grow, want[2]+grow, want[3]+grow]
    mon.check(got[0] >= hi[0]-t and got[1] >= hi[1]-t and got[2] <= hi[2]+t and got[3] <= hi[3]+t, "box-" + fmt,
              lambda: "%s: box %s is larger than the requested box %s even with all line widths %s" % (what, got, want, hi))
    if lo == list(want): mon.count("box-requested")
    else: mon.count("box-grown-by-ink")


def rounded(mon, fmt, low, high, what):
    "the integer box contains the high resolution box and is tight"
    w = (math.floor, math.floor, math.ceil, math.ceil)
    for l, h, f in zip(low, high, w):
        e = 1e-5*abs(h) + 1e-3      # digits in the high resolution box
        mon.check(f(h-e) <= l <= f(h+e), "intbox-" + fmt, lambda: "%s: %s for %s" % (what, low, high))


def content(rng, svg, pages_fields, p):
    "-> canvas, fields?, kinds"
    if rng.random() < 0.5:
        c = draw.Canvas(draw.rattrs(rng) if rng.random() < 0.4 else ())
        draw.fillcanvas(rng, c, rng.randint(0, 2), [rng.randint(1, 6)])
        return c.real, [], ["draw"]
    c = canvas.canvas()
    feats, fields = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        f = scene.item(rng, c, "f%d.%d" % (p, k), feats, svg)
        if f is not None: fields.append(f)
    return c, fields, feats


def ropts(rng):
    o = {}
    if rng.random() < 0.8:
        o["paperformat"] = rng.choice(scene.PAPERS + [document.paperformat.A3, document.paperformat(rng.uniform(3, 40), rng.uniform(3, 40), "x")])
        for k, v in (("rotated", 1), ("centered", 0), ("fittosize", 1)):
            if rng.random() < 0.45: o[k] = v
        if rng.random() < 0.4: o["margin"] = rng.choice([0, 0.3, 2*unit.t_mm, 1*unit.v_cm])*1
    if rng.random() < 0.4: o["bboxenlarge"] = rng.choice([0, 1*unit.t_pt, 20*unit.t_pt, 0.5])
    if rng.random() < 0.25:
        x, y = rng.uniform(-5, 5), rng.uniform(-5, 5)
        o["bbox"] = bbox.bbox(x, y, x+rng.uniform(0.1, 9), y+rng.uniform(0.1, 9))
    return o


def tup(b): return (b.left_pt(), b.bottom_pt(), b.right_pt(), b.top_pt())


def verify(mon, fmt, cs, opts, fields=None):
    "write the document and compare each page; cs: canvases, opts: per page options"
    kw = {"writebbox": True} if fmt in ("ps", "pdf") else {"textaspath": False} if fmt == "svg" else {}
    pages = [document.page(c, **o) for c, o in zip(cs, opts)]
    before = [tup(o["bbox"]) if "bbox" in o else None for o in opts]
    data = pub.write(document.document(pages), fmt, **kw)
    for o, b in zip(opts, before):
        mon.check(b is None or tup(o["bbox"]) == b, "bbox-altered", lambda: "%s -> %s" % (b, tup(o["bbox"])))
    if fmt in ("ps", "eps"):
        head, ps = valid.check_ps(data, fmt == "eps"); rd = ps.pages
        parts = [dict(re.findall(r"^%%(Page[A-Za-z]+): *(.*)$", x, re.M)) for x in data.decode("latin1").split("\n%%Page: ")[1:]]
    elif fmt == "pdf":
        pdf, rd = outi.read_pdf(data)
    else:
        svg = outi.read_svg(data); rd = [svg.page]
    mon.check(len(rd) == len(cs), "pages-" + fmt, lambda: "%d pages" % len(rd))
    union = None
    for n, (c, o, page) in enumerate(zip(cs, opts, rd)):
        what = "%s page %d of %d (%s)" % (fmt, n+1, len(cs), ", ".join("%s=%s" % (k, v.name if k == "paperformat" else v) for k, v in sorted(o.items())))
        plain = pub.events(c, fmt, **({"write_textaspath": False} if fmt == "svg" else {}))[0]
        cb = c.bbox()
        if "bbox" in o: B = tup(o["bbox"])
        elif not cb: B = None
        else:
            en = pt(o.get("bboxenlarge", 1*unit.t_pt))
            B = tup(cb); B = (B[0]-en, B[1]-en, B[2]+en, B[3]+en)
        if B is None:
            mon.count("empty")
            T = geo.IDENT
        else:
            T = opt_model(o, B, fmt)
        same(mon, fmt, plain, page.events, T, what)
        mon.count("events", len(plain))
        pf = o.get("paperformat")
        want = trbox(B, T) if B is not None else None
        got = None
        if fmt in ("ps", "eps"):
            if fmt == "eps":
                if head.get("HiResBoundingBox"):
                    got = tuple(map(float, head["HiResBoundingBox"].split()))
                    rounded(mon, fmt, tuple(map(int, head["BoundingBox"].split())), got, what)
            else:
                pb = parts[n].get("PageBoundingBox")
                pb = pb and tuple(map(int, pb.split()))
                if pb: got = None; pgot = pb
                mon.check(parts[n].get("PageMedia") == (pf.name if pf else None) or pf and pf.name is None, "media-ps", lambda: "%s: %r" % (what, parts[n]))
                mon.check(parts[n].get("PageOrientation") == ("Landscape" if o.get("rotated") else "Portrait"), "orientation-ps", what)
                mon.check((pb is None) == (B is None), "box-ps", lambda: "%s: %s for %s" % (what, pb, B))
                if pb and B is not None:
                    # the integer box against box and ink, with a tolerance of one point
                    if "bbox" in o: rounded(mon, fmt, pb, want, what)
                    else:
                        mon.check(all(x <= y+1e-3*(1+abs(y)*1e-2) for x, y in zip(pb[:2], want[:2])) and all(x >= y-1e-3*(1+abs(y)*1e-2) for x, y in zip(pb[2:], want[2:])), "box-ps", lambda: "%s: %s does not contain %s" % (what, pb, want))
                    union = pb if union is None else (min(union[0], pb[0]), min(union[1], pb[1]), max(union[2], pb[2]), max(union[3], pb[3]))
        elif fmt == "pdf":
            obj = pdf.pages[n]
            mb = tuple(float(v) for v in obj["MediaBox"])
            if pf:
                mon.check(all(abs(x-y) < 1e-3 for x, y in zip(mb, (0, 0, pt(pf.width), pt(pf.height)))), "mediabox", lambda: "%s: %s" % (what, mb))
            elif B is not None: boxes(mon, fmt, page.events, mb, want, "bbox" in o, what + " MediaBox")
            if "CropBox" in obj: got = tuple(float(v) for v in obj["CropBox"])
            mon.check(obj.get("Rotate", 0) == (90 if o.get("rotated") else 0), "rotate-pdf", what)
        else:
            if svg.box is not None:
                got = svg.box
                for v, w in ((svg.width, got[2]-got[0]), (svg.height, got[3]-got[1])):
                    mon.check(abs(v-w) < 1e-4*max(1, w), "size-svg", lambda: "%s: %s for box %s" % (what, (svg.width, svg.height), got))
        if fmt != "ps":
            mon.check((got is None) == (B is None), "box-" + fmt, lambda: "%s: box %s for %s" % (what, got, B))
            if got is not None: boxes(mon, fmt, page.events, got, want, "bbox" in o, what)
        if B is not None: mon.count("box-" + fmt)
        if B is not None and pf and o.get("fittosize") and T[:4] != (1, 0, 0, 1): mon.count("fit")
        if o.get("rotated") and pf: mon.count("rotated")
        if "bbox" in o: mon.count("explicit")
        if fmt == "pdf" and fields is not None and fields[n]:
            fieldrects(mon, pdf, pdf.pages[n], fields[n], T, what)
    if fmt == "ps" and union is not None:
        bb = tuple(map(int, head["BoundingBox"].split()))
        mon.check(bb == union, "docbox-ps", lambda: "document bounding box %s, union of pages %s" % (bb, union))
    if fmt == "ps":
        media = {}
        for o in opts:
            pf = o.get("paperformat")
            if pf: media[pf] = pf
        m = re.search(rb"%%DocumentMedia: (.*\n(?:%%\+ .*\n)*)", data)
        lines = [l.replace(b"%%+ ", b"").split() for l in m.group(1).splitlines()] if m else []
        mon.check(len(lines) == len(media), "media-ps", lambda: "%s" % lines)
        for l, pf in zip(sorted(lines, key=lambda l: (float(l[-5]), float(l[-4]))), sorted(media, key=lambda pf: (int(pt(pf.width)), int(pt(pf.height))))):
            mon.check(abs(float(l[-5])-pt(pf.width)) <= 1 and abs(float(l[-4])-pt(pf.height)) <= 1, "media-ps", lambda: "%s for %s" % (l, pf.name))


def fieldrects(mon, pdf, obj, items, T, what):
    an = [pdf.get(a) for a in pdf.get(obj["Annots"])]
    got = sorted(tuple(round(v, 3) for v in trbox(tuple(map(float, a["Rect"])), geo.IDENT)) for a in an)
    want = []
    for f, m in items:
        want.append(trbox(f, geo.mul(m, T)))
    want.sort()
    mon.check(len(got) == len(want) and all(abs(x-y) < 1e-2 for a, b in zip(got, want) for x, y in zip(a, b)), "field-rect", lambda: "%s: %s instead of %s" % (what, got, want))
    mon.count("fields", len(got))


def run_case(kind, i, rng, mon):
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    scene.TMP[0] = mon.tmp
    svg = rng.random() < 0.35
    npages = 1 if svg else rng.choice([1, 1, 2, 3])
    cs, feats, anyfields = [], [], False
    for p in range(npages):
        if cs and rng.random() < 0.3 and not anyfields: cs.append(rng.choice(cs)); feats.append(["same"]); continue
        c, f, ff = content(rng, svg, None, p)
        anyfields = anyfields or bool(f)
        cs.append(c); feats.append(ff)
    opts = [ropts(rng) for _ in cs]
    desc = [feats, [sorted((k, str(getattr(v, "name", v))) for k, v in o.items()) for o in opts]]
    mon.describe(desc)
    fmts = ["pdf"] if anyfields else [rng.choice(["pdf", "ps"])] + (["eps"] if npages == 1 and rng.random() < 0.5 else []) + (["svg"] if svg else [])
    for fmt in fmts:
        try: verify(mon, fmt, cs, opts)
        except ValueError as e:
            if "Margins too broad" in str(e): raise Skip("margins")
            if "cannot be zero" in str(e): raise Skip("pattern step")
            raise
        mon.count("written-" + fmt)
    mon.nontrivial(desc)


def d_options(rng, mon):
    "one drawing with all option combinations in all formats, with form fields"
    for pf in (None, document.paperformat.A4, document.paperformat(10, 5, "small")):
        for rot in (0, 1):
            for cen in (0, 1):
                for fit in (0, 1):
                    for mar in (None, 0):
                        for bb in (None, bbox.bbox(-1, -2, 3, 4)):
                            c = canvas.canvas()
                            c.fill(path.rect(rng.uniform(-3, 3), rng.uniform(-3, 3), 2, 1)); c.stroke(path.line(0, 0, 1, 2), [style.linewidth.THICK])
                            o = {"paperformat": pf, "rotated": rot, "centered": cen, "fittosize": fit, "margin": mar}
                            if bb is not None: o["bbox"] = bb
                            o = {k: v for k, v in o.items() if v is not None}
                            mon.describe(sorted(o))
                            for fmt in ("eps", "ps", "svg"): verify(mon, fmt, [c], [o])
                            t = (0.5, 0, 0, 2.0, 30.0, 10.0)
                            x, y = rng.uniform(-3, 3), rng.uniform(-3, 3)
                            c.insert(pdfextra.textfield(x, y, 2, 1, "a"), [trafo.trafo_pt(((t[0], t[2]), (t[1], t[3])), (t[4], t[5]))])
                            verify(mon, "pdf", [c], [o], [[((x*PT, y*PT, (x+2)*PT, (y+1)*PT), t)]])


def d_lines(rng, mon):
    "contents without extension in one or both directions, and empty ones"
    for p in (path.line(1, 1, 1, 5), path.line(1, 1, 4, 1), path.line(2, 2, 2, 2), None):
        for rot in (0, 1):
            for fit in (0, 1):
                for en in (0, 1*unit.t_pt):
                    c = canvas.canvas()
                    if p is not None: c.stroke(p)
                    o = {"paperformat": document.paperformat.A4, "rotated": rot, "fittosize": fit, "bboxenlarge": en}
                    mon.describe(o)
                    for fmt in ("eps", "ps", "svg", "pdf"): verify(mon, fmt, [c], [o])
