"""Workload generators shared by the checks: random path programs built twice,
once through the public pyx classes and once in the reference Builder."""
import math
import geo

PT = 72/2.54          # pt per cm (default user unit 1 cm)


def num(rng, scale=1.0):
    r = rng.random()
    if r < 0.25: return float(rng.randint(-12, 12))*scale
    if r < 0.35: return rng.choice([0.0, 0.5, -0.5, 1e-3, 100.0, -37.125])*scale
    return rng.uniform(-40, 40)*scale


def angle(rng):
    r = rng.random()
    if r < 0.35: return float(rng.randint(-8, 16)*45)
    if r < 0.45: return float(rng.choice([0, 90, 180, 270, 360, -90, 359, 1]))
    return rng.uniform(-400, 700)


def angles(rng, negative):
    "a pair with a PostScript sweep of at most 700 degrees and away from full turns obtained by adjustment"
    while True:
        a1, a2 = angle(rng), angle(rng)
        d = (a2-a1) if not negative else (a1-a2)
        if d > 690: continue
        if d < 0 and abs(d/360 - round(d/360)) < 1e-3: continue
        if d > 0 and abs(d/360 - round(d/360)) < 1e-3 and d != 360: continue
        return a1, a2


OPS = ["moveto", "lineto", "lineto", "curveto", "curveto", "rmoveto", "rlineto", "rcurveto", "arc", "arcn", "arct",
       "closepath", "multilineto", "multicurveto"]


def program(rng, n=None, ops=OPS, scale=1.0):
    """list of (opname, args) with every op admissible"""
    n = n or rng.randint(2, 9)
    prog = []
    if rng.random() < 0.8 or not ("arc" in ops and "arcn" in ops):
        prog.append(("moveto", (num(rng, scale), num(rng, scale))))
    else:
        op = rng.choice(["arc", "arcn"])
        prog.append((op, (num(rng, scale), num(rng, scale), rng.uniform(1, 30)*scale) + angles(rng, op == "arcn")))
    while len(prog) < n:
        op = rng.choice(ops)
        if op in ("moveto", "rmoveto", "lineto", "rlineto"):
            args = (num(rng, scale), num(rng, scale))
        elif op in ("curveto", "rcurveto"):
            args = tuple(num(rng, scale) for _ in range(6))
        elif op in ("arc", "arcn"):
            args = (num(rng, scale), num(rng, scale), rng.uniform(1, 30)*scale) + angles(rng, op == "arcn")
        elif op == "arct":
            args = (num(rng, scale), num(rng, scale), num(rng, scale), num(rng, scale), rng.uniform(0.5, 12)*scale)
        elif op == "multilineto":
            args = tuple((num(rng, scale), num(rng, scale)) for _ in range(rng.randint(1, 5)))
        elif op == "multicurveto":
            args = tuple(tuple(num(rng, scale) for _ in range(6)) for _ in range(rng.randint(1, 4)))
        elif op == "closepath":
            args = ()
        prog.append((op, args))
    return admissible(prog)


def _arctok(cur, a):
    scale = max(1.0, *map(abs, a))
    x1, y1, x2, y2, r = a
    d1 = (x1-cur[0], y1-cur[1]); d2 = (x2-x1, y2-y1)
    l1, l2 = math.hypot(*d1), math.hypot(*d2)
    if l1 < 0.2*scale or l2 < 0.2*scale: return False
    s = (d1[0]*d2[1]-d1[1]*d2[0])/l1/l2
    c = (d1[0]*d2[0]+d1[1]*d2[1])/l1/l2
    return abs(s) > 0.1 and (c > -0.9)


def admissible(prog):
    """drop ops that the PostScript model leaves to rounding: closepath on an
    empty or degenerate subpath, nearly collinear arct, segments around the accuracy"""
    out = []
    b = geo.Builder()
    for op, a in prog:
        if op == "closepath":
            if not b.open or not b.subs or not b.subs[-1].segs or b.subs[-1].length() < 1e-2: continue
        if op == "arct" and not _arctok(b.cur, a): continue
        apply(b, op, a)
        out.append((op, a))
    return out


def apply(b, op, a):
    if op == "arcn": b.arc(*a, negative=True)
    elif op == "multilineto":
        for p in a: b.lineto(*p)
    elif op == "multicurveto":
        for c in a: b.curveto(*c)
    else: getattr(b, op)(*a)


def reference(prog):
    b = geo.Builder()
    for op, a in prog: apply(b, op, a)
    return b.subs


def pyxitems(prog, pathmod, rng=None):
    "path items; with rng, lengths are given in user units (cm) at random"
    items = []
    for op, a in prog:
        u = rng is not None and rng.random() < 0.4
        if op in ("multilineto", "multicurveto"):
            items.append(getattr(pathmod, op + "_pt")([tuple(p) for p in a]))
        elif op == "closepath":
            items.append(pathmod.closepath())
        elif not u:
            items.append(getattr(pathmod, op + "_pt")(*a))
        elif op in ("arc", "arcn"):
            items.append(getattr(pathmod, op)(a[0]/PT, a[1]/PT, a[2]/PT, a[3], a[4]))
        else:
            items.append(getattr(pathmod, op)(*[x/PT for x in a]))
    return items


def normsubs(np):
    "segments of a pyx normpath as reference segments (end points as stored)"
    subs = []
    for sp in np.normsubpaths:
        segs = []
        for it in sp.normsubpathitems:
            if hasattr(it, "x3_pt"):
                segs.append(geo.Curve((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), (it.x3_pt, it.y3_pt)))
            else:
                segs.append(geo.Line((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt)))
        subs.append(geo.Sub(segs[0].begin() if segs else None, segs, bool(sp.closed)))
    return subs


def continuous(subs):
    "largest gap between consecutive segments (and at the closing point)"
    g = 0.0
    for s in subs:
        for a, b in zip(s.segs, s.segs[1:]):
            g = max(g, math.hypot(a.end()[0]-b.begin()[0], a.end()[1]-b.begin()[1]))
        if s.closed and s.segs:
            a, b = s.segs[-1], s.segs[0]
            g = max(g, math.hypot(a.end()[0]-b.begin()[0], a.end()[1]-b.begin()[1]))
    return g


def extent(subs):
    m = 1.0
    for s in subs:
        for g in s.segs:
            if g.kind == "A":
                m = max(m, *[abs(x) for x in g.m])
            elif g.kind == "C":
                m = max(m, *[abs(c) for q in g.p for c in q])
            else:
                m = max(m, *map(abs, g.p0), *map(abs, g.p1))
    return m


def svgshape(subs, tol):
    """tolerance for shapes read from SVG arcs: an arc given by rounded end
    points and radius is ill-conditioned near half turns"""
    t = 3*tol
    for s in subs:
        for g in s.segs:
            if g.kind == "A":
                r = max(abs(x) for x in g.m[:4])
                if abs(g.a1-g.a0) > 2.7: t = max(t, 3*math.sqrt(2*r*tol))
                else: t = max(t, 20*tol)
    return t
