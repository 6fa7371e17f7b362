"""C15: arrows, texts, braces and other decorations against arc lengths and directions of independently sampled paths."""
import math, random
import numpy as np
import geo, gen, pub, scene, dvi, c16
from harness import Skip
from pyx import canvas, color, deco, path, style, text, unit, attr

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("random paths (lines, curves, arcs; open, closed, several subpaths; extents from 1 to 1e4 pt) with random combinations of arrows (position, direction, size, angle, constriction, attributes), "
        "texts, curved texts, excluded ranges, braces, hatchings, colour gradients and path displays; the painted events of PS, PDF or SVG output compared with sampled paths; distinct by decoration, parameters and path shape")
QUICK, THOROUGH = 1000, 18000
CPU = 120
REQUIRED = {"arrow": 211, "arrow:begin": 67, "arrow:end": 95, "arrow:other": 49, "brace": 11, "compared": 367, "curved": 12, "curved-glyph": 41, "curved-stroke": 12, "display": 13, "display-event": 215, "excluded": 25, "gradient": 15, "gradient-points": 884, "gradient:closed": 5, "hatch": 7, "overlap": 18, "several": 57, "stroke": 113, "text": 18}
DIRECTED = ["closedgradient", "overlap", "closedfirst"]
PT = 72/2.54


class P:
    "arc lengths over all subpaths"
    def __init__(self, subs):
        self.subs = subs; self.d = [geo.Dense(closedsub(s)) for s in subs]
        self.o = [0]
        for d in self.d: self.o.append(self.o[-1] + d.total)
        self.L = self.o[-1]
    def loc(self, s):
        for i, d in enumerate(self.d):
            if s < self.o[i + 1] or i == len(self.d) - 1: return i, s - self.o[i]
    def at(self, s): i, r = self.loc(s); return tuple(float(x) for x in self.d[i].at([r])[0])
    def same(self, a, b):
        "both in one subpath, or None"
        a, b = min(a, b), max(a, b)
        for i, d in enumerate(self.d):
            if self.o[i] - 1e-9*self.L - 1e-9 <= a and b <= self.o[i + 1] + 1e-9*self.L + 1e-9: return i
    def cut(self, a, b):
        i = self.same(a, b)
        return None if i is None else self.d[i].cut(min(max(a - self.o[i], 0), self.d[i].total), min(max(b - self.o[i], 0), self.d[i].total))
    def tangent(self, s):
        "(unit tangent, smooth)"
        h = 1e-3*min(1, self.L)
        i, r = self.loc(s); d = self.d[i]
        t = []
        for a, b in ((r - h, r), (r, r + h), (r - h/2, r + h/2)):
            if a < 0 or b > d.total: continue
            p, q = d.at([a, b]); v = q - p; n = math.hypot(*v)
            if n < .5*(b - a): return None, False
            t.append((v[0]/n, v[1]/n))
        u = t[-1]
        return u, all(abs(u[0]*v[1] - u[1]*v[0]) < 5e-3 and u[0]*v[0] + u[1]*v[1] > 0 for v in t)


def closedsub(s):
    if s.closed and math.dist(s.begin(), s.end()) > 0: return geo.Sub(s.begin(), list(s.segs) + [geo.Line(s.end(), s.begin())], True)
    return s


def rpath(rng, single=False, lc=False):
    "(pyx path, P)"
    scale = rng.choice([5, 60, 60, 60, 60, 300, 300, 3000 if rng.random() < .3 else 100])
    n = 1 if single else rng.choice([1, 1, 1, 2, 3])
    subs = []; items = []
    for k in range(n):
        x, y = rng.uniform(-1, 1)*scale, rng.uniform(-1, 1)*scale
        s = geo.Sub((x, y)); items.append(path.moveto_pt(x, y)); closed = n == 1 and rng.random() < .25    # see the directed case "closedfirst"
        d = rng.uniform(0, 7)
        for j in range(rng.choice([1, 1, 2, 3, 5])):
            kind = rng.choice("LCCA" if not lc else "LC")
            l = scale*rng.uniform(.3, 1.5); smooth = rng.random() < .5
            if not smooth: d = rng.uniform(0, 7)
            if kind == "L":
                q = (x + l*math.cos(d), y + l*math.sin(d)); s.segs.append(geo.Line((x, y), q)); items.append(path.lineto_pt(*q))
            elif kind == "C":
                e = d + rng.uniform(-2.5, 2.5); a, b = l*rng.uniform(.2, .6), l*rng.uniform(.2, .6); g = d + (e - d)/2
                q = (x + l*math.cos(g), y + l*math.sin(g)); c = ((x + a*math.cos(d), y + a*math.sin(d)), (q[0] - b*math.cos(e), q[1] - b*math.sin(e)))
                s.segs.append(geo.Curve((x, y), *c, q)); items.append(path.curveto_pt(*c[0], *c[1], *q)); d = e
            else:
                turn = rng.uniform(.3, 5)*rng.choice([1, -1]); r = l/abs(turn); sg = 1 if turn > 0 else -1
                c = (x - sg*r*math.sin(d), y + sg*r*math.cos(d)); a0 = math.atan2(y - c[1], x - c[0]); a1 = a0 + turn
                s.segs.append(geo.Arc(geo.circ(*c, r), a0, a1)); q = s.segs[-1].end(); d += turn
                items.append((path.arc_pt if turn > 0 else path.arcn_pt)(*c, r, math.degrees(a0), math.degrees(a1)))
            x, y = q
        if closed and (len(s.segs) > 1 or s.segs[0].kind != "L"): s.closed = True; items.append(path.closepath())
        subs.append(s)
    p = path.path(*items)
    if rng.random() < .3: p = p.normpath()
    return p, P(subs), scale


def poly(ev): return [fine(closedsub(s)) for s in ev.subs if s.segs]


def fine(s):
    return np.concatenate([np.array([s.begin()], float)] + [np.asarray(g.samples(250) if g.kind == "C" else g.samples(), float)[1:] for g in s.segs])


def samecolor(got, want):
    c = got.color[1] if isinstance(got.color, tuple) else got.color
    k = got.color[0]
    return (k, tuple(round(v, 3) for v in c)) if False else close(rgb(got.color), rgb(want))


def rgb(c):
    k, v = c
    if k == "gray": return (v[0],)*3
    if k == "cmyk": return tuple((1 - x)*(1 - v[3]) for x in v[:3])
    return tuple(v)


def close(a, b): return all(abs(x - y) < 5e-3 for x, y in zip(a, b))


def rcolor(rng):
    if rng.random() < .3: g = round(rng.random(), 2); return color.gray(g), ("gray", (g,))
    v = tuple(round(rng.random(), 2) for i in range(3)); return color.rgb(*v), ("rgb", v)


LW = .02*PT


class Item:
    "an expected event"
    def __init__(self, op, polys, col, what, lw=None, dash=None, closed=None):
        self.op, self.polys, self.col, self.what, self.lw, self.dash, self.closed = op, polys, col, what, lw, dash, closed


def compare(mon, got, want, tol):
    mon.check(len(got) == len(want), "events", lambda: "%d events instead of %d: %r" % (len(got), len(want), got))
    for g, w in zip(got, want):
        mon.check(g.op == w.op, "events", lambda: "%s instead of %s for %s" % (g.op, w.op, w.what))
        if w.col: mon.check(close(rgb(g.color), rgb(w.col)), w.what + ":color", lambda: "%r instead of %r" % (g.color, w.col))
        if w.lw is not None: mon.check(abs(g.lw - w.lw) < 1e-3*w.lw + 1e-5, w.what + ":width", lambda: "%r instead of %r" % (g.lw, w.lw))
        if w.dash is not None: mon.check(bool(g.dash[0]) == w.dash, w.what + ":dash", lambda: "%r" % (g.dash,))
        if w.polys is None: continue
        P = poly(g)
        mon.check(len(P) == len(w.polys), w.what + ":pieces", lambda: "%d subpaths instead of %d" % (len(P), len(w.polys)))
        if w.closed is not None: mon.check(all(s.closed == w.closed for s in g.subs if s.segs), w.what + ":closed", lambda: "closed")
        for a, b in zip(P, w.polys):
            for n, x, y in (("begin", a[0], b[0]), ("end", a[-1], b[-1])):
                mon.check(math.dist(x, y) < tol, w.what + ":" + n, lambda: "%s at %r instead of %r" % (n, tuple(x), tuple(y)))
            d = geo.ordered_dist(a, b)
            mon.check(d < 3*tol, w.what + ":shape", lambda: "deviates by %r" % d)
        mon.count("compared")


def turn(p, angle, c):
    a = math.radians(angle); p = np.asarray(p, float) - c
    return np.stack([p[:, 0]*math.cos(a) - p[:, 1]*math.sin(a), p[:, 0]*math.sin(a) + p[:, 1]*math.cos(a)], -1) + c


def union(ranges):
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1]: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return out


def remaining(ref, ranges, tol):
    "polylines left over by excluded ranges, None when not decidable"
    ranges = union(ranges); out = []
    for i, d in enumerate(ref.d):
        a0, b0 = ref.o[i], ref.o[i + 1]; cur = a0
        for a, b in ranges:
            if b <= a0 or a >= b0: continue
            if a > a0 and len(ref.d) > 1 and a < a0 + tol or (b < b0 and b > b0 - tol): return None
            if a > cur + tol: out.append(ref.cut(cur, a))
            elif a > cur: return None
            cur = max(cur, min(b, b0))
        if cur < b0 - tol: out.append(ref.cut(cur, b0))
        elif cur < b0: return None
    # a closed path cut in its interior only goes on over its starting point
    return out


SIZES = {"SMALL": 8, "SMALl": 32**.5, "SMAll": 4, "SMall": 8**.5, "Small": 2, "small": 2**.5, "normal": 1, "large": 2**-.5, "Large": .5, "LArge": 8**-.5, "LARge": .25, "LARGe": 32**-.5, "LARGE": .125}


def rarrow(rng, ref, scale):
    "(pyx attribute, head expectation function, excluded ranges)"
    rev = rng.random() < .4; pos = 0 if rev else 1
    base = deco.barrow if rev else deco.earrow
    size, angle, con = 6, 45, .8; kw = {}
    if rng.random() < .3:
        n = rng.choice(sorted(SIZES)); base = getattr(base, n); size = 6/SIZES[n]
    if rng.random() < .6 or size > .3*ref.L:
        size = rng.uniform(.02, .3)*scale; kw["size"] = rng.choice([size*unit.t_pt, size/PT])
    if rng.random() < .5: angle = rng.choice([30, 60, 90, rng.uniform(5, 120)]); kw["angle"] = angle
    if rng.random() < .5: con = rng.choice([None, 1, .5, 0, rng.uniform(0, 1)]); kw["constriction"] = con
    k = rng.random()
    if k < .35:
        if rng.random() < .5: base = deco.arrow; pos, rev = 1, False; size = size if "size" in kw else 6
        pos = rng.choice([0, 1, .5, rng.random()]); kw["pos"] = pos
        if base is deco.arrow or rng.random() < .3: rev = rng.random() < .5; kw["reversed"] = rev
    col = None; attrs = []; stroked = False; filled = True; lw = None
    if rng.random() < .3:
        c, col = rcolor(rng); attrs.append(c)
    if rng.random() < .2: attrs.append(deco.stroked); stroked = True
    if stroked and rng.random() < .4: attrs.append(deco.filled.clear); filled = False
    if stroked and rng.random() < .5: lw = rng.choice([.3, 2]); attrs.append(style.linewidth(lw*unit.t_pt))
    if attrs: kw["attrs"] = attrs
    if base is deco.arrow: a = deco.arrow(**kw); size = size if "size" in kw else 6
    elif kw or rng.random() < .5:
        if kw and rng.random() < .3:
            n = rng.choice(sorted(kw)); a = base(**{n: kw[n]}); a = a(**{m: kw[m] for m in kw if m != n})
        else: a = base(**kw)
    else: a = base
    cl = size*(1 if con is None else con)*math.cos(math.radians(angle/2))
    s = (0 if rev else cl) + pos*(ref.L - cl)
    dr = -1 if rev else 1
    excl = []
    if pos == 0 and rev: excl = [(0, min(size, cl))]
    elif pos == 1 and not rev: excl = [(ref.L - min(size, cl), ref.L)]
    def head(curcol, curlw):
        t = ref.cut(s, s - dr*size)
        items = []
        if t is None or s - dr*size < -1e-9*ref.L or s - dr*size > ref.L*(1 + 1e-9): polys = None
        else:
            tip = np.array(ref.at(s)); l, r = turn(t, -angle/2, tip), turn(t, angle/2, tip)
            q = [l[::-1], r[1:]]
            if con is not None:
                if ref.same(s, s - dr*cl) is None: polys = None
                q.append(np.array([ref.at(s - dr*cl)]))
            q = np.concatenate(q); polys = [np.concatenate([q, q[:1]])]
        if filled: items.append(Item("fill", polys, col or curcol, "head", closed=True))
        if stroked: items.append(Item("stroke", polys, col or curcol, "head", lw or curlw, False, closed=True))
        return items
    return a, head, excl, "arrow", dict(pos=pos, rev=rev, size=size, angle=angle, con=con, s=s)


def arrows(rng, mon):
    p, ref, scale = rpath(rng)
    fmt = rng.choice(["eps", "pdf", "svg"])
    curcol, curlw = ("gray", (0.,)), LW
    attrs = []
    if rng.random() < .4: c, curcol = rcolor(rng); attrs.append(c)
    if rng.random() < .3: curlw = rng.choice([.5, 3]); attrs.append(style.linewidth(curlw*unit.t_pt))
    dashed = rng.random() < .15
    if dashed: attrs.append(style.linestyle.dashed)
    A = [rarrow(rng, ref, scale) for i in range(rng.choice([1, 1, 2, 3]))]
    stroked, filled = True, rng.random() < .2
    strokecol = curcol
    l = attrs + [a[0] for a in A]
    if rng.random() < .3: rng.shuffle(l)
    # the order of the heads is the order in the list
    A = sorted(A, key=lambda a: [x is a[0] for x in l].index(True))
    how = rng.choice(["stroke", "draw"])
    if how == "draw":
        if rng.random() < .8: l.insert(0, deco.stroked)
        else: stroked = False
    fillcol = curcol
    if filled: c, fillcol = rcolor(rng); l.append(deco.filled([c]))
    c = canvas.canvas()
    ranges = [r for a in A for r in a[2]]
    mon.describe("%s %s of %r with %r" % (fmt, how, ref.subs, [a[4] for a in A]))
    getattr(c, how)(p, l)
    ev = pub.events(c, fmt)[0]
    tol = 3e-3 + 3e-5*gen.extent(ref.subs) + 1e-4*max(a[4]["size"] for a in A)
    want = []
    if filled: want.append(Item("fill", [closedsub(s).poly() for s in ref.subs], fillcol, "filled"))
    whole = len(union(ranges)) == 1 and union(ranges)[0][0] <= 0 and union(ranges)[0][1] >= ref.L
    drop = False
    if stroked and not whole:
        left = remaining(ref, ranges, 3*tol) if ranges else [closedsub(s).poly() for s in ref.subs]
        want.append(Item("stroke", left, strokecol, "stroke", curlw, dashed))
        mon.count("stroke" if left is not None else "undecided")
    for a in A: want += a[1](curcol, curlw)
    got = [e for e in ev if e.op != "stroke" or any(s.segs for s in e.subs)]
    compare(mon, got, want, tol)
    for a in A:
        d = a[4]; mon.count("arrow"); mon.count("arrow:" + ("end" if d["pos"] == 1 and not d["rev"] else "begin" if d["pos"] == 0 and d["rev"] else "other"))
    if len(A) > 1: mon.count("several")
    # the bounding box reported for the decorations contains them
    bb = c.bbox(); b = [unit.topt(x()) for x in (bb.left, bb.bottom, bb.right, bb.top)]
    for e in got:
        for q in poly(e): mon.check(q[:, 0].min() > b[0] - tol and q[:, 1].min() > b[1] - tol and q[:, 0].max() < b[2] + tol and q[:, 1].max() < b[3] + tol, "bbox", lambda: "%r does not contain %r" % (b, e))
    mon.nontrivial((fmt, len(ref.subs), tuple((d["rev"], round(d["pos"], 1), round(d["angle"] / 20), d["con"] is None) for d in (a[4] for a in A))))


def excluded(rng, mon):
    p, ref, scale = rpath(rng, single=True)
    if ref.subs[0].closed: raise Skip
    n = p.normpath()
    dp = deco.decoratedpath(n); ranges = []
    for i in range(rng.randint(1, 5)):
        a = rng.uniform(0, .9)*ref.L; b = min(ref.L, a + rng.choice([.02, .1, .3])*ref.L*rng.uniform(.5, 1))
        k = rng.randrange(3)
        if rng.random() < .1: a = 0
        if rng.random() < .1: b = ref.L
        ranges.append((a, b))
        if k == 0: x, y = a*unit.t_pt, b*unit.t_pt
        elif k == 1: x, y = n.begin() + a*unit.t_pt, n.begin() + b*unit.t_pt
        else: x, y = n.end() - (ref.L - a)*unit.t_pt, n.end() - (ref.L - b)*unit.t_pt
        if a == 0: x = n.begin() if k else 0
        if b == ref.L: y = n.end()
        dp.excluderange(x, y)
    mon.describe("excluded %r of %r" % (ranges, ref.subs))
    tol = 5e-3 + 5e-5*gen.extent(ref.subs)
    want = remaining(ref, ranges, 5*tol)
    if want is None: raise Skip
    for u, v in zip(union(ranges), union(ranges)[1:]):
        if v[0] - u[1] < 5*tol: raise Skip
    got = gen.normsubs(dp.strokepath()); got = [s.poly() for s in got if s.segs]
    mon.check(len(got) == len(want), "exclude:pieces", lambda: "%d pieces instead of %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        mon.check(math.dist(g[0], w[0]) < tol and math.dist(g[-1], w[-1]) < tol and geo.ordered_dist(g, w) < 3*tol, "exclude", lambda: "piece from %r to %r instead of %r to %r" % (g[0], g[-1], w[0], w[-1]))
    mon.count("excluded"); mon.nontrivial(("exclude", len(ranges), len(want)))


def engine(): return scene.texengine("tex")


def texts(rng, mon):
    "deco.text: the box of the text touches the line at the requested distance from the point"
    scene.TMP[0] = mon.tmp
    p, ref, scale = rpath(rng, single=rng.random() < .7)
    e = engine()
    kw = {}; ang = 0; dist = .2*PT; s = .5*ref.L; rel = None
    k = rng.random()
    if k < .3: ang = rng.choice([90, 180, -45, rng.uniform(0, 360)]); kw["angle"] = ang
    elif k < .7: rel = rng.choice([0, 90, -90, 180, rng.uniform(0, 360)]); kw["relangle"] = rel
    if rng.random() < .5: dist = rng.choice([0, 10, rng.uniform(0, 30)]); kw["textdist"] = rng.choice([dist/PT, dist*unit.t_pt])
    k = rng.random()
    if k < .3: f = rng.choice([0, 1, rng.random()]); s = f*ref.L; kw["relarclenpos"] = f
    elif k < .55: s = rng.uniform(0, 1)*ref.L; kw["arclenfrombegin"] = rng.choice([s/PT, s*unit.t_pt])
    elif k < .8: s = rng.uniform(0, 1)*ref.L; kw["arclenfromend"] = (ref.L - s)*unit.t_pt
    ta = []
    if rng.random() < .4: ta.append(rng.choice([text.halign.left, text.halign.right, text.size.large, text.vshift.bottomzero, text.vshift.topzero, text.valign.top]))
    if ta: kw["textattrs"] = ta
    w = rng.choice(["A", "xyz", "Typ g", "$a^2$"])
    own = rng.random() < .3
    c = canvas.canvas(**({} if own else {"textengine": e}))
    if own: kw["texrunner"] = e
    if rel is not None:
        u, ok = ref.tangent(s)
        if not ok: raise Skip
        ang = math.degrees(math.atan2(u[1], u[0])) + rel
    mon.describe("text %r with %r on %r" % (w, kw, ref.subs))
    d = deco.text(w, **kw)
    (c.stroke if rng.random() < .8 else c.draw)(p, [d])
    got = [x for x in pub.events(c, "eps")[0] if x.op == "text"]
    t = e.text(0, 0, w, [text.halign.center, text.vshift.mathaxis] + ta)
    q = t.center; corners = [tuple(x) for x in t.corners]
    u = (math.cos(math.radians(ang)), math.sin(math.radians(ang)))
    sh = c16.wantline(corners, q, dist, u); at = ref.at(s)
    v = (at[0] + sh*u[0], at[1] + sh*u[1])
    c2 = canvas.canvas(); c2.insert(t)
    want = [x for x in pub.events(c2, "eps")[0] if x.op == "text"]
    tol = 5e-3 + 3e-5*gen.extent(ref.subs) + (8e-3*30 if rel is not None else 0)
    mon.check(len(got) == len(want), "text:events", lambda: "%d instead of %d" % (len(got), len(want)))
    for g, x in zip(got, want):
        z = (x.at[0] + v[0], x.at[1] + v[1])
        mon.check(g.codes == x.codes and g.font == x.font and abs(g.size - x.size) < 1e-4*x.size, "text:glyph", lambda: "%r instead of %r" % (g, x))
        mon.check(math.dist(g.at, z) < tol, "text:position", lambda: "glyph at %r instead of %r" % (g.at, z))
    mon.count("text"); mon.nontrivial(("text", w, tuple(sorted(kw))))


def curved(rng, mon):
    scene.TMP[0] = mon.tmp
    p, ref, scale = rpath(rng, single=True)
    if scale < 60: raise Skip
    e = engine(); kw = {}; s = .5*ref.L
    k = rng.random()
    if k < .3: f = rng.choice([.3, .7, rng.random()]); s = f*ref.L; kw["relarclenpos"] = f
    elif k < .5: s = rng.uniform(.1, .9)*ref.L; kw["arclenfrombegin"] = rng.choice([s/PT, s*unit.t_pt])
    elif k < .7: s = rng.uniform(.1, .9)*ref.L; kw["arclenfromend"] = (ref.L - s)*unit.t_pt
    ta = []
    if rng.random() < .5: ta.append(rng.choice([text.halign.left, text.halign.right, text.halign.center, text.size.large, text.size.small, text.vshift.middlezero, text.vshift(.5)]))
    if ta: kw["textattrs"] = ta
    ex = None
    if rng.random() < .5: ex = rng.choice([.5, 2, 5]); kw["exclude"] = ex*unit.t_pt
    w = rng.choice(["A", "AVAX", "curved", "a g", "office", "$x+y$"])
    own = rng.random() < .3
    c = canvas.canvas(**({} if own else {"textengine": e}))
    if own: kw["texrunner"] = e
    flat = e.text(0, 0, w, [text.halign.center] + ta)
    c2 = canvas.canvas(); c2.insert(flat)
    want = []
    for g in [x for x in pub.events(c2, "eps")[0] if x.op == "text"]:
        x = g.at[0]; tf = dvi.tfm(g.font.split("+")[-1].lower())
        for code in g.codes:
            wd = tf.width(code)*g.size
            want.append((g.font, g.size, code, x, g.at[1], wd)); x += wd
    if min(s + x[3] for x in want) < 1 or max(s + x[3] + x[5] for x in want) > ref.L - 1: raise Skip
    exclude = []; exp = []
    for font, size, code, x, y, wd in want:
        z = s + x + wd/2
        u, ok = ref.tangent(z)
        if not ok: raise Skip
        o = ref.at(z); exp.append((o[0] - wd/2*u[0] - y*u[1], o[1] - wd/2*u[1] + y*u[0], u))
        if ex is not None: exclude.append((s + x - ex, s + x + wd + ex))
    if ref.subs[0].closed and exclude: raise Skip
    mon.describe("curved text %r with %r on %r" % (w, kw, ref.subs))
    l = [deco.curvedtext(w, **kw)]
    if rng.random() < .3: l.append(deco.earrow); exclude.append((ref.L - 6*.8*math.cos(math.pi/8), ref.L)); 
    elif rng.random() < .3: l.insert(0, deco.barrow); exclude.append((0, 6*.8*math.cos(math.pi/8)))
    c.stroke(p, l)
    ev = pub.events(c, "eps")[0]
    got = [x for x in ev if x.op == "text"]
    mon.check(len(got) == len(want), "curved:events", lambda: "%d instead of %d" % (len(got), len(want)))
    tol = 5e-3 + 3e-5*gen.extent(ref.subs)
    for g, x, (X, Y, u) in zip(got, want, exp):
        mon.check(g.codes == [x[2]] and g.font == x[0] and abs(g.size - x[1]) < 1e-3, "curved:glyph", lambda: "%r instead of %r" % (g, x))
        a = math.hypot(g.ctm[0], g.ctm[1])
        mon.check(abs(g.ctm[0]*u[0] + g.ctm[1]*u[1] - a) < 1e-4 and abs(g.ctm[0]*g.ctm[3] - g.ctm[1]*g.ctm[2] - 1) < 1e-3, "curved:direction", lambda: "%r instead of %r" % (g.ctm, u))
        mon.check(math.dist(g.at, (X, Y)) < tol + .01*(x[5] + abs(x[4])), "curved:position", lambda: "glyph at %r instead of %r" % (g.at, (X, Y))); mon.count("curved-glyph")
    left = remaining(ref, exclude, 5*tol) if exclude else [closedsub(t).poly() for t in ref.subs]
    st = [x for x in ev if x.op == "stroke"][:1]
    un = union(exclude)
    if left is not None and not any(b[0] - a[1] < 5*tol for a, b in zip(un, un[1:])):
        compare(mon, st, [Item("stroke", left, ("gray", (0.,)), "stroke", LW)], 2*tol); mon.count("curved-stroke")
    mon.count("curved"); mon.nontrivial(("curved", w, tuple(sorted(kw)), len(l)))


def braces(rng, mon):
    p, ref, scale = rpath(rng, single=True)
    if ref.subs[0].closed: raise Skip
    a, b = ref.at(0), ref.at(ref.L)
    base = rng.choice(["leftbrace", "rightbrace", "belowbrace", "abovebrace", "straightbrace", None])
    rel, rev, h = {"leftbrace": (.55, 0), "rightbrace": (.45, 1), "belowbrace": (.55, 1), "abovebrace": (.45, 0), "straightbrace": (.5, 1), None: (.5, 1)}[base] + (12,)
    kw = {}; ot = .25; dist = 0; st = 1
    if rng.random() < .5: h = rng.uniform(.05, .3)*scale; kw["totalheight"] = h*unit.t_pt
    if rng.random() < .3: rel = rng.uniform(.3, .7); kw["middlerelpos"] = rel
    if rng.random() < .3: rev = rng.choice([0, 1]); kw["reverse"] = rev
    if rng.random() < .3: st = rng.uniform(.5, 1.5); kw["stretch"] = st
    if rng.random() < .3: dist = rng.uniform(-1, 1)*h; kw["dist"] = dist*unit.t_pt
    if rng.random() < .2: ot = rng.uniform(.1, .5); kw["outerstrokesthickness"] = ot*unit.t_pt
    col = None
    if rng.random() < .4: c, col = rcolor(rng); kw["fillattrs"] = [c]
    if h < 5: raise Skip
    e0, e1 = (a, b) if not rev else (b, a)
    m = ((e0[0] + e1[0])/2, (e0[1] + e1[1])/2)
    e0, e1 = (m[0] + st*(e0[0] - m[0]), m[1] + st*(e0[1] - m[1])), (m[0] + st*(e1[0] - m[0]), m[1] + st*(e1[1] - m[1]))
    if dist:
        d = ref.d[0]; hh = 1e-4*ref.L
        def tang(x, y): v = d.at([y])[0] - d.at([x])[0]; n = math.hypot(*v); return v[0]/n, v[1]/n
        u0, u1 = tang(0, hh), tang(ref.L - hh, ref.L)
        e0, e1 = (e0[0] - dist*u0[1], e0[1] + dist*u0[0]), (e1[0] - dist*u1[1], e1[1] + dist*u1[0])
    L = math.dist(e0, e1)
    if L < 3*h: raise Skip
    mon.describe("brace %s %r between %r and %r" % (base, kw, a, b))
    x = getattr(deco, base) if base else deco.brace()
    if kw: x = x(**kw)
    c = canvas.canvas()
    alone = rng.random() < .7
    (c.draw if alone else c.stroke)(p, [x])
    fmt = rng.choice(["eps", "pdf", "svg"])
    ev = pub.events(c, fmt)[0]
    if not alone: mon.check(ev[0].op == "stroke", "brace:stroke", lambda: "%r" % ev); ev = ev[1:]
    mon.check(len(ev) == 1 and ev[0].op == "fill" and len([s for s in ev[0].subs if s.segs]) == 1, "brace:events", lambda: "%r" % ev)
    mon.check(close(rgb(ev[0].color), rgb(col or ("gray", (0,)))), "brace:color", lambda: "%r" % (ev[0].color,))
    q = ev[0].subs[0].poly()
    u = ((e1[0] - e0[0])/L, (e1[1] - e0[1])/L); n = (-u[1], u[0])
    X = (q - e0) @ np.array(u); Y = (q - e0) @ np.array(n)
    tol = .02 + 1e-4*gen.extent(ref.subs) + (2e-3*abs(dist) if dist else 0)
    mon.check(abs(Y.max() - h) < tol + .02*ot, "brace:height", lambda: "height %r instead of %r" % (Y.max(), h))
    mon.check(min(math.dist(z, (rel*L, h)) for z in zip(X, Y)) < tol, "brace:middle", lambda: "highest point at %r of %r instead of %r" % (X[Y.argmax()], L, rel*L))
    for z, what in (((0, 0), "begin"), ((L, 0), "end")):
        dd = min(math.dist(z, v) for v in zip(X, Y))
        mon.check(dd < tol + .75*ot, "brace:" + what, lambda: "nothing painted at the %s: %r" % (what, dd))
    mon.check(X.min() > -tol - 2*ot - .3*h and X.max() < L + tol + 2*ot + .3*h and Y.min() > -tol - 2*ot - .1*h, "brace:extent", lambda: "%r" % ((X.min(), X.max(), Y.min()),))
    if base == "straightbrace" and rel == .5:
        mir = np.stack([L - X, Y], -1)
        d = geo.polydist(mir, np.stack([X, Y], -1)); d = float(np.max(d))
        mon.check(d < tol + .1, "brace:symmetry", lambda: "%r" % d); mon.count("symmetric")
    mon.count("brace"); mon.nontrivial(("brace", base, tuple(sorted(kw))))


def hatching(rng, mon):
    p, ref, scale = rpath(rng)
    if not all(s.closed or len(s.segs) > 1 for s in ref.subs): raise Skip
    dist = rng.uniform(.05, .4)*scale; angle = rng.choice([0, 45, 90, 135, rng.uniform(0, 180)])
    cross = rng.random() < .4; lw = None
    st = []
    if rng.random() < .4: lw = rng.choice([.3, 1]); st = [style.linewidth(lw*unit.t_pt)]
    k = rng.random()
    if k < .4: h = deco.linehatched(dist*unit.t_pt, angle, st, cross=cross)
    else:
        n = rng.choice(sorted(SIZES)); n0 = rng.choice([0, 45, 90, 135]) if not cross else rng.choice([0, 45])
        h = getattr(getattr(deco, "%slinehatched%d" % ("cross" if cross else "", n0)), n); angle = n0; dist = .1*PT/SIZES[n]
        if dist < .02*scale: dist = .1*scale; h = h(dist*unit.t_pt)
        if st: h = h(strokestyles=st)
    mon.describe("hatching %r %r cross %r of %r" % (dist, angle, cross, ref.subs))
    c = canvas.canvas(); l = [h]
    filled = rng.random()
    if filled < .2: l.insert(0, deco.filled)               # replaced by the hatching
    elif filled < .4: l.insert(0, deco.linehatched45)
    c.draw(p, l)
    ev = pub.events(c, rng.choice(["eps", "pdf"]))[0]
    mon.check(all(e.op == "stroke" for e in ev), "hatch:events", lambda: "%r" % ev[:3])
    tol = 3e-3 + 3e-5*gen.extent(ref.subs)
    allp = np.concatenate([closedsub(s).poly() for s in ref.subs])
    fam = {}
    for e in ev:
        mon.check(len(e.clips) == 1, "hatch:clip", lambda: "%d clips" % len(e.clips))
        q = poly(e); mon.check(len(q) == 1 and len(q[0]) == 2, "hatch:line", lambda: "%r" % e)
        v = q[0][1] - q[0][0]; a = math.degrees(math.atan2(v[1], v[0])) % 180
        k = min((angle + 90) % 180, (angle) % 180, key=lambda w: min(abs(w - a), 180 - abs(w - a)))
        mon.check(min(abs(k - a), 180 - abs(k - a)) < .05, "hatch:angle", lambda: "line at %r" % a)
        r = math.radians(k); n = (-math.sin(r), math.cos(r)); u = (math.cos(r), math.sin(r))
        fam.setdefault(k, []).append((float(q[0][0] @ n), min(float(q[0][0] @ u), float(q[0][1] @ u)), max(float(q[0][0] @ u), float(q[0][1] @ u))))
        if lw: mon.check(abs(e.lw - lw) < 1e-3, "hatch:width", lambda: "%r" % e.lw)
    want = {(angle + 90) % 180} | ({angle % 180} if cross else set())
    mon.check(set(fam) == want, "hatch:angle", lambda: "directions %r instead of %r" % (sorted(fam), sorted(want)))
    # clip = the path
    C = ev[0].clips[0][0]
    e = geo.subs_match(C, [closedsub(s) for s in ref.subs], 2*tol, "clip") if all(s.closed for s in C) == all(s.closed for s in ref.subs) else None
    mon.check(e is None, "hatch:clip", lambda: e)
    for k, f in fam.items():
        o = sorted(x[0] for x in f)
        mon.check(all(abs(b - a - dist) < tol for a, b in zip(o, o[1:])), "hatch:dist", lambda: "lines at %r instead of a distance of %r" % (o[:5], dist))
        r = math.radians(k); n = np.array((-math.sin(r), math.cos(r))); u = np.array((math.cos(r), math.sin(r)))
        N, U = allp @ n, allp @ u
        mon.check(o[0] <= N.min() + dist + tol and o[-1] >= N.max() - dist - tol, "hatch:cover", lambda: "lines from %r to %r for a path from %r to %r" % (o[0], o[-1], N.min(), N.max()))
        mon.check(max(x[1] for x in f) <= U.min() + tol and min(x[2] for x in f) >= U.max() - tol, "hatch:cover", lambda: "lines do not cover the path")
    mon.count("hatch"); mon.nontrivial(("hatch", round(angle), cross, len(ref.subs)))


def gradients(rng, mon, closed=None):
    # a spiral: no crossings
    turns = rng.uniform(.2, .9); R = rng.choice([20, 100, 1000]); n = rng.choice([1, 3, 6]); s = geo.Sub((R, 0)); items = [path.moveto_pt(R, 0)]
    if closed is None: closed = rng.random() < .3
    if closed: turns, n = .7, 4
    def f(t): a = 2*math.pi*turns*t; return R*math.cos(a), R*math.sin(a)*(1 if closed else 1 + .3*t)
    x = (R, 0)
    for i in range(n):
        q = f((i + 1)/n); s.segs.append(geo.Line(x, q)); items.append(path.lineto_pt(*q)); x = q
    if closed: s.closed = True; items.append(path.closepath())
    ref = P([s]); steps = rng.choice([2, 3, 5, 20]); kw = {"steps": steps} if steps != 20 or rng.random() < .5 else {}
    lw = None; at = []
    if rng.random() < .5: lw = 2; at = [style.linewidth(2*unit.t_pt)]; kw["attrs"] = at
    g = color.lineargradient_gray(color.gray(1), color.gray(0)) if rng.random() < .5 else color.lineargradient_rgb(color.rgb(1, 0, .5), color.rgb(0, 1, 0))
    mon.describe("colorgradient %r on %r" % (kw, s))
    c = canvas.canvas(); c.draw(path.path(*items), [deco.colorgradient(g, **kw)])
    ev = pub.events(c, rng.choice(["eps", "pdf", "svg"]))[0]
    polys = [(e, np.concatenate(poly(e)) if poly(e) else None) for e in ev if e.op == "stroke"]
    for j in range(60):
        t = rng.uniform(.002, .998); k = int(t*steps); r = t*steps - k
        if r < .03 or r > .97: continue
        pt = ref.at(t*ref.L)
        last = None
        for e, q in polys:
            for q in poly(e):
                if min(c16.segdist(pt, a, b) for a, b in zip(q, q[1:])) < 1e-3*R: last = e
        mon.check(last is not None, "gradient:missing", lambda: "nothing painted at %r of the path" % t)
        w = g.select(k, steps); w = ("gray", (w.g,)) if isinstance(w, color.gray) else ("rgb", (w.r, w.g, w.b))
        mon.check(close(rgb(last.color), rgb(w)), "gradient:color", lambda: "colour %r instead of %r at %r of the path" % (last.color, w, t)); mon.count("gradient-points")
        if lw: mon.check(abs(last.lw - lw) < 1e-3, "gradient:width", lambda: "%r" % last.lw)
    mon.count("gradient"); mon.count("gradient:closed", int(closed)); mon.nontrivial(("gradient", steps, n, closed))


def display(rng, mon):
    p, ref, scale = rpath(rng, lc=True)
    mon.describe("shownormpath of %r" % ref.subs)
    c = canvas.canvas(); kw = {}; es = cs = .05*PT
    if rng.random() < .4: es = rng.uniform(.5, 3); kw["endpoint_size"] = es*unit.t_pt
    if rng.random() < .4: cs = rng.uniform(.5, 3); kw["controlpoint_size"] = cs*unit.t_pt
    hide = [n for n in ("normline", "normcurve", "endpoint", "controlline", "controlpoint") if rng.random() < .15]
    for n in hide: kw[n + "_attrs"] = None
    c.draw(p, [deco.shownormpath(**kw)])
    ev = pub.events(c, rng.choice(["eps", "pdf", "svg"]))[0]
    blue, green, red, black = ("rgb", (0, 0, 1)), ("rgb", (0, 1, 0)), ("rgb", (1, 0, 0)), ("gray", (0,))
    want = []
    subs = [closedsub(s) for s in ref.subs]
    for s in subs:
        for g in s.segs: want.append(("normcurve", "stroke", green, g) if g.kind == "C" else ("normline", "stroke", blue, g))
    for s in subs:
        for g in s.segs:
            if g.kind == "C":
                want += [("controlline", "stroke", red, geo.Line(g.p[0], g.p[1])), ("controlline", "stroke", red, geo.Line(g.p[2], g.p[3]))]
                want += [("controlpoint", "fill", red, (g.p[1], cs)), ("controlpoint", "fill", red, (g.p[2], cs))]
    for s in subs:
        want.append(("endpoint", "fill", black, (s.begin(), es)))
        for g in s.segs: want.append(("endpoint", "fill", black, (g.end(), es)))
    want = [w for w in want if w[0] not in hide]
    tol = 3e-3 + 3e-5*gen.extent(ref.subs)
    mon.check(len(ev) == len(want), "display:events", lambda: "%d events instead of %d" % (len(ev), len(want)))
    left = list(want)
    for e in ev:
        q = poly(e)[0]; hit = None
        for w in left:
            if w[1] != e.op or not close(rgb(w[2]), rgb(e.color)): continue
            if e.op == "fill":
                m = (q.min(0) + q.max(0))/2
                if math.dist(m, w[3][0]) < 2*tol and abs((q[:, 0].max() - q[:, 0].min())/2 - w[3][1]) < 2*tol: hit = w; break
            else:
                b = np.array(w[3].samples())
                if math.dist(q[0], b[0]) < tol and math.dist(q[-1], b[-1]) < tol and geo.ordered_dist(q, b) < 3*tol and bool(e.dash[0]) == (w[0] == "controlline"): hit = w; break
        mon.check(hit is not None, "display", lambda: "%r is not expected" % e)
        left.remove(hit); mon.count("display-event")
    mon.count("display"); mon.nontrivial(("display", len(want), tuple(hide)))


def overlap(mon):
    "heads longer than the path"
    for l in (.5, 3, 7, 9):
        for A in ([deco.earrow], [deco.barrow], [deco.earrow, deco.barrow], [deco.barrow, deco.earrow], [deco.barrow.LARge, deco.earrow.small], [deco.earrow.LARge, deco.barrow.small]):
            for fmt in ("eps", "pdf", "svg"):
                mon.describe("%r pt %s %r" % (l, fmt, [(a.pos, unit.topt(a.size)) for a in A]))
                c = canvas.canvas(); c.stroke(path.line_pt(0, 0, l, 0), A)
                ev = pub.events(c, fmt)[0]
                st = [q for e in ev if e.op == "stroke" for q in poly(e)]
                cl = {a.pos: unit.topt(a.size)*.8*math.cos(math.pi/8) for a in A}
                lo, hi = cl.get(0, 0), l - cl.get(1, 0)
                if hi > lo + .01: mon.check(len(st) == 1 and abs(st[0][0][0] - lo) < .01 and abs(st[0][-1][0] - hi) < .01, "overlap", lambda: "%r instead of %r to %r" % (st, lo, hi))
                else: mon.check(all(math.dist(q[0], q[-1]) < .01 for q in st), "overlap", lambda: "%r although the heads cover the line" % st)
                tips = [q for e in ev if e.op == "fill" for q in poly(e)]
                mon.check(len(tips) == len(A), "overlap:heads", lambda: "%r" % tips)
                for a, q in zip(A, tips): mon.check(min(math.dist(x, (0 if a.pos == 0 else l, 0)) for x in q) < .01, "overlap:tip", lambda: "%r" % q)
                mon.count("overlap")
    mon.nontrivial("overlap")


def closedfirst(mon):
    "decorations at a closed subpath followed by other subpaths"
    p = path.rect_pt(0, 0, 50, 50) + path.line_pt(100, 0, 100, 50)
    mon.describe("arrow at the begin of a rectangle followed by a line")
    c = canvas.canvas(); c.stroke(p, [deco.barrow])
    ev = pub.events(c, "eps")[0]
    mon.check(len(ev) == 2 and len(poly(ev[0])) == 2 and len(poly(ev[1])) == 1, "closed-subpath", lambda: "%r" % ev)
    mon.nontrivial("closedfirst")


def run_case(kind, i, rng, mon):
    if kind == "closedfirst": return closedfirst(mon)
    if kind == "closedgradient":
        for k in range(4): gradients(random.Random(k), mon, True)
        return
    if kind == "overlap": return overlap(mon)
    k = rng.random()
    if k < .5: return arrows(rng, mon)
    if k < .6: return excluded(rng, mon)
    if k < .66: return texts(rng, mon)
    if k < .74: return curved(rng, mon)
    if k < .82: return braces(rng, mon)
    if k < .88: return hatching(rng, mon)
    if k < .94: return gradients(rng, mon)
    display(rng, mon)
