"""C26: graphs draw every datum at its axis position.

Graphs with one to three plots of random styles on axes of known ranges are written and read
back; every paint operation of the output must be one of those derived independently from the
data, the axis maps and the graph geometry, in the order of the layers."""
import math, zlib, itertools, datetime
from harness import Skip
from pyx import graph, color, deco, canvas, path, trafo, unit, text, attr, style as pstyle
from pyx.graph import axis
from pyx.graph.axis import tick, painter, timeaxis
import pub, outi, scene

S = graph.style
PROPERTY = "C26"
LEVEL = "exploration"
RULE = ("random graphxy/graphxyz/graphx with linear, logarithmic (positive and negative), reversed, fixed and automatic axes (also x2/y2), positions, sizes and flipping; "
        "data columns with missing, infinite, repeated, border and out-of-range values; symbol, line, impulses, error bars, text, arrow, histogram, rect, bar, stacked and nested bar, "
        "density, grid, surface and gradient styles in any combination; axes at all positions with ticks and grids; distinct by the recorded data and geometry")
QUICK, THOROUGH = 6000, 400000
CPU = 120
LIMIT = {"quick": 800, "thorough": 880}
PT = 72/2.54
EPS = 1e-10
TOL = 2e-3
nan, inf = float("nan"), float("inf")
REQUIRED = {'autohist-missing': 14, 'axes-xy': 145, 'axes-xyz': 42, 'axis-at-xy': 47, 'axis-at-xyz': 9, 'axis-xy-x': 145, 'axis-xy-x2': 73, 'axis-xy-x3': 75, 'axis-xy-x4': 37, 'axis-xy-x5': 40, 'axis-xy-x6': 16, 'axis-xy-y': 145, 'axis-xy-y2': 80, 'axis-xy-y3': 77, 'axis-xy-y4': 43, 'axis-xy-y5': 41, 'axis-xy-y6': 24, 'axis-xyz-x': 41, 'axis-xyz-x2': 18, 'axis-xyz-x3': 15, 'axis-xyz-x4': 16, 'axis-xyz-y': 41, 'axis-xyz-y2': 15, 'axis-xyz-y3': 14, 'axis-xyz-y4': 15, 'axis-xyz-z': 41, 'axis-xyz-z2': 20, 'axis-xyz-z3': 19, 'axis-xyz-z4': 18, 'bar-missing': 264, 'bar-outside': 27, 'baselines': 1078, 'density-alpha': 32, 'density-cells': 811, 'density-missing-position': 41, 'errorbar-caps': 1320, 'errorbar-cut': 264, 'errorbar-outside': 51, 'flipped': 260, 'graph-xy': 885, 'graph-xyz': 280, 'gridlines': 859, 'histogram-boxes': 66, 'histogram-boxes-fillable': 44, 'histogram-steps': 54, 'histogram-steps-fillable': 31, 'line-pieces': 374, 'linked': 66, 'operations': 7831, 'pos': 1144, 'pos3d': 196, 'rect-outside': 13, 'surface-empty': 42, 'surface-triangles': 314, 'symbol-skipped': 1049, 'ticks': 1940, 'usenames': 119, 'w-arrow': 153, 'w-bar': 911, 'w-bar3d': 595, 'w-barsymbol': 220, 'w-colorkey': 6, 'w-density': 46, 'w-errorbar': 848, 'w-grid': 98, 'w-gridline': 383, 'w-histogram': 196, 'w-histogramfill': 51, 'w-impulse': 1246, 'w-line': 200, 'w-rect': 196, 'w-surface': 26, 'w-symbol': 1236, 'w-text': 10}
DIRECTED = ["texts"]
ASSUMPTIONS = ["axis maps are checked here for linear, logarithmic and bar axes; further axis types by C23"]


def fin(v): return v is not None and math.isfinite(v)


# ---------------------------------------------------------------- axes
class Ax:
    "a random axis with a known map"

    def __init__(self, rng, name, kinds=("lin", "lin", "lin", "log", "logneg"), auto=0.35, zero=False):
        self.name = name
        self.kind = rng.choice(kinds)
        self.rev = rng.random() < 0.25
        self.auto = rng.random() < auto
        if self.kind == "lin":
            self.lo = rng.choice([0, 0, 1, -3, -1e3, 100, rng.uniform(-50, 50)]); self.hi = self.lo + rng.choice([1, 2, 10, 1e-2, 37.5, 1e4, rng.uniform(0.1, 20)])
            if zero: self.lo, self.hi = 0, rng.choice([1, 10, 5])
        else:
            self.lo = 10.0**rng.uniform(-4, 3) if rng.random() < 0.5 else 10.0**rng.randint(-4, 3); self.hi = self.lo*10**rng.choice([1, 2, 3, rng.uniform(0.5, 6)])
            if self.kind == "logneg": self.lo, self.hi = -self.hi, -self.lo
        self.min, self.max = (None, None) if self.auto else (self.lo, self.hi)

    def real(self):
        kw = dict(painter=None)
        if self.rev: kw["reverse"] = 1
        if self.auto: kw["parter"] = None
        else: kw.update(min=self.lo, max=self.hi)
        return (axis.lin if self.kind == "lin" else axis.log)(**kw)

    def adjust(self, values):
        if not self.auto: return
        for v in values:
            if isinstance(v, (int, float)) and fin(v):
                if self.min is None or v < self.min: self.min = v
                if self.max is None or v > self.max: self.max = v

    def usable(self):
        if self.min is None or not self.max > self.min: return False
        if self.auto:
            if self.kind == "log" and self.min <= 0 or self.kind == "logneg" and self.max >= 0: return False
            if self.kind == "lin" and (self.max-self.min) < 1e-7*max(abs(self.min), abs(self.max)): return False
            if self.kind != "lin" and abs(math.log(self.max/self.min)) < 1e-6: return False
        return True

    def v(self, x):
        "graph coordinate or None for values without one"
        if x is None or isinstance(x, str) or not math.isfinite(x): return None
        a, b = (self.min, self.max) if not self.rev else (self.max, self.min)
        if self.kind == "lin": return (x-a)/(b-a)
        s = 1 if self.kind == "log" else -1
        if s*x <= 0: return None
        return math.log(x/a)/math.log(b/a)

    def x(self, t):
        "value at the relative position t of the nominal range"
        if self.kind == "lin": return self.lo+t*(self.hi-self.lo)
        return self.lo*(self.hi/self.lo)**t

    def value(self, rng, out=0.2, miss=0.12, edge=0.08):
        r = rng.random()
        if r < miss: return rng.choice([None, None, None, nan, inf, -inf, "abc"])
        if r < miss+edge: return rng.choice([self.lo, self.hi])
        if r < miss+edge+out and not self.auto: return self.x(rng.choice([rng.uniform(-1, 2), rng.uniform(-1, 2), rng.choice([-1, 1])*rng.uniform(1, 40)])) if self.kind == "lin" or rng.random() < 0.8 else 0
        return self.x(rng.random() if rng.random() < 0.7 else rng.randint(0, 4)/4)


class Bar:
    "bar axis with plain names"

    def __init__(self, rng, name):
        self.name, self.kind, self.auto = name, "bar", True
        self.kw = {}
        self.dist = 0.5
        if rng.random() < 0.4: self.kw["dist"] = self.dist = rng.choice([0, 0.1, 1.5])
        self.first = self.last = 0.5*self.dist
        if rng.random() < 0.3: self.kw["firstdist"] = self.first = rng.uniform(0, 1)
        if rng.random() < 0.3: self.kw["lastdist"] = self.last = rng.uniform(0, 1)
        self.rev = rng.random() < 0.3
        if self.rev: self.kw["reverse"] = 1
        self.names = []

    def real(self): return axis.bar(painter=None, **self.kw)

    def adjust(self, values):
        for n in values:
            if n is not None and n not in self.names: self.names.append(n)

    def usable(self): return bool(self.names)

    def slot(self, n):
        if n is None: return None
        total = self.first+self.last+len(self.names)+(len(self.names)-1)*self.dist
        k = self.names.index(n)
        if self.rev: k = len(self.names)-1-k
        a = (self.first+k*(1+self.dist))/total
        return a, a+1/total


# ---------------------------------------------------------------- graphs
class G:
    def __init__(self, rng, mon, kind):
        self.rng, self.kind, self.mon = rng, kind, mon
        self.n = 3 if kind == "xyz" else 2
        self.x0, self.y0 = rng.choice([(0, 0), (rng.uniform(-5, 5), rng.uniform(-5, 5))])
        self.flipped = False
        if kind == "xy":
            self.w, self.h = rng.uniform(2, 15), rng.uniform(2, 15)
            self.flipped = rng.random() < 0.3
        elif kind == "xyz":
            self.size = rng.uniform(2, 8)
            self.scale = (1, 1, 2/(1+math.sqrt(5))) if rng.random() < 0.5 else tuple(rng.uniform(0.3, 1.5) for _ in range(3))
            self.phi, self.theta = rng.choice([(-30, 30), (rng.uniform(-180, 180), rng.uniform(-80, 80))])
            self.dist = rng.choice([None, 10, rng.uniform(5, 30)])
            ph, th = math.radians(self.phi), math.radians(self.theta)
            # the viewer's direction and the image plane
            self.view = (math.cos(ph)*math.cos(th), math.sin(ph)*math.cos(th), math.sin(th))
            self.right = (-math.sin(ph), math.cos(ph), 0)
            self.up = (-math.cos(ph)*math.sin(th), -math.sin(ph)*math.sin(th), math.cos(th))
        self.axes = {}

    def real(self, **kw):
        ax = {n: a.real() for n, a in self.axes.items()}
        for n in "xy":
            if n in ax and n+"2" not in ax: ax[n+"2"] = None
        ax.update(kw)
        if self.kind == "xy":
            return graph.graphxy(xpos=self.x0, ypos=self.y0, width=self.w, height=self.h, flipped=self.flipped, **ax)
        p = graph.graphxyz.parallel(self.phi, self.theta) if self.dist is None else graph.graphxyz.central(self.dist, self.phi, self.theta)
        return graph.graphxyz(xpos=self.x0, ypos=self.y0, size=self.size, xscale=self.scale[0], yscale=self.scale[1], zscale=self.scale[2], projector=p, **ax)

    def space(self, v): return tuple(2*s*(c-0.5) for s, c in zip(self.scale, v))

    def pos(self, *v):
        "graph coordinates -> pt"
        if self.kind == "xy":
            a, b = v if not self.flipped else (v[1], v[0])
            return (self.x0+a*self.w)*PT, (self.y0+b*self.h)*PT
        p = self.space(v)
        dot = lambda a, b: sum(x*y for x, y in zip(a, b))
        f = 1 if self.dist is None else self.dist/(self.dist-dot(p, self.view))
        return (self.x0+f*dot(p, self.right)*self.size)*PT, (self.y0+f*dot(p, self.up)*self.size)*PT

    def depth(self, v):
        "distance from the viewer (up to a constant)"
        p = self.space(v)
        if self.dist is None: return -sum(x*y for x, y in zip(p, self.view))
        return math.dist(p, [self.dist*c for c in self.view])


# ---------------------------------------------------------------- shapes
def pts(sub): return [tuple(sub.start)]+[tuple(s.end()) for s in sub.segs]


def near(a, b, tol=TOL): return math.dist(a, b) <= tol


def lines(sub):
    "vertices of a subpath made of lines only, None otherwise"
    if any(type(s).__name__ != "Line" for s in sub.segs): return None
    return pts(sub)


def clean(poly):
    res = [poly[0]]
    for p in poly[1:]:
        if not near(p, res[-1], 1e-4): res.append(p)
    return res


def polys(ev):
    res = []
    for s in ev.subs:
        p = lines(s)
        if p is None: return None
        p = clean(p)
        if len(p) > 1: res.append(p)
    return res


def samepolys(a, b, tol=TOL):
    return len(a) == len(b) and all(len(p) == len(q) and all(near(x, y, tol) for x, y in zip(p, q)) for p, q in zip(a, b))


def segset(ps):
    return sorted(tuple(sorted((round(x, 1), round(y, 1)) for x, y in (p[0], p[-1]))) for p in ps)


def matchsegs(got, want, tol=TOL):
    "unordered comparison of undirected segments"
    got = list(got)
    if len(got) != len(want): return False
    for w in want:
        for k, g in enumerate(got):
            if near(g[0], w[0], tol) and near(g[1], w[1], tol) or near(g[0], w[1], tol) and near(g[1], w[0], tol):
                del got[k]; break
        else: return False
    return True


def area(p): return 0.5*sum(a[0]*b[1]-a[1]*b[0] for a, b in zip(p, p[1:]+p[:1]))


def samecycle(a, b, tol=TOL):
    "the same polygon, up to direction and start"
    a, b = clean(a), clean(b)
    if near(a[0], a[-1], 1e-4): a = a[:-1]
    if near(b[0], b[-1], 1e-4): b = b[:-1]
    if len(a) != len(b): return False
    for c in (b, b[::-1]):
        for k in range(len(c)):
            if all(near(x, y, tol) for x, y in zip(a, c[k:]+c[:k])): return True
    return False


def clipseg(a, b):
    "part of the segment a-b inside the unit cube as parameters, None"
    t0, t1 = 0.0, 1.0
    for p, q in zip(a, b):
        d = q-p
        if abs(d) <= EPS:
            if p < -EPS or p > 1+EPS: return None
            continue
        u, v = (0-p)/d, (1-p)/d
        if u > v: u, v = v, u
        t0, t1 = max(t0, u), min(t1, v)
        if t0 > t1: return None
    return t0, t1


def inrange(v): return all(c is not None and -EPS <= c <= 1+EPS for c in v)


def wantlines(g, vs):
    "polylines of the connecting line through the graph coordinates vs (None: missing)"
    res = []
    last = None
    for v in vs:
        if v is None or any(c is None for c in v): last = None; continue
        if last is not None:
            if inrange(last) and inrange(v): c = (0, 1)
            else:
                for p, q in zip(last, v):
                    # on the border up to rounding, outside of it elsewhere
                    for e in (0, 1):
                        if 0 < abs(p-e) < 1e-9 and abs(q-e) < 1e-9 or 0 < abs(q-e) < 1e-9 and abs(p-e) < 1e-9: raise Skip("line along the border")
                c = clipseg(last, v)
            if c is not None:
                a = [p+(q-p)*c[0] for p, q in zip(last, v)]; b = [p+(q-p)*c[1] for p, q in zip(last, v)]
                a, b = g.pos(*a), g.pos(*b)
                if not near(a, b, 1e-9) or inrange(last) or inrange(v):
                    if res and inrange(last) and res[-1][1] == "open": res[-1][0].append(b)
                    else: res.append([[a, b], "open"])
                    res[-1][1] = "open" if inrange(v) else "closed"
            elif res: res[-1][1] = "closed"
        elif res: res[-1][1] = "closed"
        last = v
    out = [clean(p) for p, _ in res]
    return [p for p in out if len(p) > 1]


# unions of axis parallel intervals
def intervals(segs, tol=1e-3):
    "{('h'|'v', position): merged intervals} of axis parallel segments, None if one is not"
    lanes = []
    for a, b in segs:
        if near(a, b, 1e-4): continue
        if abs(a[1]-b[1]) <= tol: key, lo, hi = ("h", (a[1]+b[1])/2), min(a[0], b[0]), max(a[0], b[0])
        elif abs(a[0]-b[0]) <= tol: key, lo, hi = ("v", (a[0]+b[0])/2), min(a[1], b[1]), max(a[1], b[1])
        else: return None
        for l in lanes:
            if l[0][0] == key[0] and abs(l[0][1]-key[1]) <= 2*tol: l[1].append((lo, hi)); break
        else: lanes.append((key, [(lo, hi)]))
    res = []
    for key, iv in lanes:
        iv.sort()
        out = [list(iv[0])]
        for lo, hi in iv[1:]:
            if lo <= out[-1][1]+2*tol: out[-1][1] = max(out[-1][1], hi)
            else: out.append([lo, hi])
        res.append((key, out))
    return res


def covered(a, b, tol=5e-3):
    "every interval of a lies inside one of b"
    for (d, p), iv in a:
        for lo, hi in iv:
            if hi-lo <= tol: continue
            if not any(d == d2 and abs(p-p2) <= tol and any(l-tol <= lo and hi <= h+tol for l, h in iv2) for (d2, p2), iv2 in b): return (d, p, lo, hi)
    return None


def winding(p, polygons):
    n = 0
    for q in polygons:
        for (ax, ay), (bx, by) in zip(q, q[1:]+q[:1]):
            if (ay <= p[1]) != (by <= p[1]):
                t = (p[1]-ay)/(by-ay)
                if ax+t*(bx-ax) > p[0]: n += 1 if by > ay else -1
    return n


# ---------------------------------------------------------------- expected operations
class Want:
    "one expected paint operation: check(ev) -> None or a message"
    def __init__(self, op, check, label, color=None):
        self.op, self.check, self.label, self.color = op, check, label, color


class Case:
    def __init__(self, rng, mon, g):
        self.rng, self.mon, self.g = rng, mon, g
        self.plots = []
        self.ncol = 0
        self.fill, self.init, self.data = [], [], []

    def col(self):
        self.ncol += 1
        c = (round(0.05*(self.ncol % 20), 2), round(self.rng.random(), 2), round(0.3+0.01*self.ncol, 2))
        return c

    def want(self, layer, op, check, label, color=None):
        (self.fill if layer == "fill" else self.init if label == "frompath" else self.data).append(Want(op, check, label, color))


def exact(want, what):
    def check(ev):
        got = polys(ev)
        if got is None: return "%s contains curves" % what
        if not samepolys(got, want): return "%s drawn as %r, expected %r" % (what, fmtp(got), fmtp(want))
    return check


def fmtp(ps): return [[(round(x, 3), round(y, 3)) for x, y in p] for p in ps[:6]]


def seg(g, a, b, what, anydir=True):
    def check(ev):
        got = polys(ev)
        w = [clean([g.pos(*a), g.pos(*b)])]
        w = [p for p in w if len(p) > 1]
        if got is None or not matchsegs(got, w): return "%s drawn as %r, expected %r" % (what, got and fmtp(got), fmtp(w))
    return check


SYMBOLS = [S.symbol.cross, S.symbol.plus, S.symbol.square, S.symbol.triangle, S.symbol.circle, S.symbol.diamond]
SYMN = ["cross", "plus", "square", "triangle", "circle", "diamond"]


def symcheck(p, kind, size, op):
    def check(ev):
        w = size*PT
        P = [q for s in ev.subs for q in pts(s)]
        if kind == "triangle":
            q = clean(pts(ev.subs[0]))[:3]
            c = tuple(sum(x[k] for x in q)/3 for k in (0, 1))
        elif kind == "circle":
            q = [s.at(t/4) for s in ev.subs[0].segs if type(s).__name__ != "Line" for t in range(4)]
            c = tuple((min(x[k] for x in q)+max(x[k] for x in q))/2 for k in (0, 1)) if q else (inf, inf)
        else: c = tuple((min(x[k] for x in P)+max(x[k] for x in P))/2 for k in (0, 1))
        if not near(c, p, 5e-3*(1+w)): return "%s symbol at (%.4f, %.4f), the datum is at (%.4f, %.4f)" % ((kind,)+c+tuple(p))
        if kind in ("square", "diamond", "triangle"):
            a = abs(area(clean(pts(ev.subs[0]))))
            if abs(a-w*w) > 2e-3*w*(1+w): return "%s symbol of area %g, size %g" % (kind, a, w*w)
        elif kind == "circle":
            r = max(math.dist(x, c) for x in q)
            if abs(math.pi*r*r-w*w) > 1e-2*w*(1+w): return "circle of area %g, size %g" % (math.pi*r*r, w*w)
        else:
            ls = [lines(s) for s in ev.subs]
            if len(ls) != 2 or any(abs(math.dist(l[0], l[-1])-w*math.sqrt(2)) > 1e-2 for l in ls): return "%s symbol with arms %r for size %g" % (kind, ls, w)
        return None
    return check


# ---------------------------------------------------------------- styles
def columns(c, dims, axnames, n, **kw):
    cols = {}
    for a in axnames: cols[a] = [c.g.axes[a].value(c.rng, **kw) for _ in range(n)]
    for a in axnames:
        if c.rng.random() < 0.2:
            for k in range(1, n):
                if c.rng.random() < 0.3: cols[a][k] = cols[a][k-1]
    return cols


def pickaxes(c):
    "the axis names used by a plot, one per dimension"
    res = []
    for d in "xyz"[:c.g.n]:
        res.append(c.rng.choice(sorted(n for n in c.g.axes if n[0] == d)))
    return res


def vposof(c, axn, row): return [c.g.axes[a].v(x) for a, x in zip(axn, row)]


def p_points(c, names):
    "symbol, line, impulses and text styles, alone or together on the same data"
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    n = rng.choice([1, 2, 3, 5, 8, 12, rng.randint(1, 40)])
    miss = rng.choice([0, 0.1, 0.3])
    cols = columns(c, g.n, axn, n, miss=miss, out=rng.choice([0, 0.2, 0.6]), edge=rng.choice([0, 0.1, 0.4]))
    styles, use = [], dict(zip(axn, axn))
    if rng.random() < 0.2:
        use = {a: "c"+a for a in axn}
        styles.append(S.pos(usenames=use)); mon.count("usenames")
    later = []
    for nm in names:
        colr = c.col()
        rgb = color.rgb(*colr)
        if nm == "symbol":
            k = rng.randrange(6)
            size = rng.choice([0.1, 0.2, rng.uniform(0.05, 1)])
            filled = rng.random() < 0.3
            styles.append(S.symbol(symbol=SYMBOLS[k], size=size, symbolattrs=[deco.stroked.clear, deco.filled([rgb])] if filled and k > 1 else [rgb]))
            op = "fill" if filled and k > 1 else "stroke"
            def plan(rows, k=k, size=size, op=op, colr=colr):
                for r in rows:
                    v = vposof(c, axn, r)
                    if inrange(v): c.want("data", op, symcheck(g.pos(*v), SYMN[k], size, op), "symbol", colr); mon.count("w-symbol")
                    else: mon.count("symbol-skipped")
        elif nm == "line":
            styles.append(S.line([rgb]))
            def plan(rows, colr=colr):
                w = wantlines(g, [vposof(c, axn, r) for r in rows])
                if w: c.want("data", "stroke", exact(w, "line"), "line", colr); mon.count("w-line"); mon.count("line-pieces", len(w))
                else: c.want("data", "stroke", exact([], "line"), "line-empty", colr)
        elif nm == "impulses":
            i = rng.randrange(g.n)
            a = g.axes[axn[i]]
            fv = rng.choice([None, None, a.x(rng.uniform(-0.5, 1.5)), a.lo, a.x(0.5)]) if a.kind != "lin" else rng.choice([0, None, a.x(rng.uniform(-0.5, 1.5)), a.hi])
            fa = None if rng.random() < 0.5 else [color.rgb(*colr), pstyle.linewidth(0.5)]
            styles.append(S.impulses([rgb], fromvalue=fv, frompathattrs=fa, valueaxisindex=i))
            def plan(rows, i=i, fv=fv, fa=fa, colr=colr):
                a = g.axes[axn[i]]
                base = 0 if fv is None else min(1, max(0, a.v(fv)))
                if fv is not None and fa is not None: c.want("data", "stroke", gridcheck(g, i, base, axn[i]), "frompath", colr)
                for r in rows:
                    v = vposof(c, axn, r)
                    if inrange(v):
                        b = list(v); b[i] = base
                        c.want("data", "stroke", seg(g, b, v, "impulse"), "impulse", colr); mon.count("w-impulse")
            if fv is not None: later.append((axn[i], [fv]))
        c.pending.append(plan)
    data = {use[a]: cols[a] for a in axn}
    for a in axn: g.axes[a].adjust(cols[a])
    for a, x in later: g.axes[a].adjust(x)
    rows = list(zip(*[cols[a] for a in axn]))
    c.add(data, styles, [lambda p=p: p(rows) for p in c.pending])
    c.pending = []
    mon.describe([axn, cols, names])


def gridcheck(g, i, v, name):
    def check(ev):
        got = polys(ev)
        if g.kind == "xy":
            a, b = [0, 0], [1, 1]
            a[i] = b[i] = v
            w = [[g.pos(*a), g.pos(*b)]]
            if got is None or not matchsegs(got, w): return "base path drawn as %r, expected %r" % (got, w)
        else:
            q = []
            for c in ((0, 0), (1, 0), (1, 1), (0, 1)):
                c = list(c); c.insert(i, v); q.append(g.pos(*c))
            if got is None or len(got) != 1 or not samecycle(got[0], q): return "base path drawn as %r, expected %r" % (got, q)
    return check


def p_errorbar(c):
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    n = rng.choice([1, 2, 4, 8])
    out = rng.choice([0, 0.2, 0.5])
    cols, specs = {}, []
    for a in axn:
        A = g.axes[a]
        spec = rng.choice(["v", "mm", "d", "dd", "vmin", "vmax", "vmm", "vdmin", "vdmax", "vdminmax"])
        if all(s == "v" for s in specs) and a is axn[-1] and spec == "v": spec = "d"
        specs.append(spec)
        val = lambda: [A.value(rng, out=out) for _ in range(n)]
        delta = lambda: [rng.choice([None, 0, nan]) if rng.random() < 0.1 else abs(A.x(1)-A.x(0))*rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 2)]) for _ in range(n)]
        if spec != "mm": cols[a] = val()
        if spec in ("mm", "vmm", "vmin"): cols[a+"min"] = val()
        if spec in ("mm", "vmm", "vmax"): cols[a+"max"] = val()
        if spec == "d": cols["d"+a] = delta()
        if spec in ("dd", "vdmin", "vdminmax"): cols["d"+a+"min"] = delta()
        if spec in ("dd", "vdmax", "vdminmax"): cols["d"+a+"max"] = delta()
    size = rng.choice([0.1, 0.3, 0.01])
    colr = c.col()
    num = lambda x: x if isinstance(x, (int, float)) else None

    def ends(a, k):
        A = g.axes[a]
        v = num(cols[a][k]) if a in cols else None
        lo = hi = None
        if a+"min" in cols: lo = cols[a+"min"][k]
        if a+"max" in cols: hi = cols[a+"max"][k]
        for key, s in (("d"+a, 0), ("d"+a+"min", -1), ("d"+a+"max", 1)):
            if key in cols:
                d = num(cols[key][k])
                if s <= 0: lo = v-d if v is not None and d is not None else None
                if s >= 0: hi = v+d if v is not None and d is not None else None
        return lo, hi
    for a in axn:
        if a in cols: g.axes[a].adjust(cols[a])
        for k in range(n): g.axes[a].adjust(ends(a, k))

    def plan():
        for k in range(n):
            val = [g.axes[a].v(cols[a][k]) if a in cols else None for a in axn]
            for i, a in enumerate(axn):
                if not all(val[j] is not None and -EPS <= val[j] <= 1+EPS for j in range(g.n) if j != i): continue
                lo, hi = (g.axes[a].v(e) for e in ends(a, k))
                if lo is None and hi is None: continue
                caps = [lo is not None, hi is not None]
                if lo is None: lo = val[i]
                if hi is None: hi = val[i]
                if lo is None or hi is None: continue
                if lo > hi: lo, hi = hi, lo; caps.reverse()
                if hi < -EPS or lo > 1+EPS: mon.count("errorbar-outside"); continue
                if lo < -EPS: lo = 0; caps[0] = False; mon.count("errorbar-cut")
                if hi > 1+EPS: hi = 1; caps[1] = False; mon.count("errorbar-cut")
                p = [list(val), list(val)]
                p[0][i], p[1][i] = lo, hi
                segs = [[g.pos(*p[0]), g.pos(*p[1])]]
                for cap, q in zip(caps, p):
                    if not cap: continue
                    for j in range(g.n):
                        if j == i: continue
                        if g.kind == "xy":
                            x, y = g.pos(*q)
                            if (j == 0) != g.flipped: segs.append([(x-0.5*size*PT, y), (x+0.5*size*PT, y)])
                            else: segs.append([(x, y-0.5*size*PT), (x, y+0.5*size*PT)])
                        else:
                            e = [list(q), list(q)]
                            e[0][j] -= 0.5*size/g.size; e[1][j] += 0.5*size/g.size
                            segs.append([g.pos(*e[0]), g.pos(*e[1])])
                group = {"left": list(segs), "n": len(segs)}

                def check(ev, group=group, segs=segs):
                    got = polys(ev)
                    if got is None or len(got) > 1 or got and len(got[0]) != 2: return "error bar part drawn as %r" % (got,)
                    for w in group["left"]:
                        if not got and near(*w, 1e-3) or got and matchsegs(got, [w]): group["left"].remove(w); return None
                    return "error bar part %r, expected one of %r" % (fmtp(got), fmtp(group["left"]))
                for _ in segs: c.want("data", "stroke", check, "errorbar", colr)
                mon.count("w-errorbar"); mon.count("errorbar-caps", len(segs)-1)
    c.add(cols, [S.errorbar(size=size, errorbarattrs=[color.rgb(*colr)])], [plan])
    mon.describe([axn, specs, cols, size])


def p_arrow(c):
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    n = rng.choice([1, 3, 6])
    cols = columns(c, 2, axn, n)
    cols["size"] = [rng.choice([0, None, -1, 1e-7, nan, inf, 1]) if rng.random() < 0.3 else rng.uniform(0.1, 4) for _ in range(n)]
    cols["angle"] = [rng.choice([None, nan, inf, "a", 0, 90, 720]) if rng.random() < 0.3 else rng.uniform(-400, 400) for _ in range(n)]
    L, ap, size = rng.uniform(0.1, 1), rng.choice([0, 0.5, 1, rng.uniform(-0.5, 1.5)]), rng.uniform(0.03, 0.2)
    plain = rng.random() < 0.5
    colr = c.col()
    for a in axn: g.axes[a].adjust(cols[a])
    d = {"decorator": None} if plain else {}
    def plan():
        for k in range(n):
            v = vposof(c, axn, [cols[a][k] for a in axn])
            s, a = cols["size"][k], cols["angle"][k]
            if not inrange(v) or not isinstance(s, (int, float)) or not isinstance(a, (int, float)) or not 1e-5 < s < inf or not math.isfinite(a): continue
            x, y = g.pos(*v)
            dx, dy = math.cos(math.radians(a))*L*PT*s, math.sin(math.radians(a))*L*PT*s
            p, q = (x-ap*dx, y-ap*dy), (x+(1-ap)*dx, y+(1-ap)*dy)
            mon.count("w-arrow")
            def line(ev, p=p, q=q, size=size*s):
                got = polys(ev)
                if got is None or len(got) != 1: return "arrow line drawn as %r" % (got,)
                if not near(got[0][0], p, 5e-3): return "arrow starts at %r, expected %r" % (got[0][0], p)
                e = got[0][-1]
                l = math.dist(p, q)
                if plain:
                    if not near(e, q, 5e-3): return "arrow ends at %r, expected %r" % (e, q)
                else:
                    if abs((e[0]-p[0])*(q[1]-p[1])-(e[1]-p[1])*(q[0]-p[0])) > 1e-2*l: return "arrow line off its direction"
                    if math.dist(e, q) > size*PT+1e-2: return "arrow line ends %g before its tip" % math.dist(e, q)
            def head(ev, q=q, size=size*s):
                P = [x for u in ev.subs for x in pts(u)]
                if not any(near(x, q, 5e-3) for x in P): return "arrow tip at %r expected, head is %r" % (q, P)
                if max(math.dist(x, q) for x in P) > 1.2*size*PT+1e-2: return "arrow head larger than %g" % (size*PT)
            # an arrow head longer than the line leaves nothing of the line
            if not plain and size*s > 0.7*math.hypot(dx, dy)/PT: raise Skip("arrow head too long")
            c.want("data", "stroke", line, "arrow", colr)
            if not plain: c.want("data", "fill", head, "arrowhead", colr)
    c.add(cols, [S.arrow(linelength=L, arrowsize=size, arrowpos=ap, lineattrs=[color.rgb(*colr)], **d)], [plan])
    mon.describe([axn, cols, L, ap])


def p_histogram(c):
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    i = rng.randrange(2)                     # the axis of the bins
    X, Y = g.axes[axn[i]], g.axes[axn[1-i]]
    steps, fillable = rng.random() < 0.4, rng.random() < 0.4
    fv = rng.choice([None, Y.x(rng.uniform(-0.3, 1.3)), Y.lo, Y.x(0.5)]) if Y.kind != "lin" else rng.choice([0, 0, None, Y.x(rng.uniform(-0.3, 1.3)), Y.x(0.5)])
    n = rng.choice([2, 3, 5, 9])
    auto = rng.random() < 0.3
    colr = c.col()
    fa = None if rng.random() < 0.6 else [color.rgb(*colr), pstyle.linewidth(0.5)]
    ys = [Y.value(rng, out=rng.choice([0, 0.3]), miss=rng.choice([0, 0.2])) for _ in range(n)]
    kw = {}
    if auto:
        pp = rng.choice([0.5, 0, 1, 0.3])
        kw = dict(autohistogramaxisindex=i, autohistogrampointpos=pp)
        a = rng.uniform(-0.3, 0.5) if not X.auto else rng.uniform(0, 0.5)
        st = rng.uniform(0.02, 1.4/n)*rng.choice([1, 1, -1])
        xs = [X.x(a+k*st) for k in range(n)]
        if X.auto and X.kind != "lin": raise Skip("range of automatic logarithmic histograms")
        if rng.random() < 0.3 and n > 2: xs.insert(rng.randrange(n), None); ys.insert(xs.index(None), Y.x(0.3)); n += 1; mon.count("autohist-missing")
        cols = {axn[i]: xs, axn[1-i]: ys}
        good = [x for x in xs if x is not None]
        X.adjust(xs)
        d = good[1]-good[0]
        X.adjust([good[0]-pp*d, good[-1]+(1-pp)*d])
    else:
        edges = [X.value(rng, miss=0, out=rng.choice([0, 0.3])) for _ in range(n+1)]
        if rng.random() < 0.85: edges.sort(reverse=rng.random() < 0.2)
        lo, hi = edges[:-1], edges[1:]
        for k in range(n):
            if rng.random() < 0.15: hi[k] = lo[k]+(hi[k]-lo[k])*rng.uniform(0.3, 0.9) if X.kind == "lin" else hi[k]
            if rng.random() < 0.07: rng.choice([lo, hi])[k] = rng.choice([None, nan])
        if steps or True:
            # overlapping bins are left out
            V = sorted((min(a, b), max(a, b)) for a, b in zip(lo, hi) if fin(a) and fin(b))
            if any(a[1] > b[0] for a, b in zip(V, V[1:])): raise Skip("overlapping bins")
        cols = {axn[i]+"min": lo, axn[i]+"max": hi, axn[1-i]: ys}
        X.adjust(lo); X.adjust(hi)
    Y.adjust(ys)
    if fv is not None: Y.adjust([fv])
    attrs = [color.rgb(*colr)]
    both = fillable and rng.random() < 0.7
    if both: attrs = [color.rgb(*colr), deco.filled([color.rgb(*colr)])]

    def plan():
        base = 0 if fv is None else min(1, max(0, Y.v(fv)))
        if fv is not None and fa is not None: c.want("data", "stroke", gridcheck(g, 1-i, base, None), "frompath", colr)
        if auto:
            v = [X.v(x) for x in cols[axn[i]]]
            ok = [k for k in range(n) if v[k] is not None]
            w = v[ok[1]]-v[ok[0]]
            bins = [(v[k]-pp*w, v[k]+(1-pp)*w, Y.v(cols[axn[1-i]][k])) for k in ok]
        else: bins = [(X.v(a), X.v(b), Y.v(y)) for a, b, y in zip(lo, hi, ys)]
        bins = [b if all(e is not None for e in b) else None for b in bins]
        P = lambda x, y: g.pos(x, y) if i == 0 else g.pos(y, x)
        cl = lambda v: min(1, max(0, v))
        inn = lambda v: -EPS < v < 1+EPS
        for b in bins:
            if b:
                for e in b:
                    if 0 < abs(e) < 1e-9 or 0 < abs(e-1) < 1e-9: raise Skip("edge at the border up to rounding")
        # solid: what must be drawn; boxes: outlines which may be drawn
        must, may, rects = [], [], []
        def wall(dst, x, y1, y2):
            if inn(x) and not (min(y1, y2) > 1 or max(y1, y2) < 0): dst.append((P(x, cl(y1)), P(x, cl(y2))))
        def top(dst, y, x1, x2):
            if inn(y) and not (min(x1, x2) > 1 or max(x1, x2) < 0): dst.append((P(cl(x1), y), P(cl(x2), y)))
        last = None
        for b in bins+[None]:
            if steps:
                joined = b and last and abs(b[0]-last[1]) <= EPS
                if joined: wall(must, b[0], last[2], b[2])
                else:
                    if last: wall(must, last[1], last[2], base)
                    if b: wall(must, b[0], base, b[2])
                if b: top(must, b[2], b[0], b[1])
            elif b:
                wall(must, b[0], base, b[2]); wall(must, b[1], base, b[2]); top(must, b[2], b[0], b[1])
            if b:
                x1, x2 = sorted((b[0], b[1])); y1, y2 = sorted((base, b[2]))
                if x1 < 1 and x2 > 0 and y1 < 1 and y2 > 0 or True:
                    r = (cl(x1), cl(x2), cl(y1), cl(y2))
                    if x1 <= 1 and x2 >= 0: rects.append(r); may += [(P(r[0], r[2]), P(r[0], r[3])), (P(r[1], r[2]), P(r[1], r[3])), (P(r[0], r[2]), P(r[1], r[2])), (P(r[0], r[3]), P(r[1], r[3]))]
            last = b
        must = [s for s in must if not near(*s, 1e-6)]
        W = intervals(must)
        allow = intervals(must+(may if fillable else []))

        def stroke(ev):
            segs = []
            for s in ev.subs:
                p = lines(s)
                if p is None: return "histogram contains curves"
                segs += list(zip(p, p[1:]))
            got = intervals(segs)
            if got is None: return "histogram contains slanted lines %r" % (fmtp([list(s) for s in segs]),)
            bad = covered(W, got)
            if bad: return "missing histogram line %r (bins %r base %g)" % (bad, bins, base)
            bad = covered(got, allow)
            if bad: return "additional histogram line %r (bins %r base %g)" % (bad, bins, base)

        def fill(ev):
            ps = [pts(s) for s in ev.subs]
            for _ in range(40):
                r = rng.choice(rects) if rects and rng.random() < 0.7 else (0, 1, 0, 1)
                x, y = r[0]+(r[1]-r[0])*rng.uniform(-0.2, 1.2), r[2]+(r[3]-r[2])*rng.uniform(-0.2, 1.2)
                inside = any(q[0] < x < q[1] and q[2] < y < q[3] for q in rects)
                if any(min(abs(x-q[0]), abs(x-q[1])) < 1e-3 or min(abs(y-q[2]), abs(y-q[3])) < 1e-3 for q in rects): continue
                if (winding(P(x, y), ps) != 0) != inside: return "histogram %s at graph position (%g, %g); bins %r base %g" % ("not filled" if inside else "filled", x, y, bins, base)
        mon.count("w-histogram"); mon.count("histogram-%s%s" % ("steps" if steps else "boxes", "-fillable" if fillable else ""))
        if both:
            c.want("data", "fill", fill, "histogramfill" if any(q[1]-q[0] > 1e-9 and q[3]-q[2] > 1e-9 for q in rects) else "histogram-empty", colr); mon.count("w-histogramfill")
        c.want("data", "stroke", stroke, "histogram-empty" if not must else "histogram", colr)
    c.add(cols, [S.histogram(lineattrs=attrs, steps=int(steps), fillable=int(fillable), fromvalue=fv, frompathattrs=fa, **kw)], [plan])
    mon.describe([axn, i, auto, steps, fillable, fv, cols])


def gradcolor(v): return (v, 0.5, 1-v)
GRAD = color.functiongradient_rgb(lambda x: x, lambda x: 0.5, lambda x: 1-x)


class Colors:
    "color data with a linear color axis"
    def __init__(self, rng, miss=0.1):
        self.rng, self.miss = rng, miss
        self.fixed = rng.random() < 0.6
        self.lo, self.hi = rng.choice([(0, 1), (-2, 5), (10, 20)])
        self.seen = []

    def value(self):
        if self.rng.random() < self.miss: v = self.rng.choice([None, None, nan, "x"])
        else: v = self.lo+(self.hi-self.lo)*(self.rng.uniform(-0.2, 1.2) if self.fixed else self.rng.random())
        return v

    def real(self): return axis.lin(min=self.lo, max=self.hi, parter=None, painter=None) if self.fixed else axis.lin(parter=None, painter=None)

    def prepare(self, values):
        ok = [v for v in values if isinstance(v, (int, float)) and fin(v)]
        self.a, self.b = (self.lo, self.hi) if self.fixed else (min(ok), max(ok)) if ok else (0, 0)
        return self.b > self.a

    def of(self, v):
        if not isinstance(v, (int, float)) or not fin(v): return None
        return gradcolor(min(1, max(0, (v-self.a)/(self.b-self.a))))


def p_rect(c):
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    n = rng.choice([1, 3, 8])
    C = Colors(rng)
    cols = {"color": [C.value() for _ in range(n)]}
    for a in axn:
        A = g.axes[a]
        for e in ("min", "max"): cols[a+e] = [A.value(rng, out=rng.choice([0.1, 0.6])) for _ in range(n)]
        for k in range(n):
            p, q = cols[a+"min"][k], cols[a+"max"][k]
            if isinstance(p, (int, float)) and isinstance(q, (int, float)) and p > q: cols[a+"min"][k], cols[a+"max"][k] = q, p
        A.adjust(cols[a+"min"]); A.adjust(cols[a+"max"])
    if not C.prepare(cols["color"]): raise Skip("no color range")
    def plan():
        for k in range(n):
            r = [(g.axes[a].v(cols[a+"min"][k]), g.axes[a].v(cols[a+"max"][k])) for a in axn]
            col = C.of(cols["color"][k])
            if col is None or any(e is None for p in r for e in p): continue
            r = [(max(0, min(p)), min(1, max(p))) for p in r]
            if any(abs(a-b) < 1e-9 for a, b in r): raise Skip("rectangle of no extent")
            if any(a >= b for a, b in r):
                mon.count("rect-outside"); continue
            q = [g.pos(x, y) for x, y in ((r[0][0], r[1][0]), (r[0][1], r[1][0]), (r[0][1], r[1][1]), (r[0][0], r[1][1]))]
            def check(ev, q=q):
                got = polys(ev)
                if not near(q[0], q[2], 0.01) and (got is None or len(got) != 1 or not samecycle(got[0], q)) and abs(area(q)) > 1e-3: return "rectangle drawn as %r, expected %r" % (got and fmtp(got), fmtp([q]))
            c.want("fill", "fill", check, "rect", col); mon.count("w-rect")
    c.add(cols, [S.rect(gradient=GRAD, coloraxis=C.real(), keygraph=None)], [plan])
    mon.describe([axn, cols, C.fixed])


def p_density(c):
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    if any(g.axes[a].kind != "lin" for a in axn): raise Skip("density on other axes")
    n, m = rng.randint(2, 6), rng.randint(2, 6)
    C = Colors(rng, miss=rng.choice([0, 0.15]))
    V = []
    for a, k in zip(axn, (n, m)):
        A = g.axes[a]
        p = rng.uniform(-0.2, 0.5); s = rng.uniform(0.05, 1.2/k)
        V.append([A.x(p+j*s) for j in range(k)])
    cells = [(x, y) for x in range(n) for y in range(m)]
    rng.shuffle(cells)
    drop = rng.choice([0, 0, 1, 3])
    cells = cells[drop:]
    if len({x for x, y in cells}) < n or len({y for x, y in cells}) < m: raise Skip("grid row dropped")
    rows = [[V[0][x], V[1][y], C.value()] for x, y in cells]
    final = {(x, y): r[2] for (x, y), r in zip(cells, rows)}
    # rows without a position have no effect
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = [V[0][0], V[1][0], C.value() or C.lo]; r[rng.randrange(2)] = rng.choice([None, nan]); rows.insert(rng.randrange(len(rows)+1), r); mon.count("density-missing-position")
    cols = {axn[0]: [r[0] for r in rows], axn[1]: [r[1] for r in rows], "color": [r[2] for r in rows]}
    for a in axn: g.axes[a].adjust(cols[a])
    if not C.prepare(cols["color"]): raise Skip("no color range")
    key = g.kind == "xy" and rng.random() < 0.15
    pt = lambda a, x: g.axes[a].v(x)
    def plan():
        vx, vy = [pt(axn[0], x) for x in V[0]], [pt(axn[1], y) for y in V[1]]
        ex, ey = 0.5*(vx[1]-vx[0]), 0.5*(vy[1]-vy[0])
        def check(ev):
            o = ev.obj
            if (o["Width"], o["Height"]) != ((m, n) if False else (n, m)): return "density image of %dx%d pixels, %dx%d values" % (o["Width"], o["Height"], n, m)
            px = c.pdf.stream(o)
            alpha = c.pdf.stream(c.resolve(o["SMask"])) if "SMask" in o else None
            a, b, cc, d, e, f = ev.ctm
            if alpha is not None: mon.count("density-alpha")
            for (x, y), val in [((x, y), final.get((x, y))) for x in range(n) for y in range(m)]:
                want = C.of(val) if (x, y) in final else None
                # the pixel covering the position of the value
                P = g.pos(vx[x], vy[y])
                det = a*d-b*cc
                u, w = (d*(P[0]-e)-cc*(P[1]-f))/det, (a*(P[1]-f)-b*(P[0]-e))/det
                u, w = u*n, (1-w)*m
                if abs(u-math.floor(u)-0.5) > 0.01 or abs(w-math.floor(w)-0.5) > 0.01: return "value position (%g, %g) not in the middle of a pixel" % (u, w)
                if not (0 < u < n and 0 < w < m): return "value position outside of the image"
                k = math.floor(w)*n+math.floor(u)
                if want is None:
                    if alpha is None or alpha[k] != 0: return "missing cell (%d, %d) is painted" % (x, y)
                else:
                    if alpha is not None and alpha[k] != 255: return "cell (%d, %d) is not painted" % (x, y)
                    got = px[3*k:3*k+3]
                    if any(abs(p-255*q) > 1.01 for p, q in zip(got, want)): return "cell (%d, %d) of value %r has color %r, expected %r" % (x, y, val, list(got), [255*q for q in want])
            corner = sorted((round(p, 2), round(q, 2)) for p, q in (g.pos(vx[0]-ex, vy[0]-ey), g.pos(vx[-1]+ex, vy[-1]+ey), g.pos(vx[0]-ex, vy[-1]+ey), g.pos(vx[-1]+ex, vy[0]-ey)))
            have = sorted((e+a*s+cc*t, f+b*s+d*t) for s in (0, 1) for t in (0, 1))
            for p in corner:
                if not any(near(p, q, 0.02) for q in have): return "density image spans %r, expected %r" % (have, corner)
            return inclip(ev, [g.pos(0, 0), g.pos(1, 0), g.pos(1, 1), g.pos(0, 1)])
        c.want("fill", "image", check, "density"); mon.count("w-density"); mon.count("density-cells", n*m)
        if key:
            def kcheck(ev):
                a, b, cc, d, e, f = ev.ctm
                X, Y = (g.x0+g.w+0.8)*PT, g.y0*PT
                o = ev.obj
                px = c.pdf.stream(o)
                N = o["Width"]
                for k in range(N):
                    # centre of pixel k
                    u = (k+0.5)/N
                    P = (e+a*u+0.5*cc, f+b*u+0.5*d)
                    v = (P[1]-Y)/(g.h*PT)
                    if abs(P[0]-X-0.25*PT) > 0.02 or not -1e-3 < v < 1+1e-3: return "key pixel %d at %r" % (k, P)
                    # one step of the resolution
                    if any(abs(x-255*y) > 1.01+255*0.0 for x, y in zip(px[3*k:3*k+3], gradcolor(min(1, max(0, v))))): return "key color %r at value %g" % (list(px[3*k:3*k+3]), v)
                return inclip(ev, [(X, Y), (X+0.5*PT, Y), (X+0.5*PT, Y+g.h*PT), (X, Y+g.h*PT)])
            c.key.append(Want("image", kcheck, "colorkey", None)); mon.count("w-colorkey")
            X, Y = (g.x0+g.w+0.8)*PT, g.y0*PT
            q = [(X, Y), (X, Y+g.h*PT), (X+0.5*PT, Y+g.h*PT), (X+0.5*PT, Y)]
            left = [[q[0], q[1]], [q[1], q[2]], [q[0], q[3]]]
            def kline(ev):
                got = polys(ev)
                for w in left:
                    if got and matchsegs(got, [w], 5e-3): left.remove(w); return None
                return "key outline %r, expected one of %r" % (got, left)
            for _ in range(3): c.key.append(Want("stroke", kline, "keyoutline", None))
    kg = {} if key else {"keygraph": None}
    c.add(cols, [S.density(gradient=GRAD, coloraxis=C.real(), **kg)], [plan])
    mon.describe([axn, cols, C.fixed])


def inclip(ev, q):
    if len(ev.clips) != 1 or len(ev.clips[0][0]) != 1 or not samecycle(pts(ev.clips[0][0][0]), q, 0.01): return "clip path %r, expected %r" % (ev.clips, q)


def p_bars(c):
    "bar style with stacked values; the name axis is exclusive for bars"
    rng, g, mon = c.rng, c.g, c.mon
    bi = [k for k, a in enumerate(["x", "y", "z"][:g.n]) if g.axes[a].kind in ("bar", "nested")]
    vi = [k for k in range(g.n) if k not in bi]
    if len(vi) != 1: raise Skip("bars need one value")
    vi = vi[0]
    names3 = "xyz"
    A = g.axes[names3[vi]]
    n = rng.choice([1, 2, 4, 6])
    nm = [[rng.choice(["a", "b", "c", "d1", 7]) for _ in range(n)] for _ in bi]
    if len(bi) == 1 and rng.random() < 0.7: nm = [list("abcdef")[:n]]
    if rng.random() < 0.15: rng.choice(nm)[rng.randrange(n)] = None
    fv = rng.choice([None, None, A.x(0.5), A.x(rng.uniform(-0.3, 1.3))])
    stacks = rng.choice([0, 0, 1, 2]) if g.n == 2 else 0
    cols = {}
    for k, b in enumerate(bi): cols[names3[b]+"name"] = nm[k]; g.axes[names3[b]].adjust(nm[k])
    cols[names3[vi]] = [A.value(rng, miss=0.1, out=0.2) for _ in range(n)]
    A.adjust(cols[names3[vi]])
    if fv is not None: A.adjust([fv])
    colr = c.col()
    fa = None if rng.random() < 0.6 else [color.rgb(*colr), pstyle.linewidth(0.5)]
    styles = [S.barpos(fromvalue=fv, frompathattrs=fa)]
    battr = lambda col: [deco.stroked.clear, color.rgb(*col)]
    first = stacks == 0 or rng.random() < 0.7
    layers = []
    if first: styles.append(S.bar(battr(colr), **({"gradient": None} if g.n == 3 else {}))); layers.append((0, colr))
    tops = []
    for s in range(stacks):
        addon = rng.random() < 0.5
        cols["s%d" % s] = [rng.choice([None, nan]) if rng.random() < 0.1 else (A.x(1)-A.x(0))*rng.uniform(0, 0.6) if addon else A.value(rng, miss=0) for _ in range(n)]
        A.adjust(cols["s%d" % s])
        col = c.col()
        styles += [S.stackedbarpos("s%d" % s, addontop=int(addon)), S.bar(battr(col))]
        layers.append((s+1, col)); tops.append(addon)
    symc = c.col() if rng.random() < 0.3 else None
    if symc: styles.append(S.symbol(symbol=S.symbol.square, size=0.1, symbolattrs=[color.rgb(*symc)]))

    def plan():
        base = 0 if fv is None else min(1, max(0, A.v(fv)))
        if fv is not None and fa is not None: c.want("data", "stroke", gridcheck(g, vi, base, None), "frompath", colr)
        levels = []
        num = lambda x: x if isinstance(x, (int, float)) and not isinstance(x, bool) else None
        for k in range(n):
            v, l = cols[names3[vi]][k], []
            l.append((base, A.v(v)))
            cur = num(v)
            for s, addon in enumerate(tops):
                d = num(cols["s%d" % s][k])
                cur = d if not addon else None if cur is None or d is None else cur+d
                l.append((l[-1][1], A.v(cur)))
            levels.append(l)
        slots = [[c.slot(names3[b], x) for x in cols[names3[b]+"name"]] for b in bi]
        faces = []
        for lay, col in layers:
            for k in range(n):
                box = [None]*g.n
                box[vi] = levels[k][lay]
                for q, b in enumerate(bi): box[b] = slots[q][k]
                if any(r is None or r[0] is None or r[1] is None for r in box): mon.count("bar-missing"); continue
                box = [tuple(sorted(r)) for r in box]
                if any(a > 1+EPS or b < -EPS for a, b in box): mon.count("bar-outside"); continue
                box = [(max(0, a), min(1, b)) for a, b in box]
                if g.n == 2:
                    q = [g.pos(x, y) for x, y in ((box[0][0], box[1][0]), (box[0][1], box[1][0]), (box[0][1], box[1][1]), (box[0][0], box[1][1]))]
                    def check(ev, q=q):
                        got = polys(ev)
                        if abs(area(q)) < 1e-2: return None
                        if got is None or len(got) != 1 or not samecycle(got[0], q, 5e-3): return "bar drawn as %r, expected %r" % (got and fmtp(got), fmtp([q]))
                    c.want("fill", "fill", check, "bar", col); mon.count("w-bar")
                else: faces.append((k, box))
        if g.n == 3:
            want = []
            for k, box in faces:
                for d in range(3):
                    e, f = [x for x in range(3) if x != d]
                    if abs(box[e][1]-box[e][0]) <= EPS or abs(box[f][1]-box[f][0]) <= EPS: continue
                    for side in (0, 1):
                        P = []
                        for s, t in ((0, 0), (1, 0), (1, 1), (0, 1)):
                            v = [None]*3
                            v[d], v[e], v[f] = box[d][side], box[e][s], box[f][t]
                            P.append(v)
                        # visible when the outward normal points to the viewer
                        sp = [g.space(v) for v in P]
                        mid = [sum(x[q] for x in sp)/4 for q in range(3)]
                        see = g.view[d] if g.dist is None else g.dist*g.view[d]-mid[d]
                        if abs(see) < 1e-6: raise Skip("face seen from the side")
                        if (see > 0) == (side == 1): want.append([g.pos(*v) for v in P])
            left = list(want)
            def check(ev):
                got = polys(ev)
                if got is None or len(got) > 1: return "bar face drawn as %r" % (got,)
                if not got: got = [[tuple(ev.subs[0].start)]*4]
                for w in left:
                    if samecycle(got[0], w, 5e-3) or abs(area(w)) < 1e-2: left.remove(w); return None
                return "bar face %r is not one of the visible ones %r" % (fmtp(got), fmtp(left))
            for w in want: c.want("fill", "fill", check, "bar3d", colr); mon.count("w-bar3d")
        if symc:
            for k in range(n):
                v = [None]*g.n
                v[vi] = levels[k][-1][1]
                for q, b in enumerate(bi): s = slots[q][k]; v[b] = s and 0.5*(s[0]+s[1])
                if tops:
                    pass
                if inrange(v): c.want("data", "stroke", symcheck(g.pos(*v), "square", 0.1, "stroke"), "barsymbol", symc); mon.count("w-barsymbol")
    c.add(cols, styles, [plan])
    mon.describe([cols, fv, stacks, tops, first])


def p_grid(c):
    "grid and surface styles"
    rng, g, mon = c.rng, c.g, c.mon
    axn = pickaxes(c)
    i1, i2 = rng.sample(range(g.n), 2) if rng.random() < 0.4 else (0, 1)
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    out = rng.choice([0, 0.3])
    val = [[], []]
    for d, (i, k) in enumerate(((i1, n), (i2, m))):
        A = g.axes[axn[i]]
        while len(val[d]) < k:
            v = A.x(rng.uniform(-out, 1+out) if not A.auto else rng.random())
            if all(abs((v-w)/(A.hi-A.lo)) > 1e-3 if A.kind == "lin" else abs(math.log(abs(v/w))) > 1e-3 for w in val[d]): val[d].append(v)
    cells = [(x, y) for x in range(n) for y in range(m) if rng.random() < 0.9]
    if not cells: raise Skip("no cells")
    rng.shuffle(cells)
    rows = []
    C = Colors(rng, miss=rng.choice([0, 0.1]))
    surf = g.n == 3 and rng.random() < 0.6
    colored = surf and rng.random() < 0.6
    for x, y in cells:
        r = [None]*g.n
        r[i1], r[i2] = val[0][x], val[1][y]
        for k in range(g.n):
            if k not in (i1, i2): r[k] = g.axes[axn[k]].value(rng, out=0.1, miss=0.05, edge=0)
        rows.append(r+[C.value()])
    cols = {a: [r[k] for r in rows] for k, a in enumerate(axn)}
    if colored: cols["color"] = [r[-1] for r in rows]
    for a in axn: g.axes[a].adjust(cols[a])
    if colored and not C.prepare(cols["color"]): raise Skip("no color range")
    colr = c.col()
    gl1, gl2 = rng.choice([(1, 1), (1, 0), (0, 1)])
    styles = [S.gridpos(index1=i1, index2=i2)]
    if surf: styles.append(S.surface(gradient=GRAD, backcolor=None, **({"coloraxis": C.real(), "keygraph": None} if colored else {})))
    else: styles.append(S.grid(gridlines1=gl1, gridlines2=gl2, gridattrs=[color.rgb(*colr)]))

    def plan():
        pos = {}
        for cell, r in zip(cells, rows):
            v = vposof(c, axn, r)
            pos[cell] = None if any(x is None for x in v) else (v, r[-1])
        o1 = sorted({x for x, y in cells if pos[(x, y)]}, key=lambda x: g.axes[axn[i1]].v(val[0][x]))
        o2 = sorted({y for x, y in cells if pos[(x, y)]}, key=lambda y: g.axes[axn[i2]].v(val[1][y]))
        at = lambda x, y: pos[(x, y)][0] if pos.get((x, y)) else None
        if not surf:
            mon.count("w-grid")
            for on, outer, inner, get in ((gl1, o2, o1, lambda o, q: at(q, o)), (gl2, o1, o2, lambda o, q: at(o, q))):
                if not on: continue
                for o in outer:
                    w = wantlines(g, [get(o, q) for q in inner])
                    c.want("data", "stroke", exact(w, "grid line"), "gridline" if w else "line-empty", colr)
                    mon.count("w-gridline")
            return
        want = []
        for xa, xb in zip(o1, o1[1:]):
            for ya, yb in zip(o2, o2[1:]):
                q = [pos.get(k) for k in ((xa, ya), (xb, ya), (xb, yb), (xa, yb))]
                if any(p is None or not inrange(p[0]) for p in q): continue
                cs = [C.of(p[1]) for p in q] if colored else [None]*4
                if colored and any(x is None for x in cs): continue
                mid = [sum(p[0][k] for p in q)/4 for k in range(3)]
                cm = C.of(sum(p[1] for p in q)/4) if colored else None
                for a, b in ((0, 1), (1, 2), (2, 3), (3, 0)):
                    want.append(([g.pos(*q[a][0]), g.pos(*q[b][0]), g.pos(*mid)], [cs[a], cs[b], cm], (g.depth(mid))))
        if not want: mon.count("surface-empty"); return
        def check(ev):
            o = ev.obj
            d = o["Decode"]
            data = c.pdf.stream(o)
            if len(data) != 10*3*len(want): return "surface of %g triangles, %d expected" % (len(data)/30, len(want))
            x0, x1, y0, y1 = d[:4]
            tol = 0.01+2*max(x1-x0, y1-y0)/(1 << 24)
            left = list(want)
            for k in range(0, len(data), 30):
                P, K = [], []
                for j in range(3):
                    e = data[k+10*j:k+10*j+10]
                    P.append((x0+(x1-x0)*int.from_bytes(e[1:4], "big")/0xffffff, y0+(y1-y0)*int.from_bytes(e[4:7], "big")/0xffffff))
                    K.append([b/255 for b in e[7:]])
                for w in left:
                    for p in itertools.permutations(range(3)):
                        if all(near(P[j], w[0][p[j]], tol) and (w[1][p[j]] is None or all(abs(x-y) < 5e-3 for x, y in zip(K[j], w[1][p[j]]))) for j in range(3)): break
                    else: continue
                    left.remove(w); break
                else: return "triangle %r %r is not one of the %d expected ones, e.g. %r" % (P, K, len(left), left[:2])
        c.want("fill", "shading", check, "surface"); mon.count("w-surface"); mon.count("surface-triangles", len(want))
    c.add(cols, styles, [plan])
    mon.describe([axn, i1, i2, cols, surf, colored])


# ---------------------------------------------------------------- driver
class Runner(Case):
    def __init__(self, *a):
        Case.__init__(self, *a)
        self.items, self.pending, self.key = [], [], []

    def add(self, cols, styles, plans): self.items.append((cols, styles, plans))

    def slot(self, name, n):
        a = self.g.axes[name]
        if isinstance(a, Bar): return a.slot(n)

    def resolve(self, ref): return self.pdf.get(ref)

    def go(self):
        mon, g = self.mon, self.g
        used = {n for n in g.axes}
        for n, a in g.axes.items():
            if not a.usable(): raise Skip("axis without range")
        bg = self.rng.random() < 0.15 and g.kind == "xy"
        kw = {}
        if bg: kw["backgroundattrs"] = [deco.filled([color.rgb(0.11, 0.22, 0.99)])]
        real = g.real(**kw)
        for cols, styles, plans in self.items:
            d = graph.data.values(**{k: list(v) for k, v in cols.items()})
            real.plot(d, styles)
        data = []
        for cols, styles, plans in self.items:
            for p in plans: p()
            data += self.init+self.data
            self.init, self.data = [], []
        self.data = data
        # direct requests
        if g.kind == "xy" and all(isinstance(a, Ax) for a in g.axes.values()):
            for _ in range(2):
                xn, yn = (self.rng.choice([n for n in g.axes if n[0] == d]) for d in "xy")
                x, y = g.axes[xn].x(self.rng.uniform(-0.5, 1.5)), g.axes[yn].x(self.rng.uniform(-0.5, 1.5))
                vx, vy = g.axes[xn].v(x), g.axes[yn].v(y)
                if vx is None or vy is None: continue
                got = real.pos_pt(x, y, xaxis=real.axes[xn], yaxis=real.axes[yn])
                mon.check(near(got, g.pos(vx, vy), 1e-6*(1+abs(vx)+abs(vy))*max(g.w, g.h)*PT), "pos", lambda: "pos_pt(%r, %r) = %r, expected %r" % (x, y, got, g.pos(vx, vy)))
                got = real.pos(x, y, xaxis=real.axes[xn], yaxis=real.axes[yn])
                got = tuple(unit.topt(e) for e in got)
                mon.check(near(got, g.pos(vx, vy), 1e-6*(1+abs(vx)+abs(vy))*max(g.w, g.h)*PT), "pos", lambda: "pos(%r, %r) = %r, expected %r" % (x, y, got, g.pos(vx, vy)))
                mon.count("pos")
        elif g.kind == "xyz" and all(isinstance(a, Ax) for a in g.axes.values()):
            val = [g.axes[n].x(self.rng.random()) for n in "xyz"]
            v = [g.axes[n].v(x) for n, x in zip("xyz", val)]
            if all(e is not None and abs(e) < 10 for e in v):
                got = real.pos_pt(*val)
                mon.check(near(got, g.pos(*v), 1e-4), "pos", lambda: "pos_pt%r = %r, expected %r" % (val, got, g.pos(*v)))
                mon.count("pos3d")
        data = pub.write(real, "pdf")
        self.pdf, pages = outi.read_pdf(data)
        got = list(pages[0].events) if pages else []
        want = []
        if bg:
            q = [(g.x0*PT, g.y0*PT), ((g.x0+g.w)*PT, g.y0*PT), ((g.x0+g.w)*PT, (g.y0+g.h)*PT), (g.x0*PT, (g.y0+g.h)*PT)]
            want.append(Want("fill", lambda ev: None if samecycle(pts(ev.subs[0]), q) else "background %r, expected %r" % (ev.subs, q), "background", (0.11, 0.22, 0.99)))
        want += self.fill+self.data+self.key
        self.compare(got, want)

    def compare(self, got, want):
        mon = self.mon
        k = 0
        for w in want:
            ev = got[k] if k < len(got) else None
            optional = w.label in ("line-empty", "histogram-empty")
            if optional and (ev is None or ev.op != w.op or not samecolor(ev, w.color)): continue
            if w.label == "line-empty" and any(len(clean(pts(s))) > 1 for s in ev.subs): continue
            mon.check(ev is not None, "missing", lambda: "%s is not drawn (%d of %d operations found)" % (w.label, len(got), len(want)))
            if ev is None: return
            mon.check(ev.op == w.op and (w.color is None or samecolor(ev, w.color)), "sequence", lambda: "operation %d is %s %r, expected %s %r for %s" % (k, ev.op, ev.color, w.op, w.color, w.label))
            if ev.op != w.op: return
            msg = w.check(ev)
            mon.check(msg is None, "place-"+w.label, lambda: msg)
            k += 1
        mon.check(k == len(got), "additional", lambda: "%d additional paint operations, first %r" % (len(got)-k, got[k]))
        mon.count("operations", k)


def samecolor(ev, col):
    if ev.color is None: return False
    sp, v = ev.color
    return sp == "rgb" and len(v) == 3 and all(abs(a-b) < 2e-3 for a, b in zip(v, col))


def colored(rng, used):
    while True:
        c = (round(rng.random(), 2), round(rng.random(), 2), round(rng.random(), 2))
        if all(max(abs(a-b) for a, b in zip(c, d)) > 0.03 for d in used): used.append(c); return c


def axescase(rng, mon, gk):
    "baselines, ticks and grid lines of the axes at all positions"
    g = G(rng, mon, gk)
    used, specs, kw = [], {}, {}
    dist = rng.uniform(0, 1.5)
    if gk == "xy":
        for d in "xy":
            names = [d]+[d+k for k in ("2", "3", "4", "5", "6") if rng.random() < 0.5]
            for n in names:
                if len(n) == 2 and int(n[1]) > 2 and (d if n[1] == "3" else d+str(int(n[1])-2)) not in specs: continue
                specs[n] = None
            if d+"2" not in specs: kw[d+"2"] = None
    else:
        for d in "xyz":
            specs[d] = None
            for k in "234":
                if rng.random() < 0.4: specs[d+k] = None
            if d != "z" and d+"2" not in specs: kw[d+"2"] = None
    for n in specs:
        A = Ax(rng, n, auto=0)
        s = specs[n] = {"ax": A, "base": colored(rng, used), "tick": colored(rng, used), "grid": colored(rng, used) if rng.random() < 0.4 else None,
                        "inner": rng.choice([0.2, None, rng.uniform(0, 0.5), -0.1]), "outer": rng.choice([None, 0.2, rng.uniform(-0.2, 0.6)]), "linked": None}
        s["at"] = [A.x(t) for t in sorted({rng.choice([0, 1, 0.5, round(rng.random(), 3)]) for _ in range(rng.choice([1, 2, 4]))})]
        if n in ("x2", "y2") and rng.random() < 0.4: s["linked"] = n[0]
    args = {}
    for n, s in specs.items():
        A = s["ax"]
        if s["linked"]:
            m = specs[s["linked"]]
            s["ax"], s["at"] = m["ax"], m["at"]

    def painter_(s, cls):
        return cls(innerticklength=s["inner"], outerticklength=s["outer"], basepathattrs=[color.rgb(*s["base"])], tickattrs=[color.rgb(*s["tick"])],
                   gridattrs=None if s["grid"] is None else [color.rgb(*s["grid"])], labelattrs=None, titleattrs=None)
    for n, s in specs.items():
        if s["linked"]: continue
        A = s["ax"]
        p = dict(min=A.lo, max=A.hi, parter=None, reverse=int(A.rev), painter=painter_(s, painter.regular),
                 manualticks=[tick.tick(x, ticklevel=0, labellevel=None) for x in s["at"]])
        if n+"2" in specs and specs[n+"2"]["linked"]: p["linkpainter"] = painter_(specs[n+"2"], painter.linked)
        args[n] = (axis.lin if A.kind == "lin" else axis.log)(**p)
    args.update(kw)
    at = {}
    if gk == "xy":
        for d, o in ("xy", "yx"):
            if rng.random() < 0.2 and not (gk == "xy" and d+"2" in specs and specs[d+"2"]["linked"]):
                at[d] = specs[o]["ax"].x(rng.random())
                # all axes beyond the moved one refer to its original position
                args[d+"axisat"] = at[d]
        real = graph.graphxy(xpos=g.x0, ypos=g.y0, width=g.w, height=g.h, flipped=g.flipped, axesdist=dist, **args)
    else:
        if rng.random() < 0.3: at["z"] = args["xy12axesat"] = specs["z"]["ax"].x(rng.random())
        p = graph.graphxyz.parallel(g.phi, g.theta) if g.dist is None else graph.graphxyz.central(g.dist, g.phi, g.theta)
        real = graph.graphxyz(xpos=g.x0, ypos=g.y0, size=g.size, xscale=g.scale[0], yscale=g.scale[1], zscale=g.scale[2], projector=p, axesdist=dist, **args)
    mon.describe([gk, g.flipped, vars(g).get("phi"), {n: (s["ax"].kind, s["ax"].rev, s["ax"].lo, s["ax"].hi, s["at"], s["inner"], s["outer"], s["linked"]) for n, s in specs.items()}, at])
    order = sorted(args)
    evs = pub.events(real, rng.choice(["pdf", "ps", "svg"]))[0]
    bycol = {}
    for ev in evs:
        if ev.op == "stroke": bycol.setdefault(tuple(round(x, 2) for x in ev.color[1]), []).append(ev)
    length = lambda x: 0 if x is None else x
    # positions: v -> pt, tick direction
    where, extents = {}, {}
    for n, s in specs.items():
        extents[n] = 0
        if (s["inner"] is not None or s["outer"] is not None) and s["at"]: extents[n] = max(0, length(s["outer"]), -length(s["inner"]))
    if gk == "xy":
        X0, Y0, X1, Y1 = g.x0, g.y0, g.x0+g.w, g.y0+g.h
        off = {}
        for n in sorted(specs, key=lambda n: (n[0], int(n[1:] or 1))):
            d, k = n[0], int(n[1:] or 1)
            prev = None if k < 3 else d+("" if k == 3 else str(k-2))
            off[n] = 0 if prev is None else off[prev]+extents[prev]+dist
            # x below, y left; even numbers opposite; the other way round for the x axis of a flipped graph
            side = 1 if k % 2 else -1
            if g.flipped and d == "x": side = -side
            if (d == "x") != g.flipped:
                c = Y0-off[n] if side == 1 else Y1+off[n]
                if n in at: o = "x" if g.flipped else "y"; c = Y0+specs[o]["ax"].v(at[n])*g.h
                f = lambda v, c=c: ((X0+v*(X1-X0))*PT, c*PT)
                dr = (0, side)
                gr = lambda v: [((X0+v*(X1-X0))*PT, Y0*PT), ((X0+v*(X1-X0))*PT, Y1*PT)]
            else:
                c = X0-off[n] if side == 1 else X1+off[n]
                if n in at: o = "y" if g.flipped else "x"; c = X0+specs[o]["ax"].v(at[n])*g.w
                f = lambda v, c=c: (c*PT, (Y0+v*(Y1-Y0))*PT)
                dr = (side, 0)
                gr = lambda v: [(X0*PT, (Y0+v*(Y1-Y0))*PT), (X1*PT, (Y0+v*(Y1-Y0))*PT)]
            shift = 0
            if n in at:
                # the moved axis takes its grid lines along
                full = Y0 if dr[0] == 0 else X0
                own = (Y0 if side == 1 else Y1) if dr[0] == 0 else (X0 if side == 1 else X1)
                sh = ((c-own)*PT if dr[0] else 0, (c-own)*PT if not dr[0] else 0)
                gr = lambda v, gr=gr, sh=sh: [(x+sh[0], y+sh[1]) for x, y in gr(v)]
            where[n] = f, (lambda v, dr=dr: dr), gr
    else:
        zat = specs["z"]["ax"].v(at["z"]) if at else 0
        near_ = lambda i: 1 if g.depth([0.5 if k != i else 1 for k in range(3)]) < g.depth([0.5 if k != i else 0 for k in range(3)]) else 0
        if any(abs(g.view[i]) < 0.02 for i in (0, 1)): raise Skip("edge-on")
        xo, yo = near_(1), near_(0)
        for n in specs:
            d, k = n[0], int(n[1:] or 1)
            if d == "z":
                i, j = (k-1) & 1, (k-1) >> 1
                e = lambda v, s, i=i, j=j: (i+(1-2*i)*s, j+(1-2*j)*s, v)
            else:
                z = zat if k < 3 else 1
                if d == "x": o = xo if k % 2 else 1-xo; e = lambda v, s, o=o, z=z: (v, o+(1-2*o)*s, z)
                else: o = yo if k % 2 else 1-yo; e = lambda v, s, o=o, z=z: (o+(1-2*o)*s, v, z)
            f = lambda v, e=e: g.pos(*e(v, 0))
            def dr(v, e=e):
                a, b = g.pos(*e(v, 0)), g.pos(*e(v, 1))
                l = math.dist(a, b)
                if l < 1e-3: raise Skip("tick direction along the view")
                return (b[0]-a[0])/l, (b[1]-a[1])/l
            i = "xyz".index(d)
            def gr(v, i=i):
                q = []
                for c in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    c = list(c); c.insert(i, v); q.append(g.pos(*c))
                return q
            where[n] = f, dr, gr
    for n, s in specs.items():
        f, dr, gr = where[n]
        what = "axis %s" % n
        got = bycol.pop(s["base"], [])
        mon.check(len(got) == 1 and polys(got[0]) is not None and matchsegs(polys(got[0]), [[f(0), f(1)]], 5e-3) or len(got) == 1 and near(f(0), f(1), 5e-3), "axis-baseline",
                  lambda: "%s: baseline %r, expected %r (position rules: %r)" % (what, [fmtp(polys(e)) for e in got], [f(0), f(1)], at))
        mon.count("baselines")
        mon.count("axis-"+gk+"-"+n)
        A = s["ax"]
        want = []
        if s["inner"] is not None or s["outer"] is not None:
            for x in s["at"]:
                v = A.v(x); p = f(v); d = dr(v); i, o = length(s["inner"])*PT, length(s["outer"])*PT
                want.append([(p[0]+d[0]*i, p[1]+d[1]*i), (p[0]-d[0]*o, p[1]-d[1]*o)])
        got = bycol.pop(s["tick"], [])
        segs = [pts(e.subs[0]) for e in got]
        mon.check(all(len(q) == 2 for q in segs) and matchsegs(segs, want, 5e-3), "axis-ticks", lambda: "%s: ticks %r, expected %r" % (what, fmtp(segs), fmtp(want)))
        mon.count("ticks", len(want))
        want = [gr(A.v(x)) for x in s["at"]] if s["grid"] is not None else []
        got = bycol.pop(s["grid"], []) if s["grid"] is not None else []
        ok = len(got) == len(want)
        left = list(want)
        for e in got:
            q = pts(e.subs[0])
            for w in left:
                if len(w) == 2 and matchsegs([q], [w], 5e-3) or len(w) == 4 and samecycle(q, w, 5e-3): left.remove(w); break
            else: ok = False
        mon.check(ok, "axis-grid", lambda: "%s: grid lines %r, expected %r" % (what, [pts(e.subs[0]) for e in got], want))
        mon.count("gridlines", len(want))
    mon.check(not bycol, "axis-additional", lambda: "strokes of unexpected colors %r" % (sorted(bycol),))
    if at: mon.count("axis-at-"+gk)
    if any(s["linked"] for s in specs.values()): mon.count("linked")
    mon.nontrivial(("axes", gk, g.flipped, sorted(specs), round(g.x0, 5)))


def run_case(kind, i, rng, mon):
    scene.TMP[0] = mon.tmp
    if kind != "gen": return globals()["d_"+kind](rng, mon)
    r = rng.random()
    gk = "xyz" if r < 0.22 else "xy"
    if rng.random() < 0.12: mon.count("axes-"+gk); return axescase(rng, mon, gk)
    g = G(rng, mon, gk)
    c = Runner(rng, mon, g)
    mode = rng.choice(["bars"]+["mix"]*5)
    if mode == "bars":
        if gk == "xy":
            b = rng.choice("xy")
            for n in "xy": g.axes[n] = Bar(rng, n) if n == b else Ax(rng, n, ("lin", "lin", "log"))
        else:
            b = rng.choice("xyz") if rng.random() < 0.3 else "z"
            for n in "xyz": g.axes[n] = Bar(rng, n) if n != b else Ax(rng, n, ("lin", "lin", "log"))
        for _ in range(rng.choice([1, 1, 2])): p_bars(c)
    else:
        for n in "xyz"[:g.n]: g.axes[n] = Ax(rng, n)
        if gk == "xy":
            for n in ("x2", "y2"):
                if rng.random() < 0.2: g.axes[n] = Ax(rng, n)
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice(["points"]*6+(["errorbar"]*3+["grid"]*4 if gk == "xyz" else ["errorbar"]*3+["histogram"]*4+["rect"]*2+["density"]*2+["arrow"]*2+["grid"]))
            if f == "points": p_points(c, rng.sample(["symbol", "line", "impulses"], rng.choice([1, 1, 2, 3])))
            else: globals()["p_"+f](c)
    mon.describe([gk, g.flipped, g.x0, g.y0, [(n, a.kind, a.rev, a.auto, getattr(a, "min", None), getattr(a, "max", None)) for n, a in g.axes.items()]])
    mon.count("graph-"+gk)
    if g.flipped: mon.count("flipped")
    c.go()
    mon.nontrivial((gk, g.flipped, round(g.x0, 6), [(n, a.kind, a.rev) for n, a in g.axes.items()], repr([x[0] for x in c.items])[:2000]))


def d_texts(rng, mon):
    "the text style sets every text at the point of its datum plus the offsets"
    eng = scene.texengine("tex")
    keep = text.defaulttextengine
    for rnd in range(24):
        g = G(rng, mon, "xy")
        for n in "xy": g.axes[n] = Ax(rng, n, auto=0)
        n = rng.randint(2, 8)
        cols = columns(type("C", (), {"g": g, "rng": rng}), 2, "xy", n)
        cols["text"] = [rng.choice(["A", "B", None]) for _ in range(n)]
        off = rng.random() < 0.5
        if off:
            cols["ox"] = [rng.choice([0, None, nan]) if rng.random() < 0.2 else rng.uniform(-1, 1) for _ in range(n)]
            cols["oy"] = [rng.uniform(-1, 1) for _ in range(n)]
        dx, dy = rng.uniform(-1, 1), rng.uniform(-1, 1)
        text.defaulttextengine = eng
        try: real = g.real()
        finally: text.defaulttextengine = keep
        st = S.text("text", dxname="ox", dyname="oy", dxunit=0.5, dyunit=2) if off else S.text("text", textdx=dx, textdy=dy)
        real.plot(graph.data.values(**cols), [st])
        want = []
        for k in range(n):
            v = [g.axes[a].v(cols[a][k]) for a in "xy"]
            if not inrange(v) or cols["text"][k] is None: continue
            o = (cols["ox"][k], cols["oy"][k]) if off else (dx, dy)
            if any(e is None or not math.isfinite(e) for e in o): continue
            u = (0.5, 2) if off else (1, 1)
            p = g.pos(*v)
            want.append((cols["text"][k], p[0]+o[0]*u[0]*PT, p[1]+o[1]*u[1]*PT))
        evs = [e for e in pub.events(real, "pdf")[0] if e.op == "text"]
        got = [("".join(chr(c) if isinstance(c, int) else c for c in e.codes), e.tm[4], e.tm[5]) for e in evs]
        mon.check([w[0] for w in want] == [q[0] for q in got], "texts", lambda: "texts %r, expected %r" % (got, want))
        ref = {}
        for w, q in zip(want, got):
            d = (q[1]-w[1], q[2]-w[2])
            mon.check(math.hypot(*d) < 12 and near(d, ref.setdefault(w[0], d), 0.05), "texts", lambda: "text %r at %r, expected %r up to the fixed offset %r" % (w[0], q[1:], w[1:], ref[w[0]]))
            mon.count("w-text")
        mon.describe([cols, off])
    mon.nontrivial("texts")
