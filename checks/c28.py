"""C28: style variation over data sets and keys.

Random sequences of plot calls (single data sets and lists, shared and separate style instances,
default styles, styles added to plots later) are drawn on graphs without painted axes.  Every paint
operation of the written output is compared with the one expected from the selection rule (index in
the sequence of data sets plotted with the same styles, number of them), for the data and for the
entries of the key; positions of the entries and of the whole key are judged by the documented
layout."""
import math
from harness import Skip
from pyx import graph, color, deco, attr, text, style as pstyle, canvas, path, unit
from pyx.graph import axis
import pub, outi, scene, draw, geo

S = graph.style
PROPERTY = "C28"
LEVEL = "exploration"
RULE = ("random histories of one to five plot calls with one to four data sets each, styles symbol, line, impulses, histogram, error bar (alone and combined) and bars (side by side and stacked), "
        "instances shared between calls, separate or default; attributes constant or changeable: lists (cyclic or ending), palettes, gradients and selections by number; titles or none; "
        "keys at all positions, inside and outside, with columns, frames, text sizes and distances, entries requested early; distinct by the recorded history")
QUICK, THOROUGH = 1000, 28000
CPU = 60
PT = 72/2.54
TOL = 2e-3
REQUIRED = {'call-again': 176, 'call-default': 159, 'call-mixed': 4, 'call-new': 291, 'call-permuted': 4, 'changebar': 2, 'columns-1': 166, 'columns-2': 25, 'columns-3': 4, 'early-key': 33, 'early-plot': 5, 'entries': 898, 'framed': 84, 'operations': 7797, 'placed-00': 3, 'placed-01': 24, 'placed-10': 30, 'placed-11': 145, 'set-Bars': 282, 'set-Errorbar-Line-Symbol': 52, 'set-Errorbar-Symbol': 82, 'set-Histogram': 41, 'set-Impulses': 29, 'set-Impulses-Symbol': 40, 'set-Line': 260, 'set-Line-Symbol': 80, 'set-Symbol': 429, 'sets': 1310, 'titles': 898, 'varied': 1164}
DIRECTED = ["changebar", "textkey", "arrowkey"]
ASSUMPTIONS = ["titles are single-font TeX texts; pens, symbols and key layout are judged in PostScript and PDF output"]


# ---------------------------------------------------------------- changeable attributes
# a model attribute is ("c", choices, cyclic, object) etc.; pick(index, total) gives a draw-model attribute or None

def rconst(rng, what):
    if what == "color":
        c = draw.rcolor(rng, hsb=False)
        return c
    if what == "lw": return draw.rlw(rng)
    if what == "dash": return draw.rstyle(rng, ("linestyle",))
    if what == "cap": return ("cap", rng.randint(0, 2))
    if what == "join": return ("join", rng.randint(0, 2))
    raise KeyError(what)


GRADS = ["Gray", "ReverseGray", "RedGreen", "GreenBlue", "WhiteRed", "BlueRed", "Rainbow", "Hue"]


class Const:
    def __init__(self, a): self.a = a; self.obj = draw.mk(a)
    def pick(self, i, n): return self.a
    def __repr__(self): return "Const(%r)" % (self.a,)


class List:
    def __init__(self, items, cyclic=True, palette=False):
        self.items, self.cyclic = items, cyclic
        objs = [draw.mk(a) for a in items]
        palette = palette and cyclic
        self.obj = color.palette(objs) if palette else attr.changelist(objs) if cyclic else attr.changelist(objs, cyclic=0)
    def pick(self, i, n):
        if self.cyclic: return self.items[i % len(self.items)]
        return self.items[i] if i < len(self.items) else None
    def __repr__(self): return "List(%r, %r)" % (self.items, self.cyclic)


class Grad:
    "the colours of a gradient spread over all data sets"
    def __init__(self, name):
        self.name = name; self.obj = getattr(color.gradient, name)
    def pick(self, i, n):
        c = self.obj.getcolor(i/(n-1) if n > 1 else 0)
        for sp, cl, at in (("gray", color.gray, "g"), ("rgb", color.rgb, "rgb"), ("cmyk", color.cmyk, "cmyk"), ("hsb", color.hsb, "hsb")):
            if isinstance(c, cl): return ("color", sp, tuple(v for v in [getattr(c, x) for x in at]))
    def __repr__(self): return "Grad(%s)" % self.name


class Multi:
    "another choice depending on the number of data sets"
    def __init__(self, d): self.d = d; self.obj = attr.multichangeattr({k: v.obj for k, v in d.items()})
    def pick(self, i, n): return self.d[n].pick(i, n)
    def __repr__(self): return "Multi(%r)" % self.d


def rchange(rng, what, ending=False, depth=0):
    r = rng.random()
    if r < .35: return Const(rconst(rng, what))
    if what == "color" and r < .55: return Grad(rng.choice(GRADS))
    if depth == 0 and r < .65: return Multi({k: List([rconst(rng, what) for _ in range(rng.randint(1, 4))]) if rng.random() < .7 or what != "color" else Grad(rng.choice(GRADS)) for k in range(1, 30)})
    return List([rconst(rng, what) for _ in range(rng.randint(1, 5))], cyclic=not (ending and rng.random() < .25), palette=what == "color" and rng.random() < .5)


def pickall(attrs, i, n):
    out = []
    for a in attrs:
        p = a.pick(i, n)
        if p is None: return None
        out.append(p)
    return out


LINESTYLES = [("linestyle", 0, (), 0, None), ("linestyle", 0, (2,), 0, None), ("linestyle", 1, (0, 2), 0, None), ("linestyle", 1, (0, 2, 2, 2), 0, None)]
for k, n in enumerate(["solid", "dashed", "dotted", "dashdotted"]): LINESTYLES[k] = LINESTYLES[k][:4] + (getattr(pstyle.linestyle, n),)
CHANGELINE = List(LINESTYLES)


def pts(a): return tuple(PT*v for v in a)


def D(method, prog, attrs):
    "a drawing operation with coordinates in cm"
    return draw.Draw(method, [(op, () if op == "closepath" else pts(a) if op != "arc" else pts(a[:3]) + a[3:]) for op, a in prog], attrs)


# ---------------------------------------------------------------- symbols: outlines of unit size
def cross(x, y, s): return [("moveto", (x-s/2, y-s/2)), ("lineto", (x+s/2, y+s/2)), ("moveto", (x-s/2, y+s/2)), ("lineto", (x+s/2, y-s/2))]
def plus(x, y, s):
    s *= math.sqrt(.5)
    return [("moveto", (x-s, y)), ("lineto", (x+s, y)), ("moveto", (x, y-s)), ("lineto", (x, y+s))]
def poly(pts): return [("moveto", pts[0])] + [("lineto", q) for q in pts[1:]] + [("closepath", ())]
def square(x, y, s): return poly([(x-s/2, y-s/2), (x+s/2, y-s/2), (x+s/2, y+s/2), (x-s/2, y+s/2)])
def triangle(x, y, s):
    a = s*math.sqrt(4/math.sqrt(3)); h = a*math.sqrt(3)/2          # equilateral with the area of the square
    return poly([(x-a/2, y-h/3), (x+a/2, y-h/3), (x, y+2*h/3)])
def circle(x, y, s): return [("arc", (x, y, s/math.sqrt(math.pi), 0.0, 360.0)), ("closepath", ())]
def diamond(x, y, s):
    b = s*math.sqrt(math.sqrt(3)/2)                                # same area, two sides and the short diagonal equal
    return poly([(x-b/math.sqrt(3), y), (x, y-b), (x+b/math.sqrt(3), y), (x, y+b)])


SYMS = [cross, plus, square, triangle, circle, diamond]
CYCLES = {f.__name__: SYMS[k:]+SYMS[:k] for k, f in enumerate(SYMS)}
TW = [square, triangle, circle, diamond]
TWICE = {f.__name__: [g for g in TW[k:]+TW[:k] for _ in (0, 1)] for k, f in enumerate(TW)}


class Pick:
    "changeable values other than path attributes"
    def __init__(self, items, obj, multi=None): self.items, self.obj, self.multi = items, obj, multi
    def pick(self, i, n):
        it = self.multi[n] if self.multi else self.items
        return it[i % len(it)]
    def __repr__(self): return "Pick(%s)" % ([getattr(x, "__name__", x) for x in self.items],)


def rsymbol(rng):
    r = rng.random()
    if r < .3: f = rng.choice(SYMS); return Pick([f], getattr(S.symbol, f.__name__))
    if r < .7: f = rng.choice(SYMS); return Pick(CYCLES[f.__name__], getattr(S.symbol, "change" + f.__name__))
    if r < .9: f = rng.choice(TW); return Pick(TWICE[f.__name__], getattr(S.symbol, "change" + f.__name__ + "twice"))
    fs = [rng.choice(SYMS) for _ in range(rng.randint(1, 4))]
    def own(f): return lambda c, x_pt, y_pt, size_pt, attrs: c.draw(path.path(*draw.gen.pyxitems(f(x_pt, y_pt, size_pt), path)), attrs)
    return Pick(fs, attr.changelist([own(f) for f in fs]))


def rsize(rng):
    r = rng.random()
    if r < .4: return Pick([.2], None)
    if r < .6: v = round(rng.uniform(.05, .4), 2); return Pick([v], v)
    v = [round(rng.uniform(.05, .4), 2) for _ in range(rng.randint(1, 4))]
    return Pick(v, attr.changelist(v))


class Deco:
    "changing stroked and filled"
    def __init__(self, rng):
        r = rng.random()
        st, fi = ("plainstroked",), ("plainfilled",)
        if r < .3: self.items, self.obj = [st, fi], S.symbol.changestrokedfilled
        elif r < .6: self.items, self.obj = [fi, st], S.symbol.changefilledstroked
        elif r < .8:
            self.items = [rng.choice([("filled", [rconst(rng, "color")]), ("stroked", [rconst(rng, "color")]), ("filled", []), ("stroked", [rconst(rng, "lw")])]) for _ in range(rng.randint(1, 3))]
            self.obj = attr.changelist([draw.mk(a) for a in self.items])
        else:
            self.items = [fi]; self.obj = deco.filled
    def pick(self, i, n): return self.items[i % len(self.items)]
    def __repr__(self): return "Deco(%r)" % self.items


def rattrs(rng, kinds, ending):
    return [rchange(rng, rng.choice(kinds), ending) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def line(x1, y1, x2, y2): return [("moveto", (x1, y1)), ("lineto", (x2, y2))]


class Sty:
    geom = True
    def base(self, g, i, n, out): pass
    def data(self, g, pts, i, n, out): pass
    def key(self, x, y, w, h, i, n, out): pass


class Symbol(Sty):
    def __init__(self, rng, plain=False):
        if plain: self.symbol, self.size, self.attrs, kw = Pick(CYCLES["cross"], None), Pick([.2], None), [], {}
        else:
            self.symbol = rsymbol(rng); self.size = rsize(rng)
            self.attrs = rattrs(rng, ["color", "color", "lw"], True)
            if rng.random() < .5: self.attrs.insert(rng.randint(0, len(self.attrs)), Deco(rng))
            if rng.random() < .05: self.attrs = None
            kw = dict(symbol=self.symbol.obj, symbolattrs=None if self.attrs is None else [a.obj for a in self.attrs])
            if self.size.obj is not None: kw["size"] = self.size.obj
        self.obj = S.symbol(**kw)
    def at(self, i, n): return None if self.attrs is None else pickall([Const(("plainstroked",))] + self.attrs, i, n)
    def one(self, x, y, i, n, out):
        at = self.at(i, n)
        if at is not None: D("draw", self.symbol.pick(i, n)(x, y, self.size.pick(i, n)), at).events(draw.State(), out)
    def data(self, g, pts, i, n, out):
        for x, y in pts: self.one(*g.pos(x, y), i, n, out)
    def key(self, x, y, w, h, i, n, out): self.one(x+w/2, y+h/2, i, n, out)
    def keybox(self, w, h, i, n, at=None):
        if self.at(i, n) is None: return None
        b = geo.bbox(draw.gen.reference(self.symbol.pick(i, n)(w/2, h/2, self.size.pick(i, n))))
        return tuple(b)
    def __repr__(self): return "symbol(%r, %r, %r)" % (self.symbol, self.size, self.attrs)


class Line(Sty):
    name = "line"
    def __init__(self, rng, plain=False):
        self.attrs = [] if plain else rattrs(rng, ["color", "color", "lw", "dash", "cap", "join"], True)
        if not plain and rng.random() < .05: self.attrs = None
        self.make(rng)
    def make(self, rng): self.obj = S.line(None if self.attrs is None else [a.obj for a in self.attrs])
    def at(self, i, n): return None if self.attrs is None else pickall([CHANGELINE] + self.attrs, i, n)
    def data(self, g, pts, i, n, out):
        at = self.at(i, n); q = [g.pos(*p) for p in pts]
        if at is not None and len(q) > 1: D("stroke", [("moveto", q[0])] + [("lineto", v) for v in q[1:]], at).events(draw.State(), out)
    def key(self, x, y, w, h, i, n, out):
        at = self.at(i, n)
        if at is not None: D("stroke", line(x, y+h/2, x+w, y+h/2), at).events(draw.State(), out)
    def keybox(self, w, h, i, n): return None if self.at(i, n) is None else (0, h/2, w, h/2)
    def __repr__(self): return "%s(%r)" % (self.name, self.attrs)


class Impulses(Line):
    name = "impulses"
    def make(self, rng):
        self.hasbase = rng.random() < .6
        self.value = round(rng.uniform(0, 3), 1) if self.hasbase else None
        self.frompath = rng.choice([[], [], None, [("color", "rgb", (1.0, 0.0, 0.5))], [("lw", 3.0, None)]])
        self.obj = S.impulses(None if self.attrs is None else [a.obj for a in self.attrs], fromvalue=self.value, frompathattrs=None if self.frompath is None else [draw.mk(a) for a in self.frompath])
    def base(self, g, i, n, out):
        if self.hasbase and self.frompath is not None and i == 0:
            D("stroke", line(*g.pos(g.xr[0], self.value), *g.pos(g.xr[1], self.value)), self.frompath).events(draw.State(), out)
    def data(self, g, pts, i, n, out):
        at = self.at(i, n)
        for x, y in pts:
            if at is not None: D("stroke", line(*g.pos(x, self.value if self.hasbase else g.yr[0]), *g.pos(x, y)), at).events(draw.State(), out)


class Histogram(Line):
    name = "histogram"
    def make(self, rng):
        self.rect = rng.random() < .5
        if self.attrs and rng.random() < .5: self.attrs.insert(rng.randint(0, len(self.attrs)), Deco(rng))
        self.fillable = rng.random() < .5
        self.obj = S.histogram(None if self.attrs is None else [a.obj for a in self.attrs], fromvalue=None, rectkey=self.rect, fillable=self.fillable, steps=rng.random() < .5)
    def at(self, i, n): return None if self.attrs is None else pickall([Const(("plainstroked",))] + self.attrs, i, n)
    def data(self, g, pts, i, n, out):
        at = self.at(i, n)
        if at is not None:
            k = len(out); D("draw", line(0, 0, 1, 1), at).events(draw.State(), out)
            for w in out[k:]: w.geom = False
    def key(self, x, y, w, h, i, n, out):
        at = self.at(i, n)
        if at is not None: D("draw", poly([(x, y), (x+w, y), (x+w, y+h), (x, y+h)]) if self.rect else line(x, y+h/2, x+w, y+h/2), at).events(draw.State(), out)
    def keybox(self, w, h, i, n): return None if self.at(i, n) is None else (0, 0, w, h) if self.rect else (0, h/2, w, h/2)


class Errorbar(Sty):
    def __init__(self, rng):
        self.attrs = rattrs(rng, ["color", "lw", "dash"], True)
        self.size = rsize(rng)
        self.obj = S.errorbar(errorbarattrs=[a.obj for a in self.attrs], **({} if self.size.obj is None else dict(size=self.size.obj)))
        if self.size.obj is None: self.size = Pick([.1], None)
    def data(self, g, pts, i, n, out):
        at = pickall(self.attrs, i, n)
        if at is None: return
        for x, y in pts:
            a, b = g.pos(x, y-g.dy), g.pos(x, y+g.dy); s = self.size.pick(i, n)/2
            for p in (line(*a, *b), line(a[0]-s, a[1], a[0]+s, a[1]), line(b[0]-s, b[1], b[0]+s, b[1])):
                D("stroke", p, at).events(draw.State(), out)
    def keybox(self, w, h, i, n): return None
    def __repr__(self): return "errorbar(%r)" % self.attrs


class Bars(Sty):
    layer = "fill"
    def __init__(self, rng, parts=None):
        self.attrs = rattrs(rng, ["color"], False)
        if rng.random() < .4: self.attrs.append(Const(("stroked", [rconst(rng, "color")])))
        self.obj = S.bar(barattrs=[a.obj for a in self.attrs])
    def at(self, i, n): return pickall([Const(("plainfilled",)), Grad("Rainbow"), Const(("stroked", [("color", "gray", (0.0,))]))] + self.attrs, i, n)
    def data(self, g, pts, i, n, out):
        at = self.at(i, n); k = len(out)
        for p in pts: D("draw", line(0, 0, 1, 1), at).events(draw.State(), out)
        for w in out[k:]: w.geom = False
    def keypart(self, x, y, w, h, i, n, part, parts, out):
        x += w*part/parts; w /= parts
        D("draw", poly([(x, y), (x+w, y), (x+w, y+h), (x, y+h)]), self.at(i, n)).events(draw.State(), out)
    def keybox(self, w, h, i, n): return (0, 0, w, h)
    def __repr__(self): return "bar(%r)" % self.attrs


class Group:
    "a list of styles: plots with the same instances vary together"
    def __init__(self, rng, kind, plain=None):
        self.n = 0
        self.kind = kind
        self.stacked = 0
        if plain: self.styles = [plain]
        elif kind == "bar":
            self.styles = [Bars(rng)]
            if rng.random() < .4: self.stacked = rng.randint(1, 2); self.styles += [Bars(rng) for _ in range(self.stacked)]
        else:
            k = rng.choice(["s", "s", "l", "l", "i", "h", "sl", "ls", "se", "es", "lse", "si", "ll", "ss"])
            self.styles = [{"s": Symbol, "l": Line, "i": Impulses, "h": Histogram, "e": Errorbar}[c](rng) for c in k]
        self.error = any(isinstance(s, Errorbar) for s in self.styles)
        self.objs = []
        for j, s in enumerate(self.styles):
            if self.kind == "bar" and j: self.objs.append(S.stackedbarpos("s%d" % j, addontop=1))
            self.objs.append(s.obj)
    def sharable(self): return self.styles[0].obj


class Set:
    def __init__(self, group, title, pts): self.group, self.title, self.pts = group, title, pts


class G:
    def __init__(self, rng):
        self.x0, self.y0 = rng.choice([(0, 0), (rng.uniform(-5, 5), rng.uniform(-5, 5))])
        self.w, self.h = rng.uniform(4, 15), rng.uniform(4, 15)
        self.xr, self.yr, self.dy = (0, 10), (0, 10), .25
    def pos(self, x, y): return (self.x0 + self.w*(x-self.xr[0])/(self.xr[1]-self.xr[0]), self.y0 + self.h*(y-self.yr[0])/(self.yr[1]-self.yr[0]))


WORDS = ["A", "Bg", "cy", "x", "Qp", "HI", "o", "M", "jx", "nice", "zz", "Long", "bd", "gg", "ace"]
POS = {"tr": (1, 1), "rt": (1, 1), "tc": (.5, 1), "ct": (.5, 1), "tl": (0, 1), "lt": (0, 1), "mr": (1, .5), "rm": (1, .5), "mc": (.5, .5), "cm": (.5, .5), "ml": (0, .5), "lm": (0, .5),
       "br": (1, 0), "rb": (1, 0), "bc": (.5, 0), "cb": (.5, 0), "bl": (0, 0), "lb": (0, 0)}


class Key:
    def __init__(self, rng):
        kw = {}
        def opt(name, default, *choice):
            if rng.random() < .3: kw[name] = v = rng.choice(choice) if len(choice) > 1 or not callable(choice[0]) else choice[0]()
            else: v = default
            setattr(self, name, v)
        u = lambda a, b: (lambda: round(rng.uniform(a, b), 2))
        opt("dist", .2, u(0, 1)); opt("hinside", 1, 0, 1); opt("vinside", 1, 0, 1); opt("hdist", .6, u(-1, 2)); opt("vdist", .4, u(-1, 2))
        opt("symbolwidth", .5, u(.4, 2)); opt("symbolheight", .25, u(.1, 1)); opt("symbolspace", .2, u(0, 1)); opt("columns", 1, 1, 2, 3, 5); opt("columndist", .5, u(0, 2)); opt("border", .3, u(0, 1))
        r = rng.random()
        if r < .6: p = rng.choice(sorted(POS)); kw["pos"] = p; self.hpos, self.vpos = POS[p]
        elif r < .85: self.hpos, self.vpos = kw["hpos"], kw["vpos"] = round(rng.uniform(-.2, 1.2), 2), rng.choice([0, .3, 1]); kw["pos"] = None
        else: self.hpos, self.vpos = 1, 1
        self.keyattrs = None
        if rng.random() < .4:
            self.keyattrs = [("plainstroked",), rconst(rng, "color")] if rng.random() < .5 else [("filled", [rconst(rng, "color")])]
            kw["keyattrs"] = [draw.mk(a) for a in self.keyattrs]
        self.textattrs = []
        if rng.random() < .2: self.textattrs = [rng.choice([text.size.small, text.size.Large, text.size.footnotesize])]; kw["textattrs"] = self.textattrs
        self.kw = kw
        self.obj = graph.key.key(**kw)


def plaindata(rng, kind, group, pts, title, y):
    t = {} if title == "default" else dict(title=title)
    if kind == "bar":
        cols = [[n for n, v in pts], [v for n, v in pts]]
        kw = {"xname": cols[0], "y": cols[1]}
        for j in range(group.stacked): kw["s%d" % (j+1)] = [rng.uniform(.1, 1) for _ in pts]
        return graph.data.values(**kw, **t)
    if group.error: return graph.data.values(x=[p[0] for p in pts], y=[p[1] for p in pts], dy=[.25]*len(pts), **t)
    if rng.random() < .5: return graph.data.values(x=[p[0] for p in pts], y=[p[1] for p in pts], **t)
    return graph.data.points([tuple(p) for p in pts], x=1, y=2, **t)


def run_case(kind, i, rng, mon):
    scene.TMP[0] = mon.tmp
    if kind != "gen": return directed(kind, rng, mon)
    text.defaulttextengine, save = scene.texengine("tex"), text.defaulttextengine
    try: case(rng, mon)
    finally: text.defaulttextengine = save


def case(rng, mon):
    bars = rng.random() < .2
    kd = "bar" if bars else "xy"
    g = G(rng)
    key = Key(rng) if rng.random() < .85 else None
    kw = dict(xpos=g.x0, ypos=g.y0, width=g.w, height=g.h, x2=None, y2=None, y=axis.lin(min=0, max=10, painter=None), x=axis.bar(painter=None) if bars else axis.lin(min=0, max=10, painter=None))
    if key: kw["key"] = key.obj
    gr = graph.graphxy(**kw)
    groups, sets, log, items = [], [], [], []
    level = 0; early = []
    defaults = {}
    for c in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        r = rng.random()
        if groups and r < .45: grp = rng.choice(groups); how = "again"
        elif not bars and r < .6: grp = None; how = "default"
        elif not bars and r < .66 and any(len(q.styles) > 1 for q in groups):
            # the same styles in another order are another sequence
            q = rng.choice([q for q in groups if len(q.styles) > 1]); grp = Group.__new__(Group); grp.__dict__.update(q.__dict__)
            grp.n = 0; grp.styles = q.styles[::-1]; grp.objs = q.objs[::-1]; how = "permuted"
            for x in groups:
                if [id(o) for o in x.objs] == [id(o) for o in grp.objs]: grp = x; break
            else: groups.append(grp)
        elif not bars and groups and r < .74 and len(groups[0].styles) == 1 and groups[0] not in defaults.values() and not groups[0].error:
            # a list with one shared and one more style is another sequence
            grp = Group(rng, kd); k = rng.randint(0, 1)
            grp.styles = (groups[0].styles + grp.styles) if k else (grp.styles + groups[0].styles)
            grp.objs = (groups[0].objs + grp.objs) if k else (grp.objs + groups[0].objs)
            groups.append(grp); how = "mixed"
        else: grp = Group(rng, kd); groups.append(grp); how = "new"
        m = rng.choice([None, None, 1, 2, 3, 4])
        batch, real = [], []
        function = rng.random() < .3
        if how == "default":
            which = "line" if function else "symbol"
            if which not in defaults:
                defaults[which] = Group(rng, kd, (Line if function else Symbol)(rng, plain=True)); groups.append(defaults[which])
            grp = defaults[which]
        elif grp is not None and grp in defaults.values(): how = "again"
        for _ in range(m or 1):
            title = rng.choice([None, "w", "w", "w", "w"])
            if title: title = rng.choice(WORDS) if rng.random() < .96 else ""
            level += .07
            y = .3 + (level*3) % 9
            if bars: pts = [("%d-%d" % (len(sets)+len(batch), k), rng.uniform(.5, 5)) for k in range(rng.randint(1, 3))]
            elif function and how == "default":
                a = rng.uniform(0, 4); b = a + rng.uniform(1, 5); npt = rng.randint(2, 5)
                pts = [(a + (b-a)*k/(npt-1), y) for k in range(npt)]
            else:
                x = sorted(rng.sample(range(1, 10), rng.randint(2, 4)))
                if any(isinstance(s, Histogram) for s in grp.styles): x = [x[0] + k*.5 for k in range(len(x))] if x[0] <= 7 else [7 + k*.5 for k in range(len(x))]
                pts = [(v, y + rng.uniform(0, .5)) for v in x]
            if function and how == "default": d = graph.data.function("y(x)=%r" % y, min=a, max=b, points=npt, title=title)
            else: d = plaindata(rng, kd, grp, pts, title, y)
            batch.append(Set(grp, title, pts)); real.append(d)
        styles = None
        if how == "default": pass
        elif grp in defaults.values(): styles = list(graph.data.function.defaultstyles if isinstance(grp.styles[0], Line) else graph.data.points.defaultstyles)
        else: styles = list(grp.objs)
        arg = real[0] if m is None else real
        log.append((how, m, [(b.title, b.pts) for b in batch], groups.index(grp)))
        it = gr.plot(arg) if styles is None and rng.random() < .5 else gr.plot(arg, styles)
        mon.count("call-" + how)
        its = [it] if m is None else it
        mon.check(len(its) == len(batch), "plotitems", lambda: "%d plot items for %d data sets" % (len(its), len(batch)))
        for b, q in zip(batch, its): b.index = grp.n; grp.n += 1; sets.append(b); items.append(q)
    mon.describe((log, [gg.styles for gg in groups], key and (key.kw), (g.x0, g.y0, g.w, g.h)))
    mon.nontrivial((str(log), str([gg.styles for gg in groups])))
    order = list(range(len(sets)))
    if key and rng.random() < .15:
        k = rng.randrange(len(sets)); gr.dokeyitem(items[k]); order.remove(k); order.insert(0, k); mon.count("early-key")
        if rng.random() < .5 and k: gr.doplotitem(items[k]); porder = [k] + [q for q in range(len(sets)) if q != k]; mon.count("early-plot")
        else: porder = list(range(len(sets)))
    else: porder = list(range(len(sets)))
    fmt = rng.choice(["pdf", "eps"])
    ev = pub.events(gr, fmt)[0]
    wanted = []
    for k in porder:
        s = sets[k]
        for st in s.group.styles: st.base(g, s.index, s.group.n, wanted)
        for st in s.group.styles: st.data(g, s.pts, s.index, s.group.n, wanted)
        mon.count("set-%s" % "-".join(sorted(set(type(st).__name__ for st in s.group.styles))))
        mon.count("sets")
        if s.group.n > 1: mon.count("varied", 1)
    keyed = [sets[k] for k in order if sets[k].title is not None]
    if key and keyed: keymodel(rng, mon, g, key, keyed, wanted, ev, fmt)
    draw.compare(mon, fmt, [e for e in ev if e.op != "text"], wanted)
    mon.count("operations", len(wanted))
    if not key or not keyed: mon.check(not [e for e in ev if e.op == "text"], "key-text", lambda: "text without key entries")


def keymodel(rng, mon, g, key, keyed, wanted, ev, fmt):
    eng = scene.texengine("tex")
    percol = -(-len(keyed)//key.columns)
    cols = [keyed[k:k+percol] for k in range(0, len(keyed), percol)]
    x = 0; place = []; box = None
    def join(a, b): return b if a is None else (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
    for col in cols:
        tb = []
        for s in col:
            b = eng.text(0, 0, s.title, [text.vshift.mathaxis] + key.textattrs).bbox()
            tb.append([unit.tocm(v) for v in (b.left(), b.bottom(), b.right(), b.top())])
        dy = key.dist + max(b[3]-b[1] for b in tb)
        cb = None
        for k, (s, b) in enumerate(zip(col, tb)):
            y = -k*dy
            tx = key.symbolwidth + key.symbolspace - b[0]
            place.append((s, x, y, tx+x))
            cb = join(cb, (tx+b[0], y+b[1], tx+b[2], y+b[3]))
            for st in s.group.styles:
                kb = st.keybox(key.symbolwidth, key.symbolheight, s.index, s.group.n)
                if kb: cb = join(cb, (kb[0], y-key.symbolheight/2+kb[1], kb[2], y-key.symbolheight/2+kb[3]))
        box = join(box, (cb[0]+x, cb[1], cb[2]+x, cb[3]))
        x += cb[2]-cb[0]+key.columndist
    mon.count("columns-%d" % len(cols))
    if key.keyattrs is not None: box = (box[0]-key.border, box[1]-key.border, box[2]+key.border, box[3]+key.border)
    def shift(lo, size, a, b, pos, dist, inside):
        w = b-a
        if inside: left = lo+dist + pos*(size-2*dist-w)                 # from one side of the graph to the other
        else: left = (lo-dist-w)*(1-pos) + (lo+size+dist)*pos           # likewise beyond the sides
        return left-a
    dx = shift(g.x0, g.w, box[0], box[2], key.hpos, key.hdist, key.hinside)
    dyy = shift(g.y0, g.h, box[1], box[3], key.vpos, key.vdist, key.vinside)
    mon.count("placed-%d%d" % (key.hinside, key.vinside))
    if key.keyattrs is not None:
        D("draw", poly([(box[0]+dx, box[1]+dyy), (box[2]+dx, box[1]+dyy), (box[2]+dx, box[3]+dyy), (box[0]+dx, box[3]+dyy)]), key.keyattrs).events(draw.State(), wanted)
        mon.count("framed")
    for s, px, py, tx in place:
        parts = len(s.group.styles)
        for j, st in enumerate(s.group.styles):
            if isinstance(st, Bars): st.keypart(px+dx, py+dyy-key.symbolheight/2, key.symbolwidth, key.symbolheight, s.index, s.group.n, j, parts, wanted)
            else: st.key(px+dx, py+dyy-key.symbolheight/2, key.symbolwidth, key.symbolheight, s.index, s.group.n, wanted)
        mon.count("entries")
    # titles
    texts = [e for e in ev if e.op == "text"]
    used = 0
    offs = []
    glist = [q for e in texts for q in glyphs(e)]
    for s, px, py, tx in place:
        mon.count("titles")
        if not s.title: mon.count("titles-empty"); continue
        mon.check(used < len(glist), "title-text", lambda: "title %r missing" % s.title)
        ch, gx, gy = glist[used]
        mon.check(all(used+k < len(glist) and glist[used+k][0] == ord(c) for k, c in enumerate(s.title)), "title-text", lambda: "title %r expected, codes %s" % (s.title, [q[0] for q in glist[used:used+len(s.title)]]))
        used += len(s.title)
        mon.close(gx, (tx+dx)*PT, .02, "title-x", lambda: "title %r starts at %g instead of %g pt" % (s.title, gx, (tx+dx)*PT))
        offs.append((py+dyy)*PT-gy)
    mon.check(used == len(glist), "title-text", lambda: "%d characters instead of %d" % (len(glist), used))
    if not offs: return
    mon.check(max(offs)-min(offs) < .02, "title-y", lambda: "titles off their symbols by %s pt" % offs)
    mon.check(1 < offs[0] < 5, "title-y", lambda: "titles off the symbol centres by %s pt" % offs)


def glyphs(e):
    x, y = e.at if hasattr(e, "at") else e.tm[4:6]
    return [(c, x, y) for c in e.codes]


def directed(kind, rng, mon):
    "styles without key entries refuse one; changebar varies over the bars of one data set"
    text.defaulttextengine, save = scene.texengine("tex"), text.defaulttextengine
    try:
        if kind == "changebar":
            for n in range(1, 7):
                pal = [rconst(rng, "color") for _ in range(rng.randint(1, 5))]
                for at, pick in ((color.palette([draw.mk(a) for a in pal]), lambda k: pal[k % len(pal)]), (color.gradient.RedGreen, lambda k: Grad("RedGreen").pick(k, n)), (None, lambda k: Grad("Rainbow").pick(k, n))):
                    g = graph.graphxy(width=5, height=5, x2=None, y2=None, x=axis.bar(painter=None), y=axis.lin(min=0, max=10, painter=None))
                    g.plot(graph.data.values(xname=["b%d" % k for k in range(n)], y=[k+1 for k in range(n)], title=None), [S.changebar([] if at is None else [at])])
                    want = []
                    for k in range(n): D("draw", line(0, 0, 1, 1), [("plainfilled",), pick(k), ("stroked", [("color", "gray", (0.0,))])]).events(draw.State(), want)
                    for w in want: w.geom = False
                    for fmt in ("pdf", "eps"): draw.compare(mon, fmt, [e for e in pub.events(g, fmt)[0]], want)
                    mon.count("changebar")
        else:
            st = {"textkey": lambda: S.text(), "arrowkey": lambda: S.arrow()}[kind]()
            d = dict(x=[1, 2], y=[3, 4])
            if kind == "textkey": d["text"] = ["a", "b"]
            else: d.update(size=[1, 1], angle=[0, 30])
            for title in (None, "T"):
                g = graph.graphxy(width=5, height=5, key=graph.key.key(), x=axis.lin(painter=None), y=axis.lin(painter=None), x2=None, y2=None)
                g.plot(graph.data.values(title=title, **d), [st])
                try: pub.write(g, "pdf"); ok = True
                except RuntimeError: ok = False
                mon.check(ok == (title is None), "no-key", lambda: "%s with title %r: %s" % (kind, title, ok))
                mon.count(kind)
        mon.nontrivial(kind)
    finally: text.defaulttextengine = save
