"""A reference model of pyx drawing programs.

Canvas mirrors the public drawing calls on a pyx canvas and keeps an independent
record from which the expected sequence of paint events is computed."""
import math, colorsys
import geo, gen
from pyx import canvas as pcanvas, path, style, color, deco, trafo, unit

LW0 = 0.02*72/2.54          # default line width in pt


class State:
    def __init__(self):
        self.stroke = self.fill = ("gray", (0.0,))
        self.salpha = self.falpha = 1.0
        self.lw, self.cap, self.join, self.miter, self.dash = LW0, 0, 0, 10.0, ((), 0.0)
        self.rule = "nonzero"
        self.ctm, self.clips = geo.IDENT, ()
    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        return s


class Want:
    "an expected paint event"
    def __init__(self, op, st, subs, scale, geom=True):
        self.op, self.subs, self.geom = op, subs, geom
        self.color = st.stroke if op == "stroke" else st.fill
        self.alpha = st.salpha if op == "stroke" else st.falpha
        self.lw, self.cap, self.join, self.miter, self.dash, self.rule = st.lw, st.cap, st.join, st.miter, st.dash, st.rule
        self.ctm, self.clips, self.scale = st.ctm, st.clips, scale
    def __repr__(self):
        return "%s color=%s alpha=%g lw=%g cap=%d join=%d miter=%g dash=%s rule=%s clips=%d %s" % (
            self.op, self.color, self.alpha, self.lw, self.cap, self.join, self.miter, self.dash, self.rule, len(self.clips),
            [tuple(round(v, 3) for v in s.begin()) for s in self.subs if s.segs][:3])


# ---- attributes: (kind, data) tuples with .pyx objects
def mk(a):
    "the pyx attribute for a model attribute"
    k = a[0]
    if k == "color":
        sp, c = a[1], a[2]
        return {"gray": color.gray, "rgb": color.rgb, "cmyk": color.cmyk, "hsb": color.hsb}[sp](*c)
    if k == "lw": return a[2] if a[2] is not None else style.linewidth(a[1]*unit.t_pt)
    if k == "cap": return style.linecap(a[1])
    if k == "join": return style.linejoin(a[1])
    if k == "miter": return style.miterlimit(a[1])
    if k == "dash": return style.dash(list(a[1]), a[2], a[3])
    if k == "linestyle": return a[4] if a[4] is not None else style.linestyle(style.linecap(a[1]), style.dash(list(a[2]), a[3]))
    if k == "rule": return style.fillrule(a[1])
    if k == "alpha": return color.transparency(1-a[1])
    if k == "trafo":
        m = a[1]
        return trafo.trafo_pt(((m[0], m[2]), (m[1], m[3])), (m[4], m[5]))
    if k == "clip": return pcanvas.clip(path.path(*gen.pyxitems(a[1], path)))
    if k == "stroked": return deco.stroked([mk(x) for x in a[1]])
    if k == "filled": return deco.filled([mk(x) for x in a[1]])
    if k == "plainstroked": return deco.stroked
    if k == "plainfilled": return deco.filled
    if k == "arrow":
        base = deco.earrow if a[1] == "e" else deco.barrow
        return base([mk(x) for x in a[2]], size=a[3]*unit.t_pt)
    if k == "clear":
        return {"color": color.clear, "lw": style.linewidth.clear, "cap": style.linecap.clear, "join": style.linejoin.clear, "miter": style.miterlimit.clear,
                "dash": style.dash.clear, "linestyle": style.linestyle.clear, "rule": style.fillrule.clear, "stroked": deco.stroked.clear, "filled": deco.filled.clear,
                "arrow": deco.arrow.clear}[a[1]]
    raise KeyError(k)


def kind(a):
    return {"plainstroked": "stroked", "plainfilled": "filled"}.get(a[0], a[0])


EXCL = {"color", "lw", "cap", "join", "miter", "dash", "linestyle", "rule", "alpha", "stroked", "filled"}


def resolve(attrs):
    "documented meaning of an attribute list: last of a kind wins, line widths act before dashes"
    out = []
    for a in attrs:
        k = kind(a)
        if k == "clear":
            out = [x for x in out if kind(x) != a[1]]
        elif k == "lw":
            out = [x for x in out if kind(x) != "lw"]
            j = next((n for n, x in enumerate(out) if kind(x) in ("dash", "linestyle")), len(out))
            out.insert(j, a)
        else:
            if k in EXCL: out = [x for x in out if kind(x) != k]
            out.append(a)
    return out


def style_attrs(st, attrs, stroke=True, fill=True):
    st = st.copy()
    for a in attrs:
        k = a[0]
        if k == "color":
            if stroke: st.stroke = (a[1], tuple(a[2]))
            if fill: st.fill = (a[1], tuple(a[2]))
        elif k == "lw": st.lw = a[1]
        elif k == "cap": st.cap = a[1]
        elif k == "join": st.join = a[1]
        elif k == "miter": st.miter = a[1]
        elif k == "dash": st.dash = (tuple(x*(st.lw/LW0 if a[3] else 1) for x in a[1]), a[2])
        elif k == "linestyle":
            st.cap = a[1]; st.dash = (tuple(x*st.lw/LW0 for x in a[2]), a[3])
        elif k == "rule": st.rule = ["nonzero", "evenodd"][a[1]]
        elif k == "alpha":
            if stroke: st.salpha = a[1]
            if fill: st.falpha = a[1]
    return st


class Draw:
    def __init__(self, method, prog, attrs):
        self.method, self.prog = method, prog
        self.attrs = resolve(([("plainstroked",)] if method == "stroke" else [("plainfilled",)] if method == "fill" else []) + attrs)
    def events(self, st, out):
        m = geo.IDENT
        for a in self.attrs:
            if a[0] == "trafo": m = geo.mul(m, a[1])
        st = style_attrs(st, [a for a in self.attrs if kind(a) not in ("stroked", "filled", "arrow", "trafo")])
        full = geo.mul(m, st.ctm)
        ref = gen.reference(self.prog)
        subs = [s.tr(full) for s in ref]
        sc = gen.extent(ref)
        scale = max(norm(full)*sc, gen.extent(subs))
        arrows = [a for a in self.attrs if kind(a) == "arrow"]
        for a in self.attrs:
            if kind(a) == "filled":
                s2 = style_attrs(st, resolve(a[1]) if a[0] == "filled" else [], stroke=False)
                out.append(Want("fill", s2, subs, scale))
        for a in self.attrs:
            if kind(a) == "stroked":
                s2 = style_attrs(st, resolve(a[1]) if a[0] == "stroked" else [], fill=False)
                out.append(Want("stroke", s2, subs, scale, geom=not arrows))
        for a in arrows:
            # the head is drawn like any path, with solid line style and filled, on top, under the styles of the path
            at = resolve([("linestyle", 0, (), 0, None), ("plainfilled",)] + a[2])
            s2 = style_attrs(st, [x for x in at if kind(x) not in ("stroked", "filled")])
            for x in at:
                if kind(x) == "filled":
                    out.append(Want("fill", style_attrs(s2, resolve(x[1]) if x[0] == "filled" else [], stroke=False), subs, scale, geom=False))
            for x in at:
                if kind(x) == "stroked":
                    out.append(Want("stroke", style_attrs(s2, resolve(x[1]) if x[0] == "stroked" else [], fill=False), subs, scale, geom=False))


def norm(m):
    return math.sqrt(m[0]**2+m[1]**2+m[2]**2+m[3]**2)


class Canvas:
    "records the drawing calls and makes them on a pyx canvas"
    def __init__(self, attrs=(), real=True):
        self.attrs = list(attrs)
        self.items = []
        self.layers = {}
        self.real = pcanvas.canvas([mk(a) for a in attrs]) if real and attrs else pcanvas.canvas() if real else None
    def draw(self, method, prog, attrs, p=None):
        p = p or path.path(*gen.pyxitems(prog, path))
        at = [mk(a) for a in attrs]
        if method == "draw": self.real.draw(p, at)
        else: getattr(self.real, method)(p, at)
        self.items.append(Draw(method, prog, list(attrs)))
    def insert(self, other, attrs=()):
        if attrs:
            w = Canvas(attrs, real=False)
            w.items.append(other)
            w.real = self.real.insert(other.real, [mk(a) for a in attrs])
            self.items.append(w)
        else:
            self.real.insert(other.real)
            self.items.append(other)
    def layer(self, name, above=None, below=None):
        kw = {}
        if above: kw["above"] = above
        if below: kw["below"] = below
        r = self.real.layer(name, **kw)
        node = self
        parts = name.split(".")
        for q in parts[:-1]:
            if q not in node.layers:
                n = Canvas(real=False); n.real = None
                node.layers[q] = n; node.items.append(n)
            node = node.layers[q]
        last = parts[-1]
        ab = above.split(".")[-1] if above else None
        be = below.split(".")[-1] if below else None
        if last in node.layers:
            n = node.layers[last]
            if ab or be: node.items = [x for x in node.items if x is not n]
        else:
            n = Canvas(real=False); node.layers[last] = n
            if not ab and not be: node.items.append(n)
        n.real = r
        def pos(k): return next(j for j, x in enumerate(node.items) if x is node.layers[k])
        if ab: node.items.insert(pos(ab)+1, n)
        elif be: node.items.insert(pos(be), n)
        return n
    def clear(self):
        self.real.clear()
        self.items = []; self.layers = {}
    def events(self, st=None, out=None):
        st = State() if st is None else st
        out = [] if out is None else out
        at = resolve(self.attrs)
        st = style_attrs(st, [a for a in at if a[0] not in ("trafo", "clip")])
        m = geo.IDENT       # applied left to right: a point of the canvas goes through the first entry first
        for a in at:
            if a[0] == "trafo": m = geo.mul(m, a[1])
        outer = st.ctm
        st.ctm = geo.mul(m, outer)
        for j, a in enumerate(at):
            if a[0] == "clip":
                r = geo.IDENT
                for b in at[j+1:]:
                    if b[0] == "trafo": r = geo.mul(r, b[1])
                c = geo.mul(r, outer)
                ref = gen.reference(a[1])
                st.clips = st.clips + ((tuple(s.tr(c) for s in ref), "nonzero", norm(c)*gen.extent(ref)),)
        for it in self.items: it.events(st, out)
        return out


# ---- random content
def rcolor(rng, hsb=True):
    sp = rng.choice(["gray", "rgb", "rgb", "cmyk", "hsb"] if hsb else ["gray", "rgb", "cmyk"])
    n = {"gray": 1, "rgb": 3, "cmyk": 4, "hsb": 3}[sp]
    return ("color", sp, tuple(rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]) for _ in range(n)))


NAMES = ["THIN", "THIn", "THin", "Thin", "thin", "normal", "thick", "Thick", "THick", "THIck", "THICk", "THICK"]


def rlw(rng):
    if rng.random() < 0.5:
        k = rng.randrange(12)
        return ("lw", LW0*math.sqrt(2.0)**(k-5), getattr(style.linewidth, NAMES[k]))
    return ("lw", round(rng.uniform(0.05, 8), 3), None)


def rstyle(rng, kinds=("color", "color", "lw", "lw", "cap", "join", "miter", "dash", "linestyle", "rule", "alpha")):
    k = rng.choice(kinds)
    if k == "color": return rcolor(rng)
    if k == "lw": return rlw(rng)
    if k in ("cap", "join"): return (k, rng.randint(0, 2))
    if k == "miter": return (k, rng.choice([1.0, 10.0, 2.0, round(rng.uniform(1, 20), 2)]))
    if k == "dash":
        return (k, tuple(round(rng.uniform(0.2, 5), 2) for _ in range(rng.randint(0, 4))), rng.choice([0, 0, round(rng.uniform(0, 6), 2)]), rng.choice([0, 1]))
    if k == "linestyle":
        n = rng.choice(["solid", "dashed", "dotted", "dashdotted", None])
        if n is None:
            return (k, rng.randint(0, 2), tuple(round(rng.uniform(0.2, 5), 2) for _ in range(rng.randint(0, 4))), rng.choice([0, 1.5]), None)
        d = {"solid": (0, ()), "dashed": (0, (2,)), "dotted": (1, (0, 2)), "dashdotted": (1, (0, 2, 2, 2))}[n]
        return (k, d[0], d[1], 0, getattr(style.linestyle, n))
    if k == "rule": return (k, rng.randint(0, 1))
    if k == "alpha": return (k, rng.choice([1.0, 0.0, 0.5, round(rng.random(), 3)]))


def rtrafo(rng):
    r = rng.random()
    if r < 0.2: m = (1, 0, 0, 1, gen.num(rng), gen.num(rng))
    elif r < 0.4:
        a = math.radians(gen.angle(rng)); m = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0)
    elif r < 0.5: m = (rng.choice([1, -1]), 0, 0, rng.choice([1, -1]), gen.num(rng), 0)
    elif r < 0.6: m = (rng.uniform(0.3, 2), 0, 0, rng.uniform(0.3, 2), 0, 0)
    else:
        while True:
            m = tuple(rng.uniform(-1.5, 1.5) for _ in range(4)) + (gen.num(rng), gen.num(rng))
            if abs(m[0]*m[3]-m[1]*m[2]) > 0.1: break
    return ("trafo", tuple(float(x) for x in m))


def rprog(rng, simple=False):
    if simple:
        return gen.program(rng, rng.randint(2, 4), ["lineto", "curveto"])
    while True:
        p = gen.program(rng, rng.randint(2, 6))
        r = gen.reference(p)
        if sum(len(s.segs) for s in r) and all(s.segs == [] or s.length() > 1e-2 for s in r): return p


def rclearable(rng, attrs, kinds):
    if attrs and rng.random() < 0.08:
        attrs.insert(rng.randint(0, len(attrs)), ("clear", rng.choice(kinds)))
    return attrs


STY = ["color", "lw", "cap", "join", "miter", "dash", "linestyle", "rule"]


def rdraw(rng, c, arrows=True):
    method = rng.choice(["stroke", "stroke", "fill", "draw"])
    attrs = [rstyle(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    if rng.random() < 0.25: attrs.append(rtrafo(rng))
    if rng.random() < 0.05: attrs.append(rtrafo(rng))
    if method != "fill" and rng.random() < 0.35 or method == "draw":
        attrs.append(("filled", [rstyle(rng, ("color", "color", "alpha", "rule")) for _ in range(rng.choice([0, 1, 1, 2]))]))
    if method == "fill" and rng.random() < 0.3 or method == "draw" and rng.random() < 0.8:
        attrs.append(("stroked", [rstyle(rng, ("color", "lw", "lw", "cap", "join", "miter", "dash", "linestyle", "alpha")) for _ in range(rng.choice([0, 1, 2]))]))
    simple = False
    if arrows and rng.random() < 0.2:
        simple = True
        for w in rng.choice(["e", "b", "eb"]):
            h = [rstyle(rng, ("color", "lw", "linestyle", "join", "alpha")) for _ in range(rng.choice([0, 0, 1]))]
            if rng.random() < 0.4:
                h.append(rng.choice([("filled", [rcolor(rng)]), ("stroked", [rcolor(rng), rlw(rng)]), ("stroked", [])]))
            attrs.append(("arrow", w, h, round(rng.uniform(0.5, 3), 2)))
    rng.shuffle(attrs)
    attrs = rclearable(rng, attrs, STY + ["filled", "stroked", "arrow"])
    prog = rprog(rng, simple)
    if simple and any(kind(a) == "arrow" for a in resolve(attrs)):
        r = gen.reference(prog)
        if len(r) != 1 or r[0].length() < 40:
            prog = [("moveto", (0.0, 0.0)), ("lineto", (gen.num(rng), 50.0)), ("curveto", (80.0, 60.0, 90.0, gen.num(rng), 120.0, 3.0))]
    c.draw(method, prog, attrs)


def rattrs(rng, clip=0.3, n=None):
    attrs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
        r = rng.random()
        attrs.append(rtrafo(rng) if r < 0.4 else rstyle(rng))
    if rng.random() < clip: attrs.append(("clip", rprog(rng)))
    rng.shuffle(attrs)
    return rclearable(rng, attrs, STY)


def fillcanvas(rng, c, depth, count):
    pool = []
    lnames = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if count[0] <= 0: break
        if r < 0.55 or depth <= 0:
            rdraw(rng, c); count[0] -= 1
        elif r < 0.8:
            if pool and rng.random() < 0.25: s = rng.choice(pool)
            else:
                s = Canvas(rattrs(rng)); fillcanvas(rng, s, depth-1, count); pool.append(s)
            c.insert(s, rattrs(rng, n=rng.choice([1, 2])) if rng.random() < 0.4 else ())
        elif r < 0.97:
            for _ in range(rng.randint(1, 4)):
                if lnames and rng.random() < 0.3: nm = rng.choice(lnames)
                else: nm = rng.choice(["a", "b", "c", "g.x", "g.y", "g.z", "h.u.v"])
                grp = nm.rpartition(".")[0]
                sib = [x for x in lnames if x.rpartition(".")[0] == grp and x != nm]
                ab = rng.choice(sib) if sib and rng.random() < 0.5 else None
                if ab and rng.random() < 0.5: l = c.layer(nm, below=ab)
                else: l = c.layer(nm, above=ab)
                if nm not in lnames: lnames.append(nm)
                rdraw(rng, l); count[0] -= 1
        elif rng.random() < 0.3:
            c.clear(); lnames = []
    return c


# ---- comparison
def rgbof(col):
    sp, c = col
    if sp == "gray": return (c[0],)*3
    if sp == "rgb": return tuple(c)
    if sp == "hsb": return colorsys.hsv_to_rgb(*c)
    if sp == "cmyk": return tuple(1-min(1, x+c[3]) for x in c[:3])
    raise KeyError(sp)


def pen(lw, m):
    a, b, c, d = m[:4]
    return (lw*lw*(a*a+c*c), lw*lw*(a*b+c*d), lw*lw*(b*b+d*d))


def dedrop(subs, tol):
    return [s for s in subs if s.segs and s.length() > tol]


def compare(mon, fmt, got, want, ref=None):
    """the events read from a file against the expected ones; ref: events of another
    format, for the geometry of ornaments"""
    got = [e for e in got]
    mon.check(len(got) == len(want), "count-" + fmt,
              lambda: "%d paint events instead of %d\n got %s\n want %s" % (len(got), len(want), "\n  ".join(map(repr, got)), "\n  ".join(map(repr, want))))
    for j, (g, w) in enumerate(zip(got, want)):
        def where(): return "%s event %d\n got  %r\n want %r" % (fmt, j, g, w)
        mon.check(g.op == w.op, "order-" + fmt, where)
        # colour
        if fmt == "svg":
            ca, cb = rgbof(g.color), rgbof(w.color)
            mon.check(all(abs(x-y) <= 1.01/255 for x, y in zip(ca, cb)), "color-" + fmt, where)
        else:
            want_c = w.color
            if fmt == "pdf" and want_c[0] == "hsb": want_c = ("rgb", rgbof(want_c))
            mon.check(g.color[0] == want_c[0] and all(abs(x-y) < 2e-6 for x, y in zip(g.color[1], want_c[1])), "color-" + fmt, where)
        mon.check(abs(g.alpha-w.alpha) < 2e-6, "alpha-" + fmt, where)
        if w.op == "fill":
            mon.check(g.rule == w.rule, "fillrule-" + fmt, where)
        else:
            pa, pb = pen(g.lw, g.ctm), pen(w.lw, w.ctm)
            t = 1e-4*max(pb[0], pb[2]) + 1e-5
            mon.check(all(abs(x-y) <= t for x, y in zip(pa, pb)), "linewidth-" + fmt, where)
            mon.check(g.cap == w.cap, "linecap-" + fmt, where)
            mon.check(g.join == w.join, "linejoin-" + fmt, where)
            mon.check(abs(g.miter-w.miter) < 1e-5, "miterlimit-" + fmt, where)
            da, db = g.dash, w.dash
            mon.check(len(da[0]) == len(db[0]) and all(abs(x/g.lw-y/w.lw) < 1e-4*max(1, y/w.lw) for x, y in zip(da[0], db[0]))
                      and (not db[0] or abs(da[1]/g.lw-db[1]/w.lw) < 1e-4*max(1, db[1]/w.lw)), "dash-" + fmt, where)
        # clips
        mon.check(len(g.clips) == len(w.clips), "clip-" + fmt, where)
        for k, (ga, wa) in enumerate(zip(g.clips, w.clips)):
            mon.check(ga[1] == wa[1], "cliprule-" + fmt, where)
            tol = 5e-5*wa[2] + 3e-4
            want_s = dedrop(wa[0], 1e-3)
            r = geo.subs_match(dedrop(ga[0], 1e-3), want_s, tol, "clip %d" % k, gen.svgshape(want_s, tol) if fmt == "svg" else None)
            mon.check(r is None, "clip-" + fmt, lambda: "%s\n%s" % (r, where()))
        if w.geom:
            tol = 5e-5*w.scale + 3e-4
            want_s = dedrop(w.subs, 1e-3)
            r = geo.subs_match(dedrop(g.subs, 1e-3), want_s, tol, "path", gen.svgshape(want_s, tol) if fmt == "svg" else None)
            mon.check(r is None, "path-" + fmt, lambda: "%s\n%s" % (r, where()))
        elif ref is not None:
            tol = 1e-4*w.scale + 3e-4
            want_s = dedrop(ref[j].subs, 1e-3)
            r = geo.subs_match(dedrop(g.subs, 1e-3), want_s, tol, "ornament", gen.svgshape(want_s, tol) if fmt == "svg" else None)
            mon.check(r is None, "ornament-" + fmt, lambda: "%s\n%s" % (r, where()))
