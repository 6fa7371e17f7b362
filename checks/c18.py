"""C18: colour conversions, written colours and gradients against an independent colour model (and Ghostscript)."""
import math, re, subprocess
import pub
from harness import Skip
from pyx import canvas, color, deco, path, style

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("random colours of all models (corners, 8 bit values, decimals, values next to 0 and 1), chains of conversions, hexadecimal notations, stroke and fill "
        "colours written to PS/PDF/SVG, random and predefined gradients at random and special positions, selections of 1..60 members; the monitor compares "
        "with conversion formulas of the PostScript reference, Ghostscript's own conversions, the dvips colour names of TeX Live; distinct by kind and rounded values")
QUICK, THOROUGH = 6000, 300000
REQUIRED = {"bytes:cmyk": 122, "bytes:gray": 122, "bytes:rgb": 111, "convert:cmyk-cmyk": 73, "convert:cmyk-gray": 69, "convert:cmyk-hsb": 74, "convert:cmyk-rgb": 75, "convert:gray-cmyk": 71, "convert:gray-gray": 67, "convert:gray-hsb": 78, "convert:gray-rgb": 68, "convert:hsb-cmyk": 78, "convert:hsb-gray": 75, "convert:hsb-hsb": 77, "convert:hsb-rgb": 77, "convert:rgb-cmyk": 70, "convert:rgb-gray": 74, "convert:rgb-hsb": 75, "convert:rgb-rgb": 76, "devices": 180, "distinct": 165, "dvips": 17, "gradient written": 40, "gradient:cmyk": 45, "gradient:function": 72, "gradient:linear": 86, "gradient:position": 3026, "gradient:predefined": 126, "gradient:rgb": 47, "gs": 125, "hex:3": 274, "hex:6": 1153, "hex:exact": 3194, "hex:refused": 713, "named": 3, "palette": 72, "predefined:position": 20010, "ranges:accepted": 21, "ranges:refused": 53, "roundtrip": 1047, "select:1": 46, "select:2": 43, "select:many": 288, "written in eps": 1242, "written in pdf": 1242, "written in svg": 1242, "written:both": 141, "written:canvas": 130, "written:fill": 153, "written:one": 134, "written:opaque": 144, "written:stroke": 134}
DIRECTED = ["gs", "gs2", "dvips", "named", "namedgradients", "ranges", "devices"]
EPS = 1e-9


def comp(rng):
    k = rng.random()
    if k < .15: return float(rng.choice([0, 1]))
    if k < .25: return rng.choice([0, 1])
    if k < .45: return rng.randrange(256)/255
    if k < .6: return rng.randrange(11)/10
    if k < .65: return rng.choice([1e-9, 1 - 1e-9, 1e-17, 1 - 2**-53, 1/3, 2/3])
    return rng.random()


MODELS = {"gray": 1, "rgb": 3, "hsb": 3, "cmyk": 4}
NAMES = {"gray": "g", "rgb": "rgb", "hsb": "hsb", "cmyk": "cmyk"}


def vals(c):
    "(model, components) of a colour by its public attributes"
    for m, names in NAMES.items():
        if isinstance(c, getattr(color, m)): return m, tuple(getattr(c, n) for n in names)
    raise AssertionError("no colour: %r" % (c,))


def hsv(h, s, v):
    i = math.floor(6*h); f = 6*h - i; i %= 6
    p, q, t = v*(1 - s), v*(1 - s*f), v*(1 - s*(1 - f))
    return [(v, t, p), (q, v, p), (p, v, t), (p, q, v), (t, p, v), (v, p, q)][i]


def rgbof(m, v):
    if m == "gray": return (v[0],)*3
    if m == "rgb": return tuple(v)
    if m == "hsb": return hsv(*v)
    return tuple(1 - min(1, x + v[3]) for x in v[:3])


def grayof(m, v):
    if m == "gray": return v[0]
    if m == "cmyk": return 1 - min(1, .3*v[0] + .59*v[1] + .11*v[2] + v[3])
    r, g, b = rgbof(m, v)
    return .3*r + .59*g + .11*b


class Dev:
    "under colour removal and black generation"
    def __init__(self, c=lambda x: x, m=lambda x: x, y=lambda x: x, bg=lambda x: x): self.c, self.m, self.y, self.bg = c, m, y, bg


PLAIN = Dev()


def cmykof(m, v, dev=PLAIN):
    if m == "cmyk": return tuple(v)
    if m == "gray": return (0, 0, 0, 1 - v[0])
    c, mm, y = (1 - x for x in rgbof(m, v)); k = min(c, mm, y)
    cl = lambda x: min(1, max(0, x))
    return cl(c - dev.c(k)), cl(mm - dev.m(k)), cl(y - dev.y(k)), dev.bg(k)


def want(m, v, target, dev=PLAIN):
    "the components in the target model; for hsb the rgb components they must stand for"
    if target == "gray": return (grayof(m, v),)
    if target == "rgb": return rgbof(m, v)
    if target == "cmyk": return cmykof(m, v, dev)
    return rgbof(m, v)


def same(mon, c, model, w, mech, what, tol=EPS):
    m, v = vals(c)
    mon.check(m == model, mech, lambda: "%s: model %s instead of %s" % (what, m, model))
    mon.check(all(0 <= x <= 1 for x in v), mech + ":range", lambda: "%s: components %r" % (what, v))
    got = hsv(*v) if model == "hsb" else v
    mon.check(len(got) == len(w) and all(abs(a - b) <= tol for a, b in zip(got, w)), mech,
              lambda: "%s: got %r, expected %r" % (what, got, w))


def convert(c, target, rng):
    if target == "gray" and rng.random() < .5: return c.grey()
    return getattr(c, target)()


def rcolor(rng, m=None):
    m = m or rng.choice(list(MODELS))
    v = tuple(comp(rng) for i in range(MODELS[m]))
    return m, v, (getattr(color, m if m != "gray" or rng.random() < .7 else "grey"))(*v)


# ---------------------------------------------------------------- conversions
def conversions(rng, mon):
    m, v, c = rcolor(rng)
    mon.describe("%s%r" % (m, v))
    chain = []
    cur, cm, cv = c, m, v
    for i in range(rng.choice([1, 1, 2, 3, 6])):
        t = rng.choice(list(MODELS))
        w = want(cm, cv, t)
        cur2 = convert(cur, t, rng)
        same(mon, cur2, t, w, "convert:%s-%s" % (cm, t), "%r as %s" % ((cm, cv), t))
        mon.check(vals(cur) == (cm, tuple(cv)), "convert:side-effect", lambda: "the colour changed by its conversion: %r" % (vals(cur),))
        mon.check(cur2 is not None and isinstance(cur2, color.color), "convert:type", lambda: "no colour")
        mon.count("convert:%s-%s" % (cm, t))
        # round trips, where the target can represent the colour
        r0 = rgbof(cm, cv)
        if t != "gray" or cm == "gray" or max(r0) - min(r0) < 1e-12:
            b = convert(cur2, cm, rng)
            if cm == "cmyk":
                same(mon, b.rgb(), "rgb", r0, "roundtrip:%s-%s" % (cm, t), "%r by %s and back as rgb" % ((cm, cv), t))
            elif cm == "hsb":
                same(mon, b, "hsb", r0, "roundtrip:%s-%s" % (cm, t), "%r by %s and back" % ((cm, cv), t))
                if t != "gray" and min(cv[1:]) > 1e-3:
                    h = vals(b)[1][0]; d = abs(h - cv[0]); d = min(d, 1 - d)
                    mon.check(d < 1e-6/min(cv[1:]), "roundtrip:hue", lambda: "hue %r came back as %r by %s" % (cv[0], h, t))
            else:
                same(mon, b, cm, cv, "roundtrip:%s-%s" % (cm, t), "%r by %s and back" % ((cm, cv), t))
            mon.count("roundtrip")
        cur = cur2; cm, cv = vals(cur)
        mon.nontrivial((m, cm, tuple(round(x, 2) for x in cv)))


def hexes(rng, mon):
    m, v, c = rcolor(rng)
    if rng.random() < .4:
        k = [rng.randrange(256) for i in range(3)]
        if rng.random() < .5: k = [17*(x//16) for x in k]
        m, v = "rgb", tuple(x/255 for x in k); c = color.rgb(*v)
    mon.describe("%s%r" % (m, v))
    r = c.rgb()
    w = [x*255 for x in rgbof(m, v)]
    for strip in (0, 1):
        for hash in (0, 1):
            kw = {}
            if not strip or rng.random() < .5: kw["cssstrip"] = strip
            if not hash or rng.random() < .5: kw["addhash"] = hash
            h = r.tohexstring(**kw)
            mon.check(re.fullmatch(("#" if hash else "") + ("(?:[0-9a-f]{3}){1,2}" if strip else "[0-9a-f]{6}"), h) is not None, "hex:form",
                      lambda: "%r of %r with %r" % (h, v, kw))
            d = h.lstrip("#")
            if strip and len(d) == 6: mon.check(not (d[0] == d[1] and d[2] == d[3] and d[4] == d[5]), "hex:strip", lambda: "%r not stripped" % h)
            if len(d) == 3: d = "".join(x*2 for x in d); mon.count("hex:3")
            else: mon.count("hex:6")
            got = [int(d[2*i:2*i + 2], 16) for i in range(3)]
            mon.check(all(abs(a - b) < 1 for a, b in zip(got, w)), "hex:value", lambda: "%s%r is %r" % (m, v, h))
            for a, b in zip(got, w):
                if abs(b - round(b)) < 1e-6:
                    mon.check(a == round(b), "hex:exact", lambda: "%s%r is %r, although %r can be represented" % (m, v, h, b)); mon.count("hex:exact")
            s = rng.choice([h, h.upper(), " %s\n" % h, h.lstrip("#"), "#" + h.lstrip("#").upper()])
            back = color.rgbfromhexstring(s)
            same(mon, back, "rgb", [x/255 for x in got], "hex:parse", "parsing %r" % s)
            mon.check(back.tohexstring(**kw) == h, "hex:roundtrip", lambda: "%r is %r after parsing" % (h, back.tohexstring(**kw)))
    for bad in rng.sample(["", "#", "f", "ff", "ffff", "fffff", "#fffffff", "ggg", "#12345x", "0x1234", "-12345", "red"], 2):
        try: x = color.rgbfromhexstring(bad)
        except ValueError: mon.count("hex:refused")
        else: mon.fail("hex:invalid", "%r was accepted as %r" % (bad, vals(x)))
    # raw bytes, as in images and meshes
    t = rng.choice(["gray", "rgb", "cmyk"])
    b = convert(c, t, rng).to8bitbytes()
    w = want(m, v, t)
    mon.check(len(b) == len(w) and all(abs(a - 255*x) < 1 and (abs(255*x - round(255*x)) > 1e-6 or a == round(255*x)) for a, x in zip(b, w)), "bytes",
              lambda: "%r as %s is %r, expected %r" % ((m, v), t, list(b), [255*x for x in w]))
    mon.count("bytes:" + t)
    mon.check(convert(c, t, rng).colorspacestring() == {"gray": "/DeviceGray", "rgb": "/DeviceRGB", "cmyk": "/DeviceCMYK"}[t], "space", lambda: t)
    mon.nontrivial(("hex", tuple(b)))


def devices(rng, mon):
    "conversion to cmyk with under colour removal and black generation set by the user"
    p = lambda: rng.choice([.3, .5, .8, 1, 1.3])
    fs = []
    for i in range(3):
        a, e = p(), rng.choice([1, 2, .5])
        fs.append(rng.choice([lambda x, a=a, e=e: min(1, a*x**e), lambda x: 0, lambda x, a=a: a*x - (a - 1 if a > 1 else 0), lambda x: -x/2]))
    e = rng.choice([1, 2, 3]); bg = rng.choice([lambda x: x**e, lambda x: max(0, 2*x - 1), lambda x: 0])
    dev = Dev(*fs, bg)
    ident = lambda x: x
    try:
        if rng.random() < .5: color.set(*fs, bg)
        else:
            color.set(UCRc=fs[0]); color.set(BG=bg); color.set(UCRy=fs[2], UCRm=fs[1])
        for i in range(12):
            m, v, c = rcolor(rng)
            mon.describe("%s%r" % (m, v))
            same(mon, c.cmyk(), "cmyk", cmykof(m, v, dev), "devices", "%r as cmyk" % ((m, v),))
            same(mon, c.rgb(), "rgb", rgbof(m, v), "devices:rgb", "%r as rgb" % ((m, v),))
            mon.count("devices"); mon.nontrivial(("dev", m, tuple(round(x, 1) for x in v)))
    finally:
        color.set(ident, ident, ident, ident)


# ---------------------------------------------------------------- written colours
def written(rng, mon):
    c = canvas.canvas()
    wants = []
    for i in range(rng.randint(1, 6)):
        m, v, col = rcolor(rng)
        m2, v2, col2 = rcolor(rng)
        kind = rng.choice(["stroke", "fill", "both", "canvas", "opaque", "one"])
        p = path.line(0, i, 1, i) if kind == "stroke" else path.rect(0, i, 1, .5)
        if kind == "stroke": c.stroke(p, [col]); wants.append([("stroke", m, v, 1)])
        elif kind == "fill": c.fill(p, [col2, col]); wants.append([("fill", m, v, 1)])
        elif kind == "both":
            c.draw(p, [deco.filled([col]), deco.stroked([col2])]); wants.append([("fill", m, v, 1), ("stroke", m2, v2, 1)])
        elif kind == "one":
            # a colour given for one operation only
            if rng.random() < .5: c.draw(p, [deco.filled([col]), deco.stroked]); wants.append([("fill", m, v, 1), ("stroke", "gray", (0,), 1)])
            else: c.draw(p, [deco.filled, deco.stroked([col])]); wants.append([("fill", "gray", (0,), 1), ("stroke", m, v, 1)])
        elif kind == "canvas":
            s = canvas.canvas([col]); s.fill(p); s.stroke(p, [col2]); c.insert(s)
            wants.append([("fill", m, v, 1), ("stroke", m2, v2, 1)])
        else:
            t = rng.choice([0, 1, .5, rng.random()])
            at = [col, color.transparency(t)]; rng.shuffle(at)
            if rng.random() < .5: c.fill(p, at); wants.append([("fill", m, v, 1 - t)])
            else: c.stroke(p, at); wants.append([("stroke", m, v, 1 - t)])
        mon.count("written:" + kind)
        mon.nontrivial(("written", kind, m, tuple(round(x, 1) for x in v)))
    mon.describe(str(wants))
    flat = [w for ws in wants for w in ws]
    for fmt in ("eps", "pdf", "svg"):
        evs = [e for pg in pub.events(c, fmt) for e in pg if e.op in ("stroke", "fill")]
        mon.check(len(evs) == len(flat), "written:count", lambda: "%s: %d operations for %d" % (fmt, len(evs), len(flat)))
        for e, (op, m, v, alpha) in zip(evs, flat):
            mon.check(e.op == op, "written:operation", lambda: "%s: %s instead of %s" % (fmt, e.op, op))
            got = e.color.values if hasattr(e.color, "values") and not callable(e.color.values) else e.color[1]
            kind = e.color.kind if hasattr(e.color, "kind") else e.color[0]
            got = tuple(got)
            if fmt == "svg":
                tol = .5/255 + 1e-6; w = rgbof(m, v); g = rgbof(kind, got)
            elif fmt == "pdf" and m == "hsb": tol = 1.1e-6; w = rgbof(m, v); g = got; mon.check(kind == "rgb", "written:model", lambda: "pdf: %s for hsb" % kind)
            else:
                tol = 1.1e-6; w, g = v, got
                mon.check(kind == m, "written:model", lambda: "%s: %s for %s" % (fmt, kind, m))
            mon.check(len(w) == len(g) and all(abs(a - b) <= tol for a, b in zip(w, g)), "written:%s" % fmt, lambda: "%s of %r: written %r" % (op, (m, v), e.color))
            if fmt != "eps": mon.check(abs((1 if e.alpha is None else e.alpha) - alpha) < 2e-6, "written:alpha", lambda: "%s: opacity %r instead of %r" % (fmt, e.alpha, alpha))
            mon.count("written in " + fmt)


# ---------------------------------------------------------------- gradients
def pw(*stops):
    def f(x):
        for (a, va), (b, vb) in zip(stops, stops[1:]):
            if x <= b: return tuple(p + (q - p)*(x - a)/(b - a) for p, q in zip(va, vb))
        return stops[-1][1]
    return f


R, G, B, K, W = (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0), (1, 1, 1)
RGB = {"Red": R, "Green": G, "Blue": B, "Black": K, "White": W}
JET = pw((0, (0, 0, .5)), (.13, (0, 0, 1)), (.38, (0, 1, 1)), (.62, (1, 1, 0)), (.87, (1, 0, 0)), (1, (.5, 0, 0)))


def predefined():
    "name -> (namespace, model, function or None)"
    out = {}
    for n in ("Gray", "Grey"): out["gradient." + n] = ("gray", pw((0, (1,)), (1, (0,)))); out["gradient.Reverse" + n] = ("gray", pw((0, (0,)), (1, (1,))))
    for ab in ("Red Green", "Red Blue", "Green Red", "Green Blue", "Blue Red", "Blue Green", "Red Black", "Black Red", "Red White", "White Red", "Green Black",
               "Black Green", "Green White", "White Green", "Blue Black", "Black Blue", "Blue White", "White Blue"):
        a, b = ab.split(); out["gradient." + a + b] = ("rgb", pw((0, RGB[a]), (1, RGB[b])))
    hues = {"Rainbow": (0, 2/3), "ReverseRainbow": (2/3, 0), "Hue": (0, 1), "ReverseHue": (1, 0)}
    for n, (a, b) in hues.items():
        f = pw((0, (a, 1, 1)), (1, (b, 1, 1)))
        out["gradient." + n] = ("hsb", f)
        out["rgbgradient." + n] = ("rgb", lambda x, f=f: hsv(*f(x)))
        out["cmykgradient." + n] = ("cmyk", lambda x, f=f: cmykof("hsb", f(x)))
    out["gradient.Jet"] = ("rgb", JET); out["gradient.ReverseJet"] = ("rgb", lambda x: JET(1 - x))
    out["cmykgradient.Jet"] = ("cmyk", lambda x: cmykof("rgb", JET(x))); out["cmykgradient.ReverseJet"] = ("cmyk", lambda x: cmykof("rgb", JET(1 - x)))
    out["gradient.BlackYellow"] = ("rgb", None); out["gradient.YellowBlack"] = ("rgb", None)
    return out


PREDEF = None


def getpre(name):
    a, b = name.split("."); return getattr(getattr(color, a), b)


def rgradient(rng):
    "(description, gradient, model, function, is it injective)"
    global PREDEF
    PREDEF = PREDEF or predefined()
    k = rng.random()
    if k < .35:
        n = rng.choice(sorted(PREDEF)); m, f = PREDEF[n]
        return n, getpre(n), m, f, True
    m = rng.choice(list(MODELS))
    if k < .7:
        _, a, ca = rcolor(rng, m); _, b, cb = rcolor(rng, m)
        g = getattr(color, "lineargradient_" + m)(ca, cb)
        f = lambda x: tuple(p + (q - p)*x for p, q in zip(a, b))
        d = "linear %s %r %r" % (m, a, b); inj = max(abs(p - q) for p, q in zip(a, b)) > 1e-3
        if m == "hsb": inj = False
    else:
        fs = []
        for i in range(MODELS[m]):
            a, b, e = comp(rng), comp(rng), rng.choice([1, 2, 3, .5])
            fs.append(rng.choice([lambda x, a=a, b=b, e=e: a + (b - a)*x**e, lambda x, a=a: a*math.sin(math.pi*x/2)**2]))
        g = getattr(color, "functiongradient_" + m)(*fs)
        f = lambda x: tuple(q(x) for q in fs)
        d = "function %s" % m; inj = False
    if rng.random() < .35:
        t = rng.choice(["rgb", "cmyk"])
        g = getattr(color, t + "gradient")(g)
        f0, m0 = f, m
        f = lambda x: want(m0, f0(x), t); m = t; d = "%s of %s" % (t, d); inj = False
    return d, g, m, f, inj


def position(rng):
    k = rng.random()
    if k < .2: return rng.choice([0, 1, 0., 1.])
    if k < .35: return rng.choice([.13, .38, .62, .87, .5, 1/3, 2/3, 1e-9, 1 - 1e-9, 1 - 2**-53]) + rng.choice([0, 0, 1e-13, -1e-13])*(0)
    if k < .5: return rng.randrange(101)/100
    return rng.random()


def at(mon, g, m, f, x, d):
    c = g.getcolor(x)
    mm, v = vals(c)
    mon.check(mm == m, "gradient:model", lambda: "%s at %r is %s" % (d, x, mm))
    mon.check(all(0 <= y <= 1 for y in v), "gradient:range", lambda: "%s at %r is %r" % (d, x, v))
    if f is not None:
        w = f(x)
        mon.check(all(abs(a - b) < 1e-9 for a, b in zip(v, w)), "gradient:value", lambda: "%s at %r is %r instead of %r" % (d, x, v, w))
    return c


def gradients(rng, mon):
    d, g, m, f, inj = rgradient(rng)
    mon.describe(d)
    kind = d.split()[0] if " " in d else "predefined"
    mon.count("gradient:" + kind)
    for i in range(8): at(mon, g, m, f, position(rng), d); mon.count("gradient:position")
    # the selected members
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 16, rng.randint(1, 60)])
    order = list(range(n)); rng.shuffle(order)
    sel = {}
    for i in order: sel[i] = vals(g.select(i, n))
    for i in range(n):
        x = i/(n - 1) if n > 1 else 0
        w = vals(at(mon, g, m, f, x, d))
        mon.check(sel[i][0] == w[0] and all(abs(a - b) < 1e-12 + 1e-9 for a, b in zip(sel[i][1], w[1])), "gradient:select",
                  lambda: "%s, member %d of %d: %r instead of %r" % (d, i, n, sel[i], w))
    mon.count("select:%s" % (n if n < 3 else "many"))
    if inj and n > 1:
        mon.check(len(set(tuple(round(y, 9) for y in sel[i][1]) for i in sel)) == n or max(abs(p - q) for p, q in zip(f(0) if f else K, f(1) if f else W))/n < 1e-6
                  or d.split(".")[-1] in ("Hue", "ReverseHue") , "gradient:distinct", lambda: "%s: %d members: %r" % (d, n, sel))
        mon.count("distinct")
    mon.nontrivial((d[:30], n))
    # written as attributes
    if rng.random() < .1:
        c = canvas.canvas(); x = rng.random(); c.stroke(path.line(0, 0, 1, 0), [g.select(0, n)]); c.fill(path.rect(0, 0, 1, 1), [g.getcolor(x)])
        evs = [e for pg in pub.events(c, "pdf") for e in pg]
        mon.check(len(evs) == 2, "gradient:written", lambda: "%d operations" % len(evs))
        for e, y in zip(evs, (0, x)):
            cc = vals(g.getcolor(y)); w = rgbof(*cc) if cc[0] == "hsb" else cc[1]
            got = e.color[1] if isinstance(e.color, tuple) else e.color.values
            mon.check(len(got) == len(w) and all(abs(a - b) < 1.1e-6 for a, b in zip(got, w)), "gradient:written", lambda: "%r instead of %r" % (e.color, cc))
        mon.count("gradient written")


def palettes(rng, mon):
    n = rng.randint(1, 6); cs = [rcolor(rng)[2] for i in range(n)]
    kw = {} if rng.random() < .5 else {"cyclic": rng.choice([0, 1, True, False])}
    p = color.palette(list(cs), **kw)
    total = rng.randint(1, 12)
    mon.describe("palette of %d, %r, %d" % (n, kw, total))
    for i in rng.sample(range(total), total):
        s = p.select(i, total)
        w = cs[i % n] if kw.get("cyclic", 1) or i < n else None
        mon.check(s is w, "palette", lambda: "member %d of %d from %d colours: %r" % (i, total, n, s))
    mon.count("palette"); mon.nontrivial(("palette", n, total, str(kw)))


# ---------------------------------------------------------------- directed
def gs(mon, rng):
    "Ghostscript's own conversions"
    cs = [rcolor(rng) for i in range(250)]
    prog = []
    for m, v, c in cs:
        data = pub.write(_one(c), "eps").decode("latin1")
        ops = re.findall(r"^((?:[-\d.e+]+ )+set(?:gray|rgbcolor|hsbcolor|cmykcolor))$", data, re.M)
        mon.check(len(ops) == 1, "gs:operator", lambda: "%r in the file for %r" % (ops, v))
        prog.append("%s currentgray = currentrgbcolor = = = currenthsbcolor = = =" % ops[0])
    r = subprocess.run(["gs", "-q", "-dNODISPLAY", "-dBATCH", "-dNOPAUSE", "-dSAFER", "-"], input="\n".join(prog) + "\nquit\n", capture_output=True, text=True, timeout=100)
    n = [float(x) for x in r.stdout.split()]
    if r.returncode or len(n) != 7*len(cs): raise Skip
    for i, (m, v, c) in enumerate(cs):
        g, b, gg, rr, hb, hs, hh = n[7*i:7*i + 7]
        a = vals(c.gray())[1][0]; q = vals(c.rgb())[1]; h = vals(c.hsb())[1]
        tol = 2e-3
        mon.check(abs(a - g) < tol, "gs:gray", lambda: "%r: gray %r, Ghostscript %r" % ((m, v), a, g))
        mon.check(max(abs(x - y) for x, y in zip(q, (rr, gg, b))) < tol, "gs:rgb", lambda: "%r: rgb %r, Ghostscript %r" % ((m, v), q, (rr, gg, b)))
        mon.check(max(abs(x - y) for x, y in zip(hsv(*h), hsv(hh, hs, hb))) < 2*tol, "gs:hsb", lambda: "%r: hsb %r, Ghostscript %r" % ((m, v), h, (hh, hs, hb)))
        mon.count("gs"); mon.nontrivial(("gs", m, tuple(round(x, 2) for x in v)))


def _one(c):
    cv = canvas.canvas(); cv.fill(path.rect(0, 0, 1, 1), [c]); return cv


def dvips(mon):
    "the names of the cmyk colours are the ones of dvips"
    f = subprocess.run(["kpsewhich", "dvipsnam.def"], capture_output=True, text=True).stdout.strip()
    if not f: raise Skip
    n = 0
    for name, v in re.findall(r"^\\DefineNamedColor\{named\}\{(\w+)\}\s*\{cmyk\}\{([\d.,]+)\}", open(f).read(), re.M):
        c = getattr(color.cmyk, name, None)
        if c is None: mon.count("dvips:missing"); continue
        v = tuple(float(x) for x in v.split(","))
        mon.check(max(abs(a - b) for a, b in zip(vals(c)[1], v)) < 1e-9, "dvips:" + name, lambda: "cmyk.%s is %r, dvips has %r" % (name, vals(c), v)); n += 1
        mon.nontrivial(name)
    mon.count("dvips", n)


def named(mon):
    for n, (m, v) in {"gray.black": ("gray", (0,)), "gray.white": ("gray", (1,)), "grey.black": ("gray", (0,)), "rgb.red": ("rgb", R), "rgb.green": ("rgb", G),
                      "rgb.blue": ("rgb", B), "rgb.white": ("rgb", W), "rgb.black": ("rgb", K), "cmyk.white": ("cmyk", (0,)*4), "cmyk.black": ("cmyk", (0, 0, 0, 1)),
                      "cmyk.White": ("cmyk", (0,)*4), "cmyk.Black": ("cmyk", (0, 0, 0, 1)), "cmyk.Gray": ("cmyk", (0, 0, 0, .5)), "cmyk.Grey": ("cmyk", (0, 0, 0, .5))}.items():
        mon.check(vals(getpre(n)) == (m, v), "named", lambda: "%s is %r" % (n, vals(getpre(n))))
        mon.count("named")
    for c, m in ((color.gray(), ("gray", (0,))), (color.rgb(), ("rgb", K)), (color.hsb(), ("hsb", K)), (color.cmyk(), ("cmyk", (0,)*4))):
        mon.check(vals(c) == m, "named", lambda: "default %r" % (vals(c),))
    mon.check(color.gray.white.cmyk().rgb().tohexstring() == "#fff" and color.rgb.white.gray().rgb().tohexstring() == "#fff"
              and color.cmyk.white.gray().rgb().tohexstring() == "#fff" and color.rgb.white.hsb().rgb().tohexstring() == "#fff", "hex:white", lambda: "white does not stay white")
    mon.nontrivial("named")


def namedgradients(mon):
    "ends, continuity and values of all predefined gradients"
    have = set()
    for ns in ("gradient", "rgbgradient", "cmykgradient"):
        for n in vars(getattr(color, ns)):
            if n[0].isupper(): have.add("%s.%s" % (ns, n))
    pre = predefined()
    for n in sorted(pre): mon.check(n in have, "predefined:missing", lambda: n)
    for n in sorted(have):
        g = getpre(n)
        m, f = pre.get(n, (vals(g.getcolor(0))[0], None))
        last = None; N = 2000
        for i in range(N + 1):
            c = at(mon, g, m, f, i/N, n)
            r = rgbof(*vals(c))
            if last is not None: mon.check(max(abs(a - b) for a, b in zip(r, last)) < 12/N, "predefined:jump", lambda: "%s jumps from %r to %r at %r" % (n, last, r, i/N))
            last = r
            mon.count("predefined:position")
        for x in (.13, .38, .62, .87, 1/3, 2/3, .5):
            a, b = (rgbof(*vals(at(mon, g, m, f, y, n))) for y in (x - 1e-9, x + 1e-9))
            mon.check(max(abs(p - q) for p, q in zip(a, b)) < 1e-7, "predefined:jump", lambda: "%s jumps at %r from %r to %r" % (n, x, a, b))
        mon.nontrivial(n)
    by = color.gradient.BlackYellow; yb = color.gradient.YellowBlack
    mon.check(vals(by.getcolor(0))[1] == K and max(abs(a - b) for a, b in zip(vals(by.getcolor(1))[1], (1, 1, .5))) < 1e-9, "predefined:ends",
              lambda: "BlackYellow from %r to %r" % (vals(by.getcolor(0)), vals(by.getcolor(1))))
    lum = -1
    for i in range(401):
        a, b = vals(by.getcolor(i/400))[1], vals(yb.getcolor(1 - i/400))[1]
        mon.check(max(abs(p - q) for p, q in zip(a, b)) < 1e-9, "predefined:reverse", lambda: "BlackYellow %r, YellowBlack %r at %r" % (a, b, i/400))
        l = grayof("rgb", a)
        mon.check(l > lum, "predefined:order", lambda: "BlackYellow does not get lighter at %r" % (i/400)); lum = l
    for n in sorted(have):
        ns, nn = n.split(".")
        if "%s.Reverse%s" % (ns, nn) in have:
            g, h = getpre(n), getpre("%s.Reverse%s" % (ns, nn))
            for i in range(101):
                a, b = vals(g.getcolor(i/100)), vals(h.getcolor(1 - i/100))
                mon.check(a[0] == b[0] and max(abs(p - q) for p, q in zip(a[1], b[1])) < 1e-9, "predefined:reverse", lambda: "%s %r, reverse %r" % (n, a, b))
            mon.count("predefined:reverse")


def ranges(rng, mon):
    for i in range(300):
        m = rng.choice(list(MODELS)); n = MODELS[m]
        v = [comp(rng) for i in range(n)]
        bad = rng.sample(range(n), rng.randint(0, n))
        for b in bad: v[b] = rng.choice([-1e-9, -1, 1 + 1e-9, 2, 255, -.5, float("inf"), -float("inf")])
        try: c = getattr(color, m)(*v)
        except ValueError:
            mon.check(bad, "ranges:refused", lambda: "%s%r was refused" % (m, v)); mon.count("ranges:refused")
        else:
            mon.check(not bad, "ranges:accepted", lambda: "%s%r was accepted" % (m, v)); mon.count("ranges:accepted")
            mon.check(vals(c) == (m, tuple(v)), "ranges:value", lambda: "%s%r became %r" % (m, v, vals(c)))
        mon.nontrivial(("range", m, len(bad)))


def run_case(kind, i, rng, mon):
    if kind in ("gs", "gs2"): return gs(mon, rng)
    if kind == "dvips": return dvips(mon)
    if kind == "named": return named(mon)
    if kind == "namedgradients": return namedgradients(mon)
    if kind == "ranges": return ranges(rng, mon)
    if kind == "devices":
        for i in range(60): devices(rng, mon)
        return
    k = rng.random()
    if k < .3: return conversions(rng, mon)
    if k < .55: return hexes(rng, mon)
    if k < .7: return written(rng, mon)
    if k < .95: return gradients(rng, mon)
    palettes(rng, mon)
