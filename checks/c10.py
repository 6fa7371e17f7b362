"""C10: attribute lists resolve as documented.

Random lists of public attributes (all kinds, their clears, nested decorations) are
resolved by attr.mergeattrs and by drawing; monitored are survivors, order, what is
painted, that lists and objects stay unchanged, and that wrong kinds are rejected.
Text attributes are decided from the measured boxes of what TeX typeset."""
import math, re
import gen, geo, pub, scene
from pyx import attr, canvas, path, style, deco, color, trafo, deformer, pattern, text, unit

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("random lists of stroke, fill, decoration, deformer, transformation and text attributes with clears, nested decorations and repeated objects; resolved by attr.mergeattrs, "
        "drawn in all formats, given to TeX; compared with an independent model of survivors and order, with equivalent short lists and with measured text boxes; distinct by list")
QUICK, THOROUGH = 1500, 60000
CPU = 120
REQUIRED = {"accepted": 55, "clears": 25, "draw-eps": 70, "draw-pdf": 70, "draw-svg": 70, "nested-eps": 25, "nested-pdf": 40, "nested-svg": 12, "pairs": 350, "refine": 20, "reuse": 20, "text-painted": 45,
            "text-size": 80, "text-vshift": 15, "text-valign": 12, "text-parbox": 10, "text-halign": 15, "text-phantom": 8, "text-mathmode": 12, "unchanged": 500, "kind-clear-all": 8, "kind-clear-linestyle": 4,
            "rejected-stroke": 3, "rejected-canvas": 2, "rejected-text": 4, "rejected-filled": 4, "rejected-arrow": 4, "merge-8": 30}
DIRECTED = ["manual", "membersclear"]
ASSUMPTIONS = ["a boxhalign or flushhalign after a halign is not used (the documentation does not say what remains of the halign)"]

# kind -> (constructor(rng), exclusive, kinds it is sorted before)
LOCAL = ["boxhalign", "flushhalign", "halign", "mathmode", "phantom"]


def length(rng): return rng.uniform(0.2, 6)*unit.t_pt


def members(cls, skip=("clear",)):
    return [v for k, v in sorted(cls.__dict__.items()) if isinstance(v, attr.attr) and not isinstance(v, (attr.clearclass,)) and k not in skip]


def member(cls): return lambda rng: rng.choice(members(cls))


def rcolor(rng):
    f = lambda: round(rng.random(), 3)
    return rng.choice([lambda: color.rgb(f(), f(), f()), lambda: color.grey(f()), lambda: color.cmyk(f(), f(), f(), f()), lambda: color.hsb(f(), f(), f()), lambda: color.rgb.red, lambda: color.cmyk.Blue,
                       lambda: color.gradient.Rainbow.getcolor(f())])()


def rtrafo(rng): return rng.choice([lambda: trafo.rotate(rng.uniform(0, 360)), lambda: trafo.scale(rng.uniform(0.5, 2)), lambda: trafo.translate(rng.uniform(-3, 3), 1), lambda: trafo.trafo.identity if hasattr(trafo.trafo, "identity") else trafo.trafo()])()


K = {
 "linecap": (member(style.linecap), True, []), "linejoin": (member(style.linejoin), True, []),
 "miterlimit": (lambda rng: style.miterlimit(round(rng.uniform(1, 20), 2)) if rng.random() < 0.5 else style.miterlimit.lessthan60deg, True, []),
 "dash": (lambda rng: style.dash([round(rng.uniform(0.5, 4), 2) for _ in range(rng.randint(1, 4))], rng.choice([0, 1, 2.5]), rng.choice([0, 1])), True, []),
 "linestyle": (lambda rng: rng.choice(members(style.linestyle)) if rng.random() < 0.7 else style.linestyle(style.linecap.square, style.dash([1, 2])), True, []),
 "linewidth": (lambda rng: rng.choice(members(style.linewidth)) if rng.random() < 0.5 else style.linewidth(length(rng)), True, ["dash", "linestyle"]),
 "color": (rcolor, True, []), "transparency": (lambda rng: color.transparency(round(rng.random(), 2)), True, []),
 "fillrule": (member(style.fillrule), True, []),
 "stroked": (lambda rng: deco.stroked if rng.random() < 0.4 else deco.stroked([rcolor(rng)]), True, []),
 "filled": (lambda rng: deco.filled if rng.random() < 0.4 else deco.filled([rcolor(rng)]), True, []),
 "arrow": (lambda rng: rng.choice([deco.earrow, deco.barrow, deco.earrow.large, deco.barrow([rcolor(rng)]), deco.arrow(pos=0.5)]), False, []),
 "brace": (lambda rng: deco.brace(), False, []), "decotext": (lambda rng: deco.text("a"), False, []),
 "linehatched": (lambda rng: rng.choice([deco.linehatched(0.1, 45), deco.linehatched(0.3, 20, cross=1)]), True, []),
 "smoothed": (lambda rng: deformer.smoothed(rng.uniform(0.1, 1)), False, []), "cycloid": (lambda rng: deformer.cycloid(0.2), False, []), "parallel": (lambda rng: deformer.parallel(rng.uniform(-1, 1)), False, []),
 "trafo": (rtrafo, False, []), "clip": (lambda rng: canvas.clip(path.circle(0, 0, 1)), False, []),
 "pattern": (lambda rng: rng.choice([pattern.hatched0, pattern.crosshatched45.small]), True, []),
 "size": (member(text.size), False, ["vshift", "mathmode"]),
 "vshift": (lambda rng: rng.choice([text.vshift.bottomzero, text.vshift.middlezero, text.vshift.topzero, text.vshift.mathaxis, text.vshift(0.3, "x")]), False, ["valign", "parbox"] + LOCAL),
 "valign": (lambda rng: rng.choice([text.valign.top, text.valign.middle, text.valign.bottom, text.valign(0.3)]), True, ["parbox"] + LOCAL),
 "parbox": (lambda rng: text.parbox(rng.uniform(2, 4), baseline=rng.choice([text.parbox.top, text.parbox.middle, text.parbox.bottom])), True, LOCAL),
 "halign": (lambda rng: rng.choice([text.halign.left, text.halign.center, text.halign.right]), True, []),
 "boxhalign": (lambda rng: rng.choice([text.halign.boxleft, text.halign.boxcenter, text.halign.boxright]), True, []),
 "flushhalign": (lambda rng: rng.choice([text.halign.flushleft, text.halign.flushcenter, text.halign.flushright]), True, []),
 "mathmode": (lambda rng: text.mathmode, True, []), "phantom": (lambda rng: text.phantom, False, []),
}
STROKE = ["linecap", "linejoin", "miterlimit", "dash", "linestyle", "linewidth", "color", "transparency"]
FILL = ["color", "transparency", "fillrule"]
DECO = ["stroked", "filled", "arrow"]
TEXT = ["size", "vshift", "valign", "parbox", "halign", "boxhalign", "flushhalign", "mathmode", "phantom"]
CLEAR = {"linecap": style.linecap.clear, "linejoin": style.linejoin.clear, "miterlimit": style.miterlimit.clear, "dash": style.dash.clear, "linestyle": style.linestyle.clear, "linewidth": style.linewidth.clear,
         "color": color.color.clear, "transparency": color.transparency.clear, "fillrule": style.fillrule.clear, "stroked": deco.stroked.clear, "filled": deco.filled.clear, "arrow": deco.arrow.clear,
         "brace": deco.brace.clear, "linehatched": deco.linehatched.clear, "smoothed": deformer.smoothed.clear, "cycloid": deformer.cycloid.clear, "parallel": deformer.parallel.clear, "pattern": pattern.pattern.clear,
         "size": text.size.clear, "vshift": text.vshift.clear, "valign": text.valign.clear, "parbox": text.parbox.clear, "halign": text.halign.clear, "mathmode": text.clearmathmode, "phantom": text.clearphantom}
GROUPS = {"style": (style.style.clear, STROKE + FILL + ["pattern"]), "strokestyle": (style.strokestyle.clear, STROKE), "fillstyle": (style.fillstyle.clear, FILL + ["pattern"]), "all": (attr.clear, None)}


class A:
    "an attribute together with its kind; clears have a set of kinds"
    def __init__(self, kind, obj, clears=None): self.kind, self.obj, self.clears = kind, obj, clears
    def __repr__(self): return ("clear-" if self.clears is not None else "") + self.kind


def rlist(rng, kinds, n=None, clears=0.2, groups=0.04, oneclip=True):
    out = []
    for _ in range(rng.randint(0, 7) if n is None else n):
        r = rng.random()
        if r < groups:
            g = rng.choice([x for x in ("style", "strokestyle", "fillstyle", "all") if x == "all" or set(GROUPS[x][1]) & set(kinds)])
            o, ks = GROUPS[g]
            out.append(A(g, o, set(K) if ks is None else set(ks)))
        elif r < groups + clears:
            k = rng.choice([k for k in kinds if k in CLEAR] or ["color"])
            out.append(A(k, CLEAR[k], {k}))
        elif out and rng.random() < 0.1: out.append(rng.choice(out))          # the very same object again
        else:
            k = rng.choice(kinds)
            if k in ("boxhalign", "flushhalign") and any(x.kind == "halign" for x in out): k = "halign"
            out.append(A(k, K[k][0](rng)))
    # the order of halign and boxhalign may not be changed by a repetition either
    seen = False
    res = []
    for a in out:
        if a.kind == "halign" and a.clears is None: seen = True
        if seen and a.kind in ("boxhalign", "flushhalign"): continue
        if oneclip and a.kind == "clip" and any(b.kind == "clip" for b in res): continue
        res.append(a)
    return res


def survivors(l):
    out = []
    for n, a in enumerate(l):
        if a.clears is not None: continue
        gone = False
        for b in l[n+1:]:
            if b.clears is not None: gone = gone or a.kind in b.clears
            elif b.kind == a.kind and K[a.kind][1]: gone = True
            elif b.kind == "linehatched" and a.kind == "filled": gone = True
        if not gone: out.append(a)
    return out


def canonical(l):
    "survivors in one allowed order"
    s = survivors(l)
    out = list(s)
    for _ in range(50):
        for i, a in enumerate(out):
            j = next((j for j in range(i) if out[j].kind in K[a.kind][2]), None)
            if j is not None: out.insert(j, out.pop(i)); break
        else: break
    return out


def objs(l): return [a.obj for a in l]


def snap(o, depth=0):
    "a deep image of an attribute object"
    if isinstance(o, (int, float, str, type(None), bool)): return o
    if isinstance(o, (list, tuple)): return [type(o).__name__] + [snap(x, depth+1) for x in o]
    if isinstance(o, dict): return {str(k): snap(v, depth+1) for k, v in o.items()}
    if isinstance(o, type) or depth > 5 or not hasattr(o, "__dict__"): return str(type(o))
    if isinstance(o, canvas.canvas): return (type(o).__name__, len(o.items))
    return (type(o).__name__, {k: snap(v, depth+1) for k, v in o.__dict__.items()})


class Unchanged:
    "monitor: lists keep their members, the members their state"
    def __init__(self, mon, *lists):
        self.mon, self.lists = mon, lists
        self.ids = [[id(x) for x in l] for l in lists]
        self.snaps = [[snap(x) for x in l] for l in lists]
    def check(self, what):
        for l, i, s in zip(self.lists, self.ids, self.snaps):
            self.mon.check([id(x) for x in l] == i, "list-altered", lambda: "%s altered an attribute list: now %r" % (what, l))
            for x, y in zip(l, s): self.mon.check(snap(x) == y, "object-altered", lambda: "%s altered %r: %r -> %r" % (what, x, y, snap(x)))
            self.mon.count("unchanged")


def checkmerged(mon, l, got):
    want = survivors(l)
    ids = sorted(id(a.obj) for a in want)
    mon.check(sorted(map(id, got)) == ids, "survivors", lambda: "%s -> %s instead of %s" % (l, got, want))
    if sorted(map(id, got)) != ids: return
    kinds = {id(a.obj): a.kind for a in want}
    g = [kinds[id(x)] for x in got]
    for i in range(len(g)):
        for j in range(i):
            mon.check(g[j] not in K[g[i]][2], "sorting", lambda: "%s resolved to %s" % (l, g))
            mon.count("pairs")
    plain = lambda seq: [x for x in seq if not K[kinds[x]][2]]
    mon.check(plain([id(x) for x in got]) == plain([id(a.obj) for a in want]), "relative-order", lambda: "%s resolved to %s" % (l, g))
    for k in set(g):
        if K[k][2]: mon.check([id(x) for x in got if kinds[id(x)] == k] == [id(a.obj) for a in want if a.kind == k], "relative-order", lambda: "%s resolved to %s (%s)" % (l, g, k))


def c_merge(rng, mon):
    fam = rng.choice([STROKE, STROKE + FILL + DECO, TEXT + ["color"], list(K), list(K)])
    kinds = rng.sample(fam, rng.randint(1, min(6, len(fam))))
    l = rlist(rng, kinds, rng.randint(0, 14))
    mon.describe(l)
    o = objs(l)
    u = Unchanged(mon, o)
    got = attr.mergeattrs(o)
    checkmerged(mon, l, got)
    u.check("mergeattrs")
    mon.check(got is not o, "same-list", lambda: "mergeattrs returned the list it was given")
    again = attr.mergeattrs(got)
    mon.check([id(x) for x in again] == [id(x) for x in got], "idempotent", lambda: "%s resolved twice: %s, %s" % (l, got, again))
    mon.count("merge-%d" % min(len(l), 8))
    for a in l: mon.count("kind-" + repr(a))
    mon.nontrivial(str(l))


def c_refine(rng, mon):
    "defaults and user attributes"
    d, l = rlist(rng, STROKE, clears=0), rlist(rng, STROKE)
    allowed = rng.choice([[style.strokestyle], [style.style], [style.strokestyle, deco.deco]])
    mon.describe([d, l])
    od, ol = objs(d), objs(l)
    u = Unchanged(mon, od, ol)
    got = attr.refineattrs(ol, od, allowed)
    checkmerged(mon, d + l, got)
    mon.check(attr.refineattrs(None, od, allowed) is None, "refine-none", lambda: "None not kept")
    u.check("refineattrs")
    mon.count("refine"); mon.nontrivial([str(d), str(l)])


# ---------------------------------------------------------------- drawing
def summary(ev):
    if ev and isinstance(ev[0], list): ev = [e for pg in ev for e in pg]
    return [(e.op, " ".join(sorted(re.sub(r"\d{12,16}", "ID", str(e.color)).split())) if e.color and e.color[0] == "pattern" else e.color, e.alpha, e.lw if e.op == "stroke" else 0, e.cap if e.op == "stroke" else 0, e.join if e.op == "stroke" else 0, e.miter if e.op == "stroke" else 0,
             e.dash if e.op == "stroke" else 0, e.rule if e.op == "fill" else 0, len(e.clips), tuple(e.ctm) if e.ctm else None, [(s.begin(), s.end(), len(s.segs), s.closed) for s in e.subs or []]) for e in ev]


def rpath(rng):
    return rng.choice([lambda: path.line(0, 0, 3, 1), lambda: path.rect(0, 0, 2, 1), lambda: path.circle(0, 0, 1), lambda: path.curve(0, 0, 1, 2, 3, -1, 4, 0),
                       lambda: path.path(path.moveto(0, 0), path.lineto(2, 1), path.lineto(1, 3), path.closepath(), path.moveto(5, 5), path.lineto(3, 1))])()


def compare(mon, rng, what, make, l, fmts=("eps", "pdf", "svg"), short=None, make2=None):
    "make(attribute list) -> canvas; full list and short list have to paint the same"
    o, short = objs(l), objs(canonical(l)) if short is None else short
    u = Unchanged(mon, o)
    c, d = make(o), (make2 or make)(short)
    u.check(what)
    for f in fmts:
        a, b = pub.events(c, f), pub.events(d, f)
        sa, sb = summary(a), summary(b)
        mon.check(sa == sb, what, lambda: "%s: %s paints\n%s\ninstead of (as %s)\n%s" % (f, l, sa, canonical(l), sb))
        mon.count(what + "-" + f); mon.count("events", len(a))
    u.check("writing")
    # repeated use of the same list
    e = make(o)
    f = rng.choice(fmts)
    mon.check(summary(pub.events(e, f)) == summary(pub.events(c, f)), "repeated", lambda: "%s: second use of %s differs" % (f, l))


def c_draw(rng, mon):
    p = rpath(rng)
    m = rng.choice(["stroke", "fill", "draw", "canvas", "insert"])
    if m == "stroke": l = rlist(rng, STROKE + ["arrow", "trafo"] + (["filled"] if rng.random() < 0.5 else []), clears=0.15)
    elif m == "fill": l = rlist(rng, FILL + ["filled", "trafo", "stroked"], clears=0.15)
    elif m == "draw": l = rlist(rng, STROKE + FILL + DECO + ["trafo"], clears=0.15)
    else: l = rlist(rng, STROKE + FILL + ["trafo", "clip"], clears=0.15)
    if m in ("stroke", "draw") and any(a.kind == "arrow" for a in l) and rng.random() < 0.7: l = [a for a in l if a.kind != "trafo"]
    mon.describe([m, l])
    # a change of color while both stroking and filling acts on both
    def make(o):
        if m == "canvas": c = canvas.canvas(o); c.stroke(p); c.fill(p); return c
        c = canvas.canvas()
        if m == "insert":
            q = canvas.canvas(); q.stroke(p); q.fill(p); c.insert(q, o)
        else: getattr(c, m)(p, o)
        return c
    if m in ("stroke", "fill"):
        # the method only adds a decoration in front
        base = A("stroked" if m == "stroke" else "filled", deco.stroked if m == "stroke" else deco.filled)
        def make2(o): c = canvas.canvas(); c.draw(p, o); return c
        compare(mon, rng, "draw", make, l, short=objs(canonical([base] + l)), make2=make2)
    else: compare(mon, rng, "draw", make, l)
    mon.count("method-" + m); mon.nontrivial([m, str(l)])


def c_nested(rng, mon):
    "attribute lists inside decorations"
    p = path.curve(0, 0, 1, 2, 3, -1, 4, 0)
    w = rng.choice(["stroked", "filled", "arrow", "hatched", "linehatched", "shownormpath", "symbol"])
    if w in ("stroked", "hatched", "linehatched", "shownormpath"): l = rlist(rng, STROKE, clears=0.15, groups=0)
    elif w == "filled": l = rlist(rng, FILL, clears=0.15, groups=0)
    else: l = rlist(rng, STROKE + FILL + ["stroked", "filled"], clears=0.15, groups=0)
    mon.describe([w, l])
    def make(o):
        c = canvas.canvas()
        if w == "stroked": c.draw(p, [deco.stroked(o)])
        elif w == "filled": c.draw(p, [deco.filled(o)])
        elif w == "arrow": c.draw(p, [deco.stroked, rng2.choice([deco.earrow, deco.barrow])(o, size=0.5)])
        elif w == "hatched": c.fill(path.rect(0, 0, 1, 1), [pattern.hatched(0.1, 30, o)])
        elif w == "linehatched": c.draw(path.rect(0, 0, 1, 1), [deco.linehatched(0.2, 30, strokestyles=o)])
        elif w == "shownormpath": c.draw(p, [deco.shownormpath(normcurve_attrs=o)])
        else:
            c.draw(path.line(0, 0, 1, 1), [deco.arrow(o, pos=0.3)])
        return c
    import random
    s = rng.random()
    class R:
        def choice(self, x): return random.Random(s).choice(x)
    rng2 = R()
    if w == "arrow" or w == "symbol":
        # arrows have defaults: a solid line style and filled
        full = canonical([A("linestyle", style.linestyle.solid), A("filled", deco.filled)] + l)
        compare(mon, rng, "nested", make, l, ("pdf",), short=[attr.clear] + objs(full))
    elif w == "shownormpath":
        full = canonical([A("color", color.rgb.green)] + l)
        compare(mon, rng, "nested", make, l, short=[attr.clear] + objs(full))
    elif w in ("linehatched", "hatched"):
        full = canonical([A("linewidth", style.linewidth.THIN)] + l)
        compare(mon, rng, "nested", make, l, ("eps", "pdf"), short=[attr.clear] + objs(full))
    elif w == "hatched": compare(mon, rng, "nested", make, l, ("eps", "pdf"))
    else: compare(mon, rng, "nested", make, l)
    mon.count("nested-" + w); mon.nontrivial([w, str(l)])


def c_reuse(rng, mon):
    "derived attributes leave their origin alone; shared predefined attributes never change"
    shared = [style.linewidth.Thick, style.linestyle.dashed, color.rgb.red, deco.earrow.large, deco.stroked, deco.filled, deco.barrow, pattern.hatched0, text.parbox(3), text.halign.center, text.valign.top,
              deformer.cycloid(0.3), deformer.smoothed(1), deco.brace(), deco.linehatched(0.1, 10), trafo.rotate(20)]
    u = Unchanged(mon, shared)
    a1 = objs(survivors(rlist(rng, ["linewidth", "color"], clears=0, groups=0)))
    a2 = objs(survivors(rlist(rng, ["color", "linejoin"], clears=0, groups=0)))
    v = Unchanged(mon, a1, a2)
    d = deco.earrow.large([deco.filled([color.rgb.blue])] + a2, angle=30)
    e = d(size=3)
    f = deco.stroked(a1)(a2); g = deco.filled([color.rgb.red])([color.rgb.green])
    deformer.cycloid(0.3)(radius=1); deformer.smoothed(1)(radius=2); deformer.parallel(1)(distance=2) if False else None
    deco.brace()(totalheight=1) if False else None
    pattern.hatched0(dist=0.3); pattern.hatched45(angle=10, strokestyles=[style.linewidth.THICK])
    p = rpath(rng)
    c = canvas.canvas()
    for _ in range(2):
        c.stroke(p, a1); c.stroke(p, [style.linewidth.Thick] + a2); c.draw(path.line(0, 0, 4, 0), [deco.stroked, d, e]); c.draw(p, [f, g])
    pub.write(c, rng.choice(["pdf", "eps", "svg"]))
    u.check("use"); v.check("use")
    # derived ones have what was asked for and keep the rest
    mon.check(d.size == deco.earrow.large.size and d.angle == 30 and e.angle == 30 and e.size == 3 and e.pos == 1 and e.constriction == deco.earrow.large.constriction, "derived", lambda: "arrow parameters %s" % [d.__dict__, e.__dict__])
    ev = []
    for x in (d, e(size=d.size)):
        c = canvas.canvas(); c.draw(path.line(0, 0, 4, 0), [x]); ev.append(summary(pub.events(c, "pdf")))
    mon.check(ev[0] == ev[1], "derived-attrs", lambda: "derived arrow paints %s instead of %s" % (ev[1], ev[0]))
    c1, c2 = canvas.canvas(), canvas.canvas()
    c1.draw(p, [f]); c2.draw(p, [deco.stroked(a2)])
    mon.check(summary(pub.events(c1, "pdf")) == summary(pub.events(c2, "pdf")), "derived-attrs", lambda: "stroked(a)(b) with %s, %s" % (a1, a2))
    mon.count("reuse"); mon.nontrivial([str(a1), str(a2), rng.random()])


# ---------------------------------------------------------------- wrong kinds
WRONG = {
 "canvas": (STROKE + FILL + ["trafo", "clip"], ["stroked", "arrow", "smoothed", "size", "halign", "decotext"], lambda o: canvas.canvas(o)),
 "insert": (STROKE + FILL + ["trafo", "clip"], ["filled", "arrow", "cycloid", "valign"], lambda o: canvas.canvas().insert(canvas.canvas(), o)),
 "stroke": (STROKE + FILL + DECO + ["trafo"], ["clip", "size", "halign", "parbox", "mathmode"], lambda o: canvas.canvas().stroke(path.line(0, 0, 1, 1), o)),
 "fill": (FILL + ["filled", "trafo"], ["clip", "vshift", "phantom"], lambda o: canvas.canvas().fill(path.rect(0, 0, 1, 1), o)),
 "stroked": (STROKE, ["fillrule", "trafo", "stroked", "clip", "pattern", "halign"], lambda o: deco.stroked(o)),
 "filled": (FILL + ["pattern"], ["linewidth", "dash", "linestyle", "filled", "trafo", "smoothed"], lambda o: deco.filled(o)),
 "arrow": (STROKE + FILL + ["stroked", "filled"], ["trafo", "clip", "size", "cycloid"], lambda o: deco.earrow(o)),
 "text": (TEXT + ["trafo", "color", "fillrule"], ["linewidth", "linestyle", "clip", "stroked", "arrow", "smoothed"], lambda o: scene.texengine("tex").text(0, 0, "x", o)),
 "unicode": (["trafo", "color", "fillrule"], ["linewidth", "clip", "stroked", "dash"], lambda o: scene.engine("lmr10").text(0, 0, "x", o)),
 "hatched": (STROKE, ["fillrule", "stroked", "trafo"], lambda o: pattern.hatched(0.1, 20, o)),
 "shownormpath": (STROKE, ["fillrule", "filled", "trafo"], lambda o: deco.shownormpath(normline_attrs=o)),
 "refineattrs": (STROKE, FILL[2:] + DECO + ["trafo", "clip", "size"], lambda o: attr.refineattrs(o, [style.linewidth.thin], [style.strokestyle])),
 "checkattrs": (STROKE, FILL[2:] + DECO + ["trafo", "clip", "size"], lambda o: attr.checkattrs(o, [style.strokestyle])),
}


def c_reject(rng, mon):
    w = rng.choice(list(WRONG))
    good, bad, f = WRONG[w]
    l = [a for a in rlist(rng, good, clears=0, groups=0)]
    b = rng.choice(bad)
    n = rng.randint(0, len(l))
    o = objs(l)
    mon.describe([w, l, b, n])
    if w != "text" or rng.random() < 0.3:
        if w == "checkattrs" or w != "text": f(list(o))           # accepted without the wrong one
        mon.count("accepted")
    r = rng.random()
    if r < 0.8 or w == "checkattrs": x = K[b][0](rng)
    else: x = rng.choice(["red", None, 3, style.linewidth, (style.linewidth.thin,), [color.rgb.red]]); b = "no attribute"
    o.insert(n, x)
    u = Unchanged(mon, o)
    try:
        f(o)
        mon.fail("not-rejected", "%s accepts %s (%s) in %s" % (w, b, x, o))
    except TypeError: mon.count("rejected-" + w)
    except Exception as e: mon.fail("not-rejected", "%s given %s in %s: %s: %s" % (w, b, l, type(e).__name__, e))
    u.check("rejection")
    # a failing call leaves the canvas usable
    if w in ("stroke", "fill"):
        c = canvas.canvas(); c.stroke(path.line(0, 0, 1, 1))
        try: getattr(c, w)(path.rect(0, 0, 1, 1), o)
        except TypeError: pass
        mon.check(len(c.items) == 1, "rejected-drawn", lambda: "a rejected %s left %d items" % (w, len(c.items)))
    mon.nontrivial([w, str(l), b, n])


# ---------------------------------------------------------------- text attributes
_box = {}


def measure(eng, s, key, attrs):
    k = (id(eng), s, key)
    if k not in _box:
        b = eng.text(0, 0, s, attrs).bbox()
        _box[k] = tuple(unit.topt(x) for x in (b.left(), b.bottom(), b.right(), b.top()))
    return _box[k]


def c_text(rng, mon):
    eng = scene.texengine(rng.choice(["tex", "tex", "latex"]))
    kinds = rng.sample(TEXT, rng.randint(1, 6))
    if "phantom" in kinds and rng.random() < 0.6: kinds.remove("phantom")
    l = rlist(rng, kinds + ["size"], rng.randint(1, 7), clears=0.12, groups=0)
    # a box with a shift in math mode measures its digits in another size: keep what the text is apart from attributes
    s = rng.choice(["T", "gy", "(x", "Ty 12", "some words for several lines"]) if any(a.kind == "parbox" for a in l) else rng.choice(["T", "gy", "x", "Ty12"])
    tr = [rtrafo(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    cols = [rcolor(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    o = objs(l)
    if len(tr) > 1: tr = [x for x in tr if not isinstance(x, trafo.translate)]      # relative to a moved or the first position?
    for x in tr + cols: o.insert(rng.randint(0, len(o)), x)
    if any(a.kind == "all" and a.clears for a in l): return
    tr = [x for x in o if isinstance(x, trafo.trafo_pt)]
    cols = [x for x in o if isinstance(x, color.color)]
    mon.describe([s, l, tr, cols])
    sv = survivors(l)
    have = lambda k: [a for a in sv if a.kind == k]
    u = Unchanged(mon, o)
    x, y = rng.uniform(-50, 50), rng.uniform(-50, 50)
    t = eng.text_pt(x, y, s, o)
    u.check("text")
    if have("mathmode") and (have("parbox") and s.count(" ") > 1): return          # no line breaks in math mode
    # reference measurements: content in its size
    size = have("size")[-1:]
    inner = [a for k in ("parbox", "flushhalign", "mathmode", "phantom") for a in have(k)] + ([a for a in have("halign")] if have("parbox") else [])
    key = tuple((a.kind, id(a.obj)) if a.kind != "parbox" else (a.kind, a.obj.width, a.obj.baseline) for a in size + inner)
    zs = lambda h: measure(eng, h, ("zero",) + tuple((a.kind, id(a.obj)) for a in size), objs(size))
    # ragged lines break differently
    flush = [{0: text.halign.flushleft, 0.5: text.halign.flushcenter, 1: text.halign.flushright}[a.obj.flushhalign] for a in (have("halign") or have("flushhalign"))[-1:]] if have("parbox") else []
    b0 = measure(eng, s, key, objs(size + [a for a in inner if a.kind == "parbox"] + [a for a in inner if a.kind == "mathmode"] + have("phantom")[:1]) + flush)
    # alignments inside of the paragraph do not change its box
    L, D, R, H = b0
    W = R - L
    # TeX boxes have no negative heights and depths
    H, D = max(H, 0), max(-D, 0)
    shifts = [(1-a.obj.valign)*H - a.obj.valign*D for a in have("valign")]
    shifts += [mathaxis(eng, size) if a.obj is text.vshift.mathaxis else a.obj.lowerratio*zs(a.obj.heightstr)[3] for a in reversed(have("vshift"))]
    for v in shifts: H, D = max(H-v, 0), max(D+v, 0)
    bh = have("halign")[-1:] or have("boxhalign")[-1:]
    frac = bh[0].obj.boxhalign if bh else 0
    box = (-frac*W, -D, (1-frac)*W, H)
    m = geo.IDENT
    for q in tr:
        (a, b), (c, d) = q.matrix
        e, f = q.vector
        m = geo.mul(m, (a, c, b, d, e, f))
    pts = [geo.ap(m, p) for p in [(box[0], box[1]), (box[2], box[1]), (box[2], box[3]), (box[0], box[3])]]
    want = (min(p[0] for p in pts)+x, min(p[1] for p in pts)+y, max(p[0] for p in pts)+x, max(p[1] for p in pts)+y)
    bb = t.bbox()
    got = tuple(unit.topt(v) for v in (bb.left(), bb.bottom(), bb.right(), bb.top()))
    tol = 0.02*max(1, max(abs(v) for v in m[:4]))
    ok = mon.check(all(abs(g-w) < tol for g, w in zip(got, want)), "text-box", lambda: "%s with %s: box %s instead of %s" % (s, l, got, want)) is not False
    mon.track("text-box", max(abs(g-w) for g, w in zip(got, want)))
    for a in sv: mon.count("text-" + a.kind)
    if rng.random() < 0.5:
        c = canvas.canvas(); c.insert(t)
        ev = [e for e in pub.events(c, "pdf")[0] if e.op == "text" and e.codes]
        if have("phantom"): mon.check(not ev, "phantom", lambda: "phantom text paints %s" % ev)
        else:
            if not mon.check(bool(ev), "text-missing", lambda: "%s: nothing painted" % s) and not ev: return
            c2 = canvas.canvas(); c2.fill(path.rect(0, 0, 1, 1), cols[-1:]); w = pub.events(c2, "pdf")[0][0].color
            mon.check(all(e.color == w for e in ev), "text-color", lambda: "text is %s instead of %s" % (ev[0].color, w))
            c3 = canvas.canvas(); c3.insert(eng.text_pt(0, 0, s, objs(canonical(l))))
            ev3 = [e for e in pub.events(c3, "pdf")[0] if e.op == "text" and e.codes]
            mon.check([(e.font, e.size, e.codes) for e in ev] == [(e.font, e.size, e.codes) for e in ev3], "text-content", lambda: "%s paints %s instead of %s" % (l, [(e.font, e.size, e.codes) for e in ev], [(e.font, e.size, e.codes) for e in ev3]))
        mon.count("text-painted")
    mon.nontrivial([s, str(l), len(tr), len(cols)])


_axis = {}


def mathaxis(eng, size):
    "height of the math axis from a strut rule centred on it"
    k = (id(eng), tuple(id(a.obj) for a in size))
    if k not in _axis:
        b = eng.text(0, 0, r"$\vcenter{\hrule height 10pt depth 4pt width 5pt}$", objs(size)).bbox()
        _axis[k] = (unit.topt(b.top())+unit.topt(b.bottom()))/2
    return _axis[k]


def run_case(kind, i, rng, mon):
    scene.TMP[0] = mon.tmp
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    globals()["c_" + rng.choice(["merge"]*4 + ["draw"]*4 + ["nested"]*2 + ["reject"]*3 + ["text"]*4 + ["reuse", "refine"])](rng, mon)


def d_manual(rng, mon):
    "the examples of the manual"
    p = path.line(0, 0, 3, 1)
    def ev(l):
        c = canvas.canvas(); c.stroke(p, l); return summary(pub.events(c, "eps"))
    mon.check(ev([style.linewidth.Thick, style.linewidth.thin]) == ev([style.linewidth.thin]), "manual", lambda: "override")
    mon.check(ev([style.linewidth.Thick, style.linewidth.clear]) == ev([]), "manual", lambda: "clear")
    mon.check(ev([style.linewidth.Thick, style.linestyle.dashed, style.strokestyle.clear]) == ev([]), "manual", lambda: "strokestyle.clear")
    mon.check(ev([style.linewidth.Thick, style.linestyle.dashed, attr.clear]) == ev([deco.stroked.clear]), "manual", lambda: "attr.clear")
    mon.check(ev([style.linestyle.dashed, style.linewidth.Thick]) == ev([style.linewidth.Thick, style.linestyle.dashed]), "manual", lambda: "width of dashes")


def d_membersclear(rng, mon):
    "predefined attributes are attributes of their kind and removed by its clear"
    for k, cl in sorted(CLEAR.items()):
        for _ in range(20):
            a = K[k][0](rng)
            keep = style.linewidth.thick if k not in ("linewidth",) else style.linecap.round
            if k == "linecap": keep = style.linewidth.thick
            got = attr.mergeattrs([keep, a, cl])
            mon.check([id(x) for x in got] == [id(keep)], "clear", lambda: "%s: [%s, %s, clear] resolves to %s" % (k, keep, a, got))
            got = attr.mergeattrs([keep, cl, a])
            mon.check(sorted(map(id, got)) == sorted([id(keep), id(a)]), "clear", lambda: "%s: [%s, clear, %s] resolves to %s" % (k, keep, a, got))
        mon.count("clears")
