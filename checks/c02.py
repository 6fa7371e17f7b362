"""C02: transformations against reference maps built from elementary geometry."""
import math, re
import geo, gen, pub
from harness import Skip
from pyx import trafo, unit, path, canvas, bbox

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("random expressions over all transformation constructors (with and without centre, in points and in user units), products, "
        "followed-by methods and inverses; applied to points, lengths, paths and normalized paths and written as canvas and stroke "
        "attributes in EPS, PDF and SVG; distinct by the expression, non-trivial with at least two factors")
QUICK, THOROUGH = 12000, 400000
REQUIRED = {"k:trafo": 150, "k:rotate": 150, "k:mirror": 150, "k:scale": 150, "k:slant": 150, "k:translate": 150, "k:mul": 400,
            "k:method": 400, "k:inverse": 200, "centre": 300, "path": 800, "written": 500}
DIRECTED = ["errors", "predefined"]
ASSUMPTIONS = ["files carry six decimals per matrix entry"]
PT = 72/2.54


def rotm(a, x=0.0, y=0.0):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return geo.mul(geo.mul((1, 0, 0, 1, -x, -y), (c, s, -s, c, 0, 0)), (1, 0, 0, 1, x, y))


def mirm(a):
    # e along the line is kept, its normal is reversed
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return (c*c - s*s, 2*c*s, 2*c*s, s*s - c*c, 0.0, 0.0)


def scm(sx, sy, x=0.0, y=0.0): return (sx, 0, 0, sy, x-sx*x, y-sy*y)


def slm(k, a, x=0.0, y=0.0):
    # p -> p + k (p.n) e with e the direction and n its normal, about (x, y)
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return geo.mul(geo.mul((1, 0, 0, 1, -x, -y), (1 - k*s*c, -k*s*s, k*c*c, 1 + k*c*s, 0, 0)), (1, 0, 0, 1, x, y))


def ang(rng): return rng.choice([0, 30, 45, 90, 180, -90, 270, rng.uniform(-400, 400), rng.uniform(-90, 90)])
def sc(rng): return rng.choice([1, -1, 2, 0.5, rng.uniform(0.2, 3), -rng.uniform(0.2, 3)])
def co(rng): return rng.choice([0, 1, -2, rng.uniform(-5, 5), rng.uniform(-5, 5)])


def length(rng, v):
    "v user cm in one of its notations"
    r = rng.random()
    if r < 0.6: return v
    if r < 0.8: return v*unit.cm
    return (10*v)*unit.t_mm


def prim(rng, mon, method_of=None):
    """one elementary map: (pyx object or method applied, reference matrix, text)"""
    k = rng.choice(["trafo", "mirror", "rotate", "scale", "slant", "translate"]) if method_of is None else rng.choice(["mirror", "rotate", "scale", "slant", "translate"])
    mon.count("k:" + k)
    ptform = rng.random() < 0.4 and k != "mirror"
    f = 1.0 if ptform else PT
    L = (lambda v: v) if ptform else (lambda v: length(rng, v))
    suffix = "_pt" if ptform else ""
    centre = rng.random() < 0.5
    cx, cy = co(rng), co(rng)
    if ptform: cx, cy = 30*cx, 30*cy
    if method_of is not None:
        call = lambda *a, **kw: getattr(method_of, {"mirror": "mirrored", "rotate": "rotated", "scale": "scaled", "slant": "slanted", "translate": "translated"}[k] + suffix)(*a, **kw)
    else:
        call = getattr(trafo, k + suffix)
    if k == "trafo":
        m = ((rng.uniform(-2, 2), rng.uniform(-2, 2)), (rng.uniform(-2, 2), rng.uniform(-2, 2)))
        if abs(m[0][0]*m[1][1] - m[0][1]*m[1][0]) < 0.1: m = ((1, 0.5), (0, 2))
        return call(m, (L(cx), L(cy))), (m[0][0], m[1][0], m[0][1], m[1][1], f*cx, f*cy), "trafo%s(%r,%r)" % (suffix, m, (cx, cy))
    if k == "mirror":
        a = ang(rng)
        return call(a), mirm(a), "mirror(%r)" % a
    if k == "translate":
        return call(L(cx), L(cy)), (1, 0, 0, 1, f*cx, f*cy), "translate%s(%r,%r)" % (suffix, cx, cy)
    pos = (L(cx), L(cy)) if centre else ()
    if centre: mon.count("centre")
    rx, ry = (f*cx, f*cy) if centre else (0.0, 0.0)
    kw = dict(zip("xy", pos))
    what = "%s%s(%%s, centre=%r)" % (k, suffix, (cx, cy) if centre else None)
    if k == "rotate":
        a = ang(rng)
        return (call(a, *pos) if rng.random() < 0.5 else call(a, **kw)), rotm(a, rx, ry), what % a
    if k == "scale":
        sx, sy = sc(rng), sc(rng)
        if rng.random() < 0.4:
            return call(sx, **kw), scm(sx, sx, rx, ry), what % sx
        return (call(sx, sy, *pos) if rng.random() < 0.5 else call(sx, sy, **kw)), scm(sx, sy, rx, ry), what % repr((sx, sy))
    a, s = ang(rng), rng.choice([0.5, -1, rng.uniform(-2, 2)])
    if rng.random() < 0.3:
        return call(s, **kw), slm(s, 0, rx, ry), what % s
    return (call(s, a, *pos) if rng.random() < 0.5 else call(s, a, **kw)), slm(s, a, rx, ry), what % repr((s, a))


def expr(rng, mon, depth):
    r = rng.random()
    if depth == 0 or r < 0.25:
        return prim(rng, mon)
    if r < 0.55:
        a, ra, sa = expr(rng, mon, depth-1); b, rb, sb = expr(rng, mon, depth-1)
        mon.count("k:mul")
        return a*b, geo.mul(rb, ra), "(%s)*(%s)" % (sa, sb)
    if r < 0.85:
        a, ra, sa = expr(rng, mon, depth-1)
        mon.count("k:method")
        t, rt, st = prim(rng, mon, method_of=a)
        return t, geo.mul(ra, rt), "(%s).then %s" % (sa, st)
    a, ra, sa = expr(rng, mon, depth-1)
    if abs(ra[0]*ra[3] - ra[1]*ra[2]) < 1e-3: return a, ra, sa
    mon.count("k:inverse")
    return a.inverse(), geo.inv(ra), "(%s).inverse" % sa


def mag(m): return max(1.0, *map(abs, m))


def run_case(kind, i, rng, mon):
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    t, ref, text = expr(rng, mon, rng.choice([0, 1, 1, 2, 2, 3]))
    mon.describe(text)
    if "*" in text or "then" in text: mon.nontrivial(text)
    if mag(ref) > 1e5: raise Skip
    ptol = 1e-9*mag(ref)*100
    before = str(t)
    for _ in range(4):
        p = (rng.uniform(-100, 100), rng.uniform(-100, 100))
        want = geo.ap(ref, p)
        mon.ptclose(t.apply_pt(*p), want, ptol, "apply_pt", lambda: "%s of %r" % (text, p))
        q = t.apply(length(rng, p[0]/PT), length(rng, p[1]/PT))
        mon.ptclose((unit.topt(q[0]), unit.topt(q[1])), want, ptol, "apply", lambda: "%s of %r" % (text, p))
        det = ref[0]*ref[3]-ref[1]*ref[2]
        if abs(det) > 1e-2:
            mon.ptclose(t.inverse().apply_pt(*want), p, ptol*mag(ref)/abs(det), "inverse", lambda: "inverse of %s at %r" % (text, want))
    m = re.fullmatch(r"\[(\S+) (\S+) (\S+) (\S+) (\S+) (\S+)\]", str(t))
    mon.check(m is not None and all(abs(float(g)-v) <= 6e-7 + ptol for g, v in zip(m.groups(), ref)), "str", lambda: "%s: %s" % (t, ref))

    if rng.random() < 0.5:
        prog = gen.program(rng, rng.randint(2, 6))
        subs = gen.reference(prog)
        if not subs: raise Skip
        mon.describe((text, prog))
        p = path.path(*gen.pyxitems(prog, path))
        want = [s.tr(ref) for s in subs]
        tol = 2e-5*mag(ref)*max(1.0, gen.extent(subs)/40)
        segs = [s for s in want if s.segs]
        src = p if rng.random() < 0.6 else p.normpath()
        how = rng.choice(["transformed", "deform", "deformed"])
        r = src.transformed(t) if how == "transformed" else t.deform(src) if how == "deform" else src.normpath().transformed(t)
        mon.count("path")
        got = [s for s in gen.normsubs(r.normpath()) if s.segs]
        long_ = all(s.length() > 1e-3 for s in segs)
        if long_:
            bad = geo.subs_match(got, segs, tol + 5e-4*mag(ref)*max(1.0, gen.extent(subs)/40), "transformed path")
            mon.check(not bad, "transformed-path", lambda: "%s by %s: %s" % (how, text, bad))
        if not segs or not long_: raise Skip
        if rng.random() < 0.5 and mag(ref) < 3000 and abs(ref[0]*ref[3]-ref[1]*ref[2]) > 0.02:
            c = canvas.canvas()
            if rng.random() < 0.5:
                c.stroke(p, [t])
                where = "stroke attribute"
            else:
                s_ = c.insert(canvas.canvas([t])) if rng.random() < 0.5 else None
                if s_ is None:
                    s_ = canvas.canvas(); s_.stroke(p); c.insert(s_, [t])
                else:
                    s_.stroke(p)
                where = "canvas attribute"
            fmt = rng.choice(["eps", "pdf", "svg"])
            for page in pub.read(pub.write(c, fmt), fmt):
                strokes = [e for e in page.events if e.op == "stroke"]
                mon.check(len(strokes) == 1, "written-count", lambda: "%d strokes" % len(strokes))
                got = [s for s in strokes[0].subs if s.segs]
                ext = gen.extent(subs)
                wtol = 2e-6*ext*2 + 5e-4*mag(ref)*max(1.0, ext/40) + tol
                bad = geo.subs_match(got, segs, wtol, "written", shape=(gen.svgshape(subs, 2e-5)*mag(ref[:4])+wtol if fmt == "svg" else None))
                mon.check(not bad, "written-%s" % fmt, lambda: "%s %s: %s" % (where, text, bad))
                mon.count("written")
    mon.check(str(t) == before, "mutated")


def d_errors(rng, mon):
    for f in ("rotate", "scale", "slant", "rotate_pt", "scale_pt", "slant_pt"):
        for kw in (dict(x=1), dict(y=1)):
            try:
                getattr(trafo, f)(2, **kw)
            except (NameError, AttributeError, TypeError) as e:
                mon.fail("half-centre", "%s%r: %r" % (f, kw, e))
            except Exception:
                mon.check(True, "half-centre")
            else:
                mon.fail("half-centre", "%s%r accepted" % (f, kw))
    for bad in (2, "x", (1, 2)):
        try:
            trafo.rotate(10)*bad
        except Exception:
            mon.check(True, "foreign-product")
        else:
            mon.fail("foreign-product", repr(bad))


def d_predefined(rng, mon):
    mon.ptclose(trafo.identity.apply_pt(3, 4), (3, 4), 1e-12, "identity")
    mon.ptclose(trafo.trafo().apply_pt(3, 4), (3, 4), 1e-12, "identity")
    for a in range(0, 360, 15):
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        mon.ptclose(trafo.mirror(a).apply_pt(5*c, 5*s), (5*c, 5*s), 1e-9, "mirror-axis", "mirror(%d)" % a)
        mon.ptclose(trafo.mirror(a).apply_pt(-5*s, 5*c), (5*s, -5*c), 1e-9, "mirror-normal", "mirror(%d)" % a)
        mon.ptclose(trafo.slant_pt(0.7, a, 2, 3).apply_pt(2, 3), (2, 3), 1e-9, "slant-centre", "slant(%d)" % a)
        mon.ptclose(trafo.slant_pt(0.7, a).apply_pt(5*c, 5*s), (5*c, 5*s), 1e-9, "slant-direction", "slant(%d)" % a)
        mon.ptclose(trafo.slant_pt(0.7, a).apply_pt(-s, c), (-s+0.7*c, c+0.7*s), 1e-9, "slant-amount", "slant(%d)" % a)
