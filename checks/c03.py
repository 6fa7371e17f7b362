"""C03: path programs against the PostScript path model, in memory and as emitted."""
import math
import numpy as np
import geo, gen, pub
from harness import Skip
from pyx import path, canvas, normpath, unit

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("random programs of 2-9 path operators (absolute, relative, arcs, tangent arcs, multi-elements, closepath, "
        "several subpaths, pt and user units, three magnitudes) and random line/curve/rect/circle/ellipse objects; "
        "each is compared with an exact reference path as normpath and as interpreted from EPS, PDF and SVG output; "
        "distinct by operator sequence, non-trivial with at least two drawn segments")
QUICK, THOROUGH = 4000, 90000
REQUIRED = {"op:" + o: 50 for o in set(gen.OPS)}
REQUIRED.update({"out:pdf": 300, "out:svg": 300, "out:eps": 300, "lineto after closepath": 5})
DIRECTED = ["shapes", "nopoint", "arcfull", "closedcontinue", "arctdegenerate", "tiny", "str", "longpath"]
ASSUMPTIONS = ["PostScript number format %g keeps six digits, so emitted geometry is compared at 2e-5 of the coordinate magnitude",
               "arcs are approximated by Bezier curves to 1e-5 of the radius", "full-turn sweeps that differ only by angle adjustment are left out of generated programs"]


def dedrop(subs, eps):
    "drop subpaths shorter than the accuracy"
    return [s for s in subs if s.segs and s.length() > eps]


def emitted(p, fmt):
    c = canvas.canvas()
    c.stroke(p)
    ev = pub.events(c, fmt)
    strokes = [e for e in ev[0] if e.op == "stroke"]
    return strokes


def compare_all(p, ref, mon, scale, fmts, key):
    tol = 1e-5*scale
    np_ = p.normpath()
    got = gen.normsubs(np_)
    mon.check(gen.continuous(got) <= 2e-5, "normpath-gap", lambda: "consecutive items do not meet: %g" % gen.continuous(got))
    r = geo.subs_match(dedrop(got, 1e-5), dedrop(ref, 1e-4), tol + 2e-5, "normpath")
    mon.check(r is None, "normpath-geometry", lambda: "%s\n got %r\n expected %r" % (r, got, ref))
    for fmt in fmts:
        st = emitted(p, fmt)
        want = dedrop(ref, 1e-4)
        mon.count("out:" + fmt)
        if not want:
            continue
        mon.check(len(st) == 1, "emit-" + fmt, lambda: "%d strokes" % len(st))
        g = dedrop(st[0].subs, 1e-5)
        t2 = 4e-5*scale + 2e-5
        r2 = geo.subs_match(g, want, t2, fmt, gen.svgshape(want, t2) if fmt == "svg" else None)
        mon.check(r2 is None, "emit-" + fmt, lambda: "%s\n got %r\n expected %r" % (r2, g, want))


def run_case(kind, i, rng, mon):
    if kind != "gen":
        return globals()["d_" + kind](rng, mon)
    if rng.random() < 0.12:
        return shape(rng, mon)
    scale = rng.choice([1.0, 1.0, 1.0, 1.0, 0.03, 12.0])
    prog = gen.program(rng, rng.choice([None, None, None, rng.randint(9, 16)]), scale=scale)
    mon.describe((scale, prog))
    ref = gen.reference(prog)
    for a, b in zip(prog, prog[1:]):
        if a[0] == "closepath" and b[0] not in ("moveto", "rmoveto", "closepath"):
            mon.count("lineto after closepath")
    items = gen.pyxitems(prog, path, rng)
    how = rng.randint(0, 3)
    if how == 0:
        p = path.path(*items)
    elif how == 1:
        p = path.path(items[0])
        for it in items[1:]: p.append(it)
        if rng.random() < 0.5: p.normpath()
    elif how == 2:
        k = rng.randint(1, len(items))
        p = path.path(*items[:k])
        p.normpath(); p.bbox()
        p.extend(items[k:])
    else:
        k = rng.randint(1, len(items))
        p = path.path(*items[:k])
        p.normpath()
        q = path.path(*items[k:])
        p = p + q
    mon.check(len(p) == len(items), "path-items", lambda: "%d items of %d" % (len(p), len(items)))
    for op, a in prog: mon.count("op:" + op)
    if sum(len(s.segs) for s in ref) == 0: raise Skip
    if sum(len(s.segs) for s in ref) >= 2:
        mon.nontrivial((tuple(op for op, a in prog), scale))
    fmts = [rng.choice(["eps", "pdf", "svg"])] if rng.random() < 0.75 else ["eps", "pdf", "svg"]
    compare_all(p, ref, mon, gen.extent(ref), fmts, None)
    # end points, begin point and the conversion back to a path
    if ref and all(s.segs for s in ref):
        mon.ptclose(p.atbegin_pt(), ref[0].begin(), 1e-5*gen.extent(ref)+2e-5, "begin-point")
        mon.ptclose(p.atend_pt(), ref[-1].end(), 1e-5*gen.extent(ref)+2e-5, "end-point")
    back = p.normpath().path()
    r = geo.subs_match(dedrop(gen.normsubs(back.normpath()), 1e-5), dedrop(ref, 1e-4), 1e-5*gen.extent(ref)+2e-5, "normpath().path()")
    mon.check(r is None, "normpath-to-path", lambda: r)
    if rng.random() < 0.3:
        # emission of the normpath itself
        np_ = p.normpath()
        fmt = rng.choice(["eps", "pdf", "svg"])
        st = emitted(np_, fmt)
        want = dedrop(ref, 1e-4)
        if want:
            r = geo.subs_match(dedrop(st[0].subs, 1e-5), want, 5e-5*gen.extent(ref)+3e-5, "normpath in " + fmt)
            mon.check(r is None, "emit-normpath-" + fmt, lambda: r)
    if rng.random() < 0.2:
        # a normpath extended item by item equals the path extended item by item
        k = rng.randint(1, len(items))
        q = path.path(*items[:k]).normpath().copy()
        if all(len(sp) for sp in q.normsubpaths) and not any(op in ("moveto", "rmoveto") for op, a in prog[:k][1:]) and not (prog[k-1][0] in ("closepath",)):
            for it in items[k:]: q.append(it)
            r = geo.subs_match(dedrop(gen.normsubs(q), 1e-5), dedrop(ref, 1e-4), 1e-5*gen.extent(ref)+4e-5, "normpath.append")
            mon.check(r is None, "normpath-append", lambda: r)
            mon.count("normpath append")


def shape(rng, mon):
    kind = rng.choice(["line", "curve", "rect", "circle", "ellipse"])
    v = [gen.num(rng) for _ in range(8)]
    u = rng.random() < 0.5
    f = (1/gen.PT) if u else 1.0
    suf = "" if u else "_pt"
    b = geo.Builder()
    if kind == "line":
        p = getattr(path, "line"+suf)(*[x*f for x in v[:4]])
        b.moveto(*v[:2]); b.lineto(*v[2:4])
    elif kind == "curve":
        p = getattr(path, "curve"+suf)(*[x*f for x in v])
        b.moveto(*v[:2]); b.curveto(*v[2:])
    elif kind == "rect":
        if abs(v[2]) < 1e-2 or abs(v[3]) < 1e-2: raise Skip
        p = getattr(path, "rect"+suf)(*[x*f for x in v[:4]])
        x, y, w, h = v[:4]
        b.moveto(x, y); b.lineto(x+w, y); b.lineto(x+w, y+h); b.lineto(x, y+h); b.closepath()
    elif kind == "circle":
        r = rng.uniform(0.2, 60)
        p = getattr(path, "circle"+suf)(v[0]*f, v[1]*f, r*f)
        b.arc(v[0], v[1], r, 0, 360); b.closepath()
    else:
        a, c, phi = rng.uniform(0.2, 60), rng.uniform(0.2, 60), gen.angle(rng)
        p = getattr(path, "ellipse"+suf)(v[0]*f, v[1]*f, a*f, c*f, phi)
        co, si = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        s = geo.Sub(None, [geo.Arc((a*co, a*si, -c*si, c*co, v[0], v[1]), 0, 2*math.pi)], True)
        s.start = s.segs[0].begin()
        b.subs = [s]
    mon.describe((kind, u, v))
    mon.count("shape:" + kind)
    mon.nontrivial((kind, u, tuple(round(x, 3) for x in v)))
    ref = b.subs
    if kind == "line" and ref[0].length() < 1e-3: raise Skip
    scale = gen.extent(ref)
    if kind in ("circle", "ellipse"):
        # these start slightly beside the nominal start angle by design: geometry compared as a point set
        for what, subs in [("normpath", gen.normsubs(p.normpath()))] + [(fmt, emitted(p, fmt)[0].subs) for fmt in ("eps", "pdf", "svg")]:
            subs = [s for s in subs if s.segs]
            mon.check(len(subs) == 1 and subs[0].closed, "shape-closed", lambda: "%s %s: %r" % (kind, what, subs))
            a, c = subs[0].poly(), ref[0].poly()
            d = max(geo.polydist(a[::7], c), geo.polydist(c[::7], a))
            mon.check(d <= (5e-4*scale if what != "svg" else gen.svgshape(ref, 1e-5*scale)), "shape-geometry", lambda: "%s %s deviates by %g" % (kind, what, d))
            area = lambda q: 0.5*float(np.sum(q[:-1, 0]*q[1:, 1]-q[1:, 0]*q[:-1, 1]))
            mon.check(area(a) > 0, "shape-orientation", lambda: what)
    else:
        compare_all(p, ref, mon, scale, ["eps", "pdf", "svg"], None)


def d_shapes(rng, mon):
    for j in range(60):
        shape(rng, mon)


def d_nopoint(rng, mon):
    "operators that need a current point are rejected at the start"
    for it in [path.lineto(1, 1), path.curveto(1, 1, 2, 2, 3, 3), path.rmoveto(1, 1), path.rlineto(1, 1),
               path.rcurveto(1, 1, 2, 2, 3, 3), path.arct(1, 1, 2, 2, 1), path.closepath(),
               path.multilineto_pt([(1, 1), (2, 3)]), path.multicurveto_pt([(1, 2, 3, 4, 5, 6)])]:
        p = path.path(it, path.lineto(2, 5))
        for f in (lambda: p.normpath(), lambda: p.bbox(), lambda: p.arclen(), lambda: emitted(p, "pdf")):
            try:
                f()
            except path.PathException:
                mon.count("rejected")
            else:
                mon.fail("nocurrentpoint", "%s accepted without current point" % it)
    for args in [("x",), (3,), (path.path(),)]:
        try:
            path.path(*args)
        except AssertionError:
            mon.count("rejected")
        else:
            mon.fail("nonitem", "%r accepted as path item" % (args,))


def d_arcfull(rng, mon):
    "an arc whose angles differ by a full turn downwards is adjusted to an empty sweep"
    for a1, a2, op in [(360.0, 0.0, "arc"), (450.0, 90.0, "arc"), (0.0, 360.0, "arcn"), (90.0, 450.0, "arcn"), (720.0, 0.0, "arc"),
                       (0.0, 720.0, "arcn"), (135.0, -225.0, "arc")]:
        prog = [("moveto", (0.0, 0.0)), (op, (20.0, 10.0, 7.0, a1, a2)), ("lineto", (50.0, 3.0))]
        mon.describe(prog)
        ref = gen.reference(prog)
        compare_all(path.path(*gen.pyxitems(prog, path)), ref, mon, gen.extent(ref), ["eps", "pdf", "svg"], None)


def d_closedcontinue(rng, mon):
    for op, a in [("lineto", (30.0, 40.0)), ("curveto", (30.0, 40.0, 1.0, 2.0, 7.0, 8.0)), ("rlineto", (3.0, 4.0)),
                  ("rcurveto", (3.0, 4.0, 1.0, 2.0, 7.0, 8.0)), ("arc", (30.0, 40.0, 5.0, 10.0, 200.0)), ("arcn", (30.0, 40.0, 5.0, 10.0, 200.0)),
                  ("arct", (30.0, 40.0, 5.0, 100.0, 3.0)), ("multilineto", ((3.0, 4.0), (5.0, 9.0))),
                  ("multicurveto", ((3.0, 4.0, 5.0, 9.0, 1.0, 15.0),)), ("rmoveto", (3.0, 4.0))]:
        prog = [("moveto", (1.0, 2.0)), ("lineto", (10.0, 3.0)), ("lineto", (10.0, 30.0)), ("closepath", ()), (op, a), ("rlineto", (5.0, 1.0))]
        for tail in ([], [("closepath", ())]):
            pr = prog + tail
            mon.describe(pr)
            ref = gen.reference(pr)
            compare_all(path.path(*gen.pyxitems(pr, path)), ref, mon, gen.extent(ref), ["eps", "pdf", "svg"], None)


def d_arctdegenerate(rng, mon):
    "collinear tangents give a line to the corner"
    for x in [(10.0, 0.0, 20.0, 0.0, 3.0), (0.1, 0.3, 0.2, 0.6, 1.0), (10.0, 30.0, 20.0, 60.0, 1.0), (3.3, 1.1, 6.6, 2.2, 2.0), (7.7, 9.1, 15.4, 18.2, 2.0)]:
        prog = [("moveto", (0.0, 0.0)), ("arct", x), ("lineto", (5.0, 50.0))]
        mon.describe(prog)
        ref = gen.reference(prog)
        compare_all(path.path(*gen.pyxitems(prog, path)), ref, mon, gen.extent(ref), ["eps", "pdf", "svg"], None)
    # corner equal to the current point, or second point equal to the corner
    for x in [(0.0, 0.0, 20.0, 0.0, 3.0), (10.0, 0.0, 10.0, 0.0, 3.0)]:
        prog = [("moveto", (0.0, 0.0)), ("arct", x), ("lineto", (5.0, 50.0))]
        mon.describe(prog)
        ref = gen.reference(prog)
        compare_all(path.path(*gen.pyxitems(prog, path)), ref, mon, gen.extent(ref), ["eps", "pdf", "svg"], None)


def d_tiny(rng, mon):
    "segments around and below the accuracy never displace the rest of the path"
    for j in range(300):
        prog = [("moveto", (gen.num(rng), gen.num(rng)))]
        for k in range(rng.randint(2, 10)):
            e = 10**rng.uniform(-8, -3)
            r = rng.random()
            if r < 0.5: prog.append(("rlineto", (rng.uniform(-1, 1)*e, rng.uniform(-1, 1)*e)))
            elif r < 0.65: prog.append(("rcurveto", tuple(rng.uniform(-1, 1)*e for _ in range(6))))
            elif r < 0.8: prog.append(("lineto", (gen.num(rng), gen.num(rng))))
            else: prog.append(("curveto", tuple(gen.num(rng) for _ in range(6))))
        prog.append(("lineto", (60.0, 70.0)))
        if rng.random() < 0.5: prog.append(("closepath", ()))
        mon.describe(prog)
        ref = gen.reference(prog)
        p = path.path(*gen.pyxitems(prog, path))
        got = gen.normsubs(p.normpath())
        mon.check(gen.continuous(got) <= 2e-5, "normpath-gap", lambda: "gap %g" % gen.continuous(got))
        r = geo.subs_match(got, ref, 3e-3, "tiny")
        mon.check(r is None, "tiny-geometry", lambda: r)
        for it in p.normpath().normsubpaths:
            for x in it.normsubpathitems:
                if not hasattr(x, "x3_pt"):
                    mon.check(math.hypot(x.x1_pt-x.x0_pt, x.y1_pt-x.y0_pt) >= 0.99e-5, "tiny-item", lambda: str(x))
        mon.count("tiny")
        for fmt in ("pdf",):
            r = geo.subs_match(emitted(p, fmt)[0].subs, ref, 3e-3, fmt)
            mon.check(r is None, "tiny-" + fmt, lambda: r)


def d_str(rng, mon):
    "the printed form names the items in order with their values"
    for j in range(100):
        prog = gen.program(rng)
        p = path.path(*gen.pyxitems(prog, path))
        s = str(p)
        mon.describe(prog)
        q = eval(s, {**{n: getattr(path, n) for n in dir(path)}})
        ref = gen.reference(prog)
        r = geo.subs_match(dedrop(gen.normsubs(q.normpath()), 1e-4), dedrop(ref, 1e-4), 6e-5*gen.extent(ref), "str")
        mon.check(r is None, "str", lambda: r)


def d_longpath(rng, mon):
    b = geo.Builder(); b.moveto(0, 0)
    items = [path.moveto_pt(0, 0)]
    pts = [(j*0.1, 30*math.sin(j*0.01)) for j in range(1, 2500)]
    items.append(path.multilineto_pt(pts))
    for q in pts: b.lineto(*q)
    p = path.path(*items)
    compare_all(p, b.subs, mon, 250, ["eps", "pdf", "svg"], None)
