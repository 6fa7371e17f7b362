"""C16: box alignment, tiling and distances from first principles; connectors against sampled curves cut by the boxes."""
import math
import geo
from harness import Skip
from pyx import box, connector, path, trafo, unit, canvas

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("random convex polygons and rectangles (3-12 corners, scales 1e-2..1e4 pt, centres inside, on the outline, by default or relative, edges parallel to the "
        "direction, transformed and mirrored boxes), directions of any length, distances of any sign; connectors of all types with all combinations of angle, bulge, length and "
        "distance options between separated boxes; the monitor recomputes projections, distances and crossings; distinct by operation, corner counts and direction")
QUICK, THOROUGH = 6000, 200000
REQUIRED = {"boxdistance": 369, "circle:positive": 285, "circle:zero": 19, "circlealign": 304, "connector:arc": 129, "connector:curve": 133, "connector:line": 129, "connector:twolines": 116, "contained": 21, "distance": 307, "extent": 227, "group:circle": 18, "group:line": 43, "group:tile": 45, "line:negative": 63, "line:positive": 179, "line:zero": 61, "linealign": 304, "outline": 711, "overlap": 85, "pointdistance": 851, "rect": 630, "short": 3, "shortened": 309, "transformed": 763, "twolines:A1A2": 14, "twolines:A1AM": 16, "twolines:A1L1": 18, "twolines:A1L2": 8, "twolines:A2AM": 14, "twolines:A2L1": 8, "twolines:A2L2": 15, "twolines:AML1": 9, "twolines:AML2": 9, "twolines:L1L2": 12}
DIRECTED = ["short", "doc", "inside"]
PT = 72/2.54


# ---------------------------------------------------------------- geometry
def sub(a, b): return a[0] - b[0], a[1] - b[1]
def add(a, b): return a[0] + b[0], a[1] + b[1]
def dot(a, b): return a[0]*b[0] + a[1]*b[1]
def cross(a, b): return a[0]*b[1] - a[1]*b[0]


def segdist(p, a, b):
    d = sub(b, a); n = dot(d, d)
    t = 0 if n == 0 else min(1, max(0, dot(sub(p, a), d)/n))
    return math.dist(p, (a[0] + t*d[0], a[1] + t*d[1]))


def sides(c): return [(c[i - 1], c[i]) for i in range(len(c))]


def inside(p, c):
    s = [cross(sub(b, a), sub(p, a)) for a, b in sides(c)]
    return all(x >= 0 for x in s) or all(x <= 0 for x in s)


def outdist(p, c):
    "signed distance: negative inside"
    d = min(segdist(p, a, b) for a, b in sides(c))
    return -d if inside(p, c) else d


def segseg(a, b, c, d):
    def orient(p, q, r): return cross(sub(q, p), sub(r, p))
    if orient(a, b, c)*orient(a, b, d) < 0 and orient(c, d, a)*orient(c, d, b) < 0: return 0
    return min(segdist(a, c, d), segdist(b, c, d), segdist(c, a, b), segdist(d, a, b))


def polydist(A, B):
    if inside(A[0], B) or inside(B[0], A): return 0
    return min(segseg(a, b, c, d) for a, b in sides(A) for c, d in sides(B))


# ---------------------------------------------------------------- boxes
def convex(rng, scale):
    k = rng.random()
    if k < .25:
        w, h = rng.uniform(.2, 2)*scale, rng.uniform(.2, 2)*scale
        c = [(0, 0), (w, 0), (w, h), (0, h)]
    elif k < .5:
        n = rng.randint(3, 12); a0 = rng.choice([0, rng.uniform(0, 7)]); rx, ry = scale, scale*rng.choice([1, 1, .3, rng.uniform(.1, 2)])
        c = [(rx*math.cos(a0 + 2*math.pi*i/n), ry*math.sin(a0 + 2*math.pi*i/n)) for i in range(n)]
    else:
        n = rng.randint(3, 8)
        while True:
            a = sorted(rng.uniform(0, 2*math.pi) for i in range(n))
            if min((a[i] - a[i - 1]) % (2*math.pi) for i in range(n)) > .15: break
        s = rng.uniform(.3, 1.5)
        c = [(scale*math.cos(x), s*scale*math.sin(x)) for x in a]
    if rng.random() < .3:
        r = rng.uniform(0, 7); c = [(x*math.cos(r) - y*math.sin(r), x*math.sin(r) + y*math.cos(r)) for x, y in c]
    o = (rng.uniform(-3, 3)*scale, rng.uniform(-3, 3)*scale) if rng.random() < .7 else (0, 0)
    return [add(p, o) for p in c]


def centre(rng, c):
    k = rng.random()
    mean = (sum(p[0] for p in c)/len(c), sum(p[1] for p in c)/len(c))
    if k < .3: return None, mean
    if k < .4: return c[0], c[0]
    if k < .5: a, b = rng.choice(sides(c)); return ((a[0] + b[0])/2, (a[1] + b[1])/2), ((a[0] + b[0])/2, (a[1] + b[1])/2)
    w = [rng.random() for p in c]; s = sum(w)
    q = (sum(x*p[0] for x, p in zip(w, c))/s, sum(x*p[1] for x, p in zip(w, c))/s)
    return q, q


def cm(v): return v/PT


def makebox(rng, mon, scale=None, middle=False):
    "(box, corners in pt, centre in pt)"
    scale = scale or rng.choice([.05, 10, 10, 10, 1e3])
    c = convex(rng, scale)
    ctr, q = centre(rng, c)
    if middle:
        ctr = q = (sum(p[0] for p in c)/len(c), sum(p[1] for p in c)/len(c))
        if rng.random() < .3: ctr = None
    k = rng.random()
    if k < .25:
        x, y, w, h = c[0][0], c[0][1], rng.uniform(.2, 2)*scale, rng.uniform(.2, 2)*scale
        rel = (rng.choice([0, .5, 1, rng.random()]), rng.choice([0, .5, 1, rng.random()])) if not middle else (.5, .5); absol = (0, 0)
        if rng.random() < .2: rel = (0, 0); absol = (rng.random()*w, rng.random()*h)
        c = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]; q = (x + rel[0]*w + absol[0], y + rel[1]*h + absol[1])
        kw = {}
        if rel != (0, 0): kw["relcenter"] = rel
        if rng.random() < .5:
            if absol != (0, 0): kw["abscenter_pt"] = absol
            b = box.rect_pt(x, y, w, h, **kw)
        else:
            if absol != (0, 0): kw["abscenter"] = (cm(absol[0]), cm(absol[1]))
            b = box.rect(cm(x), cm(y)*unit.t_cm, cm(w), cm(h), **kw)
        mon.count("rect")
    elif k < .6: b = box.polygon_pt(rng.choice([list, tuple])(c), **({"center": ctr} if ctr is not None else {}))
    else: b = box.polygon(corners=[(cm(p[0]), cm(p[1])) for p in c], **({"center": (cm(ctr[0]), cm(ctr[1]))} if ctr is not None else {}))
    if rng.random() < .3:
        t = rng.choice([trafo.rotate(rng.uniform(0, 360)), trafo.rotate(90), trafo.scale(rng.uniform(.5, 2), rng.uniform(.5, 2)), trafo.translate(1, -2), trafo.mirror(rng.uniform(0, 180)),
                        trafo.slant(rng.uniform(-1, 1)), trafo.scale(-1, 1)])
        if rng.random() < .5: b.transform(t); f = t.apply_pt
        else:
            b.reltransform(t); o = t.apply_pt(0, 0)
            f = lambda x, y: add(t.apply_pt(x - q[0], y - q[1]), q)
        c = [f(*p) for p in c]; q = f(*q)
        mon.count("transformed")
    near(mon, b.center, q, scale, "center")
    return b, c, q


def near(mon, a, b, scale, mech, tol=1e-8):
    mon.check(math.dist(a, b) < tol*(scale + abs(b[0]) + abs(b[1])), mech, lambda: "%r instead of %r" % (a, b))


def sameset(mon, b, c, mech, scale):
    "the box has exactly these corners"
    got = list(b.corners)
    mon.check(len(got) == len(c), mech, lambda: "%d corners" % len(got))
    for p in c: mon.check(min(math.dist(p, g) for g in got) < 1e-7*(scale + abs(p[0]) + abs(p[1])), mech, lambda: "corner %r is missing in %r" % (p, got))


def outline(mon, b, c, scale):
    "the path of the box"
    np = b.path().normpath()
    mon.check(len(np.normsubpaths) == 1 and np.normsubpaths[0].closed, "path", lambda: "%d subpaths" % len(np.normsubpaths))
    pts = [it.atbegin_pt() for it in np.normsubpaths[0]]
    mon.check(len(pts) == len(c), "path", lambda: "%d edges" % len(pts))
    for p in c:
        mon.check(min(math.dist(p, g) for g in pts) < 1e-4 + 1e-7*scale, "path", lambda: "corner %r is not on the outline %r" % (p, pts))


def direction(rng, c):
    k = rng.random()
    if k < .3: a, b = rng.choice(sides(c)); d = sub(b, a); d = rng.choice([(d[1], -d[0]), (-d[1], d[0]), d, (-d[0], -d[1])])
    elif k < .5: d = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1)])
    elif k < .6: i = rng.randrange(len(c)); d = sub(c[i], c[i - 1 - rng.randrange(len(c) - 1)])
    else: x = rng.uniform(0, 7); d = (math.cos(x), math.sin(x))
    if math.hypot(*d) == 0: d = (1, 0)
    f = rng.choice([1, 1, 1, 3, .2, 100]); n = math.hypot(*d)
    if k < .3 or .5 <= k < .6: d = (d[0]/n, d[1]/n)
    return d[0]*f, d[1]*f


def wantline(c, q, a, e): return a - min(dot(sub(p, q), e) for p in c)


def wantcircle(c, q, a, e):
    "the shift along e that brings the box to the distance a of q, moving outwards"
    f = lambda t: outdist(q, [(p[0] + t*e[0], p[1] + t*e[1]) for p in c])
    r = max(math.dist(p, q) for p in c)
    lo, hi = 0, 2*r + 2*a + 1e-9
    while f(hi) < a: hi *= 2
    for i in range(200):
        mid = (lo + hi)/2
        if f(mid) < a or (a == 0 and f(mid) <= 0): lo = mid
        else: hi = mid
    return hi


def align(rng, mon):
    b, c, q = makebox(rng, mon)
    scale = max(math.dist(p, q) for p in c)
    d = direction(rng, c); n = math.hypot(*d); e = d[0]/n, d[1]/n
    kind = rng.choice(["line", "circle"])
    a = rng.choice([0, scale, 10*scale, .1*scale, rng.uniform(0, 3)*scale])
    if kind == "line" and rng.random() < .25: a = -a
    if kind == "circle" and a == 0 and rng.random() < .5: a = scale
    mon.describe("%s align at %r in direction %r: corners %r, centre %r" % (kind, a, d, c, q))
    w = wantline(c, q, a, e) if kind == "line" else wantcircle(c, q, a, e)
    if kind == "circle" and outdist(q, c) > -1e-6*scale and (w < -1e-6*scale or a == 0): raise Skip
    v = (w*e[0], w*e[1])
    tol = 1e-6*scale + (1e-5*scale + 1e-4*min(scale, 1) if kind == "circle" and a == 0 else 0)
    how = rng.randrange(4)
    ispt = rng.random() < .5
    if how < 2:
        f = getattr(b, "%salignvector%s" % (kind, "_pt" if ispt else ""))
        r = f(a if ispt else cm(a), *d)
        mon.check(r is not None, kind + "align", lambda: "no vector")
        r = tuple(unit.topt(x) if not ispt else x for x in r)
        mon.check(math.dist(r, v) < tol, kind + "align", lambda: "vector %r instead of %r" % (r, v))
        sameset(mon, b, c, "side-effect", scale)
    else:
        f = getattr(b, "%salign%s" % (kind, "_pt" if ispt else ""))
        r = f(a if ispt else cm(a)*unit.t_cm, *d)
        mon.check(r is b, "return", lambda: "%r" % r)
        r = sub(b.center, q)
        mon.check(math.dist(r, v) < tol, kind + "align", lambda: "moved by %r instead of %r" % (r, v))
        sameset(mon, b, [add(p, r) for p in c], "align:corners", scale)
        # touching and not crossing
        if kind == "line": m = min(dot(sub(p, q), e) for p in b.corners)
        else: m = outdist(q, list(b.corners)) if a else a
        mon.check(abs(m - a) < 2e-6*scale + tol, kind + ":touch", lambda: "the box is at the distance %r instead of %r" % (m, a))
        if rng.random() < .1: outline(mon, b, [add(p, r) for p in c], scale)
    mon.count("%salign" % kind); mon.count("%s:%s" % (kind, "zero" if a == 0 else "negative" if a < 0 else "positive"))
    mon.nontrivial((kind, len(c), round(math.atan2(e[1], e[0]), 1), how))


def measures(rng, mon):
    b, c, q = makebox(rng, mon)
    scale = max(math.dist(p, q) for p in c)
    mon.describe("corners %r" % (c,))
    d = direction(rng, c); n = math.hypot(*d); e = d[0]/n, d[1]/n
    w = max(dot(p, e) for p in c) - min(dot(p, e) for p in c)
    g = b.extent_pt(*d) if rng.random() < .5 else unit.topt(b.extent(*d))
    mon.check(abs(g - w) < 1e-7*scale, "extent", lambda: "%r instead of %r in direction %r" % (g, w, d)); mon.count("extent")
    bb = b.bbox(); got = [unit.topt(x()) for x in (bb.left, bb.bottom, bb.right, bb.top)]
    wb = [min(p[0] for p in c), min(p[1] for p in c), max(p[0] for p in c), max(p[1] for p in c)]
    mon.check(all(abs(x - y) < 1e-8*(scale + abs(y)) for x, y in zip(got, wb)), "bbox", lambda: "%r instead of %r" % (got, wb))
    for i in range(4):
        p = (q[0] + rng.uniform(-4, 4)*scale, q[1] + rng.uniform(-4, 4)*scale)
        if rng.random() < .3: s = rng.choice(c); p = add(s, (rng.choice([0, 1, -1])*scale, rng.choice([0, 1, -1])*scale))
        w = outdist(p, c)
        if w <= 0: continue
        g = b.pointdistance_pt(*p) if rng.random() < .5 else unit.topt(b.pointdistance(cm(p[0]), cm(p[1])))
        mon.check(abs(g - w) < 1e-7*scale, "pointdistance", lambda: "%r instead of %r for %r" % (g, w, p)); mon.count("pointdistance")
    outline(mon, b, c, scale)
    if rng.random() < .3:
        np = b.path(centerradius=cm(scale/20)).normpath()
        mon.check(len(np.normsubpaths) == 2, "path:center", lambda: "%d" % len(np.normsubpaths))
        x, y = np.normsubpaths[0].at_pt([0])[0]
        mon.check(abs(math.dist((x, y), q) - scale/20) < 1e-3*scale, "path:center", lambda: "circle through %r about %r" % ((x, y), q))
    # another box
    b2, c2, q2 = makebox(rng, mon, scale)
    if rng.random() < .7:
        sh = sub(add(q, (rng.uniform(-4, 4)*scale, rng.uniform(-4, 4)*scale)), q2)
        b2.transform(trafo.translate_pt(*sh)); c2 = [add(p, sh) for p in c2]
    if rng.random() < .1:
        f = rng.choice([.1, .3]); ins = [(q[0] + f*(p[0] - q[0]), q[1] + f*(p[1] - q[1])) for p in c]
        b2, c2 = box.polygon_pt(ins), ins; mon.count("contained")
    w = polydist(c, c2)
    depth = None
    for x, y in ((b, b2), (b2, b)):
        try: g = x.boxdistance_pt(y) if rng.random() < .5 else unit.topt(x.boxdistance(y))
        except box.BoxCrossError: g = None
        if w == 0:
            if g is not None and g < 1e-6*scale: continue
            mon.check(g is None, "boxdistance:overlap", lambda: "distance %r of overlapping boxes %r and %r" % (g, c, c2)); mon.count("overlap")
        elif w > 1e-6*scale:
            mon.check(g is not None and abs(g - w) < 1e-7*scale, "boxdistance", lambda: "%r instead of %r for %r and %r" % (g, w, c, c2)); mon.count("boxdistance")
    mon.nontrivial(("measure", len(c), len(c2), w == 0))


def groups(rng, mon):
    n = rng.randint(1, 5); scale = 10
    bs = [makebox(rng, mon, scale) for i in range(n)]
    d = direction(rng, bs[0][1]); m = math.hypot(*d); e = d[0]/m, d[1]/m
    kind = rng.choice(["line", "circle", "tile"])
    a = rng.choice([0, 1, 30, rng.uniform(0, 40)])
    if kind == "line" and rng.random() < .4: a = -a
    if kind == "circle" and a == 0: a = 20
    ispt = rng.random() < .5
    mon.describe("%s of %d at %r in direction %r" % (kind, n, a, d))
    l = [b for b, c, q in bs]
    if kind == "tile":
        ext = [max(dot(p, e) for p in c) - min(dot(p, e) for p in c) for b, c, q in bs]
        delta = max(ext) + a
        r = (box.tile_pt if ispt else box.tile)(l, a if ispt else cm(a), *d)
        r = r if ispt else unit.topt(r)
        mon.check(abs(r - delta) < 1e-7*delta + 1e-9, "tile:delta", lambda: "%r instead of %r" % (r, delta))
        for i, (b, c, q) in enumerate(bs):
            v = sub(b.center, q)
            mon.check(math.dist(v, (i*delta*e[0], i*delta*e[1])) < 1e-6*(1 + i*delta), "tile", lambda: "box %d moved by %r, expected %r" % (i, v, (i*delta*e[0], i*delta*e[1])))
            sameset(mon, b, [add(p, v) for p in c], "align:corners", scale)
    else:
        w = max((wantline if kind == "line" else wantcircle)(c, q, a, e) for b, c, q in bs)
        if kind == "circle" and any(outdist(q, c) > -1e-6*scale for b, c, q in bs): raise Skip
        f = getattr(box, "%salignequal%s" % (kind, "_pt" if ispt else ""))
        f(l, a if ispt else cm(a), *d)
        for b, c, q in bs:
            v = sub(b.center, q)
            mon.check(math.dist(v, (w*e[0], w*e[1])) < 1e-5*scale, kind + "alignequal", lambda: "moved by %r instead of %r" % (v, (w*e[0], w*e[1])))
            sameset(mon, b, [add(p, v) for p in c], "align:corners", scale)
    mon.count("group:" + kind); mon.nontrivial(("group", kind, n, round(math.atan2(e[1], e[0]), 1)))


# ---------------------------------------------------------------- connectors
def arcf(p, q, bulge):
    "point at t of the arc with the given bulge to the left"
    d = math.dist(p, q); u = sub(q, p); u = u[0]/d, u[1]/d; left = (-u[1], u[0])
    if abs(bulge) < 1e-5: return lambda t: (p[0] + t*(q[0] - p[0]), p[1] + t*(q[1] - p[1]))
    th = 4*math.atan(2*abs(bulge)/d)              # full angle
    r = d/2/math.sin(th/2)
    s = 1 if bulge > 0 else -1
    def f(t):
        x = -th/2 + t*th                          # angle from the axis of symmetry
        along, up = r*math.sin(x), r*math.cos(x) - r*math.cos(th/2)
        return (p[0] + (d/2 + along)*u[0] + s*up*left[0], p[1] + (d/2 + along)*u[1] + s*up*left[1])
    return f


def bezier(*P):
    def f(t):
        a, b, c, d = (1 - t)**3, 3*t*(1 - t)**2, 3*t*t*(1 - t), t**3
        return tuple(a*P[0][k] + b*P[1][k] + c*P[2][k] + d*P[3][k] for k in (0, 1))
    return f


def polyline(*P):
    L = [math.dist(a, b) for a, b in zip(P, P[1:])]; S = sum(L)
    def f(t):
        s = t*S
        for a, b, l in zip(P, P[1:], L):
            if s <= l or b is P[-1]: u = min(1, s/l) if l else 0; return (a[0] + u*(b[0] - a[0]), a[1] + u*(b[1] - a[1]))
            s -= l
    return f


def crossings(g, lo, hi, N=400):
    "parameters where g changes its sign; Skip when it comes close to zero without"
    ts = [lo + (hi - lo)*i/N for i in range(N + 1)]; v = [g(t) for t in ts]; out = []
    for i in range(N):
        if (v[i] < 0) != (v[i + 1] < 0):
            a, b = ts[i], ts[i + 1]; s = v[i] < 0
            for k in range(60):
                m = (a + b)/2
                if (g(m) < 0) == s: a = m
                else: b = m
            out.append((a + b)/2)
    for i in range(1, N):
        if abs(v[i]) < abs(v[i - 1]) and abs(v[i]) < abs(v[i + 1]) and (v[i] < 0) == (v[i - 1] < 0) == (v[i + 1] < 0) and abs(v[i]) < 3*max(abs(v[i] - v[i - 1]), abs(v[i] - v[i + 1])): raise Skip
    return out


def cut(mon, f, c1, c2, dists, tolerant=False):
    "range of the parameter left over by the boxes and distances"
    t1, t2 = 0, 1
    x = crossings(lambda t: outdist(f(t), c1), 0, 1)
    if x: t1 = x[-1]
    x = crossings(lambda t: outdist(f(t), c2), t1, 1)
    x = [t for t in x if t > t1 + 1e-9]
    if x: t2 = x[0]
    a, b = f(t1), f(t2)
    if dists[0] > 0:
        x = crossings(lambda t: math.dist(f(t), a) - dists[0], t1, t2)
        if x: t1 = x[-1]; mon.count("shortened")
        elif math.dist(a, b) < dists[0]*1.01: mon.count("too long"); raise Skip
    if dists[1] > 0:
        x = crossings(lambda t: math.dist(f(t), b) - dists[1], t1, t2)
        if x: t2 = x[0]; mon.count("shortened")
        else: mon.count("too long"); raise Skip
    return t1, t2


def connectors(rng, mon):
    scale = rng.choice([5, 30, 30, 200])
    b1, c1, q1 = makebox(rng, mon, scale, True)
    b2, c2, q2 = makebox(rng, mon, scale*rng.choice([1, 1, .3]), True)
    k = rng.random()
    a = rng.choice([0, 90, 180, 270, 45]) if k < .3 else rng.uniform(0, 360)
    r = max(math.dist(p, q1) for p in c1) + max(math.dist(p, q2) for p in c2)
    L = r*rng.choice([rng.uniform(1.02, 1.2), rng.uniform(1.1, 4)])
    q = (q1[0] + L*math.cos(math.radians(a)), q1[1] + L*math.sin(math.radians(a)))
    s = sub(q, q2); b2.transform(trafo.translate_pt(*s)); c2 = [add(p, s) for p in c2]; q2 = q
    L = math.dist(q1, q2)
    gap = L - r
    dangle = math.degrees(math.atan2(q2[1] - q1[1], q2[0] - q1[0]))
    ispt = rng.random() < .5
    U = (lambda x: x) if ispt else (lambda x: rng.choice([cm(x), x*unit.t_pt]))
    kind = rng.choice(["line", "arc", "curve", "twolines"])
    kw = {}; M = None
    if kind == "line": f = polyline(q1, q2)
    elif kind == "arc":
        m = rng.randrange(4)
        if m == 0: ra = 45; bulge = .5*L*math.tan(math.radians(22.5))
        elif m == 1: ra = rng.choice([0, 90, -90, 135, -45, rng.uniform(-170, 170)]); kw["relangle"] = ra; bulge = .5*L*math.tan(math.radians(ra/2))
        else:
            bulge = 0
            if m == 2 or rng.random() < .3: rb = rng.choice([0, .5, -.5, .2, rng.uniform(-.95, .95), rng.uniform(-2, 2)]); kw["relbulge"] = rb; bulge += rb*L
            if m == 3: ab = rng.uniform(-.9, .9)*L; kw["absbulge"] = U(ab); bulge += ab
            if rng.random() < .3: kw["relangle"] = 77
            if abs(bulge) > 2.2*L: raise Skip
        if 0 < abs(bulge) < 1e-3: raise Skip
        if abs(bulge) > 2.2*L: raise Skip
        f = arcf(q1, q2, bulge)
    elif kind == "curve":
        a1 = a2 = dangle + 45
        if rng.random() < .6: x = rng.uniform(-90, 90); kw["relangle1"] = x; a1 = dangle + x
        if rng.random() < .6: x = rng.uniform(-90, 90); kw["relangle2"] = x; a2 = dangle + x
        if rng.random() < .3: x = rng.uniform(-70, 70) + dangle; kw["absangle1"] = x; a1 = x
        if rng.random() < .3: x = rng.uniform(-70, 70) + dangle; kw["absangle2"] = x; a2 = x
        bulge = .39*L
        if rng.random() < .5: x = rng.uniform(.1, .8); kw["relbulge"] = x; bulge = x*L
        if rng.random() < .3: x = rng.uniform(0, .4)*L; kw["absbulge"] = U(x); bulge += x
        e1, e2 = (math.cos(math.radians(a1)), math.sin(math.radians(a1))), (math.cos(math.radians(a2)), math.sin(math.radians(a2)))
        f = bezier(q1, (q1[0] + bulge*e1[0], q1[1] + bulge*e1[1]), (q2[0] - bulge*e2[0], q2[1] - bulge*e2[1]), q2)
    else:
        # a triangle on the right hand side (or the left hand side with negative angles)
        al, be = rng.uniform(15, 75), rng.uniform(15, 75)
        if rng.random() < .1: al = be = 45
        sg = rng.choice([1, 1, -1])
        ga = 180 - al - be
        l1, l2 = L*math.sin(math.radians(be))/math.sin(math.radians(ga)), L*math.sin(math.radians(al))/math.sin(math.radians(ga))
        d1 = math.radians(dangle - sg*al)
        M = (q1[0] + l1*math.cos(d1), q1[1] + l1*math.sin(d1))
        d2 = math.degrees(math.atan2(M[1] - q2[1], M[0] - q2[0]))        # from the end to the middle
        A1 = lambda: {"relangle1": sg*al} if rng.random() < .5 else {"absangle1": dangle - sg*al}
        A2 = lambda: {"relangle2": sg*be} if rng.random() < .5 else {"absangle2": d2}
        AM = lambda: {"relangleM": sg*ga}
        L1 = lambda: {"length1": U(l1)}
        L2 = lambda: {"length2": U(l2)}
        opts = [(A1, A2), (A1, AM), (A2, AM), (L1, L2), (A1, L1), (A2, L2)]
        if rng.random() < .3: opts = [(A1, L2), (A2, L1), (AM, L1), (AM, L2)]
        o = rng.choice(opts)
        if o == (L1, L2) and sg < 0: o = (A1, L1)
        if AM in o and (L1 in o or L2 in o) and sg < 0: sg = 1; d1 = math.radians(dangle - al); M = (q1[0] + l1*math.cos(d1), q1[1] + l1*math.sin(d1)); d2 = math.degrees(math.atan2(M[1] - q2[1], M[0] - q2[0]))
        for x in o: kw.update(x())
        names = sorted("L" + x[-1] if x.startswith("length") else "A" + x[-1] for x in kw)
        if names in (["A1", "L2"], ["A2", "L1"], ["AM", "L1"], ["AM", "L2"]):
            # the law of sines allows for two triangles: take the one that is smaller
            if names == ["A1", "L2"]: x = L*math.cos(math.radians(al)); y = math.sqrt(max(0, x*x - L*L + l2*l2)); n1 = x - y if x > y else x + y; n2 = l2
            elif names == ["A2", "L1"]: x = L*math.cos(math.radians(be)); y = math.sqrt(max(0, x*x - L*L + l1*l1)); n2 = x - y if x > y else x + y; n1 = l1
            else:
                l, o_ = (l1, l2) if names[1] == "L1" else (l2, l1)
                x = l*math.cos(math.radians(ga)); y = math.sqrt(max(0, x*x - l*l + L*L)); n = x - y if x > y else x + y
                n1, n2 = (l1, n) if names[1] == "L1" else (n, l2)
            cosa = (L*L + n1*n1 - n2*n2)/(2*L*n1)
            if abs(cosa) > .999 or abs(y) < 1e-3*L: raise Skip
            x = math.radians(dangle) - sg*math.acos(cosa)
            M = (q1[0] + n1*math.cos(x), q1[1] + n1*math.sin(x))
        mon.count("twolines:" + "".join(names))
        if outdist(M, c1) < .01*scale or outdist(M, c2) < .01*scale: raise Skip
        f = polyline(q1, M, q2)
    dists = (0, 0)
    far = 1
    if kind in ("arc", "curve") and rng.random() < .4: far = 2.5
    if rng.random() < .6: dists = (rng.choice([0, rng.uniform(.02, .45*far)*gap]), rng.choice([0, rng.uniform(.02, .45*far)*gap])); kw["boxdists"] = rng.choice([list, tuple])((U(dists[0]), U(dists[1])))
    mon.describe("%s %r from %r %r to %r %r" % (kind, kw, q1, c1, q2, c2))
    t1, t2 = cut(mon, f, c1, c2, dists)
    cn = getattr(connector, kind + ("_pt" if ispt else ""))(b1, b2, **kw)
    pp = lambda p: (unit.topt(p[0]), unit.topt(p[1]))
    s, e = pp(cn.atbegin()), pp(cn.atend())
    w1, w2 = f(t1), f(t2)
    tol = 2e-4 + 3e-5*L
    if kind == "arc": tol += 3e-4*L
    # the crossing is badly defined where the curve leaves at a small angle
    def steep(t, sgn):
        h = 1e-5; a, b = f(t - h) if t > h else f(t), f(t + h) if t < 1 - h else f(t)
        return a, b
    for got, w, t, c, what, dd, u in ((s, w1, t1, c1, "begin", dists[0], "1"), (e, w2, t2, c2, "end", dists[1], "2")):
        if dd == 0:
            h = 1e-4; p0, p1 = f(max(0, t - h)), f(min(1, t + h)); v = math.dist(p0, p1)
            slope = abs(outdist(p0, c) - outdist(p1, c))/v if v else 0
            if slope < .05: raise Skip
            mon.check(math.dist(got, w) < tol/slope, kind + ":" + what, lambda: "%s at %r instead of %r" % (what, got, w))
            mon.check(abs(outdist(got, c)) < 1e-4 + 1e-6*L, kind + ":outline", lambda: "%s is %r away from the outline" % (what, outdist(got, c))); mon.count("outline")
        else:
            mon.check(math.dist(got, w) < 10*tol, kind + ":" + what, lambda: "%s at %r instead of %r" % (what, got, w)); mon.count("distance")
    # the points in between
    mon.check(len(cn.normsubpaths) == 1, kind + ":pieces", lambda: "%d subpaths" % len(cn.normsubpaths))
    S = [f(t1 + (t2 - t1)*i/300) for i in range(301)]
    if M is not None:
        tm = math.dist(q1, M)/(math.dist(q1, M) + math.dist(M, q2))
        if t1 < tm < t2: S.insert(next(i for i in range(301) if t1 + (t2 - t1)*i/300 >= tm), M)
    N = 8
    al = unit.topt(cn.arclen())
    ref = sum(math.dist(a, b) for a, b in zip(S, S[1:]))
    mon.check(abs(al - ref) < 20*tol + 1e-3*ref, kind + ":length", lambda: "length %r instead of %r" % (al, ref))
    for p in cn.at(cn.arclentoparam([al*i/N*unit.t_pt for i in range(N + 1)])):
        p = pp(p)
        d = min(segdist(p, a, b) for a, b in zip(S, S[1:]))
        mon.check(d < tol + 1e-5*L, kind + ":shape", lambda: "%r is %r away from the expected curve" % (p, d))
    if M is not None and t1 < math.dist(q1, M)/(math.dist(q1, M) + math.dist(M, q2)) < t2:
        d = min(segdist(M, a, b) for ns in cn.normsubpaths for a, b in [(it.atbegin_pt(), it.atend_pt()) for it in ns])
        mon.check(d < tol, kind + ":corner", lambda: "the path misses the corner %r by %r" % (M, d))
    # angles at the ends of uncut geometry are covered by the shape; the connector is a path
    c = canvas.canvas(); c.stroke(cn)
    mon.count("connector:" + kind); mon.nontrivial((kind, tuple(sorted(kw)), round(a), len(c1), len(c2)))


def short(mon):
    "distances longer than the connector"
    for kind in ("line", "arc", "curve"):
        for d in ((20, 0), (0, 20), (20, 20), (9, 9)):
            b1, b2 = box.rect(0, 0, 1, 1, relcenter=(.5, .5)), box.rect(5, 0, 1, 1, relcenter=(.5, .5))
            mon.describe("%s %r" % (kind, d))
            cn = getattr(connector, kind)(b1, b2, boxdists=d)
            mon.check(len(cn.normsubpaths) <= 1, "short", lambda: "%d" % len(cn.normsubpaths)); mon.count("short")
    mon.nontrivial("short")


def doc(mon):
    "values that can be read off the figures of the manual"
    b1, b2 = box.rect_pt(-1, -1, 2, 2, relcenter=(.5, .5)), box.rect_pt(99, -1, 2, 2, relcenter=(.5, .5))
    pp = lambda p: (unit.topt(p[0]), unit.topt(p[1]))
    a = connector.arc_pt(b1, b2, relangle=60)
    m = pp(a.at(.5*a.arclen()))
    mon.check(math.dist(m, (50, 50*math.tan(math.radians(30)))) < .01, "doc:arc", lambda: "%r" % (m,))
    a = connector.arc_pt(b1, b2, relbulge=-.3); m = pp(a.at(.5*a.arclen()))
    mon.check(math.dist(m, (50, -30)) < .01, "doc:arc", lambda: "%r" % (m,))
    c = connector.curve_pt(b1, b2, relangle1=60, relangle2=30, relbulge=.5)
    t = c.tangent(c.begin()); x, y = (unit.topt(v) for v in t.atend()); x0, y0 = (unit.topt(v) for v in t.atbegin())
    g = math.degrees(math.atan2(y - y0, x - x0)); mon.check(50 < g <= 60.1, "doc:curve", lambda: "direction %r" % g)
    t = c.tangent(c.end()); x, y = (unit.topt(v) for v in t.atend()); x0, y0 = (unit.topt(v) for v in t.atbegin())
    g = math.degrees(math.atan2(y - y0, x - x0)); mon.check(20 < g < 31, "doc:curve", lambda: "direction %r" % g)
    mon.count("doc"); mon.nontrivial("doc")


def inside_(mon):
    b1, b2 = box.rect(0, 0, 10, 10), box.rect(4, 4, 1, 1)
    for x, y in ((b1, b2), (b2, b1)):
        try: d = x.boxdistance(y)
        except box.BoxCrossError: mon.count("inside")
        else: mon.fail("boxdistance:overlap", "distance %r of a box inside of another" % d)
    mon.nontrivial("inside")


def run_case(kind, i, rng, mon):
    if kind == "short": return short(mon)
    if kind == "doc": return doc(mon)
    if kind == "inside": return inside_(mon)
    k = rng.random()
    if k < .4: return align(rng, mon)
    if k < .55: return measures(rng, mon)
    if k < .65: return groups(rng, mon)
    connectors(rng, mon)
