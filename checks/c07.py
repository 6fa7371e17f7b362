"""C07: intersections against exact rational polygon crossings and Newton-refined curve crossings."""
import math
from fractions import Fraction as F
import numpy as np
import geo, gen
from harness import Skip
from pyx import path, normpath, trafo

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("pairs of random paths: (a) polygons and polylines on a small integer lattice, all meeting points computed in exact rational arithmetic "
        "(corner hits, touches, closing points included; pairs with overlapping edges left out), (b) curved paths with crossings "
        "found on a fine polyline and refined by Newton; distinct by the pair, non-trivial with at least one crossing")
QUICK, THOROUGH = 5000, 120000
REQUIRED = {"lattice": 300, "curved": 300, "crossing": 1500, "corner hit": 150, "swap": 500, "closing point": 20, "short": 50}
DIRECTED = ["circles", "short", "selfpieces", "steep", "tangent"]
ASSUMPTIONS = ["crossings at an angle below 0.1 rad or closer to another crossing than 0.02 of the magnitude are not required to be reported, only to be sound"]
CPU = 120


def lattice(rng, n=None, closed=None):
    m = rng.choice([4, 6, 10])
    n = n or rng.randint(2, 6)
    while True:
        pts = [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
        if all(a != b for a, b in zip(pts, pts[1:])) and (n > 2 or True):
            break
    closed = (rng.random() < 0.5 and n > 2) if closed is None else closed
    if closed and pts[0] == pts[-1]: closed = False
    return pts, closed


def mk(pts, closed, k=1.0, off=(0, 0)):
    q = [(k*x+off[0], k*y+off[1]) for x, y in pts]
    items = [path.moveto_pt(*q[0])] + [path.lineto_pt(*x) for x in q[1:]]
    if closed: items.append(path.closepath())
    return path.path(*items)


def edges(pts, closed):
    e = list(zip(pts, pts[1:]))
    if closed: e.append((pts[-1], pts[0]))
    return e


def exact(P, pc, Q, qc):
    """set of (edge index + parameter) pairs, or None when edges overlap"""
    res = set()
    ep, eq = edges(P, pc), edges(Q, qc)
    for i, (a, b) in enumerate(ep):
        for j, (c, d) in enumerate(eq):
            r = (b[0]-a[0], b[1]-a[1]); s = (d[0]-c[0], d[1]-c[1])
            det = r[0]*s[1]-r[1]*s[0]
            w = (c[0]-a[0], c[1]-a[1])
            if det == 0:
                if w[0]*r[1]-w[1]*r[0] != 0: continue
                # collinear: admissible only when disjoint
                t0 = F(w[0]*r[0]+w[1]*r[1], r[0]**2+r[1]**2)
                t1 = F((d[0]-a[0])*r[0]+(d[1]-a[1])*r[1], r[0]**2+r[1]**2)
                lo, hi = min(t0, t1), max(t0, t1)
                if hi < 0 or lo > 1: continue
                if hi == 0 or lo == 1:
                    t = F(0) if hi == 0 else F(1)
                    u = F(0) if (t0 == t) else F(1)
                else:
                    return None
            else:
                t = F(w[0]*s[1]-w[1]*s[0], det); u = F(w[0]*r[1]-w[1]*r[0], det)
                if not (0 <= t <= 1 and 0 <= u <= 1): continue
            x, y = i+t, j+u
            if pc and x == len(ep): x = F(0)
            if qc and y == len(eq): y = F(0)
            res.add((x, y))
    return res


def point(pts, closed, x):
    e = edges(pts, closed)
    i = min(int(x), len(e)-1)
    t = x-i
    a, b = e[i]
    return (a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1]))


def match(got, want, tol, mon, mech, ctx):
    "one-to-one assignment of points in the plane of positions"
    left = list(want)
    for g in got:
        best = min(left, key=lambda w: dist(g, w), default=None)
        mon.check(best is not None and dist(g, best) <= tol, mech, lambda: "%s: reported %r has no counterpart in %r (all reported %r)" % (ctx, g, want, got))
        left.remove(best)
    mon.check(not left, mech, lambda: "%s: not reported: %r (reported %r)" % (ctx, left, got))


def dist(a, b):
    return max(abs(x-y) for x, y in zip(a, b))


def run_case(kind, i, rng, mon):
    if kind != "gen":
        return globals()["d_" + kind](rng, mon)
    (lat if rng.random() < 0.6 else curved)(rng, mon)


def lat(rng, mon):
    k = rng.choice([1.0, 1.0, 3.0, 28.3464567, 0.37])
    off = rng.choice([(0, 0), (0, 0), (100.3, -7.7)])
    P, pc = lattice(rng); Q, qc = lattice(rng)
    mon.describe((k, off, P, pc, Q, qc))
    want = exact(P, pc, Q, qc)
    if want is None: raise Skip
    # positions along the path as arc length identify a point independently of internal parameters
    p, q = mk(P, pc, k, off), mk(Q, qc, k, off)
    if len(p.normpath().normsubpaths[0]) != len(edges(P, pc)) or len(q.normpath().normsubpaths[0]) != len(edges(Q, qc)): raise Skip
    mon.count("lattice")
    if want: mon.nontrivial((P, pc, Q, qc))
    cumP = cum(P, pc, k); cumQ = cum(Q, qc, k)
    W = [(pos(x, cumP), pos(y, cumQ)) for x, y in want]
    def positions(a, b, TP=cumP[-1], TQ=cumQ[-1], pc=pc, qc=qc):
        out = []
        for u, v in zip(a, b):
            s, t = u.arclen_pt(), v.arclen_pt()
            if pc and abs(s-TP) < 1e-4*k: s = 0.0
            if qc and abs(t-TQ) < 1e-4*k: t = 0.0
            out.append((s, t))
        return out
    a, b = p.intersect(q)
    mon.check(len(a) == len(b), "pair-count")
    got = positions(a, b)
    for u, v in zip(a, b):
        mon.ptclose(p.at_pt(u), q.at_pt(v), 3e-5, "unsound", "intersection point")
    mon.count("crossing", len(want))
    mon.count("corner hit", sum(1 for x, y in want if x.denominator == 1 or y.denominator == 1))
    mon.count("closing point", sum(1 for x, y in want if (pc and x == 0) or (qc and y == 0)))
    tol = 2e-3*k
    match(got, W, tol, mon, "lattice", "intersect")
    mon.check(list(a) == sorted(a), "order", lambda: "parameters of the first path are not sorted: %r" % got)
    a2, b2 = q.normpath().intersect(p)
    mon.count("swap")
    got2 = [(y, x) for x, y in positions(a2, b2, cumQ[-1], cumP[-1], qc, pc)]
    match(got2, W, tol, mon, "swapped", "swapped operands")


def cum(pts, closed, k):
    c = [0.0]
    for a, b in edges(pts, closed): c.append(c[-1]+k*math.hypot(b[0]-a[0], b[1]-a[1]))
    return c


def pos(x, c):
    i = min(int(x), len(c)-2)
    return c[i]+float(x-i)*(c[i+1]-c[i])


def polyparam(subs, n=120):
    "fine polyline with (segment, t) per vertex"
    P, S, T = [], [], []
    for s in subs:
        for g in s.segs:
            m = 1 if g.kind == "L" else n
            if g.kind == "A": m = max(12, int(abs(g.a1-g.a0)*25))
            q = g.samples(m) if g.kind != "L" else g.samples()
            for j in range(m):
                P.append((q[j], q[j+1])); S.append(g); T.append((j/m, (j+1)/m))
    return np.array(P), S, T


def crossings(A, B):
    PA, SA, TA = polyparam(A); PB, SB, TB = polyparam(B)
    a, r = PA[:, 0], PA[:, 1]-PA[:, 0]
    c, s = PB[:, 0], PB[:, 1]-PB[:, 0]
    det = r[:, None, 0]*s[None, :, 1]-r[:, None, 1]*s[None, :, 0]
    wx = c[None, :, 0]-a[:, None, 0]; wy = c[None, :, 1]-a[:, None, 1]
    with np.errstate(all="ignore"):
        t = (wx*s[None, :, 1]-wy*s[None, :, 0])/det
        u = (wx*r[:, None, 1]-wy*r[:, None, 0])/det
        e = 0.02
        hit = (t >= -e) & (t <= 1+e) & (u >= -e) & (u <= 1+e)
    out = []
    for i, j in zip(*np.nonzero(hit)):
        g, h = SA[i], SB[j]
        x = TA[i][0]+t[i, j]*(TA[i][1]-TA[i][0]); y = TB[j][0]+u[i, j]*(TB[j][1]-TB[j][0])
        for _ in range(12):
            p, q = g.at(x), h.at(y)
            d, f = g.d(x), h.d(y)
            D = -d[0]*f[1]+d[1]*f[0]
            if D == 0: break
            ex, ey = q[0]-p[0], q[1]-p[1]
            x += (-ex*f[1]+ey*f[0])/D; y += (d[0]*ey-d[1]*ex)/D
            if not (-1 < x < 2 and -1 < y < 2): break
        p, q = g.at(x), h.at(y)
        if math.hypot(p[0]-q[0], p[1]-q[1]) > 1e-7: continue
        if not (-1e-9 <= x <= 1+1e-9 and -1e-9 <= y <= 1+1e-9): continue
        d, f = g.d(x), h.d(y)
        nd, nf = math.hypot(*d), math.hypot(*f)
        ang = abs(d[0]*f[1]-d[1]*f[0])/(nd*nf) if nd*nf > 0 else 0
        interior = 1e-3 < x < 1-1e-3 and 1e-3 < y < 1-1e-3
        if not any(z[0] is g and z[1] is h and abs(z[2]-x) < 1e-6 and abs(z[3]-y) < 1e-6 for z in out):
            out.append((g, h, x, y, p, ang, interior, nd, nf))
    return out


def curved(rng, mon):
    scale = rng.choice([1.0, 1.0, 0.2, 10.0])
    ops = ["moveto", "lineto", "curveto", "curveto", "arc", "arcn", "rcurveto", "closepath", "arct"]
    progs = []
    for _ in range(2):
        for _ in range(10):
            pr = gen.program(rng, rng.randint(2, 4), ops=ops, scale=scale)
            ref = gen.reference(pr)
            if ref and all(s.segs and s.length() > scale for s in ref): break
        else:
            raise Skip
        progs.append((pr, ref))
    (pr1, A), (pr2, B) = progs
    mon.describe((scale, pr1, pr2))
    p = path.path(*gen.pyxitems(pr1, path)); q = path.path(*gen.pyxitems(pr2, path))
    cr = crossings(A, B)
    mon.count("curved")
    if cr: mon.nontrivial((pr1, pr2))
    obj = p if rng.random() < 0.5 else p.normpath()
    a, b = obj.intersect(q)
    mon.check(len(a) == len(b), "pair-count")
    pts = []
    for u, v in zip(a, b):
        x, y = obj.at_pt(u), q.at_pt(v)
        mon.ptclose(x, y, 5e-5, "unsound", "intersection point")
        pts.append((0.5*(x[0]+y[0]), 0.5*(x[1]+y[1])))
    sep = 0.02*max(1, scale)
    for k, c in enumerate(cr):
        g, h, x, y, pt, ang, interior, nd, nf = c
        alone = all(m == k or math.hypot(pt[0]-o[4][0], pt[1]-o[4][1]) > sep for m, o in enumerate(cr))
        # both paths must be regular here: speed not tiny compared with the size
        regular = nd > 0.05*scale and nf > 0.05*scale
        if not (interior and alone and regular and ang > 0.1): continue
        near = [z for z in pts if math.hypot(z[0]-pt[0], z[1]-pt[1]) < 0.3*sep]
        mon.count("crossing")
        mon.check(len(near) == 1, "crossing-count", lambda: "crossing at %r (angle %.3g) reported %d times; reported points %r" % (pt, ang, len(near), pts))
        # arcs are Bezier approximations (5e-6 of the radius); an error normal to a curve is
        # amplified along the other one at small crossing angles
        tol = 2e-4*max(1, scale) + 1e-5*max(gen.extent(A), gen.extent(B))/math.sin(ang)
        mon.ptclose(near[0], pt, tol, "crossing-point")
    # every reported point lies on both reference curves
    if pts:
        arr = np.array(pts)
        for subs, nm in ((A, "first"), (B, "second")):
            d = min_dists(arr, subs)
            mon.check(d <= 2e-4*max(1, scale), "reported-off-curve", lambda: "%g off the %s path" % (d, nm))
    a2, b2 = q.intersect(p)
    mon.count("swap")
    p2 = [p.at_pt(v) for v in b2]
    iso = [z for z in cr]
    if all(c[5] > 0.1 and c[6] for c in cr) and len(pts) == len(cr):
        match([(x[0], x[1]) for x in p2], pts, 2e-4*max(1, scale), mon, "swapped", "swapped operands")


def min_dists(arr, subs):
    best = None
    for s in subs:
        P = geo.Dense(s).p
        d = np.array([geo.polydist(arr[k:k+1], P) for k in range(len(arr))])
        best = d if best is None else np.minimum(best, d)
    return float(best.max())


def d_circles(rng, mon):
    "two circles, circle and line: closed form"
    for j in range(150):
        r1, r2 = rng.uniform(2, 60), rng.uniform(2, 60)
        d = rng.uniform(abs(r1-r2)*1.05+0.1, (r1+r2)*0.97)
        if not abs(r1-r2)*1.04 < d < r1+r2: continue
        phi = rng.choice([0, 90, 180, 270, rng.uniform(0, 360)])
        c2 = (d*math.cos(math.radians(phi)), d*math.sin(math.radians(phi)))
        mon.describe((r1, r2, d, phi))
        p, q = path.circle_pt(0, 0, r1), path.circle_pt(c2[0], c2[1], r2)
        x = (d*d+r1*r1-r2*r2)/(2*d); y = math.sqrt(r1*r1-x*x)
        co, si = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        want = [(x*co-y*si, x*si+y*co), (x*co+y*si, x*si-y*co)]
        a, b = p.intersect(q)
        got = [p.at_pt(u) for u in a]
        match(got, want, 2e-3*(r1+r2)/max(0.05, y/r1)*0.1+1e-3, mon, "circle-circle", "")
        mon.count("crossing", 2)
        # a line through the centre at the start angle of the circle and elsewhere
        ph = rng.choice([0, 180, 90, rng.uniform(0, 360)])
        co, si = math.cos(math.radians(ph)), math.sin(math.radians(ph))
        l = path.line_pt(-2*r1*co, -2*r1*si, 2*r1*co, 2*r1*si)
        a, b = l.intersect(p)
        match([l.at_pt(u) for u in a], [(-r1*co, -r1*si), (r1*co, r1*si)], 1e-3*max(1, r1/20), mon, "circle-line", "angle %r" % ph)
        a, b = p.intersect(l)
        match([l.at_pt(u) for u in b], [(-r1*co, -r1*si), (r1*co, r1*si)], 1e-3*max(1, r1/20), mon, "circle-line", "angle %r swapped" % ph)
        mon.count("closing point", 1 if ph in (0, 180) else 0)


def d_short(rng, mon):
    "short and nearly parallel pieces"
    eps = 1e-5
    for j in range(120):
        x, y = rng.uniform(-50, 50), rng.uniform(-50, 50)
        s = normpath.normline_pt(x, y, x+rng.uniform(-1, 1)*1e-7, y+rng.uniform(-1, 1)*1e-7)
        phi = rng.uniform(0, 6.28)
        l = rng.uniform(1, 30); t = rng.uniform(0.1, 0.9)
        o = normpath.normline_pt(x-t*l*math.cos(phi), y-t*l*math.sin(phi), x+(1-t)*l*math.cos(phi), y+(1-t)*l*math.sin(phi))
        mon.describe((str(s), str(o)))
        mon.count("short")
        for r, w in ((s.intersect(o, eps), t), (tuple(z[::-1] for z in o.intersect(s, eps)), t)):
            mon.check(len(r) == 1 and abs(r[0][1]-w) < 1e-4, "short-line", lambda: "%r expected one at %r" % (r, w))
        far = normpath.normline_pt(x+1, y+2, x+1+1e-7, y+2)
        mon.check(not s.intersect(far, eps) and not o.intersect(normpath.normline_pt(x+40, y+77, x+40, y+77+1e-8), eps), "short-line-far", "")
        # collinear touching lines meet once at their common end
        a = normpath.normline_pt(0, 0, l*math.cos(phi), l*math.sin(phi)); b = normpath.normline_pt(l*math.cos(phi), l*math.sin(phi), 2*l*math.cos(phi), 2*l*math.sin(phi))
        r = a.intersect(b, eps)
        mon.check(len(r) == 1 and abs(r[0][0]-1) < 1e-5 and abs(r[0][1]) < 1e-5, "collinear-touch", lambda: str(r))
        c = normpath.normline_pt(l*1.01*math.cos(phi), l*1.01*math.sin(phi), 2*l*math.cos(phi), 2*l*math.sin(phi))
        mon.check(a.intersect(c, eps) == [] or l*0.01 < 2e-5, "collinear-gap", "")
        # parallel lines at a distance never meet
        n = (-math.sin(phi)*0.01, math.cos(phi)*0.01)
        e = normpath.normline_pt(n[0], n[1], l*math.cos(phi)+n[0], l*math.sin(phi)+n[1])
        mon.check(a.intersect(e, eps) == [], "parallel", "")


def d_selfpieces(rng, mon):
    "pieces of one path meet exactly at the cut"
    for j in range(60):
        b = [rng.uniform(-30, 30) for _ in range(8)]
        p = path.curve_pt(*b)
        L = p.arclen_pt()
        s = rng.uniform(0.3, 0.7)*L
        u, v = p.split_pt([s])
        mon.describe((b, s))
        a, c = u.intersect(v)
        w = p.at_pt(s)
        pts = [u.at_pt(x) for x in a]
        mon.check(any(math.hypot(x[0]-w[0], x[1]-w[1]) < 1e-3 for x in pts), "cut-point", lambda: "%r not in %r" % (w, pts))
        for x, y in zip(a, c): mon.ptclose(u.at_pt(x), v.at_pt(y), 5e-5, "unsound")


def d_steep(rng, mon):
    "a comb of many lines crossing a wavy path: all found, in order, for any epsilon"
    for eps in (1e-5, 1e-3):
        n = 30
        items = [path.moveto_pt(0, 0)]
        for k in range(n):
            items.append(path.curveto_pt(k*10+3, 40*(-1)**k, k*10+7, 40*(-1)**k, k*10+10, 0))
        wave = path.path(*items).normpath(epsilon=eps)
        base = path.line_pt(-5, 10, n*10+5, 10).normpath(epsilon=eps)
        a, b = wave.intersect(base)
        mon.describe(eps)
        mon.check(len(a) == n, "comb-count", lambda: "%d crossings instead of %d" % (len(a), n))
        a, b = base.intersect(wave)
        mon.check(len(a) == n and list(a) == sorted(a), "comb-order")
        grid = path.path(*[it for k in range(n) for it in (path.moveto_pt(k*10+5, -50), path.lineto_pt(k*10+5, 50))]).normpath(epsilon=eps)
        a, b = grid.intersect(wave)
        mon.check(len(a) == n, "comb-grid", lambda: "%d" % len(a))
        for k, (x, y) in enumerate(zip(a, b)):
            q = wave.at_pt(y)
            mon.close(q[0], k*10+5, 1e-2, "comb-grid")
        mon.count("crossing", 3*n)


def d_tangent(rng, mon):
    "touching or overlapping curves are sound"
    for p, q in [(path.circle_pt(0, 0, 10), path.line_pt(-20, 10, 20, 10)), (path.circle_pt(0, 0, 10), path.circle_pt(20, 0, 10)),
                 (path.rect_pt(0, 0, 10, 10), path.rect_pt(10, 0, 10, 10)), (path.rect_pt(0, 0, 10, 10), path.rect_pt(2, 0, 4, 5))]:
        a, b = p.intersect(q)
        for x, y in zip(a, b): mon.ptclose(p.at_pt(x), q.at_pt(y), 5e-5, "unsound")
    p, q = path.circle_pt(0, 0, 10), path.circle_pt(40, 0, 10)
    mon.check(p.intersect(q) == ([], []), "disjoint")
    mon.check(path.path().normpath().intersect(p) == ([], []), "empty")
