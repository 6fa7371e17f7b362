"""C08: parallel, cornersmoothed and cycloid deformers against distance, incidence and smoothness oracles."""
import math
import numpy as np
import geo, gen
from harness import Skip
from pyx import path, normpath, unit, deformer

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("random simple (non self-intersecting) open and closed paths of lines, arcs and mild curves with corners; parallels are compared as point sets with the "
        "offset set computed from the path (distance to the path, side, completeness, continuity, closedness), smoothed corners with the untouched rest of the path, the "
        "corner triangles and tangents at all joints, cycloids with the axis, the radius and the number of loops; distinct by shape class and parameters")
QUICK, THOROUGH = 1200, 40000
REQUIRED = {"cycloid:closed": 21, "cycloid:negative sign": 15, "cycloid:open": 49, "cycloid:point": 4265, "cycloid:undeformed": 93, "parallel:closed": 29, "parallel:inner corners": 43, "parallel:intersection": 71, "parallel:no intersection": 11, "parallel:open": 53, "parallel:opencurve": 6, "parallel:openline": 15, "parallel:openline+arc": 6, "parallel:openline+curve": 5, "parallel:polygoncurve": 5, "parallel:polygonline": 13, "parallel:polygonline+arc": 5, "parallel:polygonline+curve": 5, "parallel:round": 10, "parallel:round corners": 22, "parallel:roundopen": 8, "parallel:sharp corners": 18, "smoothed:closed": 57, "smoothed:corner": 576, "smoothed:curves": 395, "smoothed:lines": 181, "smoothed:open": 95, "smoothed:rest": 402, "smoothed:single": 12}
DIRECTED = ["lines", "circle", "innercircle", "tooshort"]
ASSUMPTIONS = ["paths without self-intersections, distances below the radius of curvature and half the way to remote parts of the path"]
U = 72/2.54


# ---------------------------------------------------------------- paths
def bulge(rng, a, b, how):
    "segment from a to b: a line or a curve of moderate curvature"
    if how == "line": return geo.Line(a, b)
    dx, dy = b[0] - a[0], b[1] - a[1]
    h1, h2 = rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3)
    if how == "arc":
        h1 = h2 = rng.uniform(-0.35, 0.35)
    return geo.Curve(a, (a[0] + dx/3 - h1*dy, a[1] + dy/3 + h1*dx), (a[0] + 2*dx/3 - h2*dy, a[1] + 2*dy/3 + h2*dx), b)


def shape(rng):
    "(segs, closed, description)"
    scale = rng.choice([1.0, 10.0, 10.0, 100.0])*rng.uniform(0.7, 1.5)
    kinds = rng.choice([["line"], ["line"], ["line", "curve"], ["curve"], ["line", "arc"]])
    r = rng.random()
    if r < 0.25:      # round: tangent continuous closed curve
        n = rng.randint(3, 8)
        a0 = rng.uniform(0, 6)
        e = rng.uniform(0.6, 1.0)
        m = (5*scale, 0, 0, 5*scale*e, rng.uniform(-20, 20), rng.uniform(-20, 20))
        segs = []
        L = 4/3*math.tan(math.pi/(2*n))
        sgn = rng.choice([1, -1])
        P = lambda k: (math.cos(a0 + sgn*2*math.pi*k/n), math.sin(a0 + sgn*2*math.pi*k/n))
        for k in range(n):
            p, q = P(k), P(k + 1) if k + 1 < n else P(0)
            segs.append(geo.Curve(*[geo.ap(m, z) for z in (p, (p[0] - sgn*L*p[1], p[1] + sgn*L*p[0]), (q[0] + sgn*L*q[1], q[1] - sgn*L*q[0]), q)]))
        if rng.random() < 0.5: return segs, True, "round"
        return segs[:-1], False, "roundopen"
    if r < 0.6:       # star shaped polygon
        n = rng.randint(3, 8)
        ang = sorted((k + rng.uniform(-0.3, 0.3))*2*math.pi/n for k in range(n))
        off = rng.uniform(-20, 20), rng.uniform(-20, 20)
        pts = []
        for a in ang:
            rr = 5*scale*rng.uniform(0.6, 1.2)
            pts.append((off[0] + rr*math.cos(a), off[1] + rr*math.sin(a)))
        if rng.random() < 0.15: pts = [(off[0] + x*scale, off[1] + y*scale) for x, y in ((0, 0), (6, 0), (6, 4), (0, 4))]
        if rng.random() < 0.5: pts = pts[::-1]
        n = len(pts)
        closed = rng.random() < 0.6
        segs = [bulge(rng, pts[k], pts[(k + 1) % n], rng.choice(kinds)) for k in range(n if closed else n - 1)]
        return segs, closed, "polygon" + "+".join(kinds)
    # monotone polyline
    n = rng.randint(2, 6)
    x = rng.uniform(-20, 20); pts = []
    for k in range(n):
        pts.append((x, rng.uniform(-2, 2)*scale)); x += scale*rng.uniform(2, 5)
    if rng.random() < 0.5: pts = [(y, -x) for x, y in pts]
    if rng.random() < 0.5: pts = pts[::-1]
    segs = [bulge(rng, pts[k], pts[k + 1], rng.choice(kinds)) for k in range(n - 1)]
    return segs, False, "open" + "+".join(kinds)


def real(segs, closed, rng):
    its = [path.moveto_pt(*segs[0].at(0))]
    for k, s in enumerate(segs):
        if s.kind == "L":
            if closed and k == len(segs) - 1: continue
            its.append(path.lineto_pt(*s.p1))
        else: its.append(path.curveto_pt(*s.p[1], *s.p[2], *s.p[3]))
    if closed: its.append(path.closepath())
    p = path.path(*its)
    return p.normpath() if rng.random() < 0.3 else p


N = 160


def sampled(seg, n=N):
    "points, unit tangents and curvature"
    t = np.linspace(0, 1, n + 1)
    if seg.kind == "L":
        p = np.outer(1 - t, seg.p0) + np.outer(t, seg.p1)
        d = np.tile(np.array(seg.d(0), float), (n + 1, 1)); dd = np.zeros_like(d)
    else:
        p = np.array([seg.at(x) for x in t]); d = np.array([seg.d(x) for x in t]); dd = np.array([seg.dd(x) for x in t])
    l = np.hypot(d[:, 0], d[:, 1])
    if l.min() < 1e-6: raise Skip
    return p, d/l[:, None], (d[:, 0]*dd[:, 1] - d[:, 1]*dd[:, 0])/l**3


def seglen(seg):
    p = sampled(seg)[0] if seg.kind != "L" else np.array([seg.p0, seg.p1])
    return float(np.hypot(*np.diff(p, axis=0).T).sum())


def dist(pts, poly):
    "distance of each point to a list of polylines"
    pts = np.asarray(pts, float)
    best = np.full(len(pts), np.inf)
    for q in poly:
        a, b = q[:-1], q[1:]
        d = b - a
        l2 = np.maximum((d**2).sum(1), 1e-300)
        for i in range(0, len(pts), 400):
            x = pts[i:i+400]
            w = x[:, None, :] - a[None]
            t = np.clip((w*d[None]).sum(2)/l2, 0, 1)
            e = w - t[..., None]*d[None]
            best[i:i+400] = np.minimum(best[i:i+400], np.sqrt((e**2).sum(2)).min(1))
    return best


def cross(a, b): return a[0]*b[1] - a[1]*b[0]
def dot(a, b): return a[0]*b[0] + a[1]*b[1]


# ---------------------------------------------------------------- parallel
def parallel(rng, mon):
    segs, closed, what = shape(rng)
    S = [sampled(s) for s in segs]
    lens = [seglen(s) for s in segs]
    kmax = max(float(np.abs(k).max()) for _, _, k in S)
    lim = 0.45*min(lens)
    if kmax > 0: lim = min(lim, 0.5/kmax)
    d = rng.uniform(0.1, 1)*lim
    if d < 0.02: raise Skip
    n = len(segs)
    joints = [(k, (k + 1) % n) for k in range(n if closed else n - 1)]
    turns = []
    for i, j in joints:
        t1, t2 = S[i][1][-1], S[j][1][0]
        a = math.atan2(cross(t1, t2), dot(t1, t2))
        if abs(a) > math.radians(150): raise Skip
        if 1e-9 < abs(a) < 0.02 and what[:5] != "round": raise Skip
        turns.append(a)
    sgn = rng.choice([1, -1])
    sd = sgn*d
    kw = {}
    relerr = 0.05
    if rng.random() < 0.5: relerr = kw["relerr"] = rng.choice([0.05, 0.01, 0.001, 0.1, 0.02])
    sharp = rng.random() < 0.4
    if sharp: kw["sharpoutercorners"] = rng.choice([True, 1])
    if rng.random() < 0.6: kw["checkdistanceparams"] = rng.choice([[0.5], [0.25, 0.5, 0.75], [0.2, 0.4, 0.6, 0.8]])
    if rng.random() < 0.2: kw["lookforcurvatures"] = rng.choice([7, 21])
    inter = not (rng.random() < 0.25 and all(abs(t) < 1e-6 or t*sgn < 0 for t in turns))
    if not inter: kw["dointersection"] = rng.choice([False, 0])
    D = sd if rng.random() < 0.3 else None
    dobj = sd/U*unit.t_cm if D is None else sd*unit.t_pt
    if rng.random() < 0.3: defo = deformer.parallel(3, relerr=0.3, sharpoutercorners=True)(distance=dobj, **{**dict(relerr=0.05, sharpoutercorners=False), **kw})
    else: defo = deformer.parallel(dobj, **kw)
    # raw offsets
    raw, corner = [], []
    for p, t, _ in S:
        raw.append(p + sd*np.stack([-t[:, 1], t[:, 0]], 1))
    for (i, j), a in zip(joints, turns):
        if abs(a) < 1e-6 or a*sgn > 0: continue
        t1, t2, c = S[i][1][-1], S[j][1][0], S[i][0][-1]
        n1 = np.array([-t1[1], t1[0]])*sd
        if sharp:
            l = d*math.tan(abs(a)/2)
            m = c + n1 + l*t1
            corner.append(np.array([c + n1 + x*l*t1 for x in np.linspace(0, 1, 20)] + [m + x*l*t2 for x in np.linspace(0, 1, 20)]))
        else:
            x = np.linspace(0, a, 60)
            corner.append(np.stack([c[0] + n1[0]*np.cos(x) - n1[1]*np.sin(x), c[1] + n1[0]*np.sin(x) + n1[1]*np.cos(x)], 1))
    poly = [p for p, _, _ in S]
    step = max(l/N for l in lens)
    # remote parts of the path must not come close
    cuts = [0.0]*n
    for (i, j), a in zip(joints, turns):
        if a*sgn > 0:
            cuts[i] += d*math.tan(a*sgn/2); cuts[j] += d*math.tan(a*sgn/2)
    if any(c > 0.8*l for c, l in zip(cuts, lens)): raise Skip     # nothing is left of an item between inner corners
    for i in range(n):
        for j in range(i + 1, n):
            adj = j == i + 1 or (closed and i == 0 and j == n - 1)
            if not adj and dist(poly[i], [poly[j]]).min() < 2.3*d: raise Skip
    for q in raw:
        if (dist(q, poly) > d*(1 - 1e-3)).mean() < 0.15: raise Skip     # (nearly) nothing is left of an item
    allraw = np.concatenate(raw + corner)
    da = dist(allraw, poly)
    # the distance is checked at the given parameters only
    tol = (1.6 if len(kw.get('checkdistanceparams', [0.5])) > 1 else 5)*relerr*d + 1e-3*d + step*step*max(kmax, 1e-9) + 1e-4
    must = allraw[da > d*(1 - 1e-3) - step*step*kmax]
    mon.describe(("parallel", sd, kw, closed, what, [s for s in segs]))
    p = real(segs, closed, rng)
    before = str(p)
    res = defo.deform(p)
    mon.check(str(p) == before, "argument-changed", lambda: "path changed")
    got = [geo.Dense(s).p if False else np.concatenate([np.array([s.begin()])] + [x.samples(64 if x.kind == "C" else 24)[1:] if x.kind == "C" else np.array([x.at(t) for t in np.linspace(0, 1, 25)])[1:] for x in s.segs]) for s in gen.normsubs(res)]
    mon.check(bool(got), "parallel-empty", lambda: "nothing left")
    pts = np.concatenate(got)
    dg = dist(pts, poly)
    k = int(np.argmin(dg))
    mon.check(dg[k] > d - tol, "parallel-too-close", lambda: "point %s at distance %g instead of %g" % (pts[k], dg[k], d))
    dr = dist(pts, raw + corner)
    k = int(np.argmax(dr))
    mon.check(dr[k] < tol, "parallel-off", lambda: "point %s is %g away from the offset curve (distance %g, tolerance %g)" % (pts[k], dr[k], d, tol))
    dm = dist(must, got)
    k = int(np.argmax(dm))
    mon.check(dm[k] < tol + step, "parallel-incomplete", lambda: "point %s of the offset curve is missing (%g away, distance %g)" % (must[k], dm[k], d))
    cl = [s.closed for s in gen.normsubs(res)]
    if closed: mon.check(cl == [True], "parallel-closed", lambda: "closed: %s instead of one closed subpath" % cl)
    else: mon.check(cl == [False], "parallel-closed", lambda: "closed: %s instead of one open subpath" % cl)
    mon.count("parallel:" + ("closed" if closed else "open"))
    mon.count("parallel:" + what)
    mon.count("parallel:intersection" if inter else "parallel:no intersection")
    if sharp and corner: mon.count("parallel:sharp corners")
    elif corner: mon.count("parallel:round corners")
    if any(t*sgn > 1e-3 for t in turns): mon.count("parallel:inner corners")
    mon.nontrivial("parallel/%s/%s/%d/%s" % (what, closed, n, sorted(kw)))


# ---------------------------------------------------------------- smoothed corners
def sub(seg, t0, t1):
    "part of a segment as points"
    return np.array([seg.at(t) for t in np.linspace(t0, t1, 17)])


class Lens:
    "arc length along a segment"
    def __init__(self, seg):
        self.seg = seg
        if seg.kind == "L": self.total = math.dist(seg.p0, seg.p1)
        else:
            self.t = np.linspace(0, 1, 2001)
            p = seg.samples(2000)
            self.L = np.concatenate([[0], np.cumsum(np.hypot(*np.diff(p, axis=0).T))])
            self.total = float(self.L[-1])
    def param(self, s):
        if self.seg.kind == "L": return s/self.total
        return float(np.interp(s, self.L, self.t))


def unitv(v):
    l = math.hypot(*v)
    return (v[0]/l, v[1]/l) if l > 1e-9 else None


def corners(rng, mon):
    comps = [shape(rng)]
    if rng.random() < 0.2: comps.append(shape(rng))
    minlen = min(seglen(s) for c in comps for s in c[0])
    r = rng.uniform(0.05, 1.6)*minlen
    if r < 0.05: raise Skip
    kw = {}
    soft = 1
    if rng.random() < 0.5: soft = kw["softness"] = rng.choice([1, 0.5, rng.uniform(0.1, 1)])
    if rng.random() < 0.3: kw["obeycurv"] = rng.choice([0, 1, 1])
    if rng.random() < 0.2: kw["relskipthres"] = rng.choice([0.001, 0.05])
    cls = rng.choice([deformer.smoothed, deformer.cornersmoothed])
    robj = r/U*unit.t_cm if rng.random() < 0.5 else r*unit.t_pt
    if rng.random() < 0.3: defo = cls(3, softness=0.3, obeycurv=1)(radius=robj, **{**dict(softness=1, obeycurv=0), **kw})
    else: defo = cls(robj, **kw)
    p = path.path()
    for segs, closed, what in comps:
        q = real(segs, closed, rng)
        p = q if not len(p.pathitems) and len(comps) == 1 else (p + (q if isinstance(q, path.path) else q.path() if hasattr(q, "path") else path.path(*real(segs, closed, NoRng).pathitems)))
    mon.describe(("smoothed", r, kw, [(c[1], c[2], c[0]) for c in comps]))
    before = str(p)
    res = gen.normsubs(defo.deform(p))
    mon.check(str(p) == before, "argument-changed", lambda: "path changed")
    mon.check(len(res) == len(comps), "smoothed-subpaths", lambda: "%d subpaths instead of %d" % (len(res), len(comps)))
    for got, (segs, closed, what) in zip(res, comps):
        mon.check(got.closed == closed, "smoothed-closed", lambda: "closed is %s" % got.closed)
        n = len(segs); T = [Lens(s) for s in segs]
        cut = [[min(r, 0.5*t.total), max(0.5*t.total, t.total - r)] for t in T]
        if not closed:
            cut[0] = [0, max(0, T[0].total - r)]
            cut[-1] = [min(r, T[-1].total), T[-1].total]
            if n == 1: cut = [[0, T[0].total]]
        tol = 2e-3 + 1e-6*max(abs(c) for s in segs for c in s.at(0))
        q = list(got.segs)
        pos = 0
        def take(what):
            nonlocal pos
            mon.check(pos < len(q), "smoothed-structure", lambda: "path ends before %s" % what)
            pos += 1
            return q[pos-1]
        joints = []
        for k in range(n):
            a, b = cut[k]
            if b - a > 1e-3 + 1e-9:
                x = take("the middle of item %d" % k)
                want = sub(segs[k], T[k].param(a), T[k].param(b))
                have = sub(x, 0, 1) if x.kind == segs[k].kind else None
                mon.check(have is not None, "smoothed-rest", lambda: "item %d is a %s" % (k, x))
                d = max(dist(have, [want]).max(), dist(want, [have]).max(), math.dist(have[0], want[0]), math.dist(have[-1], want[-1]))
                mon.check(d < tol, "smoothed-rest", lambda: "item %d between %g and %g of %g: %g away" % (k, a, b, T[k].total, d))
                mon.count("smoothed:rest")
            elif b - a > 1e-6: raise Skip
            j = (k + 1) % n
            if j or closed:
                B = segs[k].at(1)
                P1, P2 = segs[k].at(T[k].param(cut[k][1])), segs[j].at(T[j].param(cut[j][0]))
                both = segs[k].kind == segs[j].kind == "L"
                cs = [take("corner %d" % k)]
                if both: cs.append(take("corner %d" % k))
                for x in cs: mon.check(x.kind == "C", "smoothed-structure", lambda: "corner %d is a line" % k)
                mon.ptclose(cs[0].at(0), P1, tol, "smoothed-corner", lambda: "start of corner %d" % k)
                mon.ptclose(cs[-1].at(1), P2, tol, "smoothed-corner", lambda: "end of corner %d" % k)
                t1, t2 = unitv(segs[k].d(T[k].param(cut[k][1]))), unitv(segs[j].d(T[j].param(cut[j][0])))
                g1, g2 = unitv(cs[0].d(0)), unitv(cs[-1].d(1))
                if g1: mon.check(dot(g1, t1) > 1 - 1e-4, "smoothed-tangent", lambda: "start of corner %d: %s instead of %s" % (k, g1, t1))
                if g2: mon.check(dot(g2, t2) > 1 - 1e-4, "smoothed-tangent", lambda: "end of corner %d: %s instead of %s" % (k, g2, t2))
                if both:
                    h1, h2 = unitv(cs[0].d(1)), unitv(cs[1].d(0))
                    mon.check(dot(h1, h2) > 1 - 1e-6, "smoothed-tangent", lambda: "middle of corner %d: %s and %s" % (k, h1, h2))
                    mon.ptclose(cs[0].at(1), cs[1].at(0), tol, "smoothed-corner", lambda: "corner %d is interrupted" % k)
                    # inside of the triangle, as far from the corner as the softness says
                    pts = np.concatenate([sub(x, 0, 1) for x in cs])
                    v1, v2 = (P1[0] - B[0], P1[1] - B[1]), (P2[0] - B[0], P2[1] - B[1])
                    det = cross(v1, v2)
                    if abs(det) > 1e-3*math.hypot(*v1)*math.hypot(*v2) > 0 and math.hypot(*v1) > 0.05 and math.hypot(*v2) > 0.05:
                        uv = [(cross((x - B[0], y - B[1]), v2)/det, cross(v1, (x - B[0], y - B[1]))/det) for x, y in pts]
                        e = 1e-2
                        mon.check(all(u > -e and v > -e and u + v < 1 + e for u, v in uv), "smoothed-triangle", lambda: "corner %d leaves its triangle" % k)
                        u, v = uv[17]
                        mon.check(abs(u - v) < 5e-3, "smoothed-softness", lambda: "corner %d: asymmetric middle %g %g" % (k, u, v))
                        mon.check(abs(u - 0.1596*soft) < 5e-3, "smoothed-softness", lambda: "corner %d: middle at %g of the legs for softness %g" % (k, u, soft))
                        for x, t in ((cs[0], 0), (cs[1], 1)):
                            d1, d2 = x.d(t), x.dd(t)
                            curv = cross(d1, d2)/max(math.hypot(*d1), 1e-9)**3
                            mon.check(abs(curv)*min(math.hypot(*v1), math.hypot(*v2)) < 5e-2, "smoothed-curvature", lambda: "corner %d starts with curvature %g" % (k, curv))
                    mon.count("smoothed:lines")
                else:
                    pts = sub(cs[0], 0, 1)
                    far = max(math.dist(P1, B), math.dist(P2, B))
                    w = np.hypot(*(pts - np.array(B)).T).max()
                    mon.check(w < 2.5*far + tol or kw.get("obeycurv"), "smoothed-overshoot", lambda: "corner %d goes %g away, radius %g" % (k, w, r))
                    mon.count("smoothed:curves")
                    det = cross(t1, t2)
                    if abs(det) > 1e-3 and not kw.get("obeycurv"):
                        w12 = (P2[0] - P1[0], P2[1] - P1[1])
                        t, u = cross(w12, t2)/det, cross(w12, t1)/det      # P1 + t t1 = P2 + u t2
                        if t > 1e-3*r and u < -1e-3*r:
                            X = (P1[0] + t*t1[0], P1[1] + t*t1[1])
                            v1, v2 = (P1[0] - X[0], P1[1] - X[1]), (P2[0] - X[0], P2[1] - X[1])
                            dd = cross(v1, v2)
                            uv = [(cross((x - X[0], y - X[1]), v2)/dd, cross(v1, (x - X[0], y - X[1]))/dd) for x, y in pts]
                            mon.check(all(a > -1e-2 and b > -1e-2 and a + b < 1.01 for a, b in uv), "smoothed-triangle", lambda: "corner %d leaves the triangle of its tangents" % k)
                            mon.count("smoothed:hull")
                mon.count("smoothed:corner")
        mon.check(pos == len(q), "smoothed-structure", lambda: "%d more items" % (len(q) - pos))
        if not closed:
            mon.ptclose(q[0].at(0), segs[0].at(0), tol, "smoothed-ends", lambda: "start")
            mon.ptclose(q[-1].at(1), segs[-1].at(1), tol, "smoothed-ends", lambda: "end")
        mon.count("smoothed:" + ("closed" if closed else "open" if n > 1 else "single"))
        mon.nontrivial("smoothed/%s/%s/%d/%s" % (what, closed, n, sorted(kw)))


class NoRng:
    random = staticmethod(lambda: 1.0)


# ---------------------------------------------------------------- cycloid
def cycloid(rng, mon):
    segs, closed, what = shape(rng)
    T = [Lens(s) for s in segs]
    total = sum(t.total for t in T)
    kw = {}
    R = kw["radius"] = rng.uniform(0.01, 0.1)*total
    hl, cph, sign, turn, first, last = 10, 3, 1, 45, 1*U, 1*U
    if rng.random() < 0.8: hl = kw["halfloops"] = rng.randint(1, 15)
    if rng.random() < 0.6: cph = kw["curvesperhloop"] = rng.randint(2, 6)
    if rng.random() < 0.5: sign = kw["sign"] = rng.choice([1, -1, 0, -3, 2])
    if rng.random() < 0.6: turn = kw["turnangle"] = rng.choice([0, 30, 60, rng.uniform(0, 80)])
    first = kw["skipfirst"] = rng.choice([0, rng.uniform(0, 0.3)*total, rng.uniform(0, 0.6)*total])
    last = kw["skiplast"] = rng.choice([0, rng.uniform(0, 0.3)*total, rng.uniform(0, 0.6)*total])
    sg = 1 if sign >= 0 else -1
    mon.describe(("cycloid", kw, closed, segs))
    ukw = {k: (v*unit.t_pt if k in ("radius", "skipfirst", "skiplast") else v) for k, v in kw.items()}
    if rng.random() < 0.3: defo = deformer.cycloid(1, halfloops=4, sign=-1, turnangle=10, curvesperhloop=2)(**{**dict(halfloops=10, sign=1, turnangle=45, curvesperhloop=3), **ukw})
    else: defo = deformer.cycloid(**ukw)
    p = real(segs, closed, rng)
    before = str(p)
    res = gen.normsubs(defo.deform(p))
    mon.check(str(p) == before, "argument-changed", lambda: "path changed")
    mon.check(len(res) == 1, "cycloid-subpaths", lambda: "%d subpaths" % len(res))
    got = res[0].segs
    tol = 3e-3 + 1e-6*max(abs(c) for s in segs for c in s.at(0))
    sT, cT = math.sin(math.radians(turn)), math.cos(math.radians(turn))
    room = total - first - last - 2*R*sT
    if abs(room) < 1e-3*total: raise Skip
    if room < 0:
        mon.check(len(got) == len(segs) and res[0].closed == closed, "cycloid-short", lambda: "path without room for the cycloid is changed")
        for a, b in zip(got, segs):
            for t in (0, 0.3, 1): mon.ptclose(a.at(t), b.at(t), tol, "cycloid-short", lambda: "path without room for the cycloid is changed")
        mon.count("cycloid:short"); return
    starts = np.concatenate([[0], np.cumsum([t.total for t in T])])
    def locate(z):
        k = min(max(int(np.searchsorted(starts, z, "right")) - 1, 0), len(segs) - 1)
        return segs[k], T[k].param(min(max(z - starts[k], 0), T[k].total))
    def framed(z):
        s, t = locate(z)
        return s.at(t), unitv(s.d(t))
    phis = [k*math.pi/cph for k in range(hl*cph + 1)]
    dz = room/(hl*math.pi)
    Z = [first + R*sT*(1 - math.cos(f)) + dz*f for f in phis]
    # the straight parts
    k0 = 0
    ncyc = hl*cph
    before_ = [x for x in starts[1:-1] if x < first - 1e-4]
    after = [x for x in starts[1:-1] if x > Z[-1] + 1e-4]
    if any(abs(x - first) < 1e-2 or abs(x - Z[-1]) < 1e-2 for x in starts[1:-1]): raise Skip
    nb = len(before_) + 1 if first > 1e-3 else 0
    na = len(after) + 1 if last > 1e-3 else 0
    mon.check(len(got) == nb + ncyc + na, "cycloid-count", lambda: "%d items instead of %d+%d+%d" % (len(got), nb, ncyc, na))
    for part, z0, z1 in ((got[:nb], 0, first), (got[nb+ncyc:], Z[-1], total)):
        if not part: continue
        pts = np.concatenate([sub(x, 0, 1) for x in part])
        want = np.array([framed(z)[0] for z in np.linspace(z0, z1, 200)])
        mon.ptclose(pts[0], want[0], tol, "cycloid-ends", lambda: "start of the undeformed part")
        mon.ptclose(pts[-1], want[-1], tol, "cycloid-ends", lambda: "end of the undeformed part")
        d = max(dist(pts, [np.concatenate([sampled(s)[0] for s in segs])]).max(), 0)
        mon.check(d < tol + (total/len(segs)/N)**2, "cycloid-ends", lambda: "undeformed part is %g away from the path" % d)
        L = sum(Lens(x).total for x in part)
        mon.check(abs(L - (z1 - z0)) < tol*4 + 1e-4*total, "cycloid-ends", lambda: "undeformed part has length %g instead of %g" % (L, z1 - z0))
        mon.count("cycloid:undeformed")
    cyc = got[nb:nb+ncyc]
    for k, (f, z) in enumerate(zip(phis, Z)):
        if any(abs(z - x) < 1e-2 for x in starts[1:-1]) or (closed and (z < 1e-2 or z > total - 1e-2)) : continue
        pt, t = framed(z)
        y = sg*R*math.sin(f)
        want = (pt[0] - y*t[1], pt[1] + y*t[0])
        zt, yt = sT*R*math.sin(f) + cT*(dz/cT), sg*R*math.cos(f)
        dirw = unitv((zt*t[0] - yt*t[1], zt*t[1] + yt*t[0])) if math.hypot(zt, yt) > 1e-3*R else None
        for x, tt in ((cyc[k] if k < ncyc else None, 0), (cyc[k-1] if k else None, 1)):
            if x is None: continue
            mon.ptclose(x.at(tt), want, tol*3, "cycloid-point", lambda: "point %d (half loop %g) of the cycloid" % (k, f/math.pi))
            g = unitv(x.d(tt))
            if g and dirw: mon.check(dot(g, dirw) > 1 - 1e-3, "cycloid-tangent", lambda: "direction %s instead of %s at point %d" % (g, dirw, k))
            mon.count("cycloid:point")
    # the loops swing to the amplitude
    S = 0.5*(1 + 1/math.cos(math.pi/2/cph)) if cph > 1 else 1
    mon.count("cycloid:" + ("closed" if closed else "open"))
    if sg < 0: mon.count("cycloid:negative sign")
    mon.nontrivial("cycloid/%s/%d/%d/%s" % (what, hl, cph, closed))


def run_case(kind, i, rng, mon):
    if kind != "gen": return directed(kind, mon)
    r = rng.random()
    if r < 0.3: return parallel(rng, mon)
    if r < 0.75: return corners(rng, mon)
    return cycloid(rng, mon)


def directed(kind, mon):
    if kind == "lines":
        # left is positive
        for d in (1, -2.5):
            s = gen.normsubs(deformer.parallel(d*unit.t_pt).deform(path.line_pt(0, 0, 10, 0)))
            mon.check(len(s) == 1 and len(s[0].segs) == 1, "parallel-line", lambda: str(s))
            mon.ptclose(s[0].segs[0].at(0), (0, d), 1e-6, "parallel-line", lambda: "start")
            mon.ptclose(s[0].segs[0].at(1), (10, d), 1e-6, "parallel-line", lambda: "end")
        mon.count("directed:lines")
    elif kind in ("circle", "innercircle"):
        for d in ((-3, -1) if kind == "circle" else (3,)):
            s = gen.normsubs(deformer.parallel(d*unit.t_pt, relerr=0.001).deform(path.circle_pt(5, 6, 10)))
            mon.check(len(s) == 1 and s[0].closed, "parallel-circle", lambda: str(s))
            for x in s[0].segs:
                for t in np.linspace(0, 1, 9):
                    mon.close(math.dist(x.at(t), (5, 6)), 10 - d, 0.02, "parallel-circle", lambda: "radius")
        mon.count("directed:circle")
    else:
        # single items have no corners
        for p in (path.line_pt(0, 0, 10, 3), path.curve_pt(0, 0, 10, 3, 4, 4, 5, 8)):
            w = gen.normsubs(p.normpath())
            g = gen.normsubs(deformer.smoothed(2*unit.t_pt).deform(p))
            for t in (0, 0.5, 1): mon.ptclose(g[0].segs[0].at(t), w[0].segs[0].at(t), 1e-4, "smoothed-single", lambda: "a single item is changed")
        mon.count("directed:tooshort")
