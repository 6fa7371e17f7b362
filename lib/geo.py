"""Reference geometry, independent of pyx: exact arcs, Bezier curves, affine maps, sampling."""
import math
import numpy as np

IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)   # PostScript order: x' = a x + c y + e, y' = b x + d y + f


def mul(m, n):
    "matrix of applying m first, then n (PostScript row-vector convention)"
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a*A + b*C, a*B + b*D, c*A + d*C, c*B + d*D, e*A + f*C + E, e*B + f*D + F)


def ap(m, p):
    return (m[0]*p[0] + m[2]*p[1] + m[4], m[1]*p[0] + m[3]*p[1] + m[5])


def inv(m):
    a, b, c, d, e, f = m
    det = a*d - b*c
    A, B, C, D = d/det, -b/det, -c/det, a/det
    return (A, B, C, D, -(e*A + f*C), -(e*B + f*D))


class Line:
    kind = "L"
    def __init__(self, p0, p1): self.p0, self.p1 = p0, p1
    def at(self, t): return (self.p0[0] + t*(self.p1[0]-self.p0[0]), self.p0[1] + t*(self.p1[1]-self.p0[1]))
    def d(self, t): return (self.p1[0]-self.p0[0], self.p1[1]-self.p0[1])
    def dd(self, t): return (0.0, 0.0)
    def begin(self): return self.p0
    def end(self): return self.p1
    def samples(self, n=2):
        return np.array([self.p0, self.p1], float)
    def tr(self, m): return Line(ap(m, self.p0), ap(m, self.p1))
    def bezier(self):
        return [(self.p0, self.at(1/3), self.at(2/3), self.p1)]
    def __repr__(self): return "Line(%.9g %.9g -> %.9g %.9g)" % (*self.p0, *self.p1)


class Curve:
    kind = "C"
    def __init__(self, p0, p1, p2, p3): self.p = (p0, p1, p2, p3)
    def at(self, t):
        s = 1-t
        c = (s*s*s, 3*s*s*t, 3*s*t*t, t*t*t)
        return (sum(k*q[0] for k, q in zip(c, self.p)), sum(k*q[1] for k, q in zip(c, self.p)))
    def d(self, t):
        s = 1-t
        c = (3*s*s, 6*s*t, 3*t*t)
        D = [(self.p[i+1][0]-self.p[i][0], self.p[i+1][1]-self.p[i][1]) for i in range(3)]
        return (sum(k*q[0] for k, q in zip(c, D)), sum(k*q[1] for k, q in zip(c, D)))
    def dd(self, t):
        P = self.p
        D = [(P[i+2][0]-2*P[i+1][0]+P[i][0], P[i+2][1]-2*P[i+1][1]+P[i][1]) for i in range(2)]
        return (6*((1-t)*D[0][0]+t*D[1][0]), 6*((1-t)*D[0][1]+t*D[1][1]))
    def begin(self): return self.p[0]
    def end(self): return self.p[3]
    def samples(self, n=96):
        t = np.linspace(0, 1, n+1)[:, None]
        P = np.array(self.p, float)
        s = 1-t
        return s**3*P[0] + 3*s*s*t*P[1] + 3*s*t*t*P[2] + t**3*P[3]
    def tr(self, m): return Curve(*[ap(m, q) for q in self.p])
    def __repr__(self): return "Curve(%s)" % " ".join("%.9g,%.9g" % q for q in self.p)


class Arc:
    "exact elliptical arc: x(t) = M (cos, sin)(a0 + t (a1-a0)), M affine"
    kind = "A"
    def __init__(self, m, a0, a1): self.m, self.a0, self.a1 = m, a0, a1   # radians
    def at(self, t):
        a = self.a0 + t*(self.a1-self.a0)
        return ap(self.m, (math.cos(a), math.sin(a)))
    def d(self, t):
        w = self.a1-self.a0
        a = self.a0 + t*w
        m = self.m
        x, y = -math.sin(a)*w, math.cos(a)*w
        return (m[0]*x + m[2]*y, m[1]*x + m[3]*y)
    def dd(self, t):
        w = self.a1-self.a0
        a = self.a0 + t*w
        m = self.m
        x, y = -math.cos(a)*w*w, -math.sin(a)*w*w
        return (m[0]*x + m[2]*y, m[1]*x + m[3]*y)
    def begin(self): return self.at(0)
    def end(self): return self.at(1)
    def samples(self, n=None):
        n = n or max(8, int(abs(self.a1-self.a0)/0.008))
        a = np.linspace(self.a0, self.a1, n+1)
        m = self.m
        c, s = np.cos(a), np.sin(a)
        return np.stack([m[0]*c + m[2]*s + m[4], m[1]*c + m[3]*s + m[5]], 1)
    def tr(self, m): return Arc(mul(self.m, m), self.a0, self.a1)
    def __repr__(self): return "Arc(%s, %.9g..%.9g)" % (",".join("%.9g" % x for x in self.m), self.a0, self.a1)


def circ(x, y, r): return (r, 0.0, 0.0, r, x, y)


class Sub:
    "one subpath: start point, segments, closed flag (the closing line is an explicit segment when it has length)"
    def __init__(self, start, segs=None, closed=False):
        self.start, self.segs, self.closed = start, segs or [], closed
    def begin(self): return self.start
    def end(self): return self.segs[-1].end() if self.segs else self.start
    def tr(self, m): return Sub(ap(m, self.start), [s.tr(m) for s in self.segs], self.closed)
    def poly(self):
        out = [np.array([self.start], float)]
        for s in self.segs:
            out.append(s.samples()[1:])
        return np.concatenate(out)
    def length(self):
        p = self.poly()
        return float(np.hypot(*np.diff(p, axis=0).T).sum()) if len(p) > 1 else 0.0
    def __repr__(self): return "Sub(%r, %r%s)" % (self.start, self.segs, ", closed" if self.closed else "")


def arcangles(a1, a2, negative=False):
    "PostScript arc/arcn angle adjustment (degrees in, radians out)"
    if not negative:
        if a2 < a1:
            a2 += 360 * math.ceil((a1-a2)/360 - 1e-15)
            while a2 < a1: a2 += 360
    else:
        if a2 > a1:
            a2 -= 360 * math.ceil((a2-a1)/360 - 1e-15)
            while a2 > a1: a2 -= 360
    return math.radians(a1), math.radians(a2)


class Builder:
    "PostScript path construction in user space with exact segments"
    def __init__(self):
        self.subs = []
        self.cur = None      # current point
        self.open = False    # the current subpath may be extended

    def moveto(self, x, y):
        self.subs.append(Sub((x, y)))
        self.cur = (x, y)
        self.open = True

    def _need(self):
        if self.cur is None:
            raise ValueError("nocurrentpoint")
        if not self.open:
            self.subs.append(Sub(self.cur))
            self.open = True
        return self.subs[-1]

    def lineto(self, x, y):
        s = self._need()
        s.segs.append(Line(self.cur, (x, y)))
        self.cur = (x, y)

    def curveto(self, *c):
        s = self._need()
        s.segs.append(Curve(self.cur, c[0:2], c[2:4], c[4:6]))
        self.cur = tuple(c[4:6])

    def rmoveto(self, dx, dy):
        if self.cur is None: raise ValueError("nocurrentpoint")
        self.moveto(self.cur[0]+dx, self.cur[1]+dy)
    def rlineto(self, dx, dy):
        if self.cur is None: raise ValueError("nocurrentpoint")
        self.lineto(self.cur[0]+dx, self.cur[1]+dy)
    def rcurveto(self, *c):
        if self.cur is None: raise ValueError("nocurrentpoint")
        x, y = self.cur
        self.curveto(*[v + (x if i % 2 == 0 else y) for i, v in enumerate(c)])

    def arc(self, x, y, r, a1, a2, negative=False):
        a1, a2 = arcangles(a1, a2, negative)
        seg = Arc(circ(x, y, r), a1, a2)
        b = seg.begin()
        if self.cur is None:
            self.moveto(*b)
        else:
            self._need()
            if math.hypot(b[0]-self.cur[0], b[1]-self.cur[1]) > 0:
                self.lineto(*b)
        self.subs[-1].segs.append(seg)
        self.cur = seg.end()

    def arct(self, x1, y1, x2, y2, r):
        s = self._need()
        x0, y0 = self.cur
        d1 = (x0-x1, y0-y1); d2 = (x2-x1, y2-y1)
        l1 = math.hypot(*d1); l2 = math.hypot(*d2)
        cross = d1[0]*d2[1] - d1[1]*d2[0]
        if l1 == 0 or l2 == 0 or abs(cross) < 1e-12*l1*l2:
            return self.lineto(x1, y1)
        u1 = (d1[0]/l1, d1[1]/l1); u2 = (d2[0]/l2, d2[1]/l2)
        half = 0.5*math.acos(max(-1, min(1, u1[0]*u2[0]+u1[1]*u2[1])))
        t = r/math.tan(half)
        T1 = (x1+t*u1[0], y1+t*u1[1]); T2 = (x1+t*u2[0], y1+t*u2[1])
        bis = (u1[0]+u2[0], u1[1]+u2[1]); lb = math.hypot(*bis)
        h = r/math.sin(half)
        C = (x1+h*bis[0]/lb, y1+h*bis[1]/lb)
        if math.hypot(T1[0]-x0, T1[1]-y0) > 0:
            self.lineto(*T1)
        a1 = math.atan2(T1[1]-C[1], T1[0]-C[0]); a2 = math.atan2(T2[1]-C[1], T2[0]-C[0])
        # the arc runs on the side away from the corner: shorter way
        while a2-a1 > math.pi: a2 -= 2*math.pi
        while a2-a1 < -math.pi: a2 += 2*math.pi
        self.subs[-1].segs.append(Arc(circ(C[0], C[1], r), a1, a2))
        self.cur = T2

    def closepath(self):
        if self.cur is None or not self.open: return
        s = self.subs[-1]
        if math.hypot(s.start[0]-self.cur[0], s.start[1]-self.cur[1]) > 0:
            s.segs.append(Line(self.cur, s.start))
        s.closed = True
        self.cur = s.start
        self.open = False

    def result(self):
        return self.subs


def resample(poly, n):
    d = np.hypot(*np.diff(poly, axis=0).T) if len(poly) > 1 else np.zeros(0)
    L = np.concatenate([[0], np.cumsum(d)])
    if L[-1] == 0:
        return np.repeat(poly[:1], n+1, axis=0)
    t = np.linspace(0, L[-1], n+1)
    return np.stack([np.interp(t, L, poly[:, 0]), np.interp(t, L, poly[:, 1])], 1)


def polydist(pts, poly):
    "max over pts of distance to the polyline"
    a, b = poly[:-1], poly[1:]
    if len(a) == 0:
        return float(np.hypot(*(pts - poly[0]).T).max())
    ab = b - a
    l2 = (ab**2).sum(1)
    l2 = np.where(l2 == 0, 1, l2)
    t = ((pts[:, None, :] - a[None])*ab[None]).sum(2)/l2
    t = np.clip(t, 0, 1)
    q = a[None] + t[..., None]*ab[None]
    return float(np.sqrt(((pts[:, None, :]-q)**2).sum(2).min(1)).max())


def ordered_dist(p, q, n=96):
    "distance of two directed curves compared at equal fractions of their length"
    return float(np.hypot(*(resample(p, n) - resample(q, n)).T).max())


def subs_match(A, B, tol, what="path", shape=None):
    """None if the two lists of subpaths are the same curves, else a description.
    Subpaths without any segment (lone movetos) are ignored."""
    A = [s for s in A if s.segs]
    B = [s for s in B if s.segs]
    if len(A) != len(B):
        return "%s: %d subpaths instead of %d" % (what, len(A), len(B))
    for i, (a, b) in enumerate(zip(A, B)):
        if a.closed != b.closed:
            return "%s: subpath %d closed=%s instead of %s" % (what, i, a.closed, b.closed)
        pa, pb = a.poly(), b.poly()
        for name, u, v in (("start", pa[0], pb[0]), ("end", pa[-1], pb[-1])):
            e = math.hypot(*(u-v))
            if not e <= tol:
                return "%s: subpath %d %s %s instead of %s" % (what, i, name, tuple(u), tuple(v))
        d = ordered_dist(pa, pb)
        if not d <= (shape or 3*tol):
            return "%s: subpath %d deviates by %g" % (what, i, d)
    return None


def bbox(subs):
    pts = np.concatenate([s.poly() for s in subs])
    return pts[:, 0].min(), pts[:, 1].min(), pts[:, 0].max(), pts[:, 1].max()


_GX, _GW = np.polynomial.legendre.leggauss(8)


class ArcTable:
    "exact arc-length queries on a list of Subs (subpaths one after another)"
    def __init__(self, subs, n=64):
        self.items = []     # (cumulative start, length, segment, table t, table s)
        L = 0.0
        self.sublens = []
        for si, s in enumerate(subs):
            L0 = L
            for seg in s.segs:
                if seg.kind == "L":
                    l = math.hypot(seg.p1[0]-seg.p0[0], seg.p1[1]-seg.p0[1])
                    self.items.append((L, l, seg, None, None, si))
                else:
                    m = n if seg.kind == "C" else max(8, int(abs(seg.a1-seg.a0)*10))
                    h = 1.0/m
                    ts = (np.arange(m)[:, None] + 0.5 + 0.5*_GX[None])*h
                    v = speed(seg, ts)
                    cum = np.concatenate([[0], np.cumsum((v*_GW).sum(1)*0.5*h)])
                    self.items.append((L, float(cum[-1]), seg, np.linspace(0, 1, m+1), cum, si))
                    l = float(cum[-1])
                L += l
            self.sublens.append(L-L0)
        self.total = L

    def locate(self, s):
        "segment, local t for arc length s (clamped)"
        it = self.items[-1]
        for x in self.items:
            if s < x[0] + x[1]:
                it = x
                break
        L, l, seg, tt, cum, si = it
        r = s - L
        if l == 0: return seg, 0.0, L, l
        if tt is None: return seg, r/l, L, l
        r = min(max(r, 0.0), l)
        k = min(max(int(np.searchsorted(cum, r))-1, 0), len(tt)-2)
        lo, hi = tt[k], tt[k+1]
        base = cum[k]
        a, b = lo, hi
        for _ in range(60):
            mid = 0.5*(a+b)
            ts = lo + (0.5+0.5*_GX)*(mid-lo)
            v = base + float((speed(seg, ts)*_GW).sum())*0.5*(mid-lo)
            if v < r: a = mid
            else: b = mid
        return seg, 0.5*(a+b), L, l

    def point(self, s):
        seg, t, _, _ = self.locate(s)
        return seg.at(t)


def speed(seg, ts):
    if seg.kind == "C":
        P = np.array(seg.p, float)
        D = 3*(P[1:]-P[:-1])
        t = ts[..., None]
        u = 1-t
        v = u*u*D[0] + 2*u*t*D[1] + t*t*D[2]
        return np.sqrt((v**2).sum(-1))
    if seg.kind == "A":
        w = seg.a1-seg.a0
        a = seg.a0 + ts*w
        m = seg.m
        x, y = -np.sin(a)*w, np.cos(a)*w
        return np.hypot(m[0]*x + m[2]*y, m[1]*x + m[3]*y)
    return np.full(np.shape(ts), math.hypot(seg.p1[0]-seg.p0[0], seg.p1[1]-seg.p0[1]))


class Dense:
    "densely sampled subpath with cumulative length, for cutting out parts by arc length"
    def __init__(self, sub):
        out = [np.array([sub.begin()], float)]
        for s in sub.segs:
            if s.kind == "C": q = s.samples(1500)
            elif s.kind == "A": q = s.samples(max(50, int(abs(s.a1-s.a0)/0.002)))
            else: q = s.samples()
            out.append(q[1:])
        self.p = np.concatenate(out)
        d = np.hypot(*np.diff(self.p, axis=0).T) if len(self.p) > 1 else np.zeros(0)
        self.L = np.concatenate([[0.0], np.cumsum(d)])
        self.total = float(self.L[-1])

    def at(self, s):
        s = np.asarray(s, float)
        return np.stack([np.interp(s, self.L, self.p[:, 0]), np.interp(s, self.L, self.p[:, 1])], -1)

    def cut(self, s0, s1):
        "polyline from s0 to s1 (backwards when s1 < s0)"
        a, b = min(s0, s1), max(s0, s1)
        k = (self.L > a) & (self.L < b)
        q = np.concatenate([self.at([a]), self.p[k], self.at([b])])
        return q if s0 <= s1 else q[::-1]
