"""C09: MetaPost-style paths against an independent solution of Hobby's equations and against mpost itself."""
import math, os, re, subprocess
import numpy as np
import geo, gen
from harness import Skip
from pyx import path, unit, deformer, normpath
from pyx.metapost import path as mp

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("random knot/link lists (open, closed, several subpaths; smooth and rough knots, directions, curls, tensions, atleast, straight lines with and "
        "without keepangles, control curves, coincident knots) and linesmoothed paths; every control point is compared with a dense linear-algebra "
        "solution of Hobby's equations written from The METAFONTbook, a part of the chains additionally with mpost -numbersystem=double, and closed "
        "paths with themselves started at another knot; distinct by list structure and number of knots")
QUICK, THOROUGH = 8000, 400000
REQUIRED = {"chain:cycle 3": 204, "chain:open 1": 1174, "chain:open 2": 437, "chain:open 3": 421, "closed": 625, "link:ctrl": 374, "link:curve": 1199, "link:curve!": 959, "link:line": 264, "link:line+": 266, "link:none": 59, "list:several subpaths": 66, "mpost double": 149, "mpost scaled": 129, "open": 705, "rotated": 248, "seg:curve": 7788, "seg:line": 771, "smoothed:atleast": 150, "smoothed:closed": 46, "smoothed:curve": 3280, "smoothed:lcurl": 147, "smoothed:lcurl=None": 40, "smoothed:open": 390, "smoothed:rcurl": 148, "smoothed:rcurl=None": 43, "smoothed:tension": 202, "spec:curl": 910, "spec:given": 901, "spec:open": 1160, "tangent": 3318}
DIRECTED = ["straight", "circle", "fig", "epsilon", "errors"]
ASSUMPTIONS = ["turning angles and given directions within 1e-6 of a reversal are avoided (both orientations are legal)"]
ROOT2, ROOT5 = math.sqrt(2), math.sqrt(5)


def rem(a):
    "angle in (-pi, pi]"
    return math.remainder(a, 2*math.pi)


# ---------------------------------------------------------------- reference
class Knot:
    def __init__(self, p, left, right): self.p, self.left, self.right = p, left, right


class Link:
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)


def velocity(theta, phi, tau):
    st, ct, sf, cf = math.sin(theta), math.cos(theta), math.sin(phi), math.cos(phi)
    num = 2 + ROOT2*(st - sf/16)*(sf - st/16)*(ct - cf)
    return min(4, num/(3*tau*(1 + 0.5*(ROOT5 - 1)*ct + 0.5*(3 - ROOT5)*cf)))


def curlratio(c, alpha, beta):
    return min(4, ((3 - alpha)*alpha**2*c + beta**3)/(alpha**3*c + (3 - beta)*beta**2))


def controls(a, b, theta, phi, link):
    dx, dy = b[0] - a[0], b[1] - a[1]
    d, arg = math.hypot(dx, dy), math.atan2(dy, dx)
    r, s = velocity(theta, phi, link.lt), velocity(phi, theta, link.rt)
    st, sf = math.sin(theta), math.sin(phi)
    if (link.lat or link.rat) and min(abs(st), abs(sf)) < 1e-9: raise Skip     # the rule jumps when an angle changes sign
    if st*sf >= 0 and (link.lat or link.rat):
        sine = (abs(st)*math.cos(phi) + abs(sf)*math.cos(theta))*1.00024414062
        if sine > 0:
            if link.lat: r = min(r, abs(sf)/sine)
            if link.rat: s = min(s, abs(st)/sine)
    return ((a[0] + r*d*math.cos(arg + theta), a[1] + r*d*math.sin(arg + theta)),
            (b[0] - s*d*math.cos(arg - phi), b[1] - s*d*math.sin(arg - phi)))


def chain(pts, links, start, end, cyclic=False):
    """control points of the curves through pts; start and end are ("given", angle) or ("curl", c)"""
    n = len(links)
    d, arg = [], []
    for i in range(n):
        (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % len(pts)]
        d.append(math.hypot(x1 - x0, y1 - y0)); arg.append(math.atan2(y1 - y0, x1 - x0))
    def turn(i, j):
        t = rem(arg[j] - arg[i])
        if abs(abs(t) - math.pi) < 1e-6: raise Skip
        return t
    def given(a, k):
        t = rem(a - arg[k])
        if abs(abs(t) - math.pi) < 1e-6: raise Skip
        return t
    if not cyclic and n == 1 and start[0] == end[0] == "curl":
        (x0, y0), (x1, y1) = pts
        r, s = 1/(3*links[0].lt), 1/(3*links[0].rt)
        return [((x0 + r*(x1 - x0), y0 + r*(y1 - y0)), (x1 - s*(x1 - x0), y1 - s*(y1 - y0)))]
    al = [1/l.lt for l in links]      # alpha at the beginning of link k
    be = [1/l.rt for l in links]      # beta at the end of link k
    m = n if cyclic else n + 1
    M, v = np.zeros((m, m)), np.zeros(m)
    psi = [turn(k - 1, k) if (cyclic or 0 < k < n) else 0.0 for k in range(m)]
    for k in range(m):
        if cyclic or 0 < k < n:
            i, j, h = (k - 1) % n, k % n, (k + 1) % m
            A = al[i]/(be[i]**2*d[i]); B = (3 - al[i])/(be[i]**2*d[i])
            C = (3 - be[j])/(al[j]**2*d[j]); D = be[j]/(al[j]**2*d[j])
            M[k, (k - 1) % m] += A; M[k, k] += B + C; M[k, h] += D
            v[k] = -B*psi[k] - D*psi[h]
        elif k == 0:
            if start[0] == "given":
                M[0, 0] = 1; v[0] = given(start[1], 0)
            else:
                u = curlratio(start[1], al[0], be[0])
                M[0, 0] = 1; M[0, 1] = u; v[0] = -u*(psi[1])
        else:
            if end[0] == "given":
                M[k, k] = 1; v[k] = given(end[1], n - 1)
            else:
                u = curlratio(end[1], be[n-1], al[n-1])
                M[k, k] = 1; M[k, k-1] = u
    theta = np.linalg.solve(M, v)
    out = []
    for k in range(n):
        j = (k + 1) % m
        out.append(controls(pts[k], pts[(k + 1) % len(pts)], theta[k], -psi[j] - theta[j], links[k]))
    return out


def solve(knots, links, closed, eps=1e-5):
    """segments of the path; links[i] connects knots[i] with knots[i+1] (None: the path is interrupted)"""
    N = len(knots)
    n = N if closed else N - 1
    L = [k.left for k in knots]; R = [k.right for k in knots]
    segs = [None]*n
    nxt = lambda i: (i + 1) % N
    for i in range(n):
        l = links[i]
        if l is not None and l.kind == "line":
            if l.keep:
                a, b = knots[i].p, knots[nxt(i)].p
                ang = ("given", math.atan2(b[1] - a[1], b[0] - a[0]))
                if L[i] is not None: L[i] = ang
                if R[nxt(i)] is not None: R[nxt(i)] = ang
    for i in range(n):
        l, j = links[i], nxt(i)
        if l is None: continue
        a, b = knots[i].p, knots[j].p
        if l.kind == "line":
            segs[i] = geo.Line(a, b)
            if L[i] == ("open",): L[i] = ("curl", 1)
            if R[j] == ("open",): R[j] = ("curl", 1)
        elif l.kind == "ctrl":
            segs[i] = geo.Curve(a, l.c1, l.c2, b)
            for side, k, c, s in ((L, i, l.c1, 1), (R, j, l.c2, -1)):
                if side[k] == ("open",):
                    p = knots[k].p
                    dx, dy = s*(c[0] - p[0]), s*(c[1] - p[1])
                    side[k] = ("curl", 1) if math.hypot(dx, dy) < eps else ("given", math.atan2(dy, dx))
    co = [l is not None and l.kind == "curve" and math.dist(knots[i].p, knots[nxt(i)].p) < eps for i, l in enumerate(links[:n])]
    for i in range(n):
        if co[i]:
            segs[i] = geo.Curve(knots[i].p, knots[i].p, knots[i].p, knots[nxt(i)].p)
            if L[i] == ("open",): L[i] = ("curl", 1)
            if R[nxt(i)] == ("open",): R[nxt(i)] = ("curl", 1)
    # the chains
    free = [i < n and segs[i] is None and links[i] is not None for i in range(N)]
    inner = [L[i] == ("open",) and R[i] == ("open",) and free[i] and (closed or i > 0) and free[i-1] for i in range(N)]
    if closed and all(inner) and all(free):
        for i, (c1, c2) in enumerate(chain([k.p for k in knots], links, None, None, True)):
            segs[i] = geo.Curve(knots[i].p, c1, c2, knots[nxt(i)].p)
        return segs, [("cycle", [k.p for k in knots], links, None, None, list(range(N)))]
    chains = []
    for i in range(n):
        if free[i] and not inner[i]:
            idx = [i]
            while inner[nxt(idx[-1])]: idx.append(nxt(idx[-1]))
            pts = [knots[k].p for k in idx] + [knots[nxt(idx[-1])].p]
            ls = [links[k] for k in idx]
            s, e = R[i], L[nxt(idx[-1])]
            chains.append(("open", pts, ls, s, e, idx))
            for k, (c1, c2) in zip(idx, chain(pts, ls, s, e)):
                segs[k] = geo.Curve(knots[k].p, c1, c2, knots[nxt(k)].p)
    return segs, chains


# ---------------------------------------------------------------- mpost
def num(x): return "%.17g" % x if "e" not in "%.17g" % x else "%.25f" % x


def mpost(chains, tmp, system):
    "control points as chosen by MetaPost itself"
    src = []
    for kind, pts, links, s, e, idx in chains:
        spec = lambda q: "" if q is None else "{curl %s}" % num(q[1]) if q[0] == "curl" else "{(%s,%s)}" % (num(math.cos(q[1])), num(math.sin(q[1])))
        t = "show (%s,%s)%s" % (num(pts[0][0]), num(pts[0][1]), spec(s))
        for k, l in enumerate(links):
            t += "..tension %s%s and %s%s.." % ("atleast " if l.lat else "", num(l.lt), "atleast " if l.rat else "", num(l.rt))
            last = k == len(links) - 1
            if kind == "cycle" and last: t += "cycle"
            else: t += "%s(%s,%s)" % (spec(e) if last else "", num(pts[k+1][0]), num(pts[k+1][1]))
        src.append(t + ";")
    base = os.path.join(tmp, "mp")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "a.mp"), "w") as f: f.write("\n".join(src) + "\nend\n")
    subprocess.run(["mpost", "-numbersystem=" + system, "-interaction=batchmode", "a.mp"], cwd=base, stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                   env=dict(os.environ, max_print_line="1000000"), timeout=60)
    log = open(os.path.join(base, "a.log")).read()
    if "\n! " in log: return None
    out = []
    for part in log.split(">> Path at line")[1:]:
        flat = "".join(part.split("\n")[1:])
        out.append([((float(a), float(b)), (float(c), float(d))) for a, b, c, d in
                    re.findall(r"controls \(([-\d.e]+),([-\d.e]+)\) and \(([-\d.e]+),([-\d.e]+)\)", flat)])
    return out


# ---------------------------------------------------------------- generators
def rspec(rng):
    r = rng.random()
    if r < 0.5: return ("curl", rng.choice([1, 1, 0, 2, rng.uniform(0, 5), rng.choice([0.1, 50, 1000])]))
    return ("given", math.radians(rng.choice([rng.uniform(-180, 180), rng.uniform(-360, 360), rng.choice([0, 90, -90, 45]), rng.uniform(-1000, 1000)])))


def rtension(rng):
    return rng.choice([1, 1, 1, rng.uniform(0.75, 4), rng.uniform(0.3, 0.8), rng.choice([0.75, 2, 10])])


def rcurve(rng):
    "(link, real)"
    form = rng.random()
    if form < 0.35: kw = {}
    else:
        kw = {"ltension": rtension(rng)}
        if rng.random() < 0.5: kw["rtension"] = rtension(rng)
        if rng.random() < 0.45: kw["latleast"] = True
        if rng.random() < 0.3: kw["ratleast"] = rng.random() < 0.5
    if rng.random() < 0.1 and "ltension" in kw: kw["ltension"] = -kw["ltension"]
    lt = max(0.75, abs(kw.get("ltension", 1)))
    rt = max(0.75, abs(kw["rtension"])) if "rtension" in kw else lt
    lat = kw.get("latleast", False); rat = kw.get("ratleast", lat)
    mk = rng.choice([mp.curve, mp.tensioncurve])
    return Link("curve", lt=lt, rt=rt, lat=lat, rat=rat), (lambda: mk(**kw))


def rpoint(rng, scale, prev):
    if prev and rng.random() < 0.04: return rng.choice(prev[-1:] + prev)
    if rng.random() < 0.25: return (float(rng.randint(-4, 4))*scale, float(rng.randint(-4, 4))*scale)
    return (rng.uniform(-5, 5)*scale, rng.uniform(-5, 5)*scale)


U = 72/2.54


def mkknot(p, left, right, kind, cm, variant):
    "the real knot; left/right specs, kind in begin end smooth rough"
    pos = (p[0]/U, p[1]/U) if cm else p
    deg = math.degrees if cm else (lambda a: a)
    cls = {"begin": [mp.beginknot_pt, mp.beginknot], "end": [mp.endknot_pt, mp.endknot], "smooth": [mp.smoothknot_pt, mp.smoothknot],
           "rough": [mp.roughknot_pt, mp.roughknot]}[kind][cm]
    if kind == "begin" and cm and variant == 1: cls = mp.startknot
    if kind == "smooth" and cm and variant == 1: cls = mp.knot
    if kind == "smooth": return cls(*pos)
    if kind in ("begin", "end"):
        s = right if kind == "begin" else left
        if s[0] == "given": return cls(*pos, angle=deg(s[1]))
        return cls(*pos) if s[1] == 1 and variant else cls(*pos, curl=s[1])
    kw = {}
    if left[0] == "given": kw["langle"] = deg(left[1])
    elif left[1] != 1 or variant == 0: kw["lcurl"] = left[1]
    if right != left or variant == 0:
        kw["rangle" if right[0] == "given" else "rcurl"] = deg(right[1]) if right[0] == "given" else right[1]
    return cls(*pos, **kw)


def build(rng, mon, maxn=8):
    """model (knots, links, closed) and the recipe of the real list"""
    scale = rng.choice([1, 10, 10, 100])
    closed = rng.random() < 0.5
    N = rng.randint(2, maxn)
    plain = rng.random() < 0.35            # smooth knots and curves only
    knots, links, recipe, pts = [], [], [], []
    def addknot(kind, i):
        p = rpoint(rng, scale, pts); pts.append(p)
        left, right = {"begin": (None, rspec(rng)), "end": (rspec(rng), None), "smooth": (("open",), ("open",)), "rough": (rspec(rng),)*2}[kind]
        if kind == "rough" and rng.random() < 0.7: right = rspec(rng)
        cm, variant = int(rng.random() < 0.5), rng.randint(0, 1)
        if cm: p = tuple(float(unit.topt(c/U)) for c in p)
        knots.append(Knot(p, left, right))
        q = pts[-1]
        recipe.append(lambda: mkknot(q, left, right, kind, cm, variant))
        return p
    i = 0
    while i < N:
        if not closed and i == 0: kind = "begin"
        elif not closed and i == N - 1: kind = "end"
        elif not closed and 0 < i < N - 2 and rng.random() < 0.06 and not plain:
            addknot("end", i); links.append(None)
            addknot("begin", i + 1)
            i += 2
            kind = None
            mon.count("list:several subpaths")
        else: kind = "smooth" if plain or rng.random() < 0.6 else "rough"
        if kind:
            addknot(kind, i); i += 1
        if i < N or (closed and i >= N):
            r = rng.random()
            if plain or r < 0.72:
                l, mk = rcurve(rng); links.append(l); recipe.append(mk)
            elif r < 0.88:
                keep = rng.random() < 0.5
                links.append(Link("line", keep=keep)); form = rng.random() < 0.5
                recipe.append(lambda keep=keep, form=form: mp.line(keep) if form else (mp.line(keepangles=True) if keep else mp.line()))
            else:
                c1, c2 = rpoint(rng, scale, []), rpoint(rng, scale, [])
                if rng.random() < 0.2: c1 = knots[-1].p
                links.append(Link("ctrl", c1=c1, c2=c2))
                cm = rng.random() < 0.5
                recipe.append(lambda c1=c1, c2=c2, cm=cm: mp.controlcurve((c1[0]/U, c1[1]/U), (c2[0]/U, c2[1]/U)) if cm else mp.controlcurve_pt(c1, c2))
    if closed: N = len(knots)
    # a direction cannot be kept along a line of no length
    n = N if closed else N - 1
    for k in range(n):
        if links[k] is not None and links[k].kind == "line" and math.dist(knots[k].p, knots[(k + 1) % N].p) < 1e-4: raise Skip
        d = math.dist(knots[k].p, knots[(k + 1) % N].p)
        if 0 < d < 1e-4: raise Skip
    for k in range(N):      # a control point at the knot up to rounding
        for l, c in ((links[k-1] if (closed or k) else None, "c2"), (links[k] if k < len(links) else None, "c1")):
            if l is not None and l.kind == "ctrl":
                d = math.dist(knots[k].p, getattr(l, c))
                if 1e-9 < d < 1e-3: raise Skip
    return scale, knots, links, closed, recipe


# ---------------------------------------------------------------- reading the result
def read(p):
    "subpaths of a path: (segments, closed)"
    subs = []
    cur = start = None
    for it in p.pathitems:
        if isinstance(it, path.moveto_pt):
            cur = start = (it.x_pt, it.y_pt); subs.append([[], False, start])
        elif isinstance(it, path.lineto_pt):
            e = (it.x_pt, it.y_pt); subs[-1][0].append(geo.Line(cur, e)); cur = e
        elif isinstance(it, path.curveto_pt):
            e = (it.x3_pt, it.y3_pt); subs[-1][0].append(geo.Curve(cur, (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), e)); cur = e
        elif isinstance(it, path.closepath):
            subs[-1][1] = True
            if cur != start: subs[-1][0].append(geo.Line(cur, start))
            cur = start
        else: raise AssertionError(type(it))
    return subs


def wanted(knots, segs, links, closed):
    subs = []
    if closed: return [[list(segs), True, knots[0].p]]
    cur = []
    st = knots[0].p
    for i in range(len(knots) - 1):
        if links[i] is None:
            subs.append([cur, False, st]); cur = []; st = knots[i+1].p
        else: cur.append(segs[i])
    subs.append([cur, False, st])
    return subs


def pts(seg): return [seg.begin(), seg.p1, seg.p2, seg.at(1)] if isinstance(seg, geo.Curve) else [seg.begin(), seg.at(1)]


def cpts(seg):
    n = [getattr(seg, a) for a in seg.__dict__ if not a.startswith("_")]
    return n


def samesegs(mon, got, want, tol, mech, what):
    mon.check(len(got) == len(want), mech + "-structure", lambda: "%s: %d instead of %d items" % (what, len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        mon.check(isinstance(g, geo.Curve) == isinstance(w, geo.Curve), mech + "-structure", lambda: "%s: item %d is a %s instead of a %s" % (what, k, type(g).__name__, type(w).__name__))
        for t in (0, 1):
            mon.ptclose(g.at(t), w.at(t), tol, mech + "-knot", lambda: "%s: end %d of item %d" % (what, t, k))
        if isinstance(w, geo.Curve):
            for t in (1/3, 2/3):
                mon.ptclose(g.at(t), w.at(t), tol, mech, lambda: "%s: item %d at %g" % (what, k, t))
        mon.count("seg:" + type(w).__name__.lower())


def far(segs):
    m = 1.0
    for s in segs:
        if s is None: continue
        for t in (0, 0.25, 0.5, 0.75, 1): m = max(m, *map(abs, s.at(t)))
    return m


def check(mon, real, knots, links, closed, segs, what="path"):
    got, want = read(real), wanted(knots, segs, links, closed)
    mon.check(len(got) == len(want), "subpaths", lambda: "%s: %d instead of %d subpaths: %s" % (what, len(got), len(want), real))
    tol = 1e-7*far(segs)
    for g, w in zip(got, want):
        mon.check(g[1] == w[1], "closed", lambda: "%s: closed is %s instead of %s: %s" % (what, g[1], w[1], real))
        mon.ptclose(g[2], w[2], tol, "start", lambda: what)
        gs, ws = g[0], w[0]
        if closed and isinstance(ws[-1], geo.Line) and len(gs) == len(ws) - 1 and math.dist(ws[-1].at(0), ws[-1].at(1)) < tol: ws = ws[:-1]
        samesegs(mon, gs, ws, tol, "control", what)


def describe(knots, links, closed):
    out = []
    for i, k in enumerate(knots):
        out.append("(%.9g,%.9g) %s|%s" % (*k.p, k.left, k.right))
        if i < len(links): out.append("--break--" if links[i] is None else str(vars(links[i])))
    return ("closed " if closed else "open ") + "; ".join(out)


def smooth(mon, segs, knots, links, closed, real):
    "tangents are continuous at smooth knots between curves"
    if not closed and any(l is None for l in links): return
    got = [s for sub in read(real) for s in sub[0]]
    N = len(knots); n = N if closed else N - 1
    if len(got) != n: return
    for k in range(N):
        if not closed and k in (0, N - 1): continue
        a, b = (k - 1) % n, k % n
        if knots[k].left != ("open",) or knots[k].right != ("open",): continue
        if any(links[x].kind == "line" and not links[x].keep for x in (a, b)): continue
        if links[a].kind != "curve" and links[b].kind != "curve": continue
        t1, t2 = got[a].d(1), got[b].d(0)
        n1, n2 = math.hypot(*t1), math.hypot(*t2)
        if n1 < 1e-3 or n2 < 1e-3: continue
        mon.check((t1[0]*t2[0] + t1[1]*t2[1])/(n1*n2) > 1 - 1e-9, "tangent", lambda: "knot %d: directions %s and %s" % (k, t1, t2))
        mon.count("tangent")


def run_case(kind, i, rng, mon):
    if kind != "gen": return directed(kind, mon)
    if rng.random() < 0.25: return smoothed(rng, mon)
    scale, knots, links, closed, recipe = build(rng, mon)
    mon.describe(describe(knots, links, closed))
    segs, chains = solve(knots, links, closed)
    kinds = sorted(set("none" if l is None else l.kind + ("+" if l.kind == "line" and l.keep else "") + ("!" if l.kind == "curve" and (l.lat or l.rat) else "") for l in links))
    spec = sorted(set(s[0] for k in knots for s in (k.left, k.right) if s))
    if far(segs) > 1e6: raise Skip
    eps = rng.choice([None, None, 1e-5, 1e-6])
    real = mp.path([r() for r in recipe]) if eps is None else mp.path([r() for r in recipe], epsilon=eps)
    check(mon, real, knots, links, closed, segs)
    smooth(mon, segs, knots, links, closed, real)
    for x in kinds: mon.count("link:" + x)
    for x in spec: mon.count("spec:" + x)
    mon.count("closed" if closed else "open")
    for c in chains: mon.count("chain:%s %d" % (c[0], min(len(c[2]), 3)))
    mon.nontrivial("%s/%s/%d/%s" % (closed, kinds, len(knots), spec))
    if closed and rng.random() < 0.4:
        r = rng.randrange(1, len(knots))
        lst = [x() for x in recipe]
        turned = mp.path(lst[2*r:] + lst[:2*r])
        a, b = read(real)[0][0], read(turned)[0][0]
        if len(a) == len(b) == len(knots):
            samesegs(mon, b[-r:] + b[:-r], a, 1e-7*far(segs), "rotated", "started at knot %d" % r)
            mon.count("rotated")
    if chains and rng.random() < 0.12:
        # double and decimal arithmetics of mpost mishandle a curl next to a tension; fixed point arithmetics does not but is coarse
        coarse = any(c[3] and (c[3][0] == "curl" and (c[2][0].lt, c[2][0].rt) != (1, 1) or c[4][0] == "curl" and (c[2][-1].lt, c[2][-1].rt) != (1, 1)) for c in chains)
        if coarse and (far(segs) > 1000 or min(math.dist(c[1][j], c[1][j+1]) for c in chains for j in range(len(c[1]) - 1)) < 0.5): return
        ref = mpost(chains, mon.tmp, "scaled" if coarse else "double")
        if ref is None:
            mon.count("mpost refused"); return
        for c, res in zip(chains, ref):
            ws = [geo.Curve(c[1][j], c1, c2, c[1][(j + 1) % len(c[1])]) for j, (c1, c2) in enumerate(res)]
            got = [segs[j] for j in c[5]]
            tol = 1e-2*far(segs) if coarse else 2e-6*far(segs)
            if not closed and any(l is None for l in links): g2 = None
            else:
                allg = [s for sub in read(real) for s in sub[0]]
                g2 = [allg[j] for j in c[5]] if len(allg) == len(segs) else None
            if g2: samesegs(mon, g2, ws, tol, "mpost", "compared to mpost")
            samesegs(mon, got, ws, tol, "model", "model compared to mpost")
            mon.count("mpost scaled" if coarse else "mpost double")


# ---------------------------------------------------------------- linesmoothed
def smoothed(rng, mon):
    scale = rng.choice([1, 10, 100])
    prog = gen.program(rng, rng.randint(2, 8), scale=scale, ops=gen.OPS)
    ref = gen.reference(prog)
    if not ref: raise Skip
    p = path.path(*gen.pyxitems(prog, path, rng))
    kw = {}
    if rng.random() < 0.6: kw["tension"] = rng.choice([1, rng.uniform(0.75, 3), rng.uniform(0.3, 0.8)])
    if rng.random() < 0.5: kw["atleast"] = rng.random() < 0.8
    for c in ("lcurl", "rcurl"):
        if rng.random() < 0.6: kw[c] = rng.choice([None, 0, 1, rng.uniform(0, 4)])
    d = deformer.linesmoothed
    d = d(**kw) if rng.random() < 0.7 or not kw else d(tension=rng.uniform(1, 3), atleast=rng.random() < 0.5, lcurl=2)(**{**dict(tension=1, atleast=False, lcurl=1, rcurl=1), **kw})
    mon.describe(("linesmoothed", kw, str(p)))
    np_ = p.normpath()
    want = []
    for nsp in gen.normsubs(np_):
        if not nsp.segs: raise Skip
        P = [nsp.segs[0].at(0)] + [s.at(1) for s in nsp.segs]
        lt = max(0.75, abs(kw.get("tension", 1)))
        link = Link("curve", lt=lt, rt=lt, lat=kw.get("atleast", False), rat=kw.get("atleast", False))
        if nsp.closed:
            P = P[:-1]
            if len(P) < 2: raise Skip
            ks = [Knot(q, ("open",), ("open",)) for q in P]
        else:
            ends = []
            for c, t in (("lcurl", nsp.segs[0].d(0)), ("rcurl", nsp.segs[-1].d(1))):
                v = kw.get(c, 1)
                if v is None:
                    if math.hypot(*t) < 1e-3: raise Skip
                    ends.append(("given", math.atan2(t[1], t[0])))
                else: ends.append(("curl", v))
            ks = [Knot(q, ("open",), ("open",)) for q in P]
            ks[0].right = ends[0]; ks[0].left = None
            ks[-1].left = ends[1]; ks[-1].right = None
        n = len(ks) if nsp.closed else len(ks) - 1
        for k in range(n):
            if 0 < math.dist(ks[k].p, ks[(k + 1) % len(ks)].p) < 1e-3: raise Skip
        segs, _ = solve(ks, [link]*n, nsp.closed)
        want.append((segs, nsp.closed))
    if max(far(s) for s, _ in want) > 1e6: raise Skip
    before = str(p)
    res = d.deform(p)
    mon.check(str(p) == before, "argument-changed", lambda: "path changed")
    got = gen.normsubs(res.normpath())
    mon.check(len(got) == len(want), "smoothed-subpaths", lambda: "%d instead of %d subpaths" % (len(got), len(want)))
    for g, (w, c) in zip(got, want):
        mon.check(g.closed == c, "smoothed-closed", lambda: "closed is %s" % g.closed)
        w = [s for s in w if not (math.dist(s.at(0), s.at(1)) < 1e-5 and math.dist(s.at(0), s.at(.5)) < 1e-5)]
        gs = [s for s in g.segs if not (math.dist(s.at(0), s.at(1)) < 1e-5 and math.dist(s.at(0), s.at(.5)) < 1e-5)]
        tol = 1e-6*far(w) + 2e-5
        mon.check(len(gs) == len(w), "smoothed-structure", lambda: "%d instead of %d curves" % (len(gs), len(w)))
        for k, (a, b) in enumerate(zip(gs, w)):
            for t in (0, 1/3, 2/3, 1):
                mon.ptclose(a.at(t), b.at(t), tol, "smoothed-curve", lambda: "curve %d at %g" % (k, t))
            mon.count("smoothed:curve")
        mon.count("smoothed:" + ("closed" if c else "open"))
    for k, v in kw.items(): mon.count("smoothed:%s%s" % (k, "=None" if v is None else ""))
    mon.nontrivial("smoothed/%s/%d/%s" % (sorted(kw), len(want[0][0]), want[0][1]))


# ---------------------------------------------------------------- directed
def directed(kind, mon):
    K, C = mp.smoothknot_pt, mp.curve
    if kind == "straight":
        for a, b in (((0, 0), (10, 5)), ((3, -2), (3, 9))):
            p = mp.path([mp.beginknot_pt(*a), C(), mp.endknot_pt(*b)])
            s = read(p)[0][0]
            mon.check(len(s) == 1, "straight", lambda: str(p))
            for t in (0, .25, .5, .75, 1):
                mon.ptclose(s[0].at(t), (a[0] + t*(b[0] - a[0]), a[1] + t*(b[1] - a[1])), 1e-9, "straight", lambda: "two knots without directions")
        mon.count("directed:straight")
    elif kind == "circle":
        for n in (4, 8, 16):
            P = [(10*math.cos(2*math.pi*k/n), 10*math.sin(2*math.pi*k/n)) for k in range(n)]
            lst = []
            for q in P: lst += [K(*q), C()]
            for s in read(mp.path(lst))[0][0]:
                for t in np.linspace(0, 1, 17):
                    mon.check(abs(math.hypot(*s.at(t)) - 10) < 0.01, "circle", lambda: "radius %g" % math.hypot(*s.at(t)))
        mon.count("directed:circle")
    elif kind == "fig":
        # mpman, figures 2 to 4
        p = mp.path([mp.beginknot_pt(0, 0), C(), K(60, 40), C(), K(40, 90), C(), K(10, 70), C(), mp.endknot_pt(30, 50)])
        want = [((26.764633, -1.8454285), (51.409393, 14.584412)), ((67.098755, 61.001877), (59.762527, 84.57518)),
                ((25.357147, 94.01947), (10.480637, 84.502197)), ((9.628952, 58.804214), (18.804214, 49.628952))]
        its = [it for it in p.pathitems if isinstance(it, path.curveto_pt)]
        mon.check(len(its) == 4, "fig", lambda: str(p))
        for it, (a, b) in zip(its, want):
            mon.ptclose((it.x1_pt, it.y1_pt), a, 2e-3, "fig", lambda: "mpman figure 3")
            mon.ptclose((it.x2_pt, it.y2_pt), b, 2e-3, "fig", lambda: "mpman figure 3")
        mon.count("directed:fig")
    elif kind == "epsilon":
        # knots closer than epsilon are joined, others not
        for d, eps in ((1e-3, 1e-2), (1e-3, 1e-4)):
            ks = [Knot((0.0, 0.0), None, ("curl", 1)), Knot((10.0, 5.0), ("open",), ("open",)), Knot((10.0 + d, 5.0), ("open",), ("open",)), Knot((20.0, 0.0), ("curl", 1), None)]
            link = Link("curve", lt=1, rt=1, lat=False, rat=False)
            segs, _ = solve(ks, [link]*3, False, eps)
            for how in (0, 1):
                lst = [mp.beginknot_pt(0, 0), C(), K(10, 5), C(), K(10 + d, 5), C(), mp.endknot_pt(20, 0)]
                if how == 0: p = mp.path(lst, epsilon=eps)
                else:
                    old = mp._epsilon
                    mp.set(epsilon=eps)
                    try: p = mp.path(lst)
                    finally: mp.set(epsilon=old)
                check(mon, p, ks, [link]*3, False, segs, "epsilon %g" % eps)
        mon.count("directed:epsilon")
    else:
        # a curve cannot start at the end of a path
        for lst in ([mp.beginknot_pt(0, 0), C(), mp.endknot_pt(10, 5), C(), mp.endknot_pt(3, 3)], [mp.beginknot_pt(0, 0), C(), mp.beginknot_pt(3, 3)]):
            try: mp.path(lst)
            except Exception: pass
            else: mon.fail("errors", "curve accepted next to the wrong knot")
        mon.count("directed:errors")
