"""C05: arc lengths, parameters, points, tangents, rotations, trafos and curvature against exact arc-length tables."""
import math
import geo, gen
from harness import Skip
from pyx import path, normpath, unit, trafo

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("random path programs (as in C03, without lone movetos); every query of path, normpath and normsubpath at random, boundary, "
        "negative and excessive arc lengths and at the parameters of arc lengths is compared with Gauss-quadrature arc-length "
        "tables of the reference segments; distinct by operator sequence and query kind, non-trivial with a curved segment or two subpaths")
QUICK, THOROUGH = 450, 9000
REQUIRED = {"q:at": 800, "q:roundtrip": 800, "q:tangent": 500, "q:rotation": 500, "q:trafo": 500, "q:curvature": 300, "q:arith": 150,
            "q:outside": 40, "q:normsubpath": 80, "q:multisub": 25, "q:ordered": 500}
DIRECTED = ["cusps", "containers", "errors"]
ASSUMPTIONS = ["arc lengths are computed by PyX to 1e-5 pt per curve item (documented epsilon)",
               "points are compared at 1e-3 pt, directions away from corners and cusps"]


def rot_of(t):
    x0, y0 = t.apply_pt(0, 0); x1, y1 = t.apply_pt(1, 0); x2, y2 = t.apply_pt(0, 1)
    return (x0, y0), (x1-x0, y1-y0), (x2-x0, y2-y0)


def anglediff(u, v):
    return abs(math.atan2(u[0]*v[1]-u[1]*v[0], u[0]*v[0]+u[1]*v[1]))


def build(rng, mon):
    scale = rng.choice([1.0, 1.0, 1.0, 0.1, 6.0])
    for _ in range(8):
        prog = gen.program(rng, rng.choice([2, 2, 3, 3, 4, 5, 6]), scale=scale)
        ref = gen.reference(prog)
        if ref and all(s.segs and s.length() > 0.3*scale for s in ref): break
    else:
        raise Skip
    mon.describe((scale, prog))
    return prog, ref, path.path(*gen.pyxitems(prog, path, rng)), scale


def run_case(kind, i, rng, mon):
    if kind != "gen":
        return globals()["d_" + kind](rng, mon)
    prog, ref, p, scale = build(rng, mon)
    tab = geo.ArcTable(ref)
    T = tab.total
    nseg = sum(len(s.segs) for s in ref)
    # arcs are Bezier approximations, their length is right to about 1e-6
    ltol = 3e-5*(nseg*8 + 3) + 3e-6*T
    ptol = 5e-4*max(1, scale) + ltol
    if any(g.kind != "L" for s in ref for g in s.segs) or len(ref) > 1:
        mon.nontrivial((tuple(op for op, a in prog), round(T, 3)))
    if len(ref) > 1: mon.count("q:multisub")
    obj = p if rng.random() < 0.5 else p.normpath()
    L = obj.arclen_pt()
    mon.close(L, T, ltol, "total-arclen", "arclen_pt")
    mon.close(unit.topt(obj.arclen()), L, 1e-6*(1+abs(L)), "arclen-unit", "arclen")
    np_ = p.normpath()
    up, lo = np_.arclen_pt(upper=True), np_.arclen_pt(upper=False)
    mon.check(lo <= T + ltol and up >= T - ltol and up - lo <= ltol and up >= lo - 1e-12, "arclen-bounds", lambda: "%r %r %r" % (lo, T, up))
    mon.close(sum(sp.arclen_pt() for sp in np_.normsubpaths), L, 1e-9*(1+L), "arclen-additive", "sum over subpaths")
    mon.close(sum(sp.arclen_pt() for sp in np_.normsubpaths), sum(it.arclen_pt(1e-5) for sp in np_.normsubpaths for it in sp.normsubpathitems), 1e-9*(1+L)+ltol, "arclen-items", "sum over items")

    ss = [rng.uniform(0, T) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.3: ss.append(0.0)
    if rng.random() < 0.3: ss.append(L)
    if rng.random() < 0.3: ss.append(rng.choice([0.5*T, 0.25*T]))
    if rng.random() < 0.2: ss.append(ss[0])
    rng.shuffle(ss)

    # points at arc lengths: list, tuple and single forms; pt and unit forms agree
    pts = obj.at_pt(ss if rng.random() < 0.7 else tuple(ss))
    mon.check(len(pts) == len(ss), "at-count")
    for s, q in zip(ss, pts):
        mon.count("q:at")
        near = min(abs(s - b) for b in bounds(tab))
        want = tab.point(s)
        d = math.hypot(q[0]-want[0], q[1]-want[1])
        mon.check(d <= ptol or (near <= ltol and any(math.hypot(q[0]-w[0], q[1]-w[1]) <= ptol for w in (tab.point(max(0, s-2*ltol)), tab.point(s+2*ltol)))),
                  "at-point", lambda: "at_pt(%r) = %r instead of %r" % (s, q, want))
    s = rng.choice(ss)
    q = obj.at_pt(s)
    mon.ptclose(q, pts[ss.index(s)], 1e-9, "at-single", "at_pt(%r)" % s)
    x, y = obj.at(s*unit.t_pt)
    mon.ptclose((unit.topt(x), unit.topt(y)), q, 1e-6*(1+abs(q[0])+abs(q[1])), "at-unit", "at(%r pt)" % s)
    # arc length -> parameter -> arc length
    params = obj.arclentoparam_pt(ss)
    mon.check(len(params) == len(ss), "param-count")
    back = obj.paramtoarclen_pt(params)
    for s, r, pr in zip(ss, back, params):
        mon.count("q:roundtrip")
        mon.close(r, s, ltol, "arclen-roundtrip", "paramtoarclen(arclentoparam(s))")
        mon.close(pr.arclen_pt(), r, 1e-9*(1+T), "param-arclen")
        mon.close(unit.topt(pr.arclen()), r, 1e-6*(1+T), "param-arclen-unit")
    r1 = obj.paramtoarclen_pt(params[0])
    mon.close(r1, back[0], 1e-9, "param-single")
    mon.close(unit.topt(obj.paramtoarclen(params[0])), back[0], 1e-6*(1+T), "paramtoarclen-unit")
    pu = obj.arclentoparam([s*unit.t_pt for s in ss])
    for a, b in zip(pu, params):
        mon.close(a.arclen_pt(), b.arclen_pt(), ltol, "arclentoparam-unit")
    # the same point through the parameter
    for pr, q in zip(params, obj.at_pt(params)):
        mon.ptclose(q, pts[params.index(pr)] if False else obj.at_pt(pr), 1e-9, "at-param-list")
    for q, q2 in zip(obj.at_pt(params), pts):
        mon.ptclose(q, q2, 1e-9*(1+T), "at-param", "point through parameter")
    mixed = [pr if rng.random() < 0.5 else s for pr, s in zip(params, ss)]
    for q, q2 in zip(obj.at_pt(mixed), pts):
        mon.ptclose(q, q2, 1e-9*(1+T), "at-mixed", "mixed parameters and lengths")
    # order
    order = sorted(range(len(ss)), key=lambda k: ss[k])
    for a, b in zip(order, order[1:]):
        if ss[b]-ss[a] > 4*ltol:
            mon.count("q:ordered")
            mon.check(params[a] < params[b] and params[b] > params[a] and params[a] <= params[b] and params[a] != params[b], "param-order", lambda: "%r %r" % (ss[a], ss[b]))
        if ss[a] == ss[b]:
            mon.check(params[a] == params[b], "param-equal")
    mon.check(obj.begin() <= min(params) and max(params) <= obj.end() or min(ss) <= 1e-9 or max(ss) >= T-ltol, "param-range")
    mon.close(obj.begin().arclen_pt(), 0, 1e-12, "begin-param")
    mon.close(obj.end().arclen_pt(), L, 1e-6*(1+L)+1e-4, "end-param")

    directions(obj, p, ref, tab, ss, params, pts, rng, mon, T, ltol, ptol)
    if rng.random() < 0.4: arithmetic(obj, tab, params, ss, rng, mon, T, ltol, scale)
    if rng.random() < 0.3: outside(obj, ref, tab, rng, mon, L, ptol)
    if rng.random() < 0.4: subpaths(np_, ref, rng, mon, ptol, ltol)


def bounds(tab):
    return [x[0] for x in tab.items] + [tab.total]


def directions(obj, p, ref, tab, ss, params, pts, rng, mon, T, ltol, ptol):
    keep = []
    for k, s in enumerate(ss):
        if min(abs(s-b) for b in bounds(tab)) < 0.02*min(1, T): continue
        seg, t, L0, l = tab.locate(s)
        d = seg.d(t)
        v = math.hypot(*d)
        if v < 0.05*l: continue
        dd = seg.dd(t)
        if abs(d[0]*dd[1]-d[1]*dd[0])/v**3 > 5/ max(T*0.02, 1e-3): continue
        keep.append((k, s, seg, t, d, v, dd))
    if not keep: return
    arg = [params[k] if rng.random() < 0.5 else ss[k] for k, *_ in keep]
    length = rng.choice([1.0, 5.0, 33.0])
    tang = obj.tangent_pt(arg, length)
    rots = obj.rotation_pt(arg)
    trs = obj.trafo_pt(arg)
    cur = obj.curvature_pt(arg)
    mon.check(len(tang) == len(rots) == len(trs) == len(cur) == len(keep), "query-count")
    for j, (k, s, seg, t, d, v, dd) in enumerate(keep):
        kappa = (d[0]*dd[1]-d[1]*dd[0])/v**3
        atol = 1e-4 + 30*abs(kappa)*ptol + 1e-3*(seg.kind == "A")
        b, e = tang[j].atbegin_pt(), tang[j].atend_pt()
        mon.count("q:tangent")
        mon.ptclose(b, pts[k], 1e-7*(1+T), "tangent-start", "tangent at %r" % s)
        mon.close(math.hypot(e[0]-b[0], e[1]-b[1]), length, 1e-6*length, "tangent-length")
        mon.check(anglediff((e[0]-b[0], e[1]-b[1]), d) <= atol, "tangent-direction", lambda: "at %r: %r instead of %r" % (s, (e[0]-b[0], e[1]-b[1]), d))
        mon.count("q:rotation")
        o, ex, ey = rot_of(rots[j])
        mon.check(math.hypot(*o) < 1e-9 and abs(math.hypot(*ex)-1) < 1e-9 and abs(ex[0]*ey[1]-ex[1]*ey[0]-1) < 1e-9, "rotation-pure", lambda: str((o, ex, ey)))
        mon.check(anglediff(ex, d) <= atol, "rotation-direction", lambda: "at %r" % s)
        mon.count("q:trafo")
        o, ex, ey = rot_of(trs[j])
        mon.ptclose(o, pts[k], 1e-7*(1+T), "trafo-origin", "trafo at %r" % s)
        mon.check(anglediff(ex, d) <= atol and abs(math.hypot(*ex)-1) < 1e-9 and abs(ex[0]*ey[1]-ex[1]*ey[0]-1) < 1e-9, "trafo-direction")
        if seg.kind != "A":
            mon.count("q:curvature")
            mon.close(cur[j], kappa, 1e-6+abs(kappa)*2e-2+5e-2*abs(kappa)*abs(kappa)*0+0.3*curvslope(seg, t)*ptol*3, "curvature", "at %r" % s)
        else:
            mon.close(cur[j], kappa, 4e-3*abs(kappa)+1e-6, "curvature", "arc at %r" % s)
    # single and unit variants
    k, s, seg, t, d, v, dd = keep[0]
    su = s*unit.t_pt
    tg = obj.tangent(su, length*unit.t_pt)
    mon.ptclose(tg.atend_pt(), tang[0].atend_pt(), 1e-4*(1+length)+ptol, "tangent-unit")
    tg = obj.tangent_pt(arg[0], length)
    mon.ptclose(tg.atend_pt(), tang[0].atend_pt(), 1e-7*(1+T), "tangent-single")
    for f, g, m in ((obj.rotation, rots, "rotation-unit"), (obj.trafo, trs, "trafo-unit")):
        a, b = rot_of(f(su)), rot_of(g[0])
        mon.ptclose(a[0], b[0], ptol, m)
        mon.check(anglediff(a[1], b[1]) <= 1e-3+30*abs((d[0]*dd[1]-d[1]*dd[0])/v**3)*ptol, m)
    mon.close(obj.curvature_pt(arg[0]), cur[0], 1e-9*(1+abs(cur[0])), "curvature-single")


def curvslope(seg, t, h=1e-4):
    def k(t):
        d, dd = seg.d(t), seg.dd(t)
        return (d[0]*dd[1]-d[1]*dd[0])/math.hypot(*d)**3
    return abs(k(t+h)-k(t-h))/(2*h)/math.hypot(*seg.d(t))


def arithmetic(obj, tab, params, ss, rng, mon, T, ltol, scale):
    pr, s = params[0], ss[0]
    x = rng.uniform(-0.3, 0.3)*T
    f = rng.choice([0.5, 0.25, 1.0, 0.9])
    q = params[-1]; sq = ss[-1]
    cases = [(lambda: pr + x*unit.t_pt, s+x), (lambda: x*unit.t_pt + pr, s+x), (lambda: pr - x*unit.t_pt, s-x), (lambda: T*unit.t_pt - pr, T-s),
             (lambda: pr*f, s*f), (lambda: f*pr, s*f), (lambda: pr/2, s/2), (lambda: pr+q, s+sq), (lambda: pr-q, s-sq), (lambda: -pr, -s)]
    for j, (fn, want) in enumerate(cases):
        if not (ltol < want < T-ltol): continue
        mon.count("q:arith")
        mon.close(fn().arclen_pt(), want, 3*ltol+1e-6*T, "param-arithmetic", "operation %d" % j)
    mon.check((pr < (s+10*ltol)*unit.t_pt) and (pr > (s-10*ltol)*unit.t_pt), "param-compare-length")


def outside(obj, ref, tab, rng, mon, L, ptol):
    x = rng.uniform(0.01, 5)
    first, last = ref[0].segs[0], ref[-1].segs[-1]
    if first.kind == "L":
        l = math.hypot(*first.d(0))
        if l > 1e-2:
            want = first.at(-x/l)
            mon.count("q:outside")
            mon.ptclose(obj.at_pt(-x), want, ptol*(1+x/l), "outside-begin", "at_pt(%g)" % -x)
            mon.close(obj.arclentoparam_pt(-x).arclen_pt(), -x, 1e-6, "outside-begin-arclen")
    if last.kind == "L":
        l = math.hypot(*last.d(0))
        if l > 1e-2:
            want = last.at(1+x/l)
            mon.count("q:outside")
            mon.ptclose(obj.at_pt(L+x), want, 2*ptol*(1+x/l), "outside-end", "at_pt(%g)" % (L+x))


def subpaths(np_, ref, rng, mon, ptol, ltol):
    k = rng.randrange(len(ref))
    if len(np_.normsubpaths) != len(ref): return
    sp, r = np_.normsubpaths[k], ref[k]
    tab = geo.ArcTable([r])
    mon.count("q:normsubpath")
    mon.close(sp.arclen_pt(), tab.total, ltol, "subpath-arclen")
    ss = [rng.uniform(0.02, 0.98)*tab.total for _ in range(3)]
    par = sp.arclentoparam_pt(ss)
    for s, q, w in zip(ss, sp.at_pt(par), par):
        want = tab.point(s)
        mon.ptclose(q, want, ptol, "subpath-at", "subpath %d at %r" % (k, s))
        mon.check(0 <= w <= len(sp), "subpath-param-range", lambda: "%r" % w)
    for t, q, ro, cu in zip(sp.trafo(par), sp.at_pt(par), sp.rotation(par), sp.curvature_pt(par)):
        o, ex, ey = rot_of(t)
        mon.ptclose(o, q, 1e-7*(1+tab.total), "subpath-trafo")
        mon.check(anglediff(ex, rot_of(ro)[1]) < 1e-9, "subpath-rotation")
    mon.ptclose(sp.atbegin_pt(), r.begin(), ptol, "subpath-begin")
    mon.ptclose(sp.atend_pt(), r.end(), ptol, "subpath-end")
    # items: value at 0, 1/2, 1 and arclen of halves
    it = rng.choice(sp.normsubpathitems)
    a, m, b = it.at_pt([0, 0.5, 1])
    mon.ptclose(a, it.atbegin_pt(), 1e-9*(1+tab.total), "item-begin"); mon.ptclose(b, it.atend_pt(), 1e-9*(1+tab.total), "item-end")
    h = it.segments([0, 0.5, 1])
    mon.ptclose(h[0].atend_pt(), m, 1e-8*(1+tab.total), "item-segments")
    mon.close(sum(x.arclen_pt(1e-5) for x in h), it.arclen_pt(1e-5), 6e-5, "item-arclen-additive")


def d_cusps(rng, mon):
    "curves with vanishing derivatives inside or at their ends"
    curves = [(0, 0, 100, 100, 0, 100, 100, 0), (0, 0, 100, 0, -100+100, 0, 50, 0), (0, 0, 0, 0, 10, 30, 60, 5), (0, 0, 30, 40, 60, 5, 60, 5),
              (0, 0, 0, 0, 60, 80, 60, 80), (0, 0, 60, 60, 0, 60, 60, 0), (0, 0, 80, 0, -20, 0, 60, 0.0), (5, 5, 5, 25, 5, 25, 25, 25)]
    for c in curves:
        mon.describe(c)
        p = path.curve_pt(*map(float, c))
        b = geo.Builder(); b.moveto(c[0], c[1]); b.curveto(*map(float, c[2:]))
        tab = geo.ArcTable(b.subs, 2000)
        mon.close(p.arclen_pt(), tab.total, 5e-4, "cusp-arclen", str(c))
        for k in range(21):
            s = tab.total*k/20
            mon.ptclose(p.at_pt(s), tab.point(s), 2e-2, "cusp-at", "%s at %d/20" % (c, k))
            mon.close(p.paramtoarclen_pt(p.arclentoparam_pt(s)), s, 2e-3, "cusp-roundtrip")
        gen.continuous(gen.normsubs(p.normpath()))
        mon.count("cusp curve")


def d_containers(rng, mon):
    "single values, lists, tuples, generators over ranges give the same answers; arguments are not modified"
    p = path.path(path.moveto_pt(0, 0), path.lineto_pt(30, 0), path.curveto_pt(60, 0, 60, 30, 90, 30), path.moveto_pt(0, 50), path.lineto_pt(40, 50))
    for obj in (p, p.normpath()):
        ss = [3.0, 45.0, 120.0, 10.0]
        keep = list(ss)
        for f in (obj.at_pt, obj.arclentoparam_pt, obj.curvature_pt, obj.rotation_pt, obj.trafo_pt, lambda x: obj.tangent_pt(x, 3)):
            a = f(ss); b = f(tuple(ss)); c = [f(s) for s in ss]
            mon.check(ss == keep, "argument-modified")
            mon.check(len(a) == len(b) == len(c) == 4, "container-count")
            for x, y, z in zip(a, b, c):
                mon.check(desc(x) == desc(y) == desc(z), "container-equal", lambda: "%s %s %s" % (desc(x), desc(y), desc(z)))
        mon.check(obj.at_pt([]) == [], "empty-list")
        pr = obj.arclentoparam_pt(ss)
        mon.check([round(x, 4) for x in obj.paramtoarclen_pt(pr)] == [round(x, 4) for x in ss], "containers-back")
        mon.check([round(unit.topt(x), 4) for x in obj.paramtoarclen(pr)] == [round(x, 4) for x in ss], "containers-back-unit")


def desc(x):
    if isinstance(x, tuple): return tuple(round(v, 6) for v in x)
    if hasattr(x, "normsubpathparam"): return (x.normsubpathindex, round(x.normsubpathparam, 6))
    if hasattr(x, "apply_pt"): return tuple(round(v, 6) for v in x.apply_pt(0, 0) + x.apply_pt(1, 0))
    if hasattr(x, "atend_pt"): return tuple(round(v, 5) for v in x.atbegin_pt() + x.atend_pt())
    return round(x, 6)


def d_errors(rng, mon):
    e = normpath.normpath()
    for f in (e.begin, e.end, e.atbegin_pt, e.atend_pt):
        try:
            f()
        except normpath.NormpathException:
            mon.count("empty rejected")
        else:
            mon.fail("empty-path", "accepted")
    p = path.line_pt(0, 0, 10, 0).normpath(); q = path.line_pt(0, 0, 10, 0).normpath()
    for f in (lambda: p.at_pt(q.begin()), lambda: p.begin() + q.begin(), lambda: p.begin() < q.begin()):
        try:
            f()
        except AssertionError:
            mon.count("foreign parameter rejected")
        else:
            mon.fail("foreign-param", "parameter of another path accepted")
    mon.close(path.path().normpath().arclen_pt() if path.path().pathitems else 0, 0, 0, "empty-arclen")
