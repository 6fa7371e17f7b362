"""C06: splitting, segments, reversing, joining and concatenation against cut-out reference curves."""
import math
import numpy as np
import geo, gen
from harness import Skip
from pyx import path, normpath, unit

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("random path programs (open and closed subpaths, several subpaths, arcs and curves) split at 1-5 random, end and corner positions given as "
        "lengths or parameters, cut into segments in arbitrary order, reversed, joined and added; every piece is compared with the "
        "part of a densely sampled reference path between the positions and the operand with its snapshot; distinct by operator "
        "sequence, operation and positions")
QUICK, THOROUGH = 3000, 60000
REQUIRED = {"op:split": 300, "op:split closed": 60, "op:split multi": 60, "op:segments": 150, "op:reversed": 150, "op:joined": 150, "op:add": 100, "piece": 800, "op:alias": 80}
DIRECTED = ["errors", "circle", "corners"]
ASSUMPTIONS = ["positions are resolved to the documented accuracy (1e-5 pt per item), pieces are compared at 2e-3 of the magnitude"]


def snap(p):
    if hasattr(p, "pathitems"):
        np_ = p.normpath()
        return ([repr_item(it) for it in p.pathitems], snap(np_))
    return [(bool(sp.closed), sp.epsilon, [repr_item(x) for x in sp.normsubpathitems], repr_item(sp.skippedline) if sp.skippedline else None) for sp in p.normsubpaths]


def repr_item(x):
    names = []
    for c in type(x).__mro__:
        names += list(getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else [c.__slots__])
    return (type(x).__name__, tuple((n, repr(getattr(x, n))) for n in sorted(set(names)) if hasattr(x, n)))


def closepoly(got, want, tol, mon, mech, what):
    if len(want) > 1 and geo_len(want) > 20*tol:
        mon.check(len(got) > 0, mech, lambda: "%s: piece is empty, expected length %g" % (what, geo_len(want)))
    if not len(got): return
    mon.count("piece")
    mon.close(geo_len(got), geo_len(want), 4*tol + 2e-4*geo_len(want), mech, lambda: "%s: length" % what)
    d = geo.ordered_dist(got, want)
    mon.check(d <= 3*tol, mech, lambda: "%s: deviates by %g; from %s to %s instead of %s to %s" % (what, d, got[0], got[-1], want[0], want[-1]))


def geo_len(p):
    return float(np.hypot(*np.diff(p, axis=0).T).sum()) if len(p) > 1 else 0.0


def fine(sub):
    return geo.Dense(sub).p if sub.segs else np.zeros((0, 2))


def build(rng, scale, maxn=7, ops=gen.OPS):
    for _ in range(20):
        prog = gen.program(rng, rng.randint(2, maxn), ops=ops, scale=scale)
        ref = gen.reference(prog)
        if ref and all(s.segs and s.length() > 0.5*scale for s in ref):
            p = path.path(*gen.pyxitems(prog, path, rng))
            if len(p.normpath().normsubpaths) == len(ref): return prog, ref, p
    raise Skip


def compare_np(np_, polys, closed, tol, mon, mech):
    "np_ must consist of the given polylines as subpaths"
    subs = gen.normsubs(np_)
    mon.check(gen.continuous(subs) <= 2e-5, mech + "-gap", lambda: "gap %g" % gen.continuous(subs))
    mon.check(len(subs) == len(polys), mech, lambda: "%d subpaths instead of %d" % (len(subs), len(polys)))
    for k, (s, w, c) in enumerate(zip(subs, polys, closed)):
        mon.check(s.closed == c, mech, lambda: "subpath %d closed=%s instead of %s" % (k, s.closed, c))
        closepoly(fine(s), w, tol, mon, mech, "subpath %d" % k)


def run_case(kind, i, rng, mon):
    if kind != "gen":
        return globals()["d_" + kind](rng, mon)
    scale = rng.choice([1.0, 1.0, 1.0, 0.2, 8.0])
    op = rng.choice(["split", "split", "split", "segments", "reversed", "joined", "add", "alias"])
    prog, ref, p = build(rng, scale)
    mon.describe((op, scale, prog))
    tol = 1e-3*max(scale, 0.3) + 2e-5*gen.extent(ref)
    dens = [geo.Dense(s) for s in ref]
    obj = p if rng.random() < 0.5 else p.normpath()
    before, before2 = snap(obj), snap(p)
    mon.nontrivial((op, tuple(o for o, a in prog), scale, round(dens[0].total, 3)))
    mon.count("op:" + op)
    globals()["o_" + op](obj, ref, dens, rng, mon, tol, scale)
    mon.check(snap(obj) == before and snap(p) == before2, "operand-changed", lambda: "%s changed its operand" % op)


def positions(dens, rng, n, sort=True):
    T = sum(d.total for d in dens)
    ss = []
    for _ in range(n):
        r = rng.random()
        if r < 0.08: ss.append(0.0)
        elif r < 0.12: ss.append(sum(d.total for d in dens[:rng.randint(0, len(dens)-1)]) + 0.5*dens[0].total*0)
        else: ss.append(rng.uniform(0.01, 0.99)*T)
    # keep clear of subpath boundaries (which side a boundary belongs to is not specified)
    b = np.cumsum([0]+[d.total for d in dens])
    ss = [s for s in ss if s == 0.0 or min(abs(s-x) for x in b) > 1e-2*min(1, T)]
    ss = ss or [0.37*T]
    ss = [s for s in ss if s == 0.0 or min(abs(s-x) for x in b) > 1e-2*min(1, T)] or [0.0]
    return sorted(ss) if sort else ss


def o_split(obj, ref, dens, rng, mon, tol, scale):
    ss = positions(dens, rng, rng.randint(1, 5))
    how = rng.randint(0, 4)
    if how == 0: pieces = obj.split_pt(ss)
    elif how == 1: pieces = obj.split_pt(obj.arclentoparam_pt(ss) if not hasattr(obj, "pathitems") else obj.normpath().arclentoparam_pt(ss))
    elif how == 2: pieces = obj.split([s*unit.t_pt for s in ss])
    elif how == 3:
        ss = ss[:1]
        pieces = obj.split_pt(ss[0])
    else:
        pr = obj.arclentoparam_pt(ss)
        pieces = obj.split([x if rng.random() < 0.5 else s*unit.t_pt for x, s in zip(pr, ss)])
    b = np.cumsum([0]+[d.total for d in dens])
    groups = [[]]
    closedcut = False
    for k, d in enumerate(dens):
        cuts = [s-b[k] for s in ss if (b[k] <= s < b[k+1]) or (k == len(dens)-1 and s >= b[k+1])]
        if not cuts:
            groups[-1].append(([(0, d.total)], ref[k].closed, k))
            continue
        if ref[k].closed:
            closedcut = True
            parts = [[(cuts[-1], d.total), (0, cuts[0])]] + [[(u, v)] for u, v in zip(cuts, cuts[1:])]
        else:
            e = [0]+cuts+[d.total]
            parts = [[(u, v)] for u, v in zip(e, e[1:])]
        groups[-1].append((parts[0], False, k))
        for q in parts[1:]: groups.append([(q, False, k)])
    if closedcut: mon.count("op:split closed")
    if len(ref) > 1: mon.count("op:split multi")
    mon.check(len(pieces) == len(groups), "split-count", lambda: "%d pieces instead of %d at %r" % (len(pieces), len(groups), ss))
    for pc, g in zip(pieces, groups):
        polys = []
        for parts, cl, k in g:
            polys.append(np.concatenate([dens[k].cut(u, v) for u, v in parts]))
        compare_np(pc, polys, [cl for _, cl, _ in g], tol, mon, "split-piece")
    mon.close(sum(pc.arclen_pt() for pc in pieces), sum(d.total for d in dens), 20*tol, "split-total")


def o_segments(obj, ref, dens, rng, mon, tol, scale):
    k = rng.randrange(len(ref))
    sp = obj.normpath().normsubpaths[k]
    d = dens[k]
    ss = positions([d], rng, rng.randint(2, 5), sort=rng.random() < 0.5)
    if len(ss) < 2: ss = [0.2*d.total, 0.7*d.total]
    ss = [min(max(s, 0.01*d.total), 0.99*d.total) for s in ss]
    par = sp.arclentoparam_pt(ss)
    if rng.random() < 0.3 and not ref[k].closed:
        ss = [0.0] + ss + [d.total]; par = [0] + par + [len(sp)]
    segs = sp.segments(par)
    mon.check(len(segs) == len(ss)-1, "segments-count", lambda: "%d" % len(segs))
    for q, u, v in zip(segs, ss, ss[1:]):
        s = gen.normsubs(normpath.normpath([q]))[0]
        mon.check(not s.closed, "segments-closed")
        closepoly(fine(s), d.cut(u, v), tol, mon, "segments-piece", "%g..%g of %g" % (u, v, d.total))
    # a single item between parameters
    it = rng.choice(sp.normsubpathitems)
    t0, t1 = rng.random(), rng.random()
    sg = it.segments([t0, t1])[0]
    (a,), (b,) = it.at_pt([t0]), it.at_pt([t1])
    mon.ptclose(sg.atbegin_pt(), a, 1e-9*scale*100, "item-segment"); mon.ptclose(sg.atend_pt(), b, 1e-9*scale*100, "item-segment")
    (m,) = sg.at_pt([0.3]); (w,) = it.at_pt([t0+0.3*(t1-t0)])
    mon.ptclose(m, w, 1e-8*scale*100, "item-segment", "inner point")


def o_reversed(obj, ref, dens, rng, mon, tol, scale):
    r = obj.reversed()
    compare_np(r, [d.p[::-1] for d in dens[::-1]], [s.closed for s in ref[::-1]], tol, mon, "reversed")
    rr = r.reversed()
    compare_np(rr, [d.p for d in dens], [s.closed for s in ref], tol, mon, "reversed-twice")
    mon.ptclose(r.atbegin_pt(), ref[-1].end(), tol, "reversed-begin"); mon.ptclose(r.atend_pt(), ref[0].begin(), tol, "reversed-end")
    T = sum(d.total for d in dens)
    if len(ref) == 1:
        s = rng.uniform(0.05, 0.95)*T
        mon.ptclose(r.at_pt(s), obj.at_pt(T-s), 3*tol, "reversed-at")


def o_joined(obj, ref, dens, rng, mon, tol, scale):
    prog2, ref2, p2 = build(rng, scale, 5)
    mon.describe("%s joined with %r" % (mon.desc, prog2))
    other = p2 if rng.random() < 0.5 else p2.normpath()
    before = snap(other)
    if ref[-1].closed or ref2[0].closed:
        try:
            obj.joined(other)
        except normpath.NormpathException:
            mon.count("join closed rejected")
        else:
            mon.fail("join-closed", "joining a closed subpath accepted")
        mon.check(snap(other) == before, "operand-changed", "joined changed the other path")
        return
    tol2 = tol + 2e-5*gen.extent(ref2)
    how = rng.randint(0, 2)
    if how == 0: r = obj.joined(other)
    elif how == 1: r = obj << other
    else:
        r = path.path(*obj.pathitems) if hasattr(obj, "pathitems") else obj.copy()
        r.join(other)
    d2 = [geo.Dense(s) for s in ref2]
    polys = [d.p for d in dens[:-1]] + [np.concatenate([dens[-1].p, d2[0].p])] + [d.p for d in d2[1:]]
    compare_np(r.normpath(), polys, [s.closed for s in ref[:-1]] + [False] + [s.closed for s in ref2[1:]], tol2, mon, "joined")
    mon.check(snap(other) == before, "operand-changed", "joined changed the other path")
    # joining onto a result that ends exactly where the other starts leaves no gap and no extra item
    a, b = (obj.normpath().split_pt([0.5*dens[0].total])[:2] if len(ref) == 1 else (None, None))
    if a is not None:
        j = a.joined(b)
        compare_np(j, [dens[0].p], [False], tol, mon, "rejoined")


def o_add(obj, ref, dens, rng, mon, tol, scale):
    prog2, ref2, p2 = build(rng, scale, 5)
    if prog2[0][0] != "moveto": raise Skip      # a path starting with an arc continues the previous subpath
    other = p2 if rng.random() < 0.5 else p2.normpath()
    before = snap(other)
    if rng.random() < 0.5:
        r = obj + other
    else:
        r = path.path(*obj.pathitems) if hasattr(obj, "pathitems") else obj.copy()
        if rng.random() < 0.5: r.normpath()
        r += other
    d2 = [geo.Dense(s) for s in ref2]
    tol2 = tol + 2e-5*gen.extent(ref2)
    compare_np(r.normpath(), [d.p for d in dens+d2], [s.closed for s in ref+ref2], tol2, mon, "add")
    mon.close(r.arclen_pt(), sum(d.total for d in dens+d2), 20*tol2, "add-arclen")
    mon.check(snap(other) == before, "operand-changed", "+ changed the other path")


def o_alias(obj, ref, dens, rng, mon, tol, scale):
    "modifying a result in place must not change the path it came from"
    np_ = obj.normpath()
    T = sum(d.total for d in dens)
    how = rng.choice(["split", "reversed", "joined", "copy", "add", "transformed"])
    mon.count("alias:" + how)
    if how == "split": rs = np_.split_pt([rng.uniform(0.05, 0.95)*T])
    elif how == "reversed": rs = [np_.reversed()]
    elif how == "copy": rs = [np_.copy()]
    elif how == "joined":
        if ref[-1].closed: return
        x = path.line_pt(1, 2, 3, 4).normpath() + np_
        keep = snap(np_)
        rs = [path.line_pt(1, 2, 3, 4).normpath().joined(x), np_.joined(path.line_pt(1, 2, 3, 4))]
    elif how == "add": rs = [np_ + path.line_pt(1, 2, 3, 4), path.line_pt(1, 2, 3, 4).normpath() + np_]
    else:
        from pyx import trafo
        rs = [np_.transformed(trafo.rotate(0)), np_.transformed(trafo.identity)]
    for r in rs:
        for sp in r.normsubpaths:
            if not sp.closed and len(sp):
                x, y = sp.atend_pt()
                sp.append(normpath.normline_pt(x, y, x+3, y+100))
        if r.normsubpaths and not r.normsubpaths[-1].closed:
            r.join(path.line_pt(0, 0, 5, 5))
            r.append(path.lineto_pt(200, 300))


def d_errors(rng, mon):
    e = path.path()
    l = path.line_pt(0, 0, 10, 0)
    c = path.circle_pt(0, 0, 5)
    for f in (lambda: e.joined(l), lambda: l.joined(e), lambda: c.joined(l), lambda: l.joined(c), lambda: c.normpath().normsubpaths[0].append(normpath.normline_pt(5, 0, 6, 0)),
              lambda: c.normpath().normsubpaths[0].close()):
        try:
            f()
        except normpath.NormpathException:
            mon.count("rejected")
        else:
            mon.fail("join-error", "accepted")
    for f in (lambda: l.normpath().normsubpaths[0].segments([0.5]), lambda: l.normpath().normsubpaths[0][0].segments([0.5])):
        try:
            f()
        except ValueError:
            mon.count("rejected")
        else:
            mon.fail("segments-error", "single parameter accepted")
    for obj in (l, l.normpath()):
        r = obj.split_pt([])
        mon.check(len(r) == 1 and abs(r[0].arclen_pt()-10) < 1e-9, "split-nothing")


def d_circle(rng, mon):
    "a closed path split once gives one open piece of full length starting and ending there"
    for s in (0.0, 3.0, 15.7, 31.0):
        p = path.circle_pt(0, 0, 5)
        r = p.split_pt([s])
        mon.check(len(r) == 1 and len(r[0].normsubpaths) == 1 and not r[0].normsubpaths[0].closed, "split-circle")
        a, b = r[0].atbegin_pt(), r[0].atend_pt()
        w = (5*math.cos(s/5), 5*math.sin(s/5))
        mon.ptclose(a, w, 2e-2, "split-circle"); mon.ptclose(b, w, 2e-2, "split-circle")
        mon.close(r[0].arclen_pt(), 2*math.pi*5, 1e-3, "split-circle")
        r = p.split_pt([s, s+0.4] if s < 31 else [s-0.4, s])
        mon.check(len(r) == 2 and abs(min(x.arclen_pt() for x in r)-0.4) < 1e-3, "split-circle-two", lambda: str([x.arclen_pt() for x in r]))


def d_corners(rng, mon):
    "splitting exactly at corners of polygons"
    for closed in (False, True):
        pts = [(0, 0), (30, 0), (30, 40), (0, 40)]
        items = [path.moveto_pt(*pts[0])] + [path.lineto_pt(*q) for q in pts[1:]] + ([path.closepath()] if closed else [])
        p = path.path(*items).normpath()
        T = 140 if closed else 100
        for cuts in ([30], [30, 70], [30, 70, 100], [15, 30, 30, 50]):
            if not closed and cuts[-1] == 100: continue
            r = p.split_pt([float(c) for c in cuts])
            want = len(cuts) + (0 if closed else 1)
            mon.check(len(r) == want, "corner-count", lambda: "%d" % len(r))
            mon.close(sum(x.arclen_pt() for x in r), T, 1e-6, "corner-total")
            e = cuts + [T+cuts[0]] if closed else [0]+cuts+[T]
            lens = sorted(round(b-a, 6) for a, b in zip(e, e[1:]))
            mon.check(sorted(round(x.arclen_pt(), 4) for x in r) == [round(v, 4) for v in lens], "corner-lengths", lambda: "%r %r" % (lens, [x.arclen_pt() for x in r]))
