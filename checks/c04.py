"""C04: bounding boxes of paths and canvases against exact extrema and a box-set model."""
import math
import numpy as np
import geo, gen
from harness import Skip
from pyx import path, bbox, trafo, unit, canvas, bitmap, deco, style, color

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("(a) random path programs, box compared with the extrema of every exact segment; (b) random expressions of box operations compared with "
        "the same operations on rectangles as point sets, empty and disjoint boxes included; (c) random canvas trees with transformations, clips, "
        "layers, images and decorated paths compared with the propagated boxes; distinct by construction")
QUICK, THOROUGH = 40000, 1200000
REQUIRED = {"path": 800, "normpath": 800, "arc": 400, "algebra": 700, "empty operand": 300, "disjoint": 200, "tree": 700, "clip": 300, "clipped away": 20, "layer": 150, "bitmap": 100}
DIRECTED = ["lone", "accessors"]
ASSUMPTIONS = ["arcs of normalized paths are Bezier approximations with relative error below 1e-4"]
PT = 72/2.54


def extrema(seg):
    "exact (llx, lly, urx, ury) of one segment"
    ts = [0.0, 1.0]
    if seg.kind == "C":
        P = np.array(seg.p, float)
        for k in (0, 1):
            c0, c1, c2, c3 = P[:, k]
            co = [-c0 + 3*c1 - 3*c2 + c3, 2*(c0 - 2*c1 + c2), c1 - c0]
            for r in np.roots(co) if any(abs(x) > 0 for x in co[:2]) else []:
                if abs(r.imag) < 1e-9 and 0 < r.real < 1: ts.append(float(r.real))
    elif seg.kind == "A":
        m = seg.m
        lo, hi = min(seg.a0, seg.a1), max(seg.a0, seg.a1)
        for k in (0, 1):
            a = math.atan2(m[2+k], m[k])
            for j in range(int((lo-a)/math.pi)-1, int((hi-a)/math.pi)+2):
                x = a + j*math.pi
                if lo < x < hi: ts.append((x-seg.a0)/(seg.a1-seg.a0))
    pts = [seg.at(t) for t in ts]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (min(xs), min(ys), max(xs), max(ys))


def union(boxes):
    boxes = [b for b in boxes if b is not None]
    if not boxes: return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


def inter(a, b):
    if a is None or b is None: return None
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def trbox(b, m):
    if b is None: return None
    pts = [geo.ap(m, (x, y)) for x in (b[0], b[2]) for y in (b[1], b[3])]
    return union([p + p for p in pts])


def pathbox(subs): return union([extrema(g) for s in subs for g in s.segs])


def tup(b):
    if not b:
        return None
    return b.highrestuple_pt()


def same(got, want, tol, mon, mech, what, ctol=None):
    if want is None or got is None:
        if (got is None) != (want is None):
            box = got if want is None else want
            # touching within the tolerance may go either way
            mon.check(min(box[2]-box[0], box[3]-box[1]) <= 2*tol, mech, lambda: "%s: got %r expected %r" % (what, got, want))
        return
    mon.check(all(abs(g-w) <= tol for g, w in zip(got, want)), mech, lambda: "%s: got %r expected %r (tol %g)" % (what, got, want, tol))


def run_case(kind, i, rng, mon):
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    [c_path, c_algebra, c_tree][i % 3](rng, mon)


def c_path(rng, mon):
    scale = rng.choice([1.0, 1.0, 0.05, 20.0])
    prog = gen.program(rng, rng.choice([2, 2, 3, 4, 6, 9]), scale=scale)
    subs = gen.reference(prog)
    if not subs or not all(s.segs and s.length() > 1e-3 for s in subs): raise Skip
    mon.describe(prog); mon.nontrivial(prog)
    p = path.path(*gen.pyxitems(prog, path, rng))
    ext = gen.extent(subs)
    want = pathbox(subs)
    arc = any(g.kind == "A" for s in subs for g in s.segs)
    if arc: mon.count("arc")
    same(tup(p.bbox()), want, 1e-9*ext + 1e-9, mon, "path-bbox", "path.bbox()"); mon.count("path")
    np_ = p.normpath()
    tol = (2e-5 if arc else 1e-9)*ext + 3e-5
    same(tup(np_.bbox()), want, tol, mon, "normpath-bbox", "normpath.bbox()"); mon.count("normpath")
    for sp, s in zip(np_.normsubpaths, subs):
        same(tup(sp.bbox()), pathbox([s]), tol, mon, "normsubpath-bbox", "normsubpath.bbox()")
    q = geo.reverse(subs) if hasattr(geo, "reverse") else None
    m, t = gentrafo(rng)
    same(tup(np_.transformed(t).bbox()), pathbox([s.tr(m) for s in subs]), tol*max(1, *map(abs, m[:4]))*2, mon, "transformed-bbox", "transformed path")
    same(tup(p.bbox()), want, 1e-9*ext + 1e-9, mon, "path-bbox", "second path.bbox()")


def gentrafo(rng):
    r = rng.random()
    if r < 0.3:
        a = rng.choice([0, 30, 45, 90, 180, 270, rng.uniform(-400, 400)])
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        return (c, s, -s, c, 0.0, 0.0), trafo.rotate(a)
    if r < 0.5:
        x, y = rng.uniform(-40, 40), rng.uniform(-40, 40)
        return (1.0, 0.0, 0.0, 1.0, x, y), trafo.translate_pt(x, y)
    if r < 0.7:
        x, y = rng.choice([-2, 0.5, 1, 3]), rng.choice([-1, 0.5, 2])
        return (x, 0.0, 0.0, y, 0.0, 0.0), trafo.scale(x, y)
    if r < 0.72:
        return (1.0, 0, 0, 1, 0, 0), trafo.trafo()
    m = (rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-30, 30), rng.uniform(-30, 30))
    return m, trafo.trafo_pt(((m[0], m[2]), (m[1], m[3])), (m[4], m[5]))


def genbox(rng):
    r = rng.random()
    if r < 0.15: return bbox.empty(), None
    if r < 0.55:   # coarse grid: coincidences, touching, degenerate
        x = sorted(rng.choice(range(-4, 5)) for _ in range(2)); y = sorted(rng.choice(range(-4, 5)) for _ in range(2))
    else:
        x = sorted(rng.uniform(-50, 50) for _ in range(2)); y = sorted(rng.uniform(-50, 50) for _ in range(2))
    w = (float(x[0]), float(y[0]), float(x[1]), float(y[1]))
    if r >= 0.55 and rng.random() < 0.5:
        return bbox.bbox(w[0]/PT, w[1]/PT, w[2]*unit.t_pt, w[3]*unit.t_pt), w
    return bbox.bbox_pt(*w), w


def c_algebra(rng, mon):
    a, ra = genbox(rng)
    hist = [ra]
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["add", "iadd", "mul", "mul", "imul", "imul", "transform", "transformed", "enlarge", "enlarged", "include", "copy", "set", "intersects"])
        b, rb = genbox(rng)
        if ra is None or rb is None: mon.count("empty operand")
        olda = tup(a)
        if ra is not None and rb is not None and op in ("mul", "imul", "intersects") and tup(a) != ra and \
           min(abs(ra[0]-rb[2]), abs(ra[1]-rb[3]), abs(ra[2]-rb[0]), abs(ra[3]-rb[1])) < 1e-8:
            raise Skip     # touching up to rounding
        if op == "add": r = a + b; rr = union([ra, rb])
        elif op == "iadd":
            r = a; r += b; rr = union([ra, rb])
            mon.check(r is a, "inplace")
        elif op == "mul": r = a * b; rr = inter(ra, rb)
        elif op == "imul":
            r = a; r *= b; rr = inter(ra, rb)
            mon.check(r is a, "inplace")
        elif op in ("transform", "transformed"):
            m, t = gentrafo(rng); rb = m
            rr = trbox(ra, m)
            if op == "transform": a.transform(t); r = a
            else: r = a.transformed(t)
        elif op in ("enlarge", "enlarged"):
            al = rng.choice([0, 1.0, rng.uniform(0, 5)])
            side = {k: rng.uniform(0, 9) for k in ("left", "bottom", "right", "top") if rng.random() < 0.3}
            if rng.random() < 0.15 and side: side[sorted(side)[0]] = 0
            pt = rng.random() < 0.5
            f = 1.0 if pt else PT
            kw = {k + ("_pt" if pt else ""): v for k, v in side.items()}
            rb = (op, pt, al, side)
            w = {k: f*side.get(k, al) for k in ("left", "bottom", "right", "top")}
            rr = None if ra is None else (ra[0]-w["left"], ra[1]-w["bottom"], ra[2]+w["right"], ra[3]+w["top"])
            r = getattr(a, op + ("_pt" if pt else ""))(al, **kw)
            if op == "enlarge": r = a
        elif op == "include":
            x, y = rng.uniform(-60, 60), rng.uniform(-60, 60); rb = (x, y)
            a.includepoint_pt(x, y); r = a; rr = union([ra, (x, y, x, y)])
        elif op == "copy":
            r = a.copy(); rr = ra; r2 = a.copy(); r2 += b; r2.enlarge_pt(3)
            mon.check(tup(a) == olda, "copy-alias")
        elif op == "set":
            r = a; a.set(b); rr = rb; b2 = b.copy(); b2.enlarge(1)
        else:
            r, rr = a, ra
            x = inter(ra, rb)
            mon.check(bool(a.intersects(b)) == (x is not None) and bool(b.intersects(a)) == (x is not None), "intersects", lambda: "%r %r" % (ra, rb))
        hist.append((op, rb)); mon.describe(hist)
        if op in ("mul", "imul") and ra is not None and rb is not None and rr is None: mon.count("disjoint")
        mon.check(bool(r) == (rr is not None), "emptiness", lambda: "%r after %r: %r" % (hist[0], hist[1:], tup(r)))
        same(tup(r), rr, 1e-9*max(1, *(map(abs, rr or (1,)))), mon, "box-" + op, lambda: "%r" % (hist,))
        if op not in ("iadd", "imul", "transform", "enlarge", "include", "set"):
            mon.check(tup(a) == olda, "operand-changed", lambda: "%s changed %r to %r" % (op, olda, tup(a)))
        if isinstance(rb, tuple) and len(rb) == 4 and not isinstance(rb[0], str) and op in ("add", "iadd", "mul", "imul", "set", "intersects"):
            mon.check(tup(b) is not None and all(abs(g-w) < 1e-9 for g, w in zip(tup(b), rb)), "operand-changed", lambda: "right operand of %s changed" % op)
        a, ra = r, rr
        mon.count("algebra")
        queries(a, ra, mon)
    mon.nontrivial(hist)


def queries(a, ra, mon):
    if ra is None:
        for f in ("lowrestuple_pt", "highrestuple_pt", "rect", "width_pt", "top_pt", "left_pt", "center_pt"):
            try: getattr(a, f)()
            except ValueError: mon.check(True, "empty-query")
            else: mon.fail("empty-query", "%s of an empty box answers" % f)
        return
    t = 1e-9*max(1, *map(abs, ra))
    want = {"left": ra[0], "bottom": ra[1], "right": ra[2], "top": ra[3], "width": ra[2]-ra[0], "height": ra[3]-ra[1]}
    for k, v in want.items():
        mon.close(getattr(a, k + "_pt")(), v, t, "query-" + k)
        mon.close(unit.topt(getattr(a, k)()), v, 2*t, "query-" + k)
    c = a.center(); mon.ptclose((unit.topt(c[0]), unit.topt(c[1])), ((ra[0]+ra[2])/2, (ra[1]+ra[3])/2), 2*t, "query-center")
    mon.ptclose(a.center_pt(), ((ra[0]+ra[2])/2, (ra[1]+ra[3])/2), 2*t, "query-center")
    lo = a.lowrestuple_pt()
    mon.check(all(isinstance(x, int) for x in lo) and lo[0] <= ra[0]+t and lo[1] <= ra[1]+t and lo[2] >= ra[2]-t and lo[3] >= ra[3]-t
              and lo[0] > ra[0]-1-t and lo[1] > ra[1]-1-t and lo[2] < ra[2]+1+t and lo[3] < ra[3]+1+t, "lowres", lambda: "%r %r" % (lo, ra))
    if ra[2]-ra[0] > 1e-3 and ra[3]-ra[1] > 1e-3:
        same(tup(a.rect().bbox()), ra, t, mon, "rect", "rect")
        mon.check(bool(a.rect().normpath().normsubpaths[0].closed), "rect")


def leaf(rng, mon):
    r = rng.random()
    if r < 0.12:
        mon.count("bitmap")
        x, y, w, h = rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(1, 20), rng.uniform(1, 20)
        im = bitmap.image(2, 3, "L", bytes(range(6)))
        q = rng.random()
        if q < 0.5: b = bitmap.bitmap_pt(x, y, im, width_pt=w, height_pt=h)
        elif q < 0.75: b = bitmap.bitmap(x/PT, y/PT, im, width=w/PT); h = w*3/2
        else: b = bitmap.bitmap_pt(x, y, im, height_pt=h); w = h*2/3
        return b, (x, y, x+w, y+h), "bitmap"
    for _ in range(20):
        prog = gen.program(rng, rng.randint(2, 4), scale=0.7)
        subs = gen.reference(prog)
        if subs and all(s.segs and s.length() > 1e-2 for s in subs): break
    else: raise Skip
    return path.path(*gen.pyxitems(prog, path)), pathbox(subs), subs


def clippath(rng, scale=1.0):
    prog = gen.program(rng, rng.randint(2, 5), ops=["lineto", "lineto", "curveto", "closepath"], scale=rng.choice([0.3, 1.0]))
    subs = gen.reference(prog)
    if not subs or not all(s.segs and s.length() > 1e-2 for s in subs):
        x, y = rng.uniform(-30, 20), rng.uniform(-30, 20)
        return path.rect_pt(x, y, 15, 20), [geo.Sub((x, y), [geo.Line((x, y), (x+15, y)), geo.Line((x+15, y), (x+15, y+20)), geo.Line((x+15, y+20), (x, y+20)), geo.Line((x, y+20), (x, y))], True)]
    return path.path(*gen.pyxitems(prog, path)), subs


def genattrs(rng, mon, clip=True):
    """canvas attributes and the function box -> box they denote"""
    attrs, ops = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        m, t = gentrafo(rng)
        attrs.append(t); ops.append(("t", m))
    if clip and rng.random() < 0.4:
        k = rng.randint(0, len(attrs))
        p, subs = clippath(rng)
        attrs.insert(k, canvas.clip(p)); ops.insert(k, ("c", subs)); mon.count("clip")
    if rng.random() < 0.2:
        k = rng.randint(0, len(attrs)); attrs.insert(k, rng.choice([color.rgb.red, style.linewidth.THICk, style.linestyle.dashed])); ops.insert(k, ("s", None))
    # the clip is applied to the transformed region of its attributes, the content is mapped by all transformations
    def f(b):
        full = geo.IDENT
        for o, v in ops:
            if o == "t": full = geo.mul(full, v)
        r = trbox(b, full)
        for j, (o, v) in enumerate(ops):
            if o == "c":
                after = geo.IDENT
                for o2, v2 in ops[j+1:]:
                    if o2 == "t": after = geo.mul(after, v2)
                before = r
                r = inter(r, pathbox([s.tr(after) for s in v]))
                if before is not None and r is None: mon.count("clipped away")
        return r
    return attrs, f, [o for o, _ in ops]


def tree(rng, mon, depth, desc):
    attrs, f, ops = genattrs(rng, mon)
    c = canvas.canvas(attrs)
    desc.append(("canvas", ops))
    boxes = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth < 3 else rng.randint(1, 3)):
        r = rng.random()
        if depth and r < 0.4:
            sub, b = tree(rng, mon, depth-1, desc)
            if rng.random() < 0.4:
                a2, f2, ops2 = genattrs(rng, mon)
                c.insert(sub, a2); b = f2(b); desc.append(("insert", ops2))
            else: c.insert(sub)
            boxes.append(b)
        elif r < 0.5:
            mon.count("layer")
            it, b, what = leaf(rng, mon)
            name = rng.choice(["a", "b", "a.c" if not depth else "d.e"])
            lay = c.layer(name)
            if isinstance(what, str): lay.insert(it)
            else: lay.stroke(it)
            boxes.append(b); desc.append(("layer", name, b))
        else:
            it, b, what = leaf(rng, mon)
            if isinstance(what, str):
                c.insert(it)
            else:
                how = rng.choice(["stroke", "fill", "draw", "trafo"])
                if how == "trafo":
                    m, t = gentrafo(rng)
                    c.stroke(it, [t]); b = pathbox([s.tr(m) for s in what])
                elif how == "draw": c.draw(it, [deco.stroked, deco.filled([color.gray(0.5)])])
                else: getattr(c, how)(it, [style.linewidth.THIN])
            desc.append((what if isinstance(what, str) else "path", b))
            boxes.append(b)
    return c, f(union(boxes))


def c_tree(rng, mon):
    desc = []
    mon.describe(desc)
    c, want = tree(rng, mon, rng.choice([0, 1, 2, 3]), desc)
    mon.nontrivial(desc)
    got = tup(c.bbox())
    ext = max([1.0] + [abs(x) for x in (want or ())] + [abs(x) for x in (got or ())])
    same(got, want, 3e-3*max(1, ext/100), mon, "canvas-bbox", "canvas")
    mon.check(tup(c.bbox()) == got, "canvas-bbox-repeat")
    mon.count("tree")


def d_lone(rng, mon):
    "paths without any segment and empty canvases"
    mon.check(not path.path().bbox() and not canvas.canvas().bbox() and not canvas.canvas([trafo.rotate(30)]).bbox() and not canvas.canvas([canvas.clip(path.rect(0, 0, 1, 1))]).bbox(), "empty")
    c = canvas.canvas(); c.insert(canvas.canvas())
    mon.check(not c.bbox(), "empty")
    c = canvas.canvas([canvas.clip(path.rect(10, 10, 1, 1))]); c.fill(path.rect(0, 0, 1, 1))
    d = canvas.canvas(); d.insert(c); d.fill(path.rect_pt(50, 60, 3, 4))
    same(tup(d.bbox()), (50, 60, 53, 64), 1e-9, mon, "clipped-sibling", "sibling of an invisible canvas")


def d_accessors(rng, mon):
    b = bbox.bbox(1, 2, 3*unit.t_cm, 40*unit.t_mm)
    same(tup(b), (PT, 2*PT, 3*PT, 4*PT), 1e-9, mon, "units", "bbox in units")
