"""C11: every drawing program gives the same intended paint events in PS, EPS, PDF and SVG."""
import draw, pub, geo, gen
from harness import Skip

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("random drawing programs: trees of canvases (up to depth 4, shared canvases, named and nested layers with repositioning) with random attribute lists of "
        "styles, colours in four spaces, transparencies, transformations, clips, clears; paths drawn by stroke/fill/draw with separate stroke and fill styles, deforming "
        "transformations and arrows; the files are read by independent PS/PDF/SVG interpreters and their paint events compared with a model of the calls; distinct by the "
        "expected event list, non-trivial with at least two events")
QUICK, THOROUGH = 900, 40000
REQUIRED = {"events": 1500, "eps": 250, "ps": 250, "pdf": 250, "svg": 250, "arrow": 50, "clip": 70, "layer": 25, "nested": 70, "fill+stroke": 70}
DIRECTED = ["fillrule", "arrowcolor", "shared", "alpha"]
ASSUMPTIONS = ["SVG colours are compared to 1/255, coordinates to the 6 significant digits written (5e-5 of the extent)",
               "the geometry of arrow heads is compared between the formats here and with the path in C15"]
CPU = 60


def check(mon, c, desc):
    want = c.events()
    first = None
    for fmt in ("eps", "ps", "pdf", "svg"):
        kw = {"write_compress": False} if fmt == "pdf" and len(want) % 2 else {}
        pages = pub.events(c.real, fmt, **kw)
        mon.check(len(pages) == 1, "pages", lambda: "%d pages" % len(pages))
        draw.compare(mon, fmt, pages[0], want, first)
        if first is None: first = pages[0]
        mon.count(fmt)
    mon.count("events", len(want))
    return want


def run_case(kind, i, rng, mon):
    if kind != "gen":
        return globals()["d_" + kind](rng, mon)
    c = draw.Canvas(draw.rattrs(rng) if rng.random() < 0.5 else ())
    count = [rng.randint(1, 12)]
    draw.fillcanvas(rng, c, rng.randint(0, 4), count)
    want = c.events()
    mon.describe("\n".join(map(repr, want)))
    check(mon, c, None)
    if any(not w.geom for w in want): mon.count("arrow")
    if any(w.clips for w in want): mon.count("clip")
    if c.layers: mon.count("layer")
    if any(isinstance(x, draw.Canvas) for x in c.items): mon.count("nested")
    if any(a.op == "fill" and b.op == "stroke" and a.subs is b.subs for a, b in zip(want, want[1:])): mon.count("fill+stroke")
    if len(want) >= 2: mon.nontrivial([repr(w) for w in want])


SQ = [("moveto", (0.0, 0.0)), ("lineto", (50.0, 0.0)), ("lineto", (50.0, 50.0)), ("lineto", (0.0, 50.0)), ("closepath", ()),
      ("moveto", (10.0, 10.0)), ("lineto", (40.0, 10.0)), ("lineto", (40.0, 40.0)), ("closepath", ())]
LI = [("moveto", (0.0, 0.0)), ("lineto", (50.0, 0.0)), ("curveto", (70.0, 0.0, 80.0, 60.0, 50.0, 90.0))]
RED, BLUE, GRAY = ("color", "rgb", (1.0, 0.0, 0.0)), ("color", "rgb", (0.0, 0.0, 1.0)), ("color", "gray", (0.5,))


def d_fillrule(rng, mon):
    for outer in ([], [("rule", 0)], [("rule", 1)]):
        for inner in ([], [("rule", 0)], [("rule", 1)], [("rule", 1), RED]):
            for at in ([("filled", inner)], [("filled", inner), ("stroked", [BLUE])], [("filled", inner), ("stroked", [])],
                       [("filled", inner), ("stroked", [BLUE]), ("arrow", "e", [], 1.0)]):
                for mid in ([], [("rule", 1)]):
                    c = draw.Canvas(outer)
                    prog = LI if len(at) == 3 else SQ
                    c.draw("draw", prog, mid + at)
                    c.draw("fill", SQ, [])
                    mon.describe((outer, inner, at, mid))
                    check(mon, c, None)


def d_arrowcolor(rng, mon):
    for st in ([], [RED], [RED, ("lw", 2.0, None)], [("alpha", 0.5)]):
        for fl in (None, [], [BLUE], [BLUE, ("alpha", 0.25)]):
            for gl in ([], [GRAY], [("alpha", 0.75)]):
                for hd in ([], [RED], [("stroked", [])], [("filled", [BLUE]), ("stroked", [GRAY])]):
                    at = gl + [("stroked", st)] + ([("filled", fl)] if fl is not None else []) + [("arrow", "e", hd, 2.0)]
                    c = draw.Canvas()
                    c.draw("draw", LI, at)
                    mon.describe(at)
                    check(mon, c, None)


def d_shared(rng, mon):
    "one canvas inserted several times, and one attribute list used for several items"
    s = draw.Canvas([RED]); s.draw("fill", SQ, []); s.draw("stroke", LI, [("lw", 3.0, None), ("dash", (1.0, 2.0), 0, 1)])
    c = draw.Canvas([("dash", (3.0,), 0, 1)])
    c.insert(s); c.insert(s, [BLUE, ("trafo", (0.5, 0, 0, 2.0, 10.0, 10.0))])
    c.draw("stroke", LI, [("lw", 3.0, None)])
    c.insert(s, [("clip", SQ), ("trafo", (0.0, 1.0, -1.0, 0.0, 0.0, 0.0))])
    check(mon, c, None)


def d_alpha(rng, mon):
    for sa in (None, 0.25, 1.0):
        for fa in (None, 0.5, 1.0, 0.25):
            for ga in (None, 0.75):
                at = ([("alpha", ga)] if ga else []) + [("stroked", [("alpha", sa)] if sa else []), ("filled", [("alpha", fa)] if fa else [])]
                c = draw.Canvas(); c.draw("draw", SQ, at); c.draw("stroke", LI, []); c.draw("fill", LI, [])
                mon.describe(at)
                check(mon, c, None)
